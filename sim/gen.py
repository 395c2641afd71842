#!/usr/bin/env python3
"""Writes the instrumented translation units: a catalogue of patterns and tokenizers, and seeded
random ones, each with texts derived from its syntax."""
import os
import random
import sys
import zlib

INF = -1

# ---- patterns ------------------------------------------------------------------------------
# Everything the documentation, the examples and the benchmarks use, and one or more patterns for
# every operator and terminal; no pattern whose backtracking nests deeper than three repetitions.
CATALOGUE = [
    # literals, classes, escapes
    "a", "ab", "abc", "abcdefgh", "[ab]", "[a-c]", "[^a]", "[^a-c]", "[a-fhm-o]", "[a-z\\-]", "[a-]", "[\\d\\w]", "[^\\d]", "[^\\s]",
    "[^\\s]b", "a[^\\s]b", "[^\\s\\d]+", "[\\x41]", "[ca]", "[c-da-b]", "\\w", "\\d", "\\s", ".", "..", "\\x41", "\\x{41}", "a\\x{414141}", "\\141",
    "\\o{141}", "a\\o{101101101}", "\\n", "\\t", "\\r", "\\f", "\\a", "\\e", "\\.", "a\\.b", "\\(a\\)", "abc\\defg", "\\s\\s", "\\sa", "a\\nb",
    # several bytes in one escape, escaped operators and control characters, classes with escapes
    "\\x{6162}", "x\\x{6162}y", "\\x{616263}d", "x\\x{61626364}y", "(\\x{6162})+c", "(?:\\x{6162}|\\x{6164})c", "\\x{61626364}|\\x{6162}", "(\\x{61}b|\\x{6162}c)+", "\\x{616}b", "\\x4", "\\x{6}a",
    "\\x{6162636465666768}+", "[ab]*\\x{616261}", "\\o{141142}", "\\o{141142143144}+a", "(\\o{141142})?b", ".\\x{0A0A}", "\\x{4142}{2}", "\\x{414141}*b", "\\x{FF80}a",
    "[\\w\\s]+;", "[\\n\\t]+", "a[\\-\\]]b", "\\{a\\}", "\\[a\\]", "\\^a\\$", "a\\|b", "\\++a", "[a-zA-Z0-9_]+", "[!-~]+", "\\t+\\n", "\\f|\\r|\\a",
    "(a|^)b", "(^a|b)+", "(?:^|\\n)a", "a(?:$|b)c", "(a$|b)+", "a$a", "(a$)+", "(?:a$)*b", "a^b", "(?:^a)?b", "b$$",
    # anchors
    "^a", "a$", "^a$", "^a|b", "a$|b", "(a$)", "(^a)", "$", "^abc", "abc$", "^\\d+", "\\d+$", "(^a)+b", "a+$", "^[ab]*$", "(ab|a)$", "a$b",
    # alternation
    "a|b", "a|bc|cd|d", "aaa|a+", "ab|a", "a|ab", "(a|ab)c", "(ab|a)c", "(?:a|bc)d", "(a|b)(c|d)", "(a)|(b)", "abc|abd|abe", "(ab)c|b",
    "foobar|foo|bar", "(?:abc|ab|a)(?:bc|c)", "(abc|b)c", "((?:ab|a)b)c|bb",
    # groups
    "a(ab)", "a(?:a(b))cd", "a(a(b))cd", "((a)b)c", "(a)(b)(c)", "((((a))))", "(a)(b)(c)(d)(e)(f)(g)(h)", "((a)(b))((c)(d))", "(?:a(b)|c(d))e",
    "(?:(a)b)+", "((a)|b)+", "(a|(b))c", "(a(b)?)c", "(?:(a)|(b))+c",
    # greedy
    "a*", "a+", "a?", "aa*", "aa+", "a?a", "(a+)a", "(a*)a", "a(a*)", "(a)*b", "(ab)*", "(ab)+", "(a|b)*c", "a*b", "a*b*", "a*b*c", "(a*)(b*)",
    "(a+)(b+)c", "(a+)b(a+)", "a(ab)+", "a(a|b)+", "a[^a-fh]+", "a[a-f]?", "a[a-fhm-o]+", "a[a-z\\-]+", "a(a[a-g])+", "\\s*(ab)+", "\\dab",
    "\\d*\\w+abcd", "\\w+ab", ".*b", "a.*b", ".+", "a.+b", "\"(.*)\"", "(.)(.*)", "[ab]*abb", "\\s+", "\\d+", "\\d+\\s+123", "(a?)b", "a?b?c?",
    "(ab)?c", "(ab)?ab", "x?ab", "ab?b", "a?ab?b", "(abc)?d?",
    # braces
    "a{2}", "a{2,}", "a{2,4}", "ab{2}c", "ab{2,}c", "ab{2,10}c", "a{0,2}b", "a{0}", "a{2,2}", "(ab){2}", "(a){2}b", "(ab){1,3}a", ".{3,}",
    "[ab]{2,3}a", "(a{2}b){2}", "(a|b){3}", "(a{1,})a", "\\d{2,4}-\\d{2}", "a{3}|b{2}",
    # lazy
    "a*?b", "a+?b", "a??b", "a??a", "(a+?)a", "(a{1,}?)a", "a.*?b", "(.+?)b", "a{2,4}?b", "(ab)+?c", "\"(.*?)\"", "(a*?)(b+?)c", "<(.+?)>",
    "a+?", "a*?", "a??", "(?:ab|a)+?c",
    # possessive
    "a*+b", "a++b", "a?+a", "a?+b", "a{1,}+b", "(a{1,}+)a", "(ab)++c", "[ab]*+c", "(a|b)++c", "\\d++a",
    # repetitions of what can be empty, nested repetitions
    "(?:a*)*", "(?:a*)+b", "(a*)*b", "(a+)+b", "(a|b*)*c", "(?:a?)*b", "(?:a?){3}b", "(a*)+", "(?:a*)*?b", "(?:a*)++b", "(?:a|b?)+c", "(a?b?)*c",
    "(?:(?:a?)*b?)*c", "((a*)b*)*c", "(?:$)*", "(?:^a*)*b", "(?:a*?)*b", "(?:a??)+b", "(?:a*+)+b", "(?:a{0,2}){2,}b",
    # documentation, examples, benchmarks
    "(10[0-7]0)", "(\\d+)-(\\d+)-(\\d+)", "[a-z]([a-z]+)|(\\d+)", "\\w(\\w+)|(\\d+)", "[a-z]abcd", "[\\w.\\-]+@[\\w\\-]+\\.[\\w.]+",
    "[\\w]+:\\/\\/[^\\/\\s?#]+[^\\s?#]+(?:\\?[^\\s#]*)?(?:#[^\\s]*)?",
    "(?:(?:25[0-5]|2[0-4][0-9]|[01]?[0-9][0-9])\\.){3}(?:25[0-5]|2[0-4][0-9]|[01]?[0-9][0-9])",
    "(\\w+)=(\\d+);", "(\\w+)\\s(\\w+)", "#(\\w+)", "(a)b?(c)?", "k(\\d)v(\\d*)", "(\\d+)(?:\\.(\\d+))?", "\\((\\w*)\\)", "(a|b|c)(x|y)z?",
    "([ab])([bc])([cd])", "(a+)(a+)", "(a+)(?:b|c)(d+)", "(?:ab)+(c)", "((ab)+)c", "([^,]*),([^,]*)", "([^,]+)", "a(b(c(d)))", "(a)?(b)?c",
    # large ones: many groups, many alternatives, large counts, long literals
    "".join("(%c)" % (97 + k) for k in range(12)), "".join("(%c?)" % (97 + k) for k in range(12)), "(" * 12 + "a" + ")" * 12, "".join("([a-c])" for _ in range(20)), "".join("(a)" for _ in range(34)),
    "|".join("(%c)x" % (97 + k) for k in range(9)), "|".join("k%c%c" % (97 + k, 97 + k) for k in range(14)), "(?:" + "|".join("%c" % (97 + k) for k in range(18)) + ")+;",
    "a{30}", "a{255}", "a{256}b?", "a{20,40}b", "(ab){10,20}c", "(?:a|b){16}", "[ab]{17,}c", "(a){0,300}b", "\\d{8}-\\d{4}",
    "|".join("%c%c" % (97 + k // 6, 97 + k % 6) for k in range(35)), "(?:" + "|".join("(%c)" % (97 + k % 26) for k in range(34)) + ")+!",
    "[" + "".join("%c-%c" % (33 + 4 * k, 34 + 4 * k) for k in range(4, 14)) + "]+;", "a{300,}b", "(?:ab){129}", "[ab]{70}c",
    "abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz0123456789ABCD", "[acegikmoqsuwy]+z", "[a-cg-im-oq-su-w0-35-9]{2}!", "(?:a(?:b(?:c(?:d(?:e(?:f(?:g)?)?)?)?)?)?)?x",
    "(a(b(c(d(e)?)?)?)?)?x", "(?:(a)(b)?(c)?(d)?)+;", "[^\\n]+", "[^\\n]*\\n", "(\\w+) (\\w+)", "((\\w)\\w*)", "(a|b|c|d|e|f)(a|b|c|d|e|f)", "x(.{3})y", "(.)(.)(.)", "(a*)(b*)(c*);",
]

TOKENIZERS = [
    # (name, [tokens (type, pattern)], [separators])
    ([(0, "[a-z]+"), (1, "\\d+")], ["\\s"]),
    ([(0, "[a-z]+"), (1, "\\d+"), (2, "[+\\-*]")], ["\\s+"]),
    ([(0, "if"), (1, "[a-z]+"), (2, "\\d+"), (3, "[a-z]\\d")], ["\\s", "\\s\\s"]),          # keywords: a tie, the first declared wins
    ([(1, "[a-z]+"), (0, "if"), (0, "ifx")], ["\\s", ","]),                                   # the same tie, the other way round
    ([(0, "ab|a"), (1, "b|bc")], [",", ",,", "-"]),                                           # alternations, longest separator
    ([(0, "a*"), (1, "b+")], ["-*", "\\s"]),                                                  # can be empty
    ([(0, "a"), (1, "ab"), (2, "abc"), (3, "abcd")], ["x", "xy", "xyx"]),
    ([(0, "\"[^\"]*\""), (1, "\\d+\\.\\d+"), (2, "\\d+")], [",\\s*", "\\s+"]),
    ([(0, "(a|b)+c?"), (1, "(c+)(a?)")], ["(;|:)+"]),
    ([(0, "[a-z]+?"), (1, "[a-c]{2,3}"), (2, "\\d{2}")], ["\\s{1,2}", "\\."]),
    ([(2, "\\w+"), (1, "[a-z]+\\(\\)"), (0, "\\(|\\)")], ["\\s", "/\\*.*\\*/"]),
    ([(0, "a+|b")], ["c|d+"]),
    ([(0, "[^;]+")], [";"]),
    ([(0, "\\d+"), (0, "x[0-9]+"), (1, "\\w")], ["\\n", "\\s"]),
    # separators that are prefixes of each other, in every order, and of tokens
    ([(0, ",+a"), (1, "a+")], [",,", ","]),
    ([(0, "b"), (1, ",+b?"), (2, "a")], [",,,", ",", ",,"]),
    ([(0, "[xy]*a"), (1, "b")], ["xyx", "xy", "x"]),
    ([(0, "a"), (1, "y?xb?")], ["xy", "xyxy", "x"]),
    ([(0, "[a-z]+"), (1, "-[a-z]+")], ["--", "-+", "-"]),
    ([(0, "\\w+"), (1, "\\s\\w")], ["\\s+", "\\s", "\\n\\n"]),
    # ties and prefixes among tokens, in every order
    ([(3, "[a-z]+"), (2, "[a-c]+"), (1, "ab"), (0, "\\w+")], [" "]),
    ([(0, "ab"), (1, "[a-c]+"), (2, "[a-z]+"), (3, "\\w+")], [" "]),
    ([(0, "abc"), (1, "a"), (2, "ab")], [" ", "c"]),
    ([(1, "a|ab|abc"), (0, "abc|ab|a")], ["\\s", "b"]),
    ([(2, "=="), (1, "="), (0, "[a-z=]+")], ["=", "\\s"]),
    ([(k % 4, w) for k, w in enumerate("if|else|for|while|do|int|[a-z]+|\\d+|\\+|-|\\(|\\)".split("|"))], ["\\s+", ";", ",", ", "]),
    ([(k % 4, "%c%c" % (97 + k // 6, 97 + k % 6)) for k in range(33)] + [(3, "[a-f]+")], ["\\s+", ";", ",", ", ", ";;", "::", ":", "/", "//", "--"]),
    ([(0, "(a)(b)?"), (1, "(a(b)?c)")], ["(\\s|,)", "(,)(,)?"]),
]

SHORT = {"d": [(48, 57)], "w": [(48, 57), (65, 90), (95, 95), (97, 122)], "s": [(9, 10), (12, 13), (32, 32)]}
CTRL = {"a": 7, "e": 27, "n": 10, "t": 9, "f": 12, "r": 13}


class Parser:
    def __init__(self, p):
        self.p, self.i, self.groups, self.anchor = p, 0, 0, False

    def peek(self):
        return self.p[self.i] if self.i < len(self.p) else ""

    def alt(self):
        parts = [self.seq()]
        while self.peek() == "|":
            self.i += 1
            parts.append(self.seq())
        return parts[0] if len(parts) == 1 else ("alt", parts)

    def seq(self):
        out = []
        while self.peek() and self.peek() not in "|)":
            out.append(self.quant(self.atom()))
        return ("seq", out)

    def quant(self, a):
        while True:
            c = self.peek()
            if c == "*":
                lo, hi = 0, INF
            elif c == "+":
                lo, hi = 1, INF
            elif c == "?":
                lo, hi = 0, 1
            elif c == "{":
                e = self.p.index("}", self.i)
                f = self.p[self.i + 1:e].split(",")
                lo = int(f[0])
                hi = lo if len(f) == 1 else (int(f[1]) if f[1] else INF)
                self.i = e
            else:
                return a
            self.i += 1
            if self.peek() in ("?", "+") and self.peek():
                self.i += 1
            a = ("rep", a, lo, hi)

    def escape(self):
        c = self.p[self.i]
        self.i += 1
        if c in SHORT:
            return ("set", SHORT[c], False)
        if c in CTRL:
            return ("lit", CTRL[c])
        if c in "xo" and self.peek() == "{":
            e = self.p.index("}", self.i)
            d = self.p[self.i + 1:e]
            self.i = e + 1
            n, base = (2, 16) if c == "x" else (3, 8)
            d = d.rjust((len(d) + n - 1) // n * n, "0")
            return ("seq", [("lit", int(d[k:k + n], base) & 255) for k in range(0, len(d), n)])
        if c == "x":
            d = ""
            while len(d) < 2 and self.peek() and self.peek() in "0123456789ABCDEF":
                d += self.peek()
                self.i += 1
            return ("lit", int(d, 16))
        if c in "01234567" and self.p[self.i:self.i + 2].isdigit():
            d = c + self.p[self.i:self.i + 2]
            self.i += 2
            return ("lit", int(d, 8) & 255)
        return ("lit", ord(c))

    def atom(self):
        c = self.p[self.i]
        self.i += 1
        if c == "(":
            if self.p.startswith("?:", self.i):
                self.i += 2
            else:
                self.groups += 1
            a = self.alt()
            assert self.peek() == ")", self.p
            self.i += 1
            return a
        if c == "[":
            e = self.i
            neg = self.peek() == "^"
            if neg:
                self.i += 1
            items = []
            while self.peek() != "]":
                x = self.p[self.i]
                self.i += 1
                if x == "\\":
                    a = self.escape()
                    if a[0] == "set":
                        items += a[1]
                        continue
                    v = a[1]
                else:
                    v = ord(x)
                if self.peek() == "-" and self.p[self.i + 1] != "]":
                    w = ord(self.p[self.i + 1])
                    self.i += 2
                    items.append((v, w))
                else:
                    items.append((v, v))
            self.i += 1
            return ("set", items, neg)
        if c == ".":
            return ("set", [], True)
        if c == "^":
            self.anchor = True
            return ("seq", [])
        if c == "$":
            return ("seq", [])
        if c == "\\":
            return self.escape()
        return ("lit", ord(c))


def parse(p):
    q = Parser(p)
    a = q.alt()
    assert q.i == len(p), p
    return a, q


def depth(a):
    """How many repetitions can be nested or follow each other on one path."""
    k = a[0]
    if k == "seq":
        return sum(depth(x) for x in a[1])
    if k == "alt":
        return max(depth(x) for x in a[1])
    if k == "rep":
        return depth(a[1]) * (1 if a[3] in (0, 1) else 2 if depth(a[1]) else 1) + (0 if a[3] in (0, 1) or a[2] == a[3] else 1)
    return 0


def in_set(a, c):
    return any(lo <= c <= hi for lo, hi in a[1]) != a[2]


def sample(a, r):
    k = a[0]
    if k == "lit":
        return bytes([a[1]])
    if k == "set":
        if not a[2]:
            lo, hi = r.choice(a[1])
            return bytes([r.choice((lo, hi, r.randint(lo, hi)))])
        for _ in range(40):
            c = r.choice((r.randint(97, 104), r.randint(97, 122), r.randint(48, 57), r.randint(33, 64), r.randint(0, 255)))
            if in_set(a, c):
                return bytes([c])
        return b"~"
    if k == "seq":
        return b"".join(sample(x, r) for x in a[1])
    if k == "alt":
        return sample(r.choice(a[1]), r)
    lo, hi = a[2], a[3]
    top = lo + 3 if hi == INF else min(hi, lo + 3)
    return b"".join(sample(a[1], r) for _ in range(r.randint(lo, top)))


def chars(a, out):
    k = a[0]
    if k == "lit":
        out.add(a[1])
    elif k == "set":
        for lo, hi in a[1]:
            out.update((lo, hi))
            if lo > 1:
                out.add(lo - 1)
    elif k in ("seq", "alt"):
        for x in a[1]:
            chars(x, out)
    elif k == "rep":
        chars(a[1], out)


def texts(asts, seed):
    r = random.Random(seed)
    s = {b""}
    for a in asts:
        for _ in range(12):
            x = sample(a, r)
            if len(x) <= 24:
                s.add(x)
    if not s - {b""}: # only long ones
        s = {sample(a, r)[:320] for a in asts for _ in range(3)}
    s.discard(b"")
    s = sorted(s, key=lambda x: (len(x), x))
    if len(s) > 9:
        s = s[:3] + r.sample(s[3:], 6)
    al = set()
    for a in asts:
        chars(a, al)
    for x in s:
        al.update(x[:6])
    al.discard(0)
    al = sorted(al)
    if len(al) > 12:
        al = r.sample(al, 12)
    if len(al) < 3:
        al += [ord(c) for c in "xa\n" if ord(c) not in al]
    if 10 not in al and r.random() < 0.5:
        al.append(10)
    return s, bytes(al)


def cstr(b):
    if isinstance(b, str):
        b = b.encode("latin-1")
    return '"' + "".join(chr(c) if (48 <= c <= 57 or 65 <= c <= 90 or 97 <= c <= 122 or c in b" -=<>()[]{}.,;:!@#$%^&*+|/~_'") else "\\%03o" % c for c in b) + '"'


# ---- random patterns -----------------------------------------------------------------------

def random_pattern(r):
    alpha = r.choice(["ab", "ab", "abc", "abc", "a1 ", "xyz0"])
    budget = [r.randint(3, 9)]
    groups = [0]
    maxq = r.choice([1, 2, 2, 3])

    def atom(level):
        budget[0] -= 1
        x = r.random()
        if x < 0.5 or (level > 2 and x < 0.8):
            return r.choice(alpha)
        if x < 0.62:
            return r.choice(["[%s]" % alpha[:2].strip() if len(set(alpha[:2].strip())) > 1 else "[ab]", "[^%s]" % alpha[0], "[a-c]", ".", "\\d", "\\w", "\\s", "[^\\s]", "[^\\d]", "[ab\\d]", "\\x61", "\\141",
                             "\\x{6162}", "\\x{616261}", "\\x{61626162}", "\\o{141142}", "\\x{3120}", "\\n", "\\t", "\\.", "[a\\-b]", "[\\w\\s]", "[^a-z]", "[0-9a-f]"])
        if groups[0] < 8 and r.random() < 0.65:
            groups[0] += 1
            return "(" + alt(level + 1) + ")"
        return "(?:" + alt(level + 1) + ")"

    def item(level):
        if r.random() < 0.03:
            return r.choice(["(?:^|%s)", "(^|%s)", "(?:$|%s)", "($|%s)", "(?:%s$)", "(%s$)"]) % r.choice(alpha)
        a = atom(level)
        if r.random() < 0.42:
            a += r.choice(["*", "+", "?", "{2}", "{1,2}", "{2,}", "{0,2}", "?", "+", "*"])
            a += r.choice(["", "", "", "", "?", "+"])
        return a

    def seq(level):
        return "".join(item(level) for _ in range(r.randint(1, 4 if level == 0 else 3)) if budget[0] > 0) or r.choice(alpha)

    def alt(level):
        return "|".join(seq(level) for _ in range(1 if r.random() < 0.7 else r.randint(2, 3)))

    while True:
        budget[0], groups[0] = r.randint(3, 9), 0
        p = alt(0)
        if r.random() < 0.06:
            p = "^" + p
        if r.random() < 0.1:
            p += "$"
        a, _ = parse(p)
        if depth(a) <= maxq and len(p) <= 40:
            return p


def random_tokenizer(r):
    def small():
        return r.choice(["a", "ab", "a+", "[a-c]+", "b|ab", "(ab)+", "a?b", "\\d", "\\d+", "a\\d*", "abc|a", "[^ ,]+", "b{1,3}", "x+?", "ba*",
                         "a*", "(a)(b)?", "\\x{6162}", "[a-c,]b?", ",+a", "\\w", "\\w+", "[\\w.]+", "\\.\\d+", "a|b|c|ab|bc", "(a|b)*c", "a+b?", "\"[^\"]*\"", "[^\\s]", "a{2}"])
    n = r.randint(1, 4)
    toks = [(r.randint(0, 3), small()) for _ in range(n)]
    seps = r.sample([" ", ",", "\\s", "\\s+", ",,", ", ", "(?:, )+", ",|;", "-+", ";*",
                     "\\n", "\\x{2C2C}", "(?:,|;)+", "a?,", "(,)+?", "[,;]{1,2}", "\\s?,\\s?", "b"], r.randint(1, 3))
    return toks, seps


def write_units(outdir, patterns, tokenizers, per_unit):
    units = []
    jobs = [("p", i, p) for i, p in enumerate(patterns)]
    groups = [[] for _ in range((len(jobs) + per_unit - 1) // per_unit)]
    # heavy ones first, dealt round
    jobs.sort(key=lambda j: -len(j[2]))
    for k, j in enumerate(jobs):
        groups[k % len(groups)].append(j)
    tk = [("t", i, t) for i, t in enumerate(tokenizers)]
    for k in range(0, len(tk), 2):
        groups.append(tk[k:k + 2])
    for n, g in enumerate(groups):
        units.append((os.path.join(outdir, "u%03d.cpp" % n), g))
    return units


def samples_of(kind, x):
    """The texts and the alphabet a definition's scenarios start from."""
    if kind == "p":
        a, _ = parse(x)
        return texts([a], zlib.crc32(x.encode("latin-1")))
    toks, seps = x
    asts = [parse(p)[0] for _, p in toks] + [parse(p)[0] for p in seps]
    text = tok_name(x)
    s, al = texts(asts, zlib.crc32(text.encode("latin-1")))
    # whole token streams too
    r = random.Random(zlib.crc32(text.encode("latin-1")) ^ 5)
    n = len(toks)
    for _ in range(6):
        w = b""
        for k in range(r.randint(2, 4)):
            if k:
                w += sample(r.choice(asts[n:]), r)
            w += sample(r.choice(asts[:n]), r)
        s.append(w[:40])
    return s, al


def tok_name(x):
    return " | ".join("%d:%s" % t for t in x[0]) + " // " + " | ".join(x[1])


def tok_decl(i, x):
    toks, seps = x
    decls = ["e_regex::token {ty%d::%s, %s}" % (i, "ABCD"[t], cstr(p)) for t, p in toks]
    more = ["e_regex::separator {%s}" % cstr(p) for p in seps]
    r = random.Random(zlib.crc32(tok_name(x).encode("latin-1")) ^ 77)
    how = r.randint(0, 3) # declared after the tokens, before them, or anywhere between
    for k, d in enumerate(more):
        more[k] = (d, len(decls) if how == 0 else 0 if how == 1 else r.randint(0, len(decls)))
    more.sort(key=lambda m: m[1]) # keeps the order of equals
    for d, k in reversed(more):
        decls.insert(k, d)
    return ("namespace { enum class ty%d { A, B, C, D };\nconstexpr e_regex::tokenization::tokenizer<%s> tk%d {}; }\n"
            % (i, ", ".join(decls), i))


def unit_text(jobs):
    out = ['#include "glue.hpp"\n']
    for kind, i, x in jobs:
        s, al = samples_of(kind, x)
        if kind == "p":
            a, q = parse(x)
            out.append("static const char* const ps%d[] = {%s};\n" % (i, ", ".join([cstr(t) for t in s] + ["nullptr"])))
            out.append("static const unsigned pl%d[] = {%s};\n" % (i, ", ".join([str(len(t)) for t in s] + ["0"])))
            out.append("extern const sim::Def def_p%d; const sim::Def def_p%d = sim::rx_def<%s>(%s, %d, %d, %s, ps%d, pl%d);\n"
                       % (i, i, cstr(x), cstr(x), q.anchor, depth(a), cstr(al), i, i))
        else:
            toks, seps = x
            asts = [parse(p)[0] for _, p in toks] + [parse(p)[0] for p in seps]
            out.append(tok_decl(i, x))
            out.append("static const char* const ts%d[] = {%s};\n" % (i, ", ".join([cstr(t) for t in s] + ["nullptr"])))
            out.append("static const unsigned tl%d[] = {%s};\n" % (i, ", ".join([str(len(t)) for t in s] + ["0"])))
            out.append("static const int tt%d[] = {%s};\n" % (i, ", ".join(str(t) for t, _ in toks)))
            parts = lambda l: ", ".join(cstr("^(?:" + p + ")") for p in l)
            out.append("extern const sim::Def def_t%d; const sim::Def def_t%d = sim::tk_def<tk%d, sim::Parts<%s>, sim::Parts<%s>>(%s, %d, %s, ts%d, tl%d, tt%d);\n"
                       % (i, i, i, parts([p for _, p in toks]), parts(seps), cstr(tok_name(x)), max(depth(a) for a in asts), cstr(al), i, i, i))
    return "".join(out)


# ---- what the compiler is to compute ---------------------------------------------------------

def weight(a):
    """About how much one attempt at one position costs."""
    k = a[0]
    if k in ("lit", "set"):
        return 1
    if k in ("seq", "alt"):
        return 1 + sum(weight(x) for x in a[1])
    return 1 + weight(a[1]) * max(1, min(a[3] if a[3] != INF else 2, 40))


def linear(a, top=True):
    """Certainly scans a text in one go: at most one repetition, of single bytes, and nothing behind it."""
    k = a[0]
    if k in ("lit", "set"):
        return True
    if k == "alt":
        return all(linear(x, False) for x in a[1])
    if k == "seq":
        return len(a[1]) == 1 and linear(a[1][0], top) or top and all(linear(x, False) for x in a[1])
    return k == "rep" and top and linear(a[1], False)


def ct_texts(kind, x, seed):
    """(text, how many matches to compute) for one definition."""
    s, al = samples_of(kind, x)
    asts = [parse(x)[0]] if kind == "p" else [parse(p)[0] for _, p in x[0]] + [parse(p)[0] for p in x[1]]
    q = max(depth(a) for a in asts)
    w = sum(weight(a) for a in asts)
    r = random.Random(zlib.crc32((x if kind == "p" else tok_name(x)).encode("latin-1")) * 31 + seed)
    top = max(len(t) for t in s) if s else 1
    longest = (700, 160, 48, 24)[min(q, 3)]
    while longest > 24 and longest * w > 12000:
        longest //= 2
    short = max(top + 4, (64, 48, 32, 20)[min(q, 3)])

    def ch():
        return bytes([r.choice(al)]) if al and r.random() < 0.93 else bytes([r.choice((0, 0, 9, 10, 13, 32, 65, 95, 127, 128, 200, 255, r.randint(0, 255)))])

    def words(n, gap, lim):
        o = b""
        for _ in range(n):
            o += r.choice(s) if s else ch()
            for _ in range(r.randint(0, gap)):
                o += ch()
        return o[:lim]

    out = [b""]
    out += r.sample(s, min(len(s), 6))
    out += [words(r.randint(2, 5), 0, short), words(r.randint(2, 5), 2, short), words(3, 1, short), ch() + words(2, 1, short), b"".join(ch() for _ in range(r.randint(3, short)))]
    e = r.choice(s) if s else b"a"
    out.append(e[:r.randint(0, len(e))])
    if e:
        k = r.randrange(len(e))
        out.append(e[:k] + ch() + e[k + 1:])
        out.append(e[:k] + e[k + 1:] + e)
    out.append(words(2, 1, short) + b"\0" + words(2, 1, short))
    for n in (longest // 4, longest // 2, longest):
        m = r.randint(0, 3)
        if m == 0:
            t = words(n, 2, n)
        elif m == 1: # nothing for a while, then a match
            t = (ch() * n)[:max(1, n - top - 9)] + words(3, 1, top + 8)
        elif m == 2:
            t = (r.choice((b"~", b"\xfe", ch())) * n)[:max(1, n - top - 9)] + words(3, 1, top + 8)
        else:
            t = (words(2, 1, 30) * n)[:n]
        out.append(t)
    if len(asts) == 1 and linear(asts[0]): # thousands of bytes, where the compiler can afford it
        n = r.choice((1030, 4100, 5000))
        t = r.choice((b"~", b"\xfe", ch())) * n
        if r.random() < 0.7:
            t = (r.choice(s) if s else b"a") * n
        out.append((t + t)[:n - top] + words(1, 0, top))
        longest = n
    seen, res = set(), []
    for t in out:
        if t not in seen and len(t) <= max(longest, short):
            seen.add(t)
            res.append((t, min(len(t) + 2, 70)))
    return res


CT_LIMIT = 2000000000


def ct_unit_text(jobs, seed, only=None):
    out = ['#include "ct.hpp"\n']
    for kind, i, x in jobs:
        rows = []
        if kind == "t":
            out.append(tok_decl(i, x))
        for k, (t, cap) in enumerate(ct_texts(kind, x, seed)):
            if only is not None and (kind, i, k) not in only:
                continue
            n = "%s%d_%d" % (kind, i, k)
            what = "sim::ct_regex<%s, %d>" % (cstr(x), cap) if kind == "p" else "sim::ct_tokens<tk%d, %d>" % (i, cap)
            out.append("constexpr char x%s[] = %s; constexpr auto c%s = %s(x%s);\n" % (n, cstr(t), n, what, n))
            rows.append("{x%s, %d, c%s.v}" % (n, len(t), n))
        out.append("extern const sim::Ct ct_%s%d[]; const sim::Ct ct_%s%d[] = {%s};\n" % (kind, i, kind, i, ", ".join(rows + ["{nullptr, 0, nullptr}"])))
    return "".join(out)


def ct_one_text(kind, x, text, cap):
    what = "sim::ct_regex<%s, %d>" % (cstr(x), cap) if kind == "p" else "sim::ct_tokens<tk0, %d>" % cap
    return '#include "ct.hpp"\n' + (tok_decl(0, x) if kind == "t" else "") + "constexpr char x[] = %s; constexpr auto c = %s(x);\n" % (cstr(text), what)


def index_text(units, ct=()):
    names = ["def_%s%d" % (k, i) for _, g in units for k, i, _ in g]
    names.sort(key=lambda n: (n[4], int(n[5:])))
    cts = {"ct_%s%d" % c for c in ct}
    rows = ["ct_" + n[4:] if "ct_" + n[4:] in cts else "nullptr" for n in names]
    return ('#include "api.hpp"\n' + "".join("extern const sim::Def %s;\n" % n for n in names) + "".join("extern const sim::Ct %s[];\n" % n for n in sorted(cts))
            + "extern const sim::Def* const sim_defs[]; extern const unsigned sim_ndefs; extern const sim::Ct* const sim_ct[];\nconst sim::Def* const sim_defs[] = {%s};\nconst sim::Ct* const sim_ct[] = {%s};\nconst unsigned sim_ndefs = %d;\n"
            % (", ".join("&" + n for n in names), ", ".join(rows), len(names)))


def generate(patseed, nrandom, ntok):
    r = random.Random(patseed * 7919 + 1)
    pats, seen = list(CATALOGUE), set(CATALOGUE)
    while len(pats) < len(CATALOGUE) + nrandom:
        p = random_pattern(r)
        if p not in seen:
            seen.add(p)
            pats.append(p)
    toks = list(TOKENIZERS) + [random_tokenizer(r) for _ in range(ntok)]
    return pats, toks


if __name__ == "__main__":
    pats, toks = generate(int(sys.argv[1]) if len(sys.argv) > 1 else 1, 60, 6)
    for p in pats:
        a, q = parse(p)
        s, al = texts([a], zlib.crc32(p.encode("latin-1")))
        print(p, "q=%d" % depth(a), "g=%d" % q.groups, al, s[:5])
    for t in toks:
        print(t)
    dup = [p for p in CATALOGUE if CATALOGUE.count(p) > 1]
    print("duplicates", dup)
    print(max(depth(parse(p)[0]) for p in CATALOGUE), [p for p in CATALOGUE if depth(parse(p)[0]) > 3])
