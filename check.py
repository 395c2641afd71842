#!/usr/bin/env python3
"""Builds the simulator around /repo's current working tree and searches for violations of one
property; or replays a recorded violation (--replay FILE); or only builds (--build)."""
import argparse
import collections
import fcntl
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sim"))
import gen  # noqa: E402

REPO = os.environ.get("SIM_REPO", "/repo")
SIM = os.path.join(HERE, "sim")
BUILD = os.path.join(HERE, "build")
OUT = os.path.join(HERE, "out")
EVID = os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "known-findings.json")
JOBS = min(8, os.cpu_count() or 8)

SUT_FLAGS = ["-w", "-std=c++23", "-O1", "-g0", "-fsanitize=thread", "-fsanitize-coverage=trace-pc", "-fno-pie", "-U_FORTIFY_SOURCE", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-I" + SIM, "-I" + os.path.join(REPO, "src")]
CT_FLAGS = ["-w", "-std=c++23", "-O0", "-g0", "-fno-pie", "-fconstexpr-ops-limit=%d" % gen.CT_LIMIT, "-fconstexpr-loop-limit=10000000", "-fconstexpr-depth=4000", "-I" + SIM, "-I" + os.path.join(REPO, "src")]
SIM_FLAGS = ["-w", "-std=c++23", "-O2", "-g0", "-fno-pie", "-U_FORTIFY_SOURCE", "-fno-builtin", "-I" + SIM]

REDIRECT = {}
for n in ("memchr memcmp memcpy memmove memset strlen strcmp strncmp strchr isalpha isdigit isalnum isspace isupper islower isxdigit isprint isgraph ispunct iscntrl isblank tolower toupper "
          "time clock clock_gettime rand srand getenv malloc free calloc realloc aligned_alloc posix_memalign strdup strndup "
          "strnlen strrchr memrchr rawmemchr memmem strspn strcspn strpbrk strstr strcpy strncpy mempcpy strcasecmp strncasecmp random rand_r drand48 getrandom arc4random gettimeofday").split():
    REDIRECT[n] = "sim_" + n
REDIRECT.update({
    "bcmp": "sim_bcmp", "sched_getcpu": "sim_cpu", "_ZSt11_Hash_bytesPKvmm": "sim_hash_bytes", "memalign": "sim_memalign",
    "_ZNSt6chrono3_V212system_clock3nowEv": "sim_chrono_now", "_ZNSt6chrono3_V212steady_clock3nowEv": "sim_steady_now",
    "_ZNSt13random_device9_M_getvalEv": "sim_random_device",
    "pthread_mutex_lock": "sim_mutex_lock", "pthread_mutex_trylock": "sim_mutex_trylock", "pthread_mutex_unlock": "sim_mutex_unlock", "pthread_once": "sim_once",
    "__cxa_guard_acquire": "sim_guard_acquire", "__cxa_guard_release": "sim_guard_release", "__cxa_guard_abort": "sim_guard_abort",
    "pthread_mutex_timedlock": "sim_mutex_timedlock", "pthread_mutex_clocklock": "sim_mutex_clocklock",
    "pthread_rwlock_rdlock": "sim_rdlock", "pthread_rwlock_wrlock": "sim_wrlock", "pthread_rwlock_tryrdlock": "sim_tryrdlock", "pthread_rwlock_trywrlock": "sim_trywrlock", "pthread_rwlock_unlock": "sim_rwunlock",
    "pthread_spin_lock": "sim_spin_lock", "pthread_spin_trylock": "sim_spin_trylock", "pthread_spin_unlock": "sim_spin_unlock",
    "pthread_cond_wait": "sim_cond_wait", "pthread_cond_timedwait": "sim_cond_timedwait", "pthread_cond_clockwait": "sim_cond_clockwait", "pthread_cond_signal": "sim_cond_signal", "pthread_cond_broadcast": "sim_cond_broadcast",
    "_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE": "sim_cv_wait", "_ZNSt18condition_variable10notify_oneEv": "sim_cv_notify", "_ZNSt18condition_variable10notify_allEv": "sim_cv_notify_all",
    "sem_wait": "sim_sem_wait", "sem_trywait": "sim_sem_trywait", "sem_post": "sim_sem_post", "syscall": "sim_syscall",
    "sched_yield": "sim_yield", "nanosleep": "sim_nanosleep", "usleep": "sim_usleep", "clock_nanosleep": "sim_clock_nanosleep",
})

# operator new and delete are the simulator's own; marks that are no functions
SEAMS = {"_Znwm", "_Znam", "_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "_ZnwmSt11align_val_t", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZnwmRKSt9nothrow_t", "_GLOBAL_OFFSET_TABLE_", "__gxx_personality_v0", "_Unwind_Resume", "_ZSt21ios_base_library_initv", "__stack_chk_fail"}

# scenarios per quick check; the wall cap only matters on a slower machine
QUICK = {"C01": 20000, "C02": 28000, "C03": 120000, "C04": 8000, "C05": 120000, "C06": 80000, "C07": 110000, "C08": 75000, "C09": 70000, "C10": 60000, "C11": 20000}
QUICK_CAP, THOROUGH_CAP = 300, 600
NRANDOM = {"quick": 110, "thorough": 160}
NTOK = {"quick": 8, "thorough": 20}


def die(msg):
    print("check error: " + msg, file=sys.stderr)
    sys.exit(2)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()


def tree_hash(d, suffixes=None):
    h = hashlib.sha256()
    for base, dirs, files in os.walk(d):
        dirs.sort()
        for f in sorted(files):
            if suffixes and not f.endswith(suffixes):
                continue
            p = os.path.join(base, f)
            with open(p, "rb") as fh:
                h.update(os.path.relpath(p, d).encode() + b"\0" + fh.read() + b"\0")
    return h.hexdigest()


def run(cmd, timeout=300):
    with subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True) as p:
        try:
            out, _ = p.communicate(timeout=timeout)
            return subprocess.CompletedProcess(cmd, p.returncode, out)
        except subprocess.TimeoutExpired: # the compiler proper too, not only its driver
            os.killpg(p.pid, signal.SIGKILL)
            out, _ = p.communicate()
            return subprocess.CompletedProcess(cmd, 124, (out or b"") + b"\ntimeout")


def ct_compile(path, jobs, patseed, only=None):
    """0: every scan is a constant; 1: the compiler says one is not; 2: something else went wrong."""
    with open(path, "w") as f:
        f.write(gen.ct_unit_text(jobs, patseed, only))
    r = run(["g++"] + CT_FLAGS + ["-c", path, "-o", path[:-4] + ".o"])
    log = r.stdout.decode(errors="replace")
    if r.returncode == 0:
        return 0, ""
    if r.returncode != 1 or re.search(r"exceeds (limit|maximum)|out of memory|internal compiler error|Killed", log):
        return 2, log
    return (1 if re.search(r"constant expression|constexpr|consteval|constinit", log) else 2), log


def not_constant(ex, d, bad, patseed):
    """Narrows failed units down to one search that is not a constant expression."""
    n = 0
    for _, jobs, _ in bad[:3]:
        alone = [(j, ex.submit(ct_compile, os.path.join(d, "n%d_%s%d.cpp" % (n, j[0], j[1])), [j], patseed)) for j in jobs]
        n += 1
        failed = [j for j, f in alone if f.result()[0] == 1]
        for j in sorted(failed, key=lambda j: len(str(j[2])))[:2]:
            ts = gen.ct_texts(j[0], j[2], patseed)
            one = [(k, ex.submit(ct_compile, os.path.join(d, "o%d_%s%d_%d.cpp" % (n, j[0], j[1], k)), [j], patseed, {(j[0], j[1], k)})) for k in range(len(ts))]
            got = [(len(ts[k][0]), k, f.result()[1]) for k, f in one if f.result()[0] == 1]
            if got:
                _, k, log = min(got)
                why = next((l for l in log.splitlines() if "error:" in l and re.search("constant expression|constexpr", l)), "") or next((l for l in log.splitlines() if "error:" in l), "")
                return {"kind": j[0], "def": j[2], "text": ts[k][0].hex(), "cap": ts[k][1], "why": re.sub(r"^.*error: ", "", why)[:300]}
    return None


def replay_not_constant(e):
    """Compiles the one search again."""
    d = tempfile.mkdtemp(prefix="ct", dir=OUT)
    try:
        x = e["def"] if e["kind"] == "p" else ([tuple(a) for a in e["def"][0]], e["def"][1])
        with open(os.path.join(d, "r.cpp"), "w") as f:
            f.write(gen.ct_one_text(e["kind"], x, bytes.fromhex(e["text"]), e["cap"]))
        r = run(["g++"] + CT_FLAGS + ["-fsyntax-only", os.path.join(d, "r.cpp")])
        log = r.stdout.decode(errors="replace")
        return r.returncode == 1 and bool(re.search(r"constant expression|constexpr|consteval", log))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def build(patseed, tier, ct=False):
    """Returns (binary, dropped definitions, number of definitions, what the compiler evaluated)."""
    pats, toks = gen.generate(patseed, NRANDOM[tier], NTOK[tier])
    src = tree_hash(os.path.join(REPO, "src"))
    simh = tree_hash(SIM, (".hpp", ".cpp", ".py"))
    me = sha(src, simh, json.dumps([pats, toks]), " ".join(SUT_FLAGS + SIM_FLAGS), json.dumps(REDIRECT, sort_keys=True), " ".join(CT_FLAGS) if ct else "")[:20]
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        d = os.path.join(BUILD, me)
        done = os.path.join(d, "done.json")
        if os.path.exists(done):
            j = json.load(open(done))
            return os.path.join(d, "sim"), j["dropped"], j["n"], j["ct"]
        old = sorted((os.path.getmtime(os.path.join(BUILD, x)), x) for x in os.listdir(BUILD) if os.path.isdir(os.path.join(BUILD, x)))
        for _, x in old[:-4]:
            shutil.rmtree(os.path.join(BUILD, x), ignore_errors=True)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        redir = os.path.join(d, "redirect.txt")
        with open(redir, "w") as f:
            for a, b in sorted(REDIRECT.items()):
                f.write("%s %s\n" % (a, b))
        units = gen.write_units(d, pats, toks, 8)

        def compile_unit(path, jobs, timeout=300):
            with open(path, "w") as f:
                f.write(gen.unit_text(jobs))
            obj = path[:-4] + ".o"
            r = run(["g++"] + SUT_FLAGS + ["-c", path, "-o", obj], timeout)
            if r.returncode:
                return False, r.stdout.decode(errors="replace")
            r = run(["objcopy", "--redefine-syms=" + redir, obj])
            return r.returncode == 0, r.stdout.decode(errors="replace")

        def sim_unit(name):
            return run(["g++"] + SIM_FLAGS + ["-c", os.path.join(SIM, name), "-o", os.path.join(d, name[:-4] + ".o")])

        dropped, good, objs = [], [], []
        with ThreadPoolExecutor(JOBS) as ex:
            sims = {n: ex.submit(sim_unit, n) for n in ("sim.cpp", "rt.cpp")}
            futs = [(p, j, ex.submit(compile_unit, p, j)) for p, j in units]
            cts = []
            if ct:
                for p, j in units:
                    for h in range(0, len(j), 4):
                        q = p[:-4] + "_ct%d.cpp" % h
                        cts.append((q, j[h:h + 4], ex.submit(ct_compile, q, j[h:h + 4], patseed)))
            retry = []
            for p, j, f in futs:
                ok, log = f.result()
                if ok:
                    good.append((p, j))
                else:
                    retry.append((p, j, log))
            if len(retry) == len(units):
                die("nothing compiles:\n" + retry[0][2][:3000])
            for p, j, log in retry:
                one = [(p[:-4] + "_%d.cpp" % k, [x]) for k, x in enumerate(j)]
                for (q, x), f in [(o, ex.submit(compile_unit, *o, 150)) for o in one]:
                    ok, log = f.result()
                    if ok:
                        good.append((q, x))
                    else:
                        dropped.append(str(x[0][2]))
            names = {(x[0], x[1]) for _, g in good for x in g}
            ctgood = [(p, j) for p, j, f in cts if f.result()[0] == 0 and all((x[0], x[1]) in names for x in j)]
            ctbad = [(p, j, f.result()[1]) for p, j, f in cts if f.result()[0] == 1 and all((x[0], x[1]) in names for x in j)]
            info = {"definitions": sum(len(j) for _, j in ctgood), "searches": sum(len(gen.ct_texts(x[0], x[2], patseed)) for _, j in ctgood for x in j), "not_constant": None,
                    "not_evaluated": [str(x[2]) for p, j, f in cts for x in j if f.result()[0]]}
            if ctbad:
                info["not_constant"] = not_constant(ex, d, ctbad, patseed)
            if ct and not ctgood and not info["not_constant"]:
                die("no search can be evaluated by the compiler:\n" + next((f.result()[1] for _, _, f in cts if f.result()[0]), "")[:3000])
            for n, f in sims.items():
                if f.result().returncode:
                    die("simulator does not compile:\n" + f.result().stdout.decode(errors="replace")[:3000])
        # what the library's code calls that runs unobserved: neither compiled with it nor behind a seam
        und = run(["nm", "-u"] + [p[:-4] + ".o" for p, _ in good]).stdout.decode(errors="replace")
        info["outside"] = sorted({l.split()[-1] for l in und.splitlines() if l.strip().startswith(("U ", "w "))} - set(REDIRECT.values()) - SEAMS)
        info["outside"] = [x for x in info["outside"] if not x.startswith(("__tsan_", "__sanitizer_cov", "def_", "_ZTV", "_ZTI", "_ZTS"))]
        n = sum(len(j) for _, j in good)
        idx = os.path.join(d, "index.cpp")
        with open(idx, "w") as f:
            f.write(gen.index_text(good, [(x[0], x[1]) for _, j in ctgood for x in j]))
        r = run(["g++"] + SIM_FLAGS + ["-c", idx, "-o", idx[:-4] + ".o"])
        if r.returncode:
            die("index does not compile:\n" + r.stdout.decode(errors="replace")[:2000])
        binary = os.path.join(d, "sim")
        objs = [p[:-4] + ".o" for p, _ in good] + [os.path.join(d, x) for x in ("sim.o", "rt.o", "index.o")]
        objs += [p[:-4] + ".o" for p, _ in ctgood] # last: data only, the library's code is taken from the instrumented units
        r = run(["g++", "-static", "-no-pie", "-o", binary] + objs + ["-lpthread"])
        if r.returncode:
            die("link failed:\n" + r.stdout.decode(errors="replace")[-3000:])
        for o in os.listdir(d):
            if o.endswith(".o") or "_ct" in o:
                os.unlink(os.path.join(d, o))
        with open(done, "w") as f:
            json.dump({"dropped": dropped, "n": n, "ct": info}, f)
        return binary, dropped, n, info


def pinned(cmd, cpu):
    return subprocess.Popen(["taskset", "-c", str(cpu)] + cmd if shutil.which("taskset") else cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


def replay(binary, path):
    try:
        r = subprocess.run([binary, "--replay", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    except subprocess.TimeoutExpired:
        return 2, "", "", "timeout"
    t = r.stdout.decode(errors="replace")
    m = re.search(r"^(VIOLATED|HELD|UNDECIDED) property=(\S+) kind=(\S*) hash=(\S+)", t, re.M)
    return r.returncode, m.group(3) if m else "", m.group(4) if m else "", t


def known():
    try:
        return [e for e in json.load(open(KNOWN)) if e.get("status") == "known"]
    except FileNotFoundError:
        return []


def search(binary, prop, seed, patseed, scenarios, seconds, outdir, hashes=None, workers=JOBS):
    cpus = sorted(os.sched_getaffinity(0))
    ps = []
    for w in range(workers):
        out = os.path.join(outdir, "%s-%d-%d.json" % (prop, seed, w))
        if os.path.exists(out):
            os.unlink(out)
        cmd = [binary, "--property", prop, "--seed", str(seed), "--patseed", str(patseed), "--worker", str(w), "--workers", str(workers), "--scenarios", str(scenarios),
               "--seconds", str(seconds), "--outdir", outdir, "--out", out]
        if hashes:
            cmd += ["--hashes", "%s.%d" % (hashes, w)]
        ps.append((pinned(cmd, cpus[w % len(cpus)]), out))
    res = []
    for p, out in ps:
        try:
            log, _ = p.communicate(timeout=seconds + 240)
        except subprocess.TimeoutExpired:
            p.kill()
            log, _ = p.communicate()
            die("a worker of %s did not finish: %s" % (prop, log.decode(errors="replace")[-500:]))
        if p.returncode or not os.path.exists(out):
            die("a worker of %s failed (%s): %s" % (prop, p.returncode, log.decode(errors="replace")[-1500:]))
        res.append(json.load(open(out)))
        os.unlink(out)
    return res


LEVELS = "exploration"
ASSUMPTIONS = [
    "search, not enumeration: only the definitions, texts, schedules and faults of the seeds run were explored",
    "the library is compiled by g++ -O1 with instrumentation; code a caller compiles with other options or another compiler is assumed to behave alike",
    "interleavings are sequentially consistent, at the granularity of single memory accesses and basic blocks; the race check covers what weaker memory could add",
]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--build", action="store_true")
    ap.add_argument("--scenarios", type=int)
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--hashes")
    ap.add_argument("--workers", type=int, default=JOBS)
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    os.makedirs(OUT, exist_ok=True)
    if a.replay:
        t = open(a.replay).read()
        m = re.search(r"^constant (.*)$", t, re.M)
        if m:
            bad = replay_not_constant(json.loads(m.group(1)))
            print("%s property=C10 kind=not-constant" % ("VIOLATED" if bad else "HELD"))
            if bad:
                print("VIOLATION property=C10 replay=%s" % os.path.abspath(a.replay))
            sys.exit(1 if bad else 0)
        m = re.search(r"^seed \d+ run \d+ patseed (\d+)", t, re.M)
        for tr in ("quick", "thorough"):
            binary = build(int(m.group(1)), tr, "\nproperty C10\n" in t)[0]
            rc, kind, h, text = replay(binary, os.path.abspath(a.replay))
            if "definition not built" not in text:
                break
        print(text, end="")
        if rc == 1:
            print("VIOLATION property=%s replay=%s" % (re.search(r"^property (\S+)", t, re.M).group(1), os.path.abspath(a.replay)))
        sys.exit(rc)
    if a.build:
        for ct in (False, True):
            b, dropped, n, info = build(a.seed, tier, ct)
            print("%s: %d definitions, dropped %s, constants %s" % (b, n, dropped, info))
        return
    prop = a.property
    t0 = time.time()
    total, rounds, builds = [], 0, []
    findings = []
    cap = a.seconds or (QUICK_CAP if tier == "quick" else THOROUGH_CAP)
    seed = a.seed
    while True:
        patseed = a.seed if tier == "quick" else a.seed * 1000 + rounds // 3
        binary, dropped, n, info = build(patseed, tier, prop == "C10")
        builds.append({"patseed": patseed, "definitions": n, "not_compiled": dropped, "functions_run_unobserved": info.pop("outside", [])})
        if prop == "C10":
            builds[-1]["constant_evaluation"] = info
            if info["not_constant"]:
                e = info["not_constant"]
                if not (replay_not_constant(e) and replay_not_constant(e)):
                    die("a search that is not a constant expression could not be reproduced: %s" % e)
                path = os.path.join(OUT, "C10-%d-constant.replay" % seed)
                what = "%s on %r cannot be evaluated in a constant expression: %s" % (e["def"], bytes.fromhex(e["text"]), e["why"])
                with open(path, "w") as f:
                    f.write("e-regex-sim 1\nproperty C10\nexpect not-constant  # %s\nconstant %s\n" % (what, json.dumps(e)))
                findings.append({"kind": "not-constant", "detail": what, "replay": path, "note": "found while the compiler evaluated the reference scans"})
                break
        left = cap - (time.time() - t0) if tier == "thorough" else cap
        if left <= 5:
            break
        count = a.scenarios or QUICK[prop]
        res = search(binary, prop, seed, patseed, count, left, OUT, a.hashes, a.workers)
        total += res
        rounds += 1
        bad = [r for r in res if r["found"] or r["unstable"]]
        for r in sorted(bad, key=lambda r: r["scenario"]):
            if r["unstable"]:
                die("a violation of %s could not be replayed exactly (seed %d scenario %d: %s)" % (prop, seed, r["scenario"], r["note"]))
            x, y = replay(binary, r["replay"]), replay(binary, r["replay"])
            if x[0] != 1 or y[0] != 1 or x[1:3] != y[1:3] or x[1] != r["kind"] or x[2] != r["hash"]:
                die("the replay of %s is not exact: %s / %s / %s %s" % (r["replay"], x[:3], y[:3], r["kind"], r["hash"]))
            findings.append(r)
        if findings or tier == "quick":
            break
        seed += 7919
    wall = time.time() - t0
    write_evidence(prop, tier, a.seed, total, builds, wall, rounds, findings)
    rc = 0
    listed = [e for e in known() if e["property"] == prop]
    for e in listed:
        print("KNOWN-FINDING: property=%s %s" % (prop, e["what"]))
    for f in findings:
        t = open(f["replay"]).read()
        hit = [e for e in listed if e["kind"] == f["kind"] and re.search(e["match"], t)]
        print("%s: %s  [%s]" % (f["kind"], f["detail"], f["note"]))
        if not hit:
            print("VIOLATION property=%s replay=%s" % (prop, f["replay"]))
            rc = 1
            break
    if not rc:
        s = summary(total)
        print("%s held: %d scenarios, %d simulated runs (%d nontrivial and distinct), %d steps, %d undecided, %.0f s" % (prop, s["scenarios"], s["runs"], s["nontrivial"], s["steps"], s["undecided"], wall))
    sys.exit(rc)


def summary(total):
    s = {}
    for r in total:
        for k, v in r.items():
            if k in ("max_bytes", "max_call_steps", "wall"):
                s[k] = max(s.get(k, 0), v)
            elif isinstance(v, bool) or isinstance(v, str):
                continue
            elif isinstance(v, (int, float)):
                s[k] = s.get(k, 0) + v
            elif isinstance(v, dict):
                d = s.setdefault(k, {})
                for x, y in v.items():
                    d[x] = d.get(x, 0) + y
            elif isinstance(v, list) and k != "samples":
                s.setdefault(k, set()).update(v)
    return s


RULE = {
    "C01": "a simulated multi-threaded execution that was judged, in which at least one match or token was found and at least two context switches inside library calls were taken; counted once per different (schedule, faults, observed history)",
    "C02": "a judged execution in which a match or token was found and at least two interruptions, abandonments, stalls or context switches fired inside library calls; counted once per different (schedule, faults, history)",
    "C03": "a judged execution with a match or token found and more than two recorded steps of iteration or two injected rewrites of neighbouring memory; counted once per different (text placement, surroundings, faults, history)",
    "C04": "a judged execution with a match or token found, on the small stack and with the chosen allocation faults armed; counted once per different (faults, history)",
    "C05": "a judged execution with a match or token found, and more than two recorded steps of iteration or two stalls; counted once per different (schedule, faults, history)",
    "C06": "a judged history of at least three observed operations with a match or token found; counted once per different (faults, history)",
    "C07": "a judged scan with at least three observed steps and a match found; counted once per different (faults, edits, history)",
    "C08": "a judged tokenization history of at least three observed steps with a token found; counted once per different (faults, history)",
    "C09": "a judged execution with a match found and at least three observed steps, or run before static initialisation or at exit; counted once per different (locale and clock, placement, phase, history)",
    "C11": "a judged multi-threaded execution in which a result made by one thread was read or continued by others, with a match or token found and at least two context switches, abandonments or stalls; counted once per different (schedule, faults, history)",
    "C10": "a judged execution with a match or token found whose observed steps were compared with the compiler's own evaluation, and with at least three observed steps, two faults or context switches, or a phase outside main; counted once per different (schedule, faults, environment, placement, history)",
}


def write_evidence(prop, tier, seed, total, builds, wall, rounds, findings):
    s = collections.defaultdict(int, {"faults": {}, "ops": {}, "phases": {}, "undecided_why": {}, "schedules": [], "sites": [], "defs": []})
    s.update(summary(total))
    os.makedirs(EVID, exist_ok=True)
    samples = [x for r in total for x in r["samples"]]
    searched = max(s.get("wall", 1), 0.01) if rounds == 1 else wall
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": LEVELS,
        "wall_s": round(wall, 1),
        "violations": len(findings),
        "assumptions": ASSUMPTIONS,
    }
    ev["coverage"] = {
        "evaluations": s["judged"],
        "distinct_nontrivial": s["nontrivial"],
        "rule": RULE[prop],
        "samples": samples[:6] or ["none"],
        "simulated_runs": s["runs"],
        "reference_runs": s["reference_runs"],
        "runs_per_hour": int((s["runs"] + s["reference_runs"]) / searched * 3600),
        "seeds": s["scenarios"],
        "seeds_per_hour": int(s["scenarios"] / searched * 3600),
        "simulated_time_steps": s["steps"],
        "simulated_time_note": "the library has no clock: simulated time is counted in steps, one per memory access or basic block of library code",
        "reference_steps": s["reference_steps"],
        "faults_injected": s["faults"],
        "context_switches": s["switches"],
        "operations": s["ops"],
        "process_phases": s["phases"],
        "distinct_schedules": len(s["schedules"]),
        "distinct_preemption_sites": len(s["sites"]),
        "shared_accesses": s["shared_accesses"],
        "race_checks": s["race_checks"],
        "query_bytes_checked": s["text_reads"],
        "allocations_by_the_library": s["allocations"],
        "allocations_failed": s["allocations_failed"],
        "largest_query": s["max_bytes"],
        "long_query_runs": s["big_runs"],
        "longest_call_steps": s["max_call_steps"],
        "definitions_exercised": len(s["defs"]),
        "builds": builds,
        "undecided": s["undecided"],
        "undecided_reasons": s["undecided_why"],
        "violations_found": [{"kind": f["kind"], "detail": f["detail"], "replay": f["replay"]} for f in findings],
        "real_components": ["all of /repo/src (match_result, nodes, operators, terminals, tokenization, tree_builder, utilities), compiled from the working tree for every definition in the catalogue and every random one"],
        "stub_components": ["thread scheduler (one runnable thread at a time, chosen by the simulator)", "allocator (with a lock, poisoning of freed memory, and failures)", "clock, sleep, randomness, locale, rounding mode and environment functions", "mutexes, rwlocks, spin locks, condition variables, semaphores, futexes, once and static-initialisation guards; weak compare-exchanges fail spuriously", "libc string functions called by the library (re-implemented with bounds and race checks)"],
    }
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    main()
