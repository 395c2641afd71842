#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the statements stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

CUR = "src/match_result.hpp"
p("C01", "Concurrent callers never disturb each other",
  "Any number of threads may use the same regex matchers, tokenizers and input texts at the same time, each thread with match results and token iterators of its own: every thread observes exactly the matches, captures and tokens it would observe running alone. No call touches mutable memory that another caller can touch without synchronisation (no data race).",
  ["schedules", "programs", "inputs"],
  "every interleaving, at memory-access granularity, of 2 to 8 caller threads constructing, copying, advancing, range-iterating and reading results of shared matchers and tokenizers over shared texts",
  "All tests run on one thread; none has ever executed two calls at the same time, so any hidden shared state passes them.",
  ["src/regex.hpp", CUR, "src/tokenization/tokenizer.hpp", "src/tokenization/iterator.hpp", "src/nodes/common.hpp"],
  [("match() is a static function over a by-value result record; no static or mutable data", "src/regex.hpp, src/match_result.hpp"),
   ("the iterator's tables are static constexpr", "src/tokenization/iterator.hpp separator_splitter")],
  [("match_result_data", "all state of one search, held by value in the result", CUR)],
  ["e_regex::regex::operator()", "match_result::next", "tokenization::iterator::operator++"])

p("C02", "An interrupted or abandoned match leaves nothing behind",
  "A search, iteration step or tokenization step may be interrupted after any instruction: by a handler on the same thread that runs further searches (even with the same matcher), by being abandoned half way (jumped out of), or by its thread stopping forever. Every other search, before or afterwards and on any thread, completes with the result it gives in a fresh process, and an interrupted step that is resumed gives its undisturbed result.",
  ["crash_points", "fault_sequences", "schedules"],
  "every instruction-level interruption point of every call, the three kinds of interruption, nested and repeated, followed by any further calls on the same or other threads",
  "Tests call functions to completion, one after the other; no test interrupts, re-enters or abandons a call.",
  ["src/regex.hpp", CUR, "src/tokenization/iterator.hpp", "src/nodes/common.hpp"],
  [("no state outside the result object, no lock, nothing to release", "src/match_result.hpp, src/nodes/*.hpp")],
  [("match_result_data", "the only state a search has", CUR)],
  ["match_result::next", "tokenization::iterator::operator++"])

p("C03", "Searches touch exactly the bytes of the query",
  "A search, iteration or tokenization reads no byte outside the query it was given, not even one past either end, and writes no byte of it. Its results do not depend on the bytes that surround the query, whether these are unmapped, hostile or being rewritten by others at any moment, and every match, capture and token view it reports lies within the query.",
  ["fault_sequences", "inputs", "programs"],
  "every pattern and query window inside larger memory, with either neighbour unmapped, filled with bytes that would extend a match, or rewritten by another party between any two instructions",
  "Test queries are NUL-terminated string literals: reading one past the end meets a harmless NUL and passes. No test passes a window of a larger buffer whose next byte would match.",
  ["src/terminals/common.hpp", "src/terminals/exact_matcher.hpp", "src/terminals/anchors/end.hpp", "src/terminals/anchors/start.hpp", "src/terminals/space_characters.hpp", "src/nodes/negated.hpp", "src/nodes/greedy.hpp", "src/nodes/lazy.hpp", CUR, "src/tokenization/iterator.hpp"],
  [("end-of-query test before every dereference", "src/terminals/common.hpp terminal_common::match, anchors, negated_node::match"),
   ("backtracking bounded by the start of the repetition", "src/nodes/greedy.hpp match")],
  [("actual_iterator_start/_end", "search position; must stay inside the query", CUR)],
  ["every byte load of the matching code", "match_result::to_view, get_group", "tokenization token value"])

p("C04", "Searching needs no resource that can run out",
  "Searching, iterating and tokenizing throw nothing, need no dynamic memory and only an amount of stack that depends on the pattern and not on the length of the query. With every allocation failing and on a small thread stack they return, on queries of any length, what they return otherwise.",
  ["fault_sequences", "inputs", "programs"],
  "every pattern, queries from 0 bytes to megabytes, with any subset of allocations failing and with thread stacks of 64 KiB",
  "Tests run short queries on the main thread's 8 MiB stack with an allocator that never fails.",
  ["src/nodes/common.hpp", "src/nodes/greedy.hpp", "src/nodes/lazy.hpp", "src/nodes/possessive.hpp", "src/nodes/repeated.hpp", CUR, "src/tokenization/iterator.hpp"],
  [("repetitions are loops; recursion follows the type tree of the pattern only", "src/nodes/*.hpp"),
   ("all containers are std::array or std::tuple; functions are noexcept", "src/match_result.hpp, src/tokenization/iterator.hpp")],
  [], ["match_result constructor", "match_result::next", "iterator::operator++"])

p("C05", "Every call finishes and every iteration makes progress",
  "Whatever the pattern, including ones that match the empty string or repeat something that can be empty, every search and iteration step finishes within a number of its own steps that is polynomial in the query length, even if all other threads are stalled forever at arbitrary points. Each successful step reports a match (token) that begins no earlier than the previous one ended and is not the same empty match again, so a loop over all matches of an n-byte query ends after at most n+1 matches, even if the bytes of the query are rewritten between steps; once a search has failed it keeps failing.",
  ["schedules", "fault_sequences", "programs", "inputs"],
  "every pattern and query, every set of stalled peers, every rewrite of the text between two steps",
  "Tests iterate over a handful of patterns that cannot match the empty string; none nests a repetition around something that can be empty, and none has peers that stall.",
  [CUR, "src/nodes/greedy.hpp", "src/nodes/lazy.hpp", "src/nodes/possessive.hpp", "src/nodes/negated.hpp", "src/tokenization/iterator.hpp"],
  [("next() restarts at the end of the last match and steps over failed positions", "src/match_result.hpp next"),
   ("repetition loops", "src/nodes/greedy.hpp, lazy.hpp, possessive.hpp"),
   ("a token must be non-empty, otherwise the iterator is invalidated", "src/tokenization/iterator.hpp match_token")],
  [("actual_iterator_start/_end", "the search position that has to move forward", CUR)],
  ["match_result::next", "match_result::operator++", "range-based for over a result", "iterator::operator++"])

p("C06", "Match results are independent cursors and checkpoints",
  "A match result is a value. In any history of constructing, copying, assigning, moving, advancing (next and ++), rewinding with begin, range-iterating, abandoning and dropping results, over any number of matchers and texts, each result shows exactly the match and captures that a cursor over the sequence of matches found by an uninterrupted scan shows at its index, through every accessor alike; a copy taken at any moment is a checkpoint from which the scan continues identically, even if the original is later advanced or lost half way through a step, and begin always restarts from the first match.",
  ["histories", "crash_points", "inputs"],
  "every history of cursor operations over up to 22 live results, with the live result lost at any instruction of a step and the scan continued from a checkpoint copy",
  "Tests only construct a result and call next() on it a few times; copies, assignments, interleaved cursors, rewinds and restarts after exhaustion are not exercised.",
  [CUR, "src/regex.hpp"],
  [("value semantics of match_result_data", CUR), ("begin() rebuilds from the query", "src/match_result.hpp begin")],
  [("match_result_data", "query, position, captures and accepted flag of one cursor", CUR)],
  ["match_result copy/assign/begin/next/operator++/operator*/operator[]/get/to_view/is_accepted/end/operator!="])

p("C07", "A scan can be resumed after a crash at any match boundary",
  "For a pattern without a start anchor, losing the scanner after any reported match and starting a new search on the non-empty rest of the text (from the end of that match, one byte further if it was empty) finds exactly the matches and captures that the uninterrupted scan reports next, judged on the bytes the text has at that moment. Captures never survive from an earlier match or from a failed attempt at an earlier position, and a search that fails reports an empty match and empty captures.",
  ["crash_points", "histories", "inputs", "programs"],
  "every pattern, text, match boundary to crash at, and rewrite of the not yet scanned bytes between steps",
  "Tests look at captures of the first match or of a few consecutive ones where the previous captures happen to be overwritten; none compares an ongoing scan with a restarted one.",
  [CUR, "src/nodes/group.hpp", "src/nodes/common.hpp"],
  [("next() clears captures and position before each search", "src/match_result.hpp next"),
   ("a group stores its span when its content matched", "src/nodes/group.hpp match")],
  [("match_groups", "captures of the current match", CUR), ("accepted", "whether the current match exists", CUR)],
  ["match_result::next", "match_result::get_group"])

p("C08", "Tokenization histories follow the documented tokenizer",
  "At every moment of any history of advancing, copying, rewinding and resuming token iterators, the tokens seen are those of the reference tokenizer: an optional separator at the very beginning, then the token whose definition matches the longest non-empty prefix (the first declared on a tie), then before each further token a mandatory non-empty separator, the longest; tokens and separators follow each other without a gap or overlap. Tokenization stops at the first point where this is impossible and stays stopped (false, equal to end); copies continue independently, begin restarts, and resuming on the rest of the text after a crash yields the remaining tokens.",
  ["histories", "crash_points", "inputs"],
  "every history over up to 22 live iterators and several tokenizer definitions, with the iterator lost at any instruction of a step, over texts with unknown characters, missing separators, trailing separators and truncation at any byte",
  "The single test tokenizes one valid string once, in one loop.",
  ["src/tokenization/iterator.hpp", "src/tokenization/tokenizer.hpp", "src/tokenization/token.hpp"],
  [("match_separator / match_token choose the longest anchored match", "src/tokenization/iterator.hpp"),
   ("operator++ demands a separator unless at the very beginning; invalidate() ends the iteration", "src/tokenization/iterator.hpp")],
  [("current", "rest of the input", "src/tokenization/iterator.hpp"), ("last_match", "token shown by the iterator", "src/tokenization/iterator.hpp")],
  ["iterator::operator++, operator*, operator->, operator==, operator bool, begin, end"])

p("C09", "Results depend on pattern and bytes only, not on history",
  "The result of a search or tokenization is a function of the pattern and the bytes of the query at the time of each step. It is the same in a fresh process and after any history of other searches, wherever the bytes are stored, when a buffer is reused for different contents, under any locale or clock, and already during static initialisation or still during program exit.",
  ["histories", "fault_sequences", "configurations"],
  "every sequence of searches and tokenizations with buffers reused, rewritten and relocated in between, under changing ambient state (locale, clock, random numbers, environment), and run before static initialisers or after static destructors",
  "Each test case runs a few calls over string literals that never move or change, in one locale, inside main.",
  ["src/regex.hpp", CUR, "src/tokenization/iterator.hpp", "src/terminals/word_characters.hpp", "src/terminals/digit_characters.hpp", "src/terminals/space_characters.hpp", "src/terminals/range.hpp"],
  [("stateless static constexpr matching functions", "src/regex.hpp, src/nodes/*.hpp"),
   ("explicit character comparisons instead of <cctype>", "src/terminals/*.hpp"),
   ("only constant-initialised data", "src/utilities/static_string.hpp, src/utilities/pack_string.hpp")],
  [], ["e_regex::regex::operator()", "match_result::next", "iterator::operator++"])

p("C10", "What a constant expression computes holds at run time",
  "A search, iteration or tokenization gives the same whether the compiler evaluates it in a constant expression or a process executes it: every match, capture, token and accessor, the order of the matches and where they end are those of the constant expression, in whatever state the process is: on any thread, interrupted in the middle or after abandoned searches, with memory exhausted or a small stack, with hostile bytes around the text or in a reused buffer, under any locale, clock or rounding mode, before static initialisation or at exit. Every search a process can make can be evaluated in a constant expression.",
  ["inputs", "programs", "schedules", "fault_sequences"],
  "every pattern, tokenizer and text a constant expression can name, and every run-time situation (threads, interruptions, faults, surroundings, phases) in which the same search is made",
  "A few tests use constant results, none makes the same search in both ways; a branch taken only by the compiler, or only at run time, is seen by one side of them at most.",
  ["src/regex.hpp", CUR, "src/nodes/common.hpp", "src/nodes/greedy.hpp", "src/terminals/common.hpp", "src/utilities/literal_string_view.hpp", "src/tokenization/iterator.hpp"],
  [("one constexpr implementation serves both", "src/regex.hpp operator(), src/match_result.hpp next, src/tokenization/iterator.hpp operator++")],
  [("match_result_data", "the state of a search, in a constant expression as at run time", CUR)],
  ["e_regex::regex::operator()", "match_result::next and all accessors", "iterator::operator++, operator*, operator->, operator=="])

p("C11", "Results can be shared and handed over between threads",
  "A match result or token iterator is not tied to the thread that made it. Handed to another thread (with synchronisation, by the program), it shows there what it showed before and is continued, rewound, copied, assigned and destroyed there as it would be on its own thread, even if the thread that made it searches something else meanwhile or has ended, and it can be handed on and back any number of times. While nobody changes a result, any number of threads may read it, compare it, copy it, rewind a copy of it with begin and resume from it at the same time, without data race, and each sees what a single thread would see.",
  ["schedules", "histories", "crash_points"],
  "every history in which results are made, handed over and shared read-only by 2 to 8 threads, phase after phase, with threads ending in between, and every interleaving at memory-access granularity of the threads that use a result at the same time",
  "No test has a second thread; a result that keeps something in its thread's storage, or writes to itself when it is only read, passes them all.",
  [CUR, "src/tokenization/iterator.hpp", "src/regex.hpp", "src/utilities/literal_string_view.hpp"],
  [("const accessors read the by-value data and write nothing; no mutable members", "src/match_result.hpp to_view, get_group, begin, end; src/tokenization/iterator.hpp operator*, begin, operator=="),
   ("everything a search needs is in the result; nothing is kept per thread", "src/match_result.hpp match_result_data")],
  [("match_result_data", "all state of one search, held by value", CUR), ("current, original_input, last_match", "all state of a token iterator", "src/tokenization/iterator.hpp")],
  ["match_result::next and all const accessors, copy, assign, begin, end", "iterator::operator++, operator*, operator->, operator==, begin"])

# --- pure functions of (pattern, query): not decided by this family of technique
p("F01", "Operators match what the documentation says",
  "For every supported pattern and query, the reported match is the leftmost one a backtracking matcher finds with the documented meaning of concatenation, alternation (first alternative that leads to a match), classes, groups, anchors, and greedy, lazy and possessive quantifiers.",
  ["inputs", "programs"], "every pattern of the documented syntax and every query",
  "46 tests sample about 45 patterns with one to five queries each.",
  ["src/nodes/basic.hpp", "src/nodes/common.hpp", "src/nodes/greedy.hpp", "src/nodes/lazy.hpp", "src/nodes/possessive.hpp", "src/nodes/repeated.hpp", "src/nodes/negated.hpp", "src/operators/braces.hpp"],
  [("depth-first search over the type tree", "src/nodes/common.hpp dfs")])
p("F02", "Captures hold the text their group matched",
  "In an accepted match each numbered group, counted by opening bracket, holds the text of the last repetition of that group that takes part in the match, and is empty if the group takes no part; the number of groups equals the number of capturing brackets and is the size of the decomposition minus one.",
  ["inputs", "programs"], "every pattern with groups and every query",
  "Tests sample a few groupings; sibling groups after nested or non-capturing ones are not sampled.",
  ["src/nodes/group.hpp", "src/operators/round_brackets.hpp", CUR],
  [("group index threaded through the tree builder", "src/operators/round_brackets.hpp")])
p("F03", "Optimisation does not change what is matched",
  "For every pattern the automatically optimised matcher reports the same match and captures as the matcher built without optimisation, on every query.",
  ["inputs", "programs"], "every pattern and query", "One optimised pattern is compared by its printed form only.",
  ["src/regex.hpp", "src/nodes/greedy.hpp", "src/nodes/lazy.hpp", "src/nodes/basic.hpp", "src/utilities/admitted_set.hpp"],
  [("greedy/lazy become possessive when admission sets are disjoint", "src/nodes/greedy.hpp optimize")])
p("F04", "The reported expression is equivalent to the pattern",
  "Compiling the expression a matcher reports about itself gives a matcher that accepts the same texts with the same captures.",
  ["programs", "inputs"], "every pattern", "Two expressions are compared with literals.",
  ["src/nodes/get_expression.hpp", "src/nodes/basic.hpp", "src/nodes/repeated.hpp"],
  [("expression members of nodes and terminals", "src/nodes/*.hpp")])
p("F06", "Independence is reported only for disjoint beginnings",
  "If two regexes are reported as independent, no byte can begin a non-empty match of both.",
  ["programs", "inputs"], "every pair of patterns", "Three pairs are sampled.",
  ["src/regex.hpp", "src/utilities/admitted_set.hpp"], [("intersection of admission sets", "src/regex.hpp is_independent")])
p("F07", "Character classes and escapes denote the documented bytes",
  "Every class, range, negation, escape, hexadecimal and octal form matches exactly the byte values the documentation lists, for all 256 byte values.",
  ["inputs", "programs"], "all byte values and all class expressions", "Tests sample a few members of a few classes; the negated escapes are not instantiated at all.",
  ["src/terminals/common.hpp", "src/terminals/range.hpp", "src/terminals/word_characters.hpp", "src/operators/square_brackets.hpp", "src/operators/hex.hpp", "src/operators/octal.hpp"],
  [("terminal matchers", "src/terminals/*.hpp")])
p("F08", "Malformed patterns and decompositions are rejected at compile time",
  "A pattern outside the supported syntax (reversed range, bad hexadecimal digit) or a decomposition with the wrong number of variables fails to compile instead of matching something else.",
  ["programs"], "every malformed pattern", "Tests contain only code that compiles.",
  ["src/terminals/range.hpp", "src/operators/hex.hpp", "src/operators/octal.hpp", CUR], [("static_assert and constraints", "src/terminals/range.hpp, src/match_result.hpp")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
