#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
T = "deterministic simulation with fault injection: "
C = {
 "C01": (T + "seeded preemptive scheduling of 2-8 callers at every memory access of the instrumented library, happens-before race check, histories compared with each caller alone",
         "Search over seeded schedules. Trusts the compiler's instrumentation to show every shared access; interleavings are sequentially consistent, data races are found by vector clocks."),
 "C02": (T + "re-entrant interruption, abandonment (longjmp) and permanent stall at seeded instructions, histories compared with undisturbed runs",
         "Search over seeded interruption points. An interrupted call is resumed exactly; an abandoned cursor is never used again, as the property allows."),
 "C03": (T + "hostile and unmapped memory around the query, rewritten by the simulator between any two instructions; every load and store checked against the query's bounds",
         "Search over seeded windows, surroundings and patterns. Bounds are checked on every instrumented access and every reported view."),
 "C04": (T + "allocation failures and a 64 KiB stack on queries of up to 1.5 MB, results compared with an unrestricted run",
         "Search over seeded patterns, queries and allocation faults; stack use is judged by the guard page of the 64 KiB stack."),
 "C05": (T + "step budgets and progress invariants over seeded histories with stalled peers and rewritten texts",
         "Search; termination is judged as a step budget polynomial in the query length (degree from the nesting of repetitions, factor from the pattern; no ordinary call uses more than a twentieth of it)."),
 "C06": (T + "seeded cursor histories with crashes in the middle of a step, refinement against a cursor model over the uninterrupted scan of a fresh process",
         "Search over seeded histories of up to 60 operations on up to 22 cursors."),
 "C07": (T + "seeded crash and restart of a scan at match boundaries, with the rest of the text rewritten, compared with the uninterrupted scan",
         "Search over seeded patterns, texts, crash points and rewrites; patterns without a start anchor."),
 "C08": (T + "seeded tokenizer histories with crash, restart and checkpoints against an executable reference tokenizer built from the single definitions",
         "Search; the reference takes the length each definition matches from the library's own regex of that definition."),
 "C09": (T + "seeded histories under simulated locale, clock, randomness, memory placement, dirty stack and heap, before static initialisation and at exit, each search compared with a fresh process",
         "Search over seeded histories and environments."),
 "C10": (T + "seeded executions under schedules, interruptions, abandonment, exhausted memory, hostile surroundings and process phases, compared step by step with tables the compiler computed in constant expressions",
         "Search over seeded patterns, texts and situations; the texts are those the compiler evaluated (up to 700 bytes, fewer for heavy patterns). A search the compiler cannot evaluate is a violation, unless it hits a limit of the compiler."),
 "C11": (T + "seeded preemptive scheduling of 2-8 threads that share results read-only or hand them over at barriers, with threads that end (their stack and thread-local memory unmapped), abandoned calls and stalls; happens-before race check, every observation compared with the same calls on one thread",
         "Search over seeded histories and schedules. Hand-over is by barriers (every thread knows what all did before); within a phase a shared result is either read by all or used by one thread."),
}
F = {
 "F01": "The reported match is a pure function of pattern and text: it depends on no schedule, clock, I/O, fault or history, so there is nothing for a simulator to vary; it is a matter for differential testing against another engine.",
 "F02": "Which text a group captures in one match is a pure function of pattern and text; the parts that depend on history (captures surviving from earlier matches, copies, restarts) are claimed as C06 and C07.",
 "F03": "Relates two results computed at compile time from the same pattern; no schedule, fault or history is involved.",
 "F04": "Relates two patterns at compile time; no schedule, fault or history is involved.",
 "F06": "A compile-time fact about two patterns; no schedule, fault or history is involved.",
 "F07": "A pure function of one byte; nothing to schedule or inject.",
 "F08": "A property of what the compiler rejects; nothing runs.",
}
checks = [{"property": k, "quick_cmd": "python3 check.py --property %s --tier quick" % k, "thorough_cmd": "python3 check.py --property %s --tier thorough" % k,
           "technique": t, "level": "exploration", "level_note": n} for k, (t, n) in C.items()]
m = {"version": 1, "setup_cmd": "python3 check.py --build --tier quick", "checks": checks,
     "not_applicable": [{"property": k, "reason": r} for k, r in F.items()],
     "notes": "No hooks in /repo: the seam is compiler instrumentation and symbol redirection of the translation units that instantiate the library, built from /repo/src on every run. Replay: python3 check.py --replay FILE. Defects found and repaired are listed in known-findings.json and DESIGN.md."}
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "MANIFEST.json"), "w"), indent=1)
