#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json and /verif/tools/rules.json (one place to edit the texts about the checks)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
GEN = ("A run is one plan drawn from its own seed: a model (random blocks of the whole library, signal types, nesting, registration "
       "order, heap layout and fill), a simulator variant, a stepping method, a request sequence and faults, executed in a fresh "
       "process against the real library. ")
TRUST = ["the small reference models in /verif/sim agree with the property texts",
         "g++ -O1, debug configuration of the library (as its own build); results compared to relative 1e-7 or better",
         "user code is deterministic and reads only its block's inputs"]
R = {
"C01": ("Non-trivial: at least two evaluations were followed and at least two user-code blocks were executed.",
        "Every execution of a user-code block is checked as it happens: once per evaluation, inputs assigned, nothing left out at the end."),
"C02": ("Non-trivial: at least two requests compared in a model of at least two blocks.",
        "All signals compared with a reference evaluator after each request."),
"C03": ("Non-trivial: at least one fixed step compared.", "All signals after each step compared with Euler/RK4 of the reference evaluator to 1e-10."),
"C04": ("Non-trivial: at least one trial was rejected and one request compared.",
        "The real steppers run under a wrapper that replaces step-size proposals; observations of every evaluation and all signals compared with a reference that only takes the accepted steps."),
"C05": ("Non-trivial: at least three trials checked.",
        "Each trial re-computed by an independent RKF45; accept/repeat decision, growth and result checked; global error against a fine solution of the same problem."),
"C06": ("Non-trivial: at least two trials.", "A scripted stepping method proposes arbitrary sizes (NaN and infinities excluded); trial sequence checked for gap, overlap, bounds, exact landing and a bound on the number of trials."),
"C07": ("Non-trivial: at least two successful requests.", "Hook calls of probe blocks at every nesting depth checked against the accepted steps."),
"C08": ("Non-trivial: at least one refused or repeated request and one request compared after it.", "All signals compared with a reference that never saw the refused requests."),
"C09": ("Non-trivial: enough requests compared in a model with a memory or bus block.", "All signals compared with the reference evaluator after each request and, through probe blocks, in every evaluation."),
"C10": ("Non-trivial: enough requests compared in a model with a delay block.", "As C09, against a reference that keeps the complete history."),
"C11": ("Non-trivial: enough requests compared in a model with a derivative or initial-value block.", "As C09."),
"C12": ("Non-trivial: enough requests compared in a model with a triggered integrator.", "As C09, with scripted rejections of trial steps."),
"C13": ("Non-trivial: a fault fired and a later request was compared.", "User code throws at a chosen call; exception identity, committed steps, retried results and later error messages are checked."),
"C14": ("Non-trivial: an allocation failed and a later request or record was compared.", "The n-th allocation and a burst after it fail; guard bytes, poison and crash detection on; retried results compared with the reference."),
"C15": ("Non-trivial: more than one row recorded.", "Every accessor result compared with a list of rows after every operation."),
"C16": ("Non-trivial: at least one complete export was checked byte by byte.", "The file is compared with an independent rendering whenever no error was reported; opens, writes and closes fail, are cut short or interrupted at chosen places."),
"C17": ("Non-trivial: simulations were really interleaved (switches between threads, nested requests or alternating requests).", "Every request compared with the same request executed alone: outcome, error text, all signals, trials, recorded rows, labels, exported columns. One thread runs at a time; every user-code call, allocation, contended lock, entry of a library function and access of the library to static data is a switching point decided by the plan (the library is compiled with -fsanitize=thread and the harness's own runtime for that)."),
"C18": ("Non-trivial: the model cannot be ordered (or inputs are withheld) and was evaluated or refused.", "Executed set and once-only execution compared with the fixed point of a reference ordering; diagnostics parsed for block names."),
"C19": ("Non-trivial: a rule was broken and the outcome judged.", "A second driver, a wrong size or a premature read is planted at a chosen block and evaluation; the request must end with the library's error, later requests are compared."),
"C20": ("Non-trivial: a simulator was replaced and a later request was compared.", "All signals compared with the reference after a takeover by any variant, also right after failed requests."),
"C21": ("Non-trivial: at least two requests were repeated.", "Everything is done twice in one process, the second time with other heap contents and placement, a dirtied stack, possibly another thread, locale, environment and with the first model still there; all observations must be equal bit for bit."),
"C22": ("Non-trivial: a model was built, run and destroyed, or a long run was measured.", "The simulated heap counts what is in use: after each of five lives of the same model (with the same faults), and at a quarter and at the end of runs of hundreds to thousands of steps."),
"C23": ("Non-trivial: as for the property whose plan is executed.", "Plans of C01 to C13, C20 and C21 are executed in two builds of library and harness, one with debug checks at -O1, one with NDEBUG at -O2; hashes over everything observed must be equal, and the oracles of the other property must judge both alike."),
}
NA = {
"N01": "A pure function of the bus contents and the label: no schedule, clock, I/O, allocation policy or party the result could depend on, so there is nothing for a simulator to decide.",
"N02": "A pure function of the given name and the parents' names; no nondeterminism or fault is involved.",
"N03": "A pure check of the arguments of one connect call; no schedule, clock, I/O or fault is involved (the parts that show only while a simulation runs are in C19).",
}
LEVEL = ("Seeded search: evidence over the simulated runs counted in the evidence file, no proof. Trusted: the reference models and "
         "seams in /verif/sim, g++, and that the debug configuration at -O1 behaves like the shipped one (C23 compares it with an optimised build without debug checks; a fifth of the runs of C14, C15, C16, C18 and C22 are made in that build). ")
rules, checks = {}, []
for c, (nt, how) in R.items():
    rules[c] = {"rule": GEN + nt, "assumptions": TRUST}
    checks.append({"property": c, "quick_cmd": "python3 check.py " + c, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + c,
                   "technique": "deterministic simulation with fault injection (seeded search over schedules, time requests and faults; reference-model oracles)",
                   "level": "exploration", "level_note": LEVEL + how})
json.dump(rules, open(os.path.join(HERE, "rules.json"), "w"), indent=1)
json.dump({"version": 1, "setup_cmd": "python3 check.py --build", "checks": checks,
           "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
           "notes": "No hooks in /repo: every seam (user code, stepping method, heap, locks, file system calls) exists in the API or at link time. Replay: python3 check.py ID --replay FILE."},
          open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
