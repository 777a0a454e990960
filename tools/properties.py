"""the properties: (id, title, statement, over, quantifier text, why tests cannot, files, mechanism, state, observe)"""


def P(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over.split(), "text": text},
            "why_tests_cant": why,
            "anchors": {"files": files.split(),
                        "mechanism": [{"name": n, "where": w} for n, w in mech],
                        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                        "observe_at": list(observe), "hook_needed": None}}


PROPERTIES = [
    P("P01", "A satisfiable answer is a model that was checked against every clause",
      "Whenever the solver answers satisfiable, the reported literals are one per variable in increasing variable order "
      "and are exactly the assignment that, after being completed for eliminated variables, was evaluated on every clause "
      "still held and found to falsify none. A model that fails this check leads to an error, never to an answer.",
      "inputs histories configurations", "every formula, every sequence of calls and every configuration",
      "the tests solve a few dozen fixed formulas; the guarantee must hold on every path to a satisfiable answer",
      "src/solver/search.rs src/cdb/db.rs src/solver/validate.rs",
      [("solve", "src/solver/search.rs"), ("validate / evaluate", "src/cdb/db.rs")],
      observe=["Certificate::SAT returned by solving", "splr's v-line"]),
    P("P02", "Unsatisfiable is answered only for a derived contradiction",
      "Whenever the solver answers unsatisfiable, one of its reasoning steps reported a contradiction at the root level, "
      "an empty clause or a clash of fixed literals. Running out of time or memory, I/O problems and internal faults are "
      "never turned into an unsatisfiable answer.",
      "inputs histories configurations fault_sequences", "every formula and every failure of an intermediate step",
      "no test makes an intermediate step fail, so a mapping of errors to answers is never exercised",
      "src/solver/search.rs src/solver/conflict.rs src/solver/mod.rs src/solver/build.rs",
      [("answer construction", "src/solver/search.rs"), ("error variants", "src/types/mod.rs")],
      observe=["Certificate::UNSAT"]),
    P("P03", "No contradiction or failure reported by a step is dropped",
      "When propagation, simplification, vivification, clause addition or an assignment reports a contradiction or a "
      "failure, every caller either passes it on, acts on it, or stops; no such result is ignored and solving never "
      "continues as if the step had succeeded.",
      "inputs histories fault_sequences", "every call of a step that can fail, on every path",
      "tests only see the contradictions their formulas happen to reach; an ignored result shows up as a wrong answer on "
      "rare inputs",
      "src/solver/search.rs src/solver/conflict.rs src/processor/simplify.rs src/processor/eliminate.rs "
      "src/processor/subsume.rs src/cdb/vivify.rs src/assign/propagate.rs",
      [("MaybeInconsistent / PropagationResult", "src/types/mod.rs")], observe=["answers of the solver"]),
    P("P04", "Every derived clause is in the proof before it is relied upon",
      "With proof output enabled, each literal fixed by a derivation step and each learnt, resolved or shortened clause is "
      "written to the proof before it takes effect and before the clauses it replaces are deleted from the proof. Apart "
      "from these, only literals supplied by the user and literals found by unit propagation are ever fixed.",
      "inputs histories", "every derivation step of every run with proof output enabled",
      "no test checks a proof; a missing or late line only matters for particular derivations",
      "src/cdb/db.rs src/cdb/vivify.rs src/processor/eliminate.rs src/processor/subsume.rs src/solver/conflict.rs "
      "src/assign/propagate.rs src/solver/search.rs",
      [("proof store", "src/cdb/unsat_certificate.rs"), ("clause creation and shortening", "src/cdb/db.rs")],
      observe=["the proof file"]),
    P("P05", "Deletions in the proof match the clauses really dropped",
      "Each clause removed from the database writes exactly one deletion line holding all of its literals, each shortened "
      "clause deletes exactly its previous form after the new form was added, and nothing else writes deletions. Trial "
      "clauses used during tentative reasoning leave no trace in the proof.",
      "inputs histories", "every removal or shortening of a clause in every run",
      "no test checks a proof; a wrong deletion makes a checker reject an otherwise right proof",
      "src/cdb/db.rs src/cdb/unsat_certificate.rs", [("removal", "src/cdb/db.rs"), ("shortening", "src/cdb/db.rs")],
      observe=["the proof file"]),
    P("P06", "The proof file is written faithfully and completed",
      "With proof output enabled the proof is created in the requested directory under the requested name, each recorded "
      "addition and deletion becomes one line with all its literals in order and a terminating zero, deletions carry their "
      "marker, and an unsatisfiable run of the solver program ends the proof with the empty clause and flushes it. A "
      "failure to create, write or complete the file is reported.",
      "inputs histories fault_sequences", "every recorded line, and every I/O failure while writing the proof",
      "no test reads a proof or makes its file unwritable",
      "src/cdb/unsat_certificate.rs src/solver/mod.rs src/bin/splr.rs",
      [("proof store", "src/cdb/unsat_certificate.rs")], observe=["the proof file"]),
    P("P07", "Eliminated variables get values that satisfy the removed clauses",
      "Before a variable is eliminated the clauses needed to rebuild its value are saved, saved clauses are handed to the "
      "assignment after every simplification, and completing a model replays them from the latest to the earliest, "
      "changing a value only where a saved clause would otherwise be unsatisfied.",
      "inputs histories", "every elimination in every order, and every model",
      "tests reach few eliminations and check answers only for small formulas",
      "src/processor/eliminate.rs src/processor/simplify.rs src/assign/stack.rs src/solver/search.rs",
      [("saving removed clauses", "src/processor/eliminate.rs"), ("completing a model", "src/assign/stack.rs")],
      observe=["Certificate::SAT"]),
    P("P08", "A clause of the problem is never forgotten while it is needed",
      "Clean-up between searches removes only learnt clauses; a clause of the problem leaves the database only when it is "
      "satisfied by fixed literals, replaced by a shorter clause, contained in another clause, or resolved away by "
      "eliminating a variable. When a learnt clause takes over for a problem clause it becomes permanent.",
      "inputs histories", "every clause removal in every run",
      "a lost clause only turns an unsatisfiable formula satisfiable on particular runs",
      "src/cdb/db.rs src/processor/subsume.rs src/processor/eliminate.rs src/cdb/vivify.rs src/assign/propagate.rs",
      [("reduce", "src/cdb/db.rs"), ("subsumption", "src/processor/subsume.rs")], observe=["answers of the solver"]),
    P("P09", "Invalid literals are refused wherever clauses enter the library",
      "Every entry point that takes literals as integers (solving a vector, building from a vector, adding a clause, "
      "adding or injecting assignments, reading a file) refuses zero, literals beyond the declared variables and the most "
      "negative integer with an invalid-literal error before using them.",
      "inputs", "every integer in every position at every entry point",
      "tests pass a few bad values to some of the entry points",
      "src/solver/build.rs src/solver/validate.rs src/solver/mod.rs src/types/cnf.rs",
      [("range checks", "src/solver/build.rs")], observe=["results of the entry points"]),
    P("P10", "Loading a CNF file never crashes and never drops a clause",
      "For any file contents the loader either adds every clause of the file, read up to its terminating zero, or returns "
      "an error; unreadable tokens, malformed headers and read failures are errors, and no input makes it panic.",
      "inputs fault_sequences", "every byte sequence and every read failure",
      "tests load well-formed files only", "src/solver/build.rs src/types/cnf.rs",
      [("reader", "src/types/cnf.rs"), ("clause injection", "src/solver/build.rs")], observe=["result of loading a file"]),
    P("P11", "Clause indexes stay in step with the clauses",
      "Whenever a clause is created, removed, shortened or changes the literals it is watched by, its entries in the watch "
      "lists and in the index of two-literal clauses are changed with it, in both directions and for both literals.",
      "inputs histories", "every clause update in every run",
      "a missing entry only delays or loses a propagation on particular runs",
      "src/cdb/db.rs src/cdb/binary.rs src/cdb/watch_cache.rs", [("index updates", "src/cdb/db.rs")],
      observe=["answers of the solver"]),
    P("P12", "Undoing decisions restores the assignment",
      "Going back to an earlier decision level unassigns exactly the variables assigned above that level, forgets their "
      "reasons, makes them selectable again, keeps everything below, and leaves trail, levels and propagation pointer "
      "consistent.",
      "inputs histories", "every backtrack in every run",
      "tests see only the final answers of few runs", "src/assign/propagate.rs", [("cancel_until", "src/assign/propagate.rs")],
      observe=["answers of the solver"]),
    P("P13", "Decisions are made only on free variables",
      "The search decides only on variables that are unassigned and not eliminated, every unassigned variable can still be "
      "selected, and the search claims completion only when no selectable variable is left.",
      "inputs histories", "every decision in every run", "tests see only the final answers of few runs",
      "src/assign/select.rs src/assign/heap.rs src/solver/search.rs src/assign/stack.rs",
      [("select_decision_literal", "src/assign/select.rs"), ("variable heap", "src/assign/heap.rs")],
      observe=["answers of the solver"]),
    P("P14", "The clause database is rewritten only at the root level",
      "Clause reduction, simplification, vivification, variable elimination and the clean-up of satisfied clauses start "
      "only after every decision has been undone.",
      "inputs histories", "every point at which the database is rewritten",
      "a rewrite under decisions gives wrong clauses only on particular runs",
      "src/solver/search.rs src/cdb/vivify.rs src/processor/simplify.rs src/assign/propagate.rs",
      [("search loop", "src/solver/search.rs")], observe=["answers of the solver"]),
    P("P15", "A saved trail is never replayed after it became invalid",
      "Literals remembered from an abandoned trail are reused only while the clauses that implied them still exist: every "
      "step that removes or rewrites clauses drops the remembered trail, and a reused literal is re-checked against the "
      "current assignment.",
      "inputs histories", "every reuse of remembered literals", "reuse of a stale literal needs a rare interleaving",
      "src/assign/trail_saving.rs src/assign/propagate.rs src/solver/search.rs",
      [("trail saving", "src/assign/trail_saving.rs")], observe=["answers of the solver"]),
    P("P16", "Time and clause limits stop the run with the matching error",
      "When the configured time limit has passed, the run ends with a time-out error at the end of the current stage; when "
      "the configured clause limit is exceeded it ends with an out-of-memory error. Neither error occurs while the limits "
      "are respected, and a limit is measured against the configured value.",
      "inputs configurations histories", "every limit value and every moment at which it is exceeded",
      "tests never run into a limit", "src/solver/search.rs src/state.rs src/cdb/db.rs",
      [("limits", "src/solver/search.rs"), ("elapsed", "src/state.rs"), ("check_size", "src/cdb/db.rs")],
      observe=["result of solving"]),
    P("P17", "The solver program's exit status, messages and result file agree",
      "The command-line solver exits with 10, prints SATISFIABLE and writes the model when the answer is satisfiable; exits "
      "with 20 and prints UNSATISFIABLE when it is unsatisfiable; a run that starts on its input but reaches neither prints "
      "UNKNOWN and exits with another status. The result file, written where the options ask, carries the same verdict, and the model lists every literal followed by zero.",
      "inputs configurations fault_sequences", "every run of the program and every outcome",
      "no test runs the program", "src/bin/splr.rs", [("reporting", "src/bin/splr.rs")],
      observe=["standard output", "exit status", "result file"]),
    P("P18", "Each command-line option changes the setting it documents",
      "Every option named in the help text is accepted, in its long and short form, consumes an argument exactly when the "
      "help text says so, and changes the documented setting and no other; an unknown option or a bad argument stops the "
      "program with a message.",
      "inputs configurations", "every option and argument", "no test parses options", "src/config.rs",
      [("option parser", "src/config.rs"), ("help text", "src/config.rs")], observe=["behaviour of the program"]),
    P("P19", "The model checker accepts exactly the assignments that satisfy the CNF",
      "The stand-alone checker reports an assignment as valid only after it was loaded without a clash and every clause of "
      "the CNF was evaluated under it, and otherwise reports the offending clause or the failure.",
      "inputs fault_sequences", "every CNF and every assignment file", "no test runs the checker",
      "src/bin/dmcr.rs src/solver/validate.rs src/solver/build.rs", [("verdict", "src/bin/dmcr.rs")],
      observe=["standard output"]),
    P("P20", "The search does not depend on time, chance or the environment",
      "Apart from the time limits of a run and of one simplification pass, what the solver derives and in which order "
      "depends only on the formula, the configuration and the calls made: no reasoning step reads a clock, a random source, "
      "an address or the environment, or lets the order of a hash table show.",
      "inputs schedules configurations", "every run of the same input", "tests run once and compare verdicts only",
      "src", [("deterministic steps", "src")], observe=["answers, models and proofs of repeated runs"]),
    P("P21", "Solver instances do not influence each other",
      "The library keeps no mutable state shared between solvers: two solvers, including a solver and its clone, can run in "
      "any order or at the same time without changing each other's answers or files.",
      "schedules histories", "every interleaving of several solvers", "tests use one solver per process",
      "src", [("no global state", "src")], observe=["answers of concurrent solvers"]),
    P("P22", "The library touches only the files and streams it was asked to",
      "The library opens no file except the input it was given and the outputs requested, starts no process, never ends the "
      "process, and writes to standard output or standard error only for progress reports the configuration asked for and "
      "for warnings about an input file it cannot read or finds incomplete.",
      "inputs configurations", "every call of the library", "tests do not observe files or output",
      "src", [("I/O sites", "src")], observe=["file system, standard output"]),
    P("P23", "Tables indexed by variable or literal always cover every variable",
      "Every table indexed by a variable has an entry for each declared variable, and every table indexed by a literal has an entry "
      "for both literals of it, from the moment a solver is built. Adding a variable extends each of them, and the counts that later "
      "tables are sized from, exactly as needed before the variable can be used; no such table is ever shortened or replaced. A new "
      "clause's number is its place in the clause table. The accesses made without bounds checks use plain variables, literals, "
      "clause numbers or enumerators as indexes, and loops over all variables stop at the last one.",
      "inputs histories", "every input and every sequence of added variables",
      "an out-of-range access needs particular inputs or added variables and may go unnoticed",
      "src/assign/stack.rs src/assign/heap.rs src/cdb/db.rs src/cdb/binary.rs src/processor/simplify.rs src/processor/heap.rs "
      "src/solver/build.rs src/solver/search.rs src/state.rs",
      [("growth on new variables", "src/solver/build.rs"), ("unchecked accesses", "src/assign/stack.rs")],
      observe=["no out-of-range panic or undefined behaviour"]),
    P("P24", "Statistics about clauses match the clauses",
      "The counts of clauses, two-literal clauses and learnt clauses change by exactly one with each creation, removal or "
      "reclassification of a clause.",
      "inputs histories", "every clause update", "tests do not read the counters",
      "src/cdb/db.rs", [("counters", "src/cdb/db.rs")], observe=["progress report", "clause limit"]),
    P("P25", "Documented feature combinations compile",
      "The crate compiles with its default features, without any one of them, without all of them, and with each optional "
      "feature added.",
      "configurations", "every single-feature change of the default configuration",
      "the tests build one configuration", "Cargo.toml src", [("feature gates", "src")], observe=["cargo build"]),
    P("P26", "Literals, variables and integers convert without loss",
      "Converting an integer to a literal and back gives the same integer for every valid value, negation flips the sign "
      "and keeps the variable, and index, sign and order of a literal agree with each other.",
      "inputs", "every variable index and sign", "tests convert a handful of values", "src/types/lit.rs",
      [("literal encoding", "src/types/lit.rs")], observe=["literals of answers"]),
    P("P27", "The CNF utility keeps every clause it is given",
      "A CNF built, loaded or parsed through the utility interface holds every clause given to it, and saving it writes a "
      "header with the right counts followed by every clause; malformed files and failed writes are errors.",
      "inputs fault_sequences", "every list of clauses of nonzero literals, and every file", "tests round-trip one small CNF", "src/cnf/mod.rs",
      [("CNF", "src/cnf/mod.rs")], observe=["contents of the CNF and of saved files"]),
    P("P28", "A learnt clause takes effect after every conflict",
      "After each conflict that does not end the search, the learnt clause is stored (or, if it is one literal, fixed), the search "
      "goes back to the level the clause asks for and assigns its asserting literal there with that clause as reason - or, when it "
      "chose to go back further, leaves the literal open - and the marks used by the analysis are all cleared.",
      "inputs histories", "every conflict", "tests see only final answers",
      "src/solver/conflict.rs", [("conflict handling", "src/solver/conflict.rs")], observe=["progress of the search"]),
    P("P30", "Tentative assignments are undone before results are used",
      "Assignments tried while shortening clauses are undone before any literal is fixed, any clause is added or removed, "
      "and before the step ends, so nothing that was only assumed is kept.",
      "inputs histories", "every trial on every path", "a leaked assumption needs a particular order of trials",
      "src/cdb/vivify.rs src/assign/propagate.rs", [("trial propagation", "src/cdb/vivify.rs")],
      observe=["answers of the solver"]),
    P("P31", "A removed clause is never used again",
      "Every sweep over the stored clauses skips the removed ones, a removed slot is reused only through the free list after "
      "being emptied, and it enters that list exactly once per removal.",
      "inputs histories", "every clause slot and its reuse", "reuse needs particular sequences of removals",
      "src/cdb/db.rs src/processor/simplify.rs src/assign/propagate.rs", [("free list", "src/cdb/db.rs")],
      observe=["answers of the solver"]),
    P("P32", "Propagation examines every clause watched by a falsified literal",
      "When a literal becomes false, propagation visits every two-literal clause and every longer clause watched by it, and "
      "each watched clause is kept, moved to a new watch, made to imply its last literal, or reported as conflicting; on a "
      "conflict the unvisited entries are kept.",
      "inputs histories", "every assignment and every watch list", "a lost watch only matters for later propagations",
      "src/assign/propagate.rs src/cdb/watch_cache.rs", [("propagation", "src/assign/propagate.rs")],
      observe=["answers of the solver"]),
    P("P33", "A derived clause leaves out only literals its rule allows",
      "Whenever a clause is derived from stored clauses (resolution, dropping one literal that a unit contradicts, "
      "simplification by fixed literals, minimisation, vivification, conflict analysis), every literal of the clauses it is "
      "made of is kept, with its sign, except the two literals resolved on, repetitions, literals false at root level, and "
      "literals shown redundant by following every reason (a clause or a binary link) down to literals that are kept; and "
      "it is stored or fixed as it was derived.",
      "inputs histories", "every derivation on every path", "a literal lost in a derivation changes an answer only when that "
      "clause decides it, so sampled formulas still get the right answer",
      "src/solver/conflict.rs src/processor/eliminate.rs src/processor/subsume.rs src/cdb/db.rs src/cdb/vivify.rs",
      [("resolution", "src/processor/eliminate.rs"), ("conflict analysis and minimisation", "src/solver/conflict.rs"),
       ("vivification", "src/cdb/vivify.rs")],
      observe=["answers of the solver"]),
    P("P34", "Only pure or implied literals are fixed before the search",
      "Before the search a variable may be fixed although nothing implies it only if one of its signs occurs in no clause of the "
      "database, and then to the other sign; the numbers of occurrences this rests on are handed out only while the occurrence "
      "lists are in use and complete for that variable, whatever the configuration.",
      "inputs", "every formula and configuration", "a wrongly fixed variable changes an answer only when no model has that value, so "
      "sampled formulas and the default configuration still get the right answer",
      "src/solver/search.rs src/processor/simplify.rs", [("pure literals", "src/solver/search.rs")],
      observe=["answers of the solver", "proof"]),
    P("P40", "Every learnt clause is a logical consequence of the formula",
      "Each clause obtained by conflict analysis, minimisation, resolution or shortening follows from the clauses present.",
      "inputs histories", "every derivation", "tests sample few derivations",
      "src/solver/conflict.rs src/processor/eliminate.rs src/cdb/vivify.rs", [("conflict analysis", "src/solver/conflict.rs")]),
    P("P41", "The solver always terminates with an answer",
      "Without limits every run ends with satisfiable or unsatisfiable.",
      "inputs", "every formula", "tests use formulas known to end quickly", "src/solver/search.rs",
      [("restarts and clause reduction", "src/solver/search.rs")]),
    P("P42", "Propagation reaches a complete fixpoint",
      "When propagation ends without conflict no clause is falsified and none has a single unassigned literal left.",
      "inputs histories", "every assignment and clause set", "tests see only final answers",
      "src/assign/propagate.rs", [("two-watched literals", "src/assign/propagate.rs")]),
    P("P43", "Heuristic averages and clause ranks are numerically right",
      "Moving averages, restart thresholds, clause ranks and variable activities equal their defining formulas.",
      "inputs histories", "every update sequence", "tests check a few values", "src/types/ema.rs src/solver/restart.rs "
      "src/types/clause.rs", [("averages", "src/types/ema.rs")]),
    P("P44", "Memory stays proportional to the clauses kept",
      "Memory use is bounded by a constant times the clauses and variables held.",
      "inputs histories", "every run", "tests do not measure memory", "src/cdb/db.rs", [("clause reuse", "src/cdb/db.rs")]),
]

NOT_APPLICABLE = {
    "P40": "needs the meaning of the derived literal lists (which literals resolve, which levels they have): runtime values "
           "no sound source-level argument in reach bounds; the structural parts are claimed separately (P04, P28, P30, P33)",
    "P41": "termination depends on numeric heuristics (restart and reduction schedules) over runtime values",
    "P42": "the fixpoint quantifies over the contents of watch lists and the assignment at run time; the per-step part is "
           "claimed as P11 and P32",
    "P43": "equality of floating-point values over update histories is a numeric property",
    "P44": "a quantitative bound over run histories",
}
