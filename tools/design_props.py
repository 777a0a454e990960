"""what each check enumerates, against what, and what stays undecided (DESIGN.md is generated from this)"""
D = {}
D["P01"] = ("""Anchor: `Solver::solve` (helpers expanded), `ClauseDB::validate`, `Clause::evaluate`. All paths from the entry to
each construction of `Certificate::SAT` must pass `extend_model`, then `validate` on that very value with answer `None`; no
clause-changing call lies between validation and answer. The reported vector must be the extended model over variables
1..n: start of the iteration, no dropping/reordering adapter, sign and variable of each literal taken from the same index
(index, enumeration and push-loop forms are recognised). `validate` must evaluate every live clause (skipping only dead, or
learnt in strict mode), must not stop early and may only answer `None` after the loop is exhausted; `evaluate` is decided per
literal case.""", "that the clauses held are equisatisfiable with the input (P04/P08 cover the steps)")
D["P02"] = ("""Every construction of `Certificate::UNSAT` and `Err(EmptyClause/RootLevelConflict/...)` is found; each is
reachable only through an edge on which a named reasoning procedure reported a contradiction, and an interprocedural
may-return analysis shows that the error variants of that procedure exclude resource, I/O and internal errors.""",
            "soundness of the contradiction itself")
D["P03"] = ("""All call sites of functions whose resolved return type can carry a contradiction or failure
(`MaybeInconsistent`, `PropagationResult`, `Result<_, SolverError>`, `RefClause`, ...), in the library: the result must be
inspected or returned, each failing branch must end in an error/contradiction result, and a `UnitClause` result must be
asserted at the root unless the literal is already true. A frozen table lists the confirmed exceptions.""", "")
D["P04"] = ("""Path automaton over each function that shortens, merges or learns: on every path a change of a clause's
literal list is followed by an addition of the new content before the deletion of the old one, and each root assignment
(outside propagation and user input) is preceded by `certificate_add_assertion` of the same literal. New clauses are recorded
whole in `new_clause`.""", "whether a line is implied by the earlier ones (RUP) - that needs clause contents")
D["P05"] = ("""Who-may-call analysis of `delete_clause` plus the automaton of P04 for deletions; removal deletes exactly the
stored list, once, before it is cleared; sandbox clauses write nothing.""", "")
D["P06"] = ("""`CertificationStore`: every queued line is header (signed length) then all literals; the writer emits marker,
literals, terminator for each queued line and empties the queue only afterwards; `close` flushes, writes the final line;
the file is created at `io_odir`/`io_pfile`; in `splr`'s main every path that reports UNSAT passes `save_certification`
before exit.""", "three known findings: I/O failures while creating/writing/closing are silent")
D["P07"] = ("""`eliminate_var` saves the clauses of the variable (and the default literal) before any of them is removed and
marks the variable only afterwards; `simplify` hands the saved list over on every path; `extend_model` reads the stack from
the end, in blocks, and changes a value only when the block's clause is otherwise unsatisfied (decided on the guards of the
write, loop forms for/while/rev recognised).""", "that the saved clauses suffice mathematically")
D["P08"] = ("""Every call of `remove_clause` (through any helper) is found and must be guarded by the condition that makes
it legal at that site: learnt (`reduce`), satisfied, shortened (replacement recorded), contained in a kept clause, all
resolvents built. `make_permanent` accompanies each subsumption of a problem clause by a learnt one; the LEARNT flag
decided at creation is right for learnt/resolved clauses. What variable elimination rests on is decided as well: the occurrence
lists are complete when it starts (every live clause is entered under every literal, a refused entry stops the pass), entries leave
only with their clause or their literal, new resolvents are entered, the pairs are formed over the whole lists, and the bit
operations on the marks (set, clear, test) do what they say.""", "that a resolvent contains the right literals")
D["P09"] = ("""Every place where an integer becomes a literal (by type) is found; the classes {0, i32::MIN, < -n, valid,
> n} are followed through the comparisons on the way for every entry point; each invalid class must end in
`InvalidLiteral` before the conversion.""", "")
D["P10"] = ("""The loaders (`Config`/file to `CNFReader`, `build.rs`) as path automata: every token either extends the
current clause, ends it at 0 (clause added), or is an error; read failures are errors; no `unwrap`, index, slice or
arithmetic that input controls is reachable unguarded.""", "memory exhaustion by a header with very many variables")
D["P11"] = ("""Abstract interpretation of the clause procedures (`new_clause`, `remove_clause`, `transform_by_elimination`,
`transform_by_simplification`, `make_permanent`, `transform_by_updating_watch`) for each of ~60 cases (length 2 / 3 / more,
which literal is dropped or moves, which watches stay): at every return the clause must be watched by exactly its first
two literals under their negations with the other one as blocker, or be in the pair index under exactly its own literals.
Fixed arrays are iterated element by element. The list operations and the pair key are separate dataflow rules.""",
            "the contents of other clauses' entries")
D["P12"] = ("""`cancel_until` and the assignment functions: order, loop coverage and values of every write to assignment,
level, reason, trail, level marks, propagation head; who-may-write table for the assignment.""",
            "chronological backtracking (feature off by default)")
D["P13"] = ("""`select_decision_literal`, heap insertion/removal, and the search loop: a decision is guarded by
unassigned-and-not-eliminated; every unassignment puts the variable back; completion is claimed only when the heap is
exhausted. The heap itself: insertion, removal of the root and both sifts move every entry together with its index, compare the
activity of the right variables and go on until the order holds.""", "that the order is the best for speed")
D["P14"] = ("""Typestate (root / maybe above) with summaries over the whole call graph: rewriting steps are reached only in
the state root. Level raising, lowering and testing functions are the transfer functions.""", "")
D["P15"] = ("""Typestate of the saved trail (none / current / stale) with summaries; reuse re-checks the assignment and the
reason.""", "that an existing reason still implies its literal (the method's own invariant)")
D["P16"] = ("""`elapsed` divides time since start by the configured timeout; `TimeOut` is guarded by fraction >= 1 and the
test is on every path from the end of a stage back to the loop; stages are tested on each conflict; `check_size` compares
the clause count with the configured limit and is called on the loop. The schedule of stages, on which the tests depend, is decided
as well: the count of conflicts starts at a constant, goes up by exactly one for each conflict that counts (the end is tested by
equality, so a jump would never meet it), each end sets the next one ahead of the count, on every path, and `initialize` sets
the first.""", "punctuality")
D["P17"] = ("""`splr` main as a state machine over outcome (SAT/UNSAT/unknown/loading failed): words printed, exit code,
result-file content and order per path. Model line: every literal, then 0.""", "layout of statistics")
D["P18"] = ("""Constant propagation through the option parser once per option in the help text (long, short, unknown):
fields written, arguments consumed, failure paths.""", "")
D["P19"] = ("""`dmcr` main as a state machine over (loaded, clash, validator answer) against the verdict printed; the value
line reader, `inject_assignment` and `validate(strict)` by dataflow rules.""", "exit codes, several value lines")
D["P20"] = ("""Effect analysis: every call leaving the crate is classified; clock values may only feed the two stop
tests; hash-table iteration may not reach anything ordered.""", "determinism of std")
D["P21"] = ("""All statics, all field types reachable from `Solver`, all impls of `Clone`: no interior-mutable global, no
shared-memory type, no file handle shared by clones, no process-wide effect.""", "")
D["P22"] = ("""All file, stream and process calls of the library with their guards and paths.""", "")
D["P24"] = ("""The interpreter of P11, on the three counters and the LEARNT flag; plus who-may-write.""", "")
D["P25"] = ("""The compiler type-checks the default configuration, each default feature removed, all removed, each optional
feature added; a frozen list of known findings (error code per variant) covers combinations that never compiled.""",
            "combinations of two or more changes (some in thorough)")
D["P26"] = ("""Affine abstract domain a*v+b per sign: each conversion and comparison of `Lit` for every variable at once.""", "")
D["P27"] = ("""`cnf` module: each builder/loader/saver as path automaton: every clause kept, header counts, all failures
reported.""", "clauses containing a zero literal")
D["P28"] = ("""`handle_conflict` as a state machine over the level returned to: learnt clause stored or fixed, asserting
literal assigned with that clause as reason iff the level fits; analysis marks are cleared on every path.""",
            "the learnt clause itself")
D["P30"] = ("""Typestate of trial decisions in `vivify` and other sandboxes: nothing fixed, added, removed or returned
while a trial is in force.""", "")
D["P31"] = ("""Slot life cycle in the interpreter (freed once, emptied, reused only from the list with fresh flags); each sweep
tests `is_dead` (guards, `filter` adapters upstream of loops and closures) before using a clause; occurrence lists forget a
clause before it is removed.""", "")
D["P32"] = ("""One visit of a watch entry by `propagate` / `propagate_sandbox` interpreted for every combination of values
(true/false/unassigned) of watched, cached, other literals: kept, moved, implied or conflict; list hand-over on conflict;
binary clauses visited.""", "saved-trail reuse")
D["P23"] = ("""Interprocedural: `Solver::instantiate` and `Eliminator::instantiate` are flattened with every constructor they call, and the
initial length of each table (`AssignStack.var`, both arrays of `VarIdHeap`, `ClauseDB.watch_cache`, `BinaryLinkDB.list`, `lbd_temp`,
`Eliminator.var`, both arrays of `VarOccHeap`) is computed as an affine term of `num_of_variables` (allocations, `resize`, `extend`,
`collect`, and loops whose trip count is affine are summed up); it must be at least `nv+1`, or `2(nv+1)` for tables of literals.
`Solver::add_var` is flattened with its handlers; the least growth of every table over all paths must be 1 (2), `num_vars` and the
stored variable counts must grow by exactly 1, and each `Eliminator::instantiate` call must be given a description that add_var updates
(this rule found defect 7929b3d). Then: calls that shorten a table or assignments that replace one anywhere in the crate; the number of
a new clause against the length of the table at that time; the index term of each of the ~80 `*_unchecked` calls; the bounds of loops
whose element indexes a table of variables.""", "Sizes are relative to the declared number of variables; that stored literals stay "
"below it is P09/P10/P26. Indexes within a clause are not bounded.")
D["P33"] = ("""Every place that leaves literals out of a clause is found and each way out is judged from the facts that hold there
(closures of `filter`/`retain`/`any`/`all` are followed as part of the caller; a boolean is expanded into the sets of facts under
which it has a value). Resolution (`merge`): both clauses contribute, an element is left out only if its variable is the resolved
one or the same literal is in the other clause (one side only), and "no resolvent" needs a complementary pair other than the
resolved one. Dropping one literal: only that literal. Simplification: false literals (or assigned ones after a true one has been
asked for). Strengthening: the literal passed on is the complement of a literal that is a clause by itself. Minimisation: a literal
goes only if `is_redundant` said so, or a binary clause of the asserting literal contains its complement; `is_redundant` follows
every other literal of every reason (binary link and clause), skips only marked or root-level literals, gives up on decisions, and says yes only
when nothing is left. Vivification: `analyze_sandbox` marks all conflicting literals, walks the trail down without gaps, marks all
literals of each reason met, is given every decision of the trial, returns exactly the negations of the marked decisions. Conflict analysis: every literal of each reason
is marked and counted or kept with the right sign. Lists are neither edited nor cut between derivation and storage.""",
"That the recorded reasons really imply their literals is P11, P12, P28 and P32; numbers compared (levels) are matched by what "
"they are read from. Subsumption finding nothing to strengthen is allowed (it is a missed improvement, not an error).")
D["P34"] = ("""`Solver::solve` (with any new helper inlined): every root-level assignment and proof addition whose literal is made from a
variable and a sign is a site. The two occurrence counts (`stats`' payload, or the lengths of the lists) are given the values 0, 1, 2, 1000 and 10^6 each;
for each pair, branches whose condition evaluates to the contrary are cut, and the site must be unreachable within the
iteration when both counts are positive and have the sign left over when one is zero (the sign is evaluated too, through locals and
negations); the variable must be the one counted. `Eliminator::stats` must return the positive length first and be `Some` only under the
facts "running" and "not aborted". The rule found a defect: with `enable_eliminator: false` the lists are empty, every variable
counted as pure was fixed to true, and satisfiable formulas were answered UNSAT (fixed).""", "Other counts are taken to behave as one of the five tried; that the lists hold every clause is P08's part (occurrence lists)")
