from cases import bug, same
from cases_bugs import S, DB, VIV, EL, SI, SU, CO, BU, ST, STK, PR, BIN, WC, SEL, CF, UC, CNF

# ---- P11
bug("p11-add-one", "P11", (BIN, "        self.list[lit1].push((lit0, cid));\n", ""))
bug("p11-add-same", "P11", (BIN, "self.list[lit1].push((lit0, cid));", "self.list[lit1].push((lit1, cid));"))
bug("p11-add-once", "P11", (BIN, "self.list[lit0].push((lit1, cid));", "if !self.list[lit0].iter().any(|p| p.1 == cid) {\n            self.list[l0].push((lit1, cid));\n        }"))
bug("p11-remove-one", "P11", (BIN, "        self.list[lit1].delete_unstable(|p| p.0 == lit0);\n", ""))
bug("p11-remove-hash-only", "P11", (BIN, "self.list[lit0].delete_unstable(|p| p.0 == lit1);", "self.list[lit0].delete_unstable(|p| p.0 == lit0);"))
bug("p11-remove-unordered", "P11", (BIN, """        self.hash.remove(&(l0, l1));
        self.list[lit0].del""", """        self.hash.remove(&(lit0, l1));
        self.list[lit0].del"""))
bug("p11-search-unordered", "P11", (BIN, "self.hash.get(&(l0, l1))", "self.hash.get(&(lit0, l1))"))
bug("p11-remove-no-hash", "P11", (BIN, "        self.hash.remove(&(l0, l1));\n", "        let _ = (l0, l1);\n"))
bug("p11-new-blocker", "P11", (DB, "watch_cache[!l0].insert_watch(cid, l1);\n            watch_cache[!l1].insert_watch(cid, l0);", "watch_cache[!l0].insert_watch(cid, l1);\n            watch_cache[!l1].insert_watch(cid, c.lits[2]);"))
bug("p11-new-sign", "P11", (DB, "watch_cache[!l0].insert_watch(cid, l1);\n            watch_cache[!l1].insert_watch(cid, l0);", "watch_cache[!l0].insert_watch(cid, l1);\n            watch_cache[l1].insert_watch(cid, l0);"))
bug("p11-rm-one", "P11", (DB, "        watcher[usize::from(!l1)].remove_watch(&cid); // .expect(\"db1077\");\n", ""))
bug("p11-rm-after-len", "P11", (DB, "    if c.len() == 2 {\n        binary_link\n", "    if c.len() == 2 && !c.is(FlagClause::LEARNT) {\n        binary_link\n"))
bug("p11-elim-32-watch", "P11", (DB, "            watch_cache[!l0].remove_watch(&cid);\n            watch_cache[!l1].remove_watch(&cid);\n            binary_link.add(lits[0], lits[1], cid);", "            watch_cache[!lits[0]].remove_watch(&cid);\n            watch_cache[!lits[1]].remove_watch(&cid);\n            let _ = (l0, l1);\n            binary_link.add(lits[0], lits[1], cid);"))
bug("p11-simp-no-binary", "P11", (DB, """                binary_link.add(l0, l1, cid);
                std::mem::swap(&mut c.lits, &mut new_lits);
                self.num_bi_clause += 1;""", """                if !c.is(FlagClause::LEARNT) {
                    binary_link.add(l0, l1, cid);
                }
                std::mem::swap(&mut c.lits, &mut new_lits);
                self.num_bi_clause += 1;"""))
bug("p11-simp-watch-late", "P11", (DB, """                watch_cache[!c.lits[0]].remove_watch(&cid);
                watch_cache[!c.lits[1]].remove_watch(&cid);
                binary_link.add(l0, l1, cid);
                std::mem::swap(&mut c.lits, &mut new_lits);
""", """                binary_link.add(l0, l1, cid);
                std::mem::swap(&mut c.lits, &mut new_lits);
                watch_cache[!c.lits[0]].remove_watch(&cid);
                watch_cache[!c.lits[1]].remove_watch(&cid);
"""))
bug("p11-simp-update", "P11", (DB, """                    watch_cache[!old_l0].remove_watch(&cid);
                    watch_cache[!l0].update_watch(cid, l1);
                    watch_cache[!l1].insert_watch(cid, l0);
                } else if old_l1 == l1 {""", """                    watch_cache[!old_l0].remove_watch(&cid);
                    watch_cache[!l0].insert_watch(cid, l1);
                    watch_cache[!l1].update_watch(cid, l0);
                } else if old_l1 == l1 {"""))
bug("p11-updating-new", "P11", (DB, "watch_cache[!c.lits[new]].insert_watch(cid, c.lits[other]);", "watch_cache[!c.lits[other]].insert_watch(cid, c.lits[new]);"))
bug("p11-updating-noswap", "P11", (DB, "        c.lits.swap(old, new);\n", "        c.lits.swap(other, new);\n"))
bug("p11-removed-flag", "P11", (DB, "        if removed {\n            debug_assert!", "        if !removed {\n            debug_assert!"))
bug("p11-detach-without", "P11", (PR, "                            cdb.detach_watch_cache(propagating, &mut source);\n                            cdb.transform_by_updating_watch(cid, false_watch_pos, k, true);", "                            cdb.detach_watch_cache(propagating, &mut source);\n                            cdb.transform_by_updating_watch(cid, 1 - false_watch_pos, k, true);"))
bug("p11-remove-watch-first", "P11", (WC, "self.swap_remove(i);", "self.swap_remove(i);\n            self.truncate(i.max(1_000_000));\n            self.pop();"))
bug("p11-remove-watch-if-long", "P11", (WC, "if let Some(i) = self.iter().position(|e| e.0 == *cid) {", "if let Some(i) = self.iter().skip(1).position(|e| e.0 == *cid) {"))
bug("p11-update-watch-all", "P11", (WC, "            if e.0 == cid {\n                e.1 = l;\n                break;", "            if e.0 <= cid {\n                e.1 = l;\n                break;"))
bug("p11-restore-blocker", "P11", (DB, "self.watch_cache[l][iter.index].1 = p;", "self.watch_cache[p][iter.index].1 = l;"))
bug("p11-detach-index", "P11", (DB, "self.watch_cache[l].swap_remove(iter.index);", "self.watch_cache[l].remove(iter.index);\n        iter.restore_entry();"))
# ---- P12
bug("p12-level-off", "P12", (PR, "if self.trail_lim.len() as u32 <= lv {", "if self.trail_lim.len() as u32 <= lv + 1 {"))
# ---- P14
bug("p14-no-restart", "P14", (S, """            RESTART!(asg, cdb, state);
            #[cfg(feature = "rephase")]
            asg.select_rephasing_target();
            asg.clear""", """            if 0 < state[Stat::Restart] {
                RESTART!(asg, cdb, state);
            }
            #[cfg(feature = "rephase")]
            asg.select_rephasing_target();
            asg.clear"""))
bug("p14-restart-late", "P14", (S, """            RESTART!(asg, cdb, state);
            #[cfg(feature = "rephase")]
            asg.select_rephasing_target();
            asg.clear_asserted_literals(cdb)?;
""", """            #[cfg(feature = "rephase")]
            asg.select_rephasing_target();
            asg.clear_asserted_literals(cdb)?;
            RESTART!(asg, cdb, state);
"""))
bug("p14-restart-level", "P14", (S, "$asg.cancel_until($asg.root_level());\n        $cdb", "$asg.cancel_until($asg.root_level() + 1);\n        $cdb"))
bug("p14-reduce-on-restart", "P14", (S, """        } else if cdb.refer(cdb::property::TEma::LBD).trend() > state.config.rst_lbd_thr {
            RESTART!(asg, cdb, state);""", """        } else if cdb.refer(cdb::property::TEma::LBD).trend() > state.config.rst_lbd_thr {
            if 1_000_000 < cdb.derefer(cdb::property::Tusize::NumLearnt) {
                cdb.reduce(asg, ReductionType::RASonADD(state.stm.num_reducible(0.1)));
            }
            RESTART!(asg, cdb, state);"""))
bug("p14-decide-before-simplify", "P14", (S, """                    if cfg!(feature = "clause_elimination") {
                        let mut elim""", """                    if asg.remains() {
                        let lit = asg.select_decision_literal();
                        asg.assign_by_decision(lit);
                    }
                    if cfg!(feature = "clause_elimination") {
                        let mut elim"""))
bug("p14-cancel-too-low", "P28", (CO, "    asg.cancel_until(conflicting_level);\n", "    asg.cancel_until(conflicting_level.saturating_sub(1));\n"))
# ---- P16
bug("p16-le", "P16", (S, "if 1.0 <= p {", "if 2.0 <= p {"))
bug("p16-never", "P16", (S, "if 1.0 <= p {", "if 1.0 <= p && previous_stage.is_some() {"))
bug("p16-mins", "P16", (ST, "/ Duration::from_secs(self.config.c_timeout as u64).as_secs_f64(),", "/ Duration::from_millis(self.config.c_timeout as u64).as_secs_f64(),"))
bug("p16-fraction", "P16", (ST, "self.start.elapsed().as_secs_f64()\n                / Dur", "self.start.elapsed().as_secs_f64() / 2.0\n                / Dur"))
bug("p16-limit-default", "P16", (DB, "soft_limit: config.c_cls_lim,", "soft_limit: config.c_cls_lim.max(nc),"))
bug("p16-limit-other", "P16", (DB, "self.soft_limit == 0 || self.num_clause <= self.soft_limit", "self.soft_limit == 0 || self.num_learnt <= self.soft_limit"))
bug("p16-limit-loose", "P16", (DB, "self.soft_limit == 0 || self.num_clause <= self.soft_limit", "self.soft_limit == 0 || self.num_clause <= 2 * self.soft_limit"))
bug("p16-limit-strict", "P16", (DB, "self.soft_limit == 0 || self.num_clause <= self.soft_limit", "self.soft_limit == 0 || 4 * self.num_clause <= 3 * self.soft_limit"))
bug("p16-timeout-error", "P16", (S, "return Err(SolverError::TimeOut);", "return Err(SolverError::OutOfMemory);"))
bug("p16-zero-limit", "P16", (DB, "self.soft_limit == 0 || self.num_clause <= self.soft_limit", "self.num_clause <= self.soft_limit"))
bug("p16-start-reset", "P16", (ST, "            SolverEvent::Restart => {\n", "            SolverEvent::Restart => {\n                self.start = Instant::now();\n"))
bug("p16-extra-timeout", "P16", (S, "        asg.update_activity_tick();\n", "        asg.update_activity_tick();\n        if state.is_timeout() && asg.root_level() + 50 < asg.decision_level() {\n            return Err(SolverError::OutOfMemory);\n        }\n"))
# ---- P20
bug("p20-time-order", "P20", (SEL, "fn select_decision_literal(&mut self) -> Lit {\n", "fn select_decision_literal(&mut self) -> Lit {\n        let t = std::time::Instant::now();\n"),
    (SEL, "        let vi = self.select_var();\n", "        let mut vi = self.select_var();\n        if t.elapsed().as_millis() > 10 {\n            self.update_heap(vi);\n            vi = self.select_var();\n        }\n"))
bug("p20-env", "P20", (CO, "    asg.handle(SolverEvent::Conflict);\n", "    if std::env::var(\"SPLR_CBT\").is_ok() {\n        asg.handle(SolverEvent::Restart);\n    }\n    asg.handle(SolverEvent::Conflict);\n"))
bug("p20-hash-iter", "P20", (BIN, "    fn connect_with(&self, lit: Lit) -> &BinaryLinkList {\n", "    fn connect_with(&self, lit: Lit) -> &BinaryLinkList {\n        if let Some(((l, _), _)) = self.hash.iter().next() {\n            if *l == lit && self.list[*l].len() == 1 {\n                return &self.list[*l];\n            }\n        }\n"))
bug("p20-rephase-hash", "P20", (SEL, "        for (vi, (b, _)) in self.best_phases.iter() {\n            let v = &mut self.var[*vi];\n            v.set(FlagVar::PHASE, *b);", "        for (n, (vi, (b, _))) in self.best_phases.iter().enumerate() {\n            if 1000 < n {\n                break;\n            }\n            let v = &mut self.var[*vi];\n            v.set(FlagVar::PHASE, *b);"))
bug("p20-address", "P20", (VIV, "let mut to_display = 0;", "let mut to_display = 0;\n        if (&clauses as *const _ as usize) % 64 == 0 {\n            clauses.truncate(10);\n        }"))
bug("p20-thread-id", "P20", (SEL, "fn select_decision_literal(&mut self) -> Lit {\n", "fn select_decision_literal(&mut self) -> Lit {\n        if std::thread::current().name().is_none() {\n            self.rebuild_order();\n        }\n"))
bug("p20-stage-time", "P20", (S, "        } else if cdb.refer(cdb::property::TEma::LBD).trend() > state.config.rst_lbd_thr {", "        } else if cdb.refer(cdb::property::TEma::LBD).trend() > state.config.rst_lbd_thr\n            || state.elapsed().unwrap_or(0.0) > 0.9\n        {"))
bug("p20-vivify-time", "P20", (VIV, "if VIVIFY_LIMIT < num_check {", "if VIVIFY_LIMIT < num_check || state.is_timeout() {"))
# ---- P21
bug("p21-static", "P21", (VIV, "const VIVIFY_LIMIT: usize = 20_000;", "const VIVIFY_LIMIT: usize = 20_000;\nstatic CHECKS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);"),
    (VIV, "            num_check += 1;\n", "            num_check += 1;\n            if CHECKS.fetch_add(1, std::sync::atomic::Ordering::Relaxed) % 1_000_000 == 999_999 {\n                continue;\n            }\n"))
bug("p21-thread-local", "P21", (BIN, "/// storage of binary links\n", "thread_local! {\n    static LAST: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };\n}\n\n/// storage of binary links\n"),
    (BIN, "        self.hash.insert((l0, l1), cid);\n", "        self.hash.insert((l0, l1), cid);\n        LAST.with(|c| c.set(self.hash.len()));\n"),
    (BIN, "        self.hash.get(&(l0, l1))", "        if LAST.with(|c| c.get()) == 0 {\n            return None;\n        }\n        self.hash.get(&(l0, l1))"))
bug("p21-env-set", "P21", (S, "        state.progress_header();\n", "        state.progress_header();\n        unsafe {\n            std::env::set_var(\"SPLR_RUNNING\", \"1\");\n        }\n"))
bug("p21-once", "P21", (ST, "impl StateIF for State {\n", "static FIRST: std::sync::OnceLock<f64> = std::sync::OnceLock::new();\n\nimpl StateIF for State {\n"),
    (ST, "            self.start.elapsed().as_secs_f64()\n                / Dur", "            self.start.elapsed().as_secs_f64().max(*FIRST.get_or_init(|| 0.0))\n                / Dur"))
bug("p21-rc", "P21", (DB, "    pub eliminated_permanent: Vec<Vec<Lit>>,\n}", "    pub eliminated_permanent: Vec<Vec<Lit>>,\n    shared_tick: std::rc::Rc<std::cell::Cell<usize>>,\n}"),
    (DB, "            eliminated_permanent: Vec::new(),\n        }", "            eliminated_permanent: Vec::new(),\n            shared_tick: Default::default(),\n        }"),
    (DB, "        *num_reduction += 1;\n", "        *num_reduction += 1;\n        self.shared_tick.set(self.shared_tick.get() + 1);\n"))
# ---- P22
bug("p22-println", "P22", (DB, "self.num_reregistration += 1;\n", "self.num_reregistration += 1;\n            println!(\"c reregistered {cid}\");\n"))
bug("p22-eprintln", "P22", (PR, "RefClause::EmptyClause => return Err(SolverError::EmptyClause),", "RefClause::EmptyClause => {\n                        eprintln!(\"c empty clause\");\n                        return Err(SolverError::EmptyClause);\n                    }"))
bug("p22-exit", "P22", (DB, "            Err(SolverError::OutOfMemory)\n", "            std::process::exit(1)\n"))
bug("p22-abort", "P22", (S, "return Err(SolverError::SolverBug);", "std::process::abort();"))
bug("p22-dump", "P22", (S, "return Err(SolverError::UndescribedError);", "let _ = std::fs::write(\"splr-dump.txt\", format!(\"{state}\"));\n                return Err(SolverError::UndescribedError);"))
bug("p22-quiet", "P22", (ST, "if self.config.splr_interface && !self.config.quiet_mode {\n            if mes", "if self.config.splr_interface || !self.config.quiet_mode {\n            if mes"))
bug("p22-header", "P22", (ST, "if !self.config.splr_interface || self.config.quiet_mode {\n            return;", "if !self.config.splr_interface && self.config.quiet_mode {\n            return;"))
bug("p22-proof-always", "P22", (UC, "if config.use_certification {", "if config.use_certification || !config.splr_interface {"))
bug("p22-temp", "P22", (S, "        state.progress_header();\n", "        state.progress_header();\n        let _ = std::fs::create_dir_all(&state.config.io_odir);\n"))
# ---- P24
bug("p24-bi-clause", "P24", (DB, "            *num_bi_clause += 1;\n            binary_link.add(l0, l1, cid);", "            if learnt {\n                *num_bi_clause += 1;\n            }\n            binary_link.add(l0, l1, cid);"))
bug("p24-rereg", "P24", (DB, "self.num_reregistration += 1;\n", "self.num_reregistration += 1;\n            self.num_clause += 1;\n"))
bug("p24-learnt-2", "P24", (DB, "                *num_bi_learnt += 1;\n            } else {", "                *num_bi_learnt += 1;\n                *num_learnt += 1;\n            } else {"))
bug("p24-perm", "P24", (DB, "            c.turn_off(FlagClause::LEARNT);\n            self.num_learnt -= 1;\n        }\n    }", "            c.turn_off(FlagClause::LEARNT);\n        }\n    }"))
bug("p24-simp-learnt", "P24", (DB, "                    self.num_learnt -= 1;\n                    c.turn_off(FlagClause::LEARNT);", "                    c.turn_off(FlagClause::LEARNT);"))
bug("p24-simp-flag", "P24", (DB, "                    self.num_learnt -= 1;\n                    c.turn_off(FlagClause::LEARNT);", "                    self.num_learnt -= 1;"))
bug("p24-remove-guard", "P24", (DB, "    if c.is(FlagClause::LEARNT) {\n        *num_learnt -= 1;", "    if c.is(FlagClause::LEARNT) && 2 < c.len() {\n        *num_learnt -= 1;"))
bug("p24-remove-order", "P24", (DB, "            &mut self.num_bi_clause,\n            &mut self.num_clause,\n            &mut self.num_learnt,\n            cid,\n            c,\n        );\n        self.freelist.push(cid);", "            &mut self.num_clause,\n            &mut self.num_bi_clause,\n            &mut self.num_learnt,\n            cid,\n            c,\n        );\n        self.freelist.push(cid);"))
bug("p24-elim-32", "P24", (DB, "            *num_bi_clause += 1;\n            // self.watches(cid, \"after strengthen_by_elimination case:3-2\");", "            // self.watches(cid, \"after strengthen_by_elimination case:3-2\");"))
bug("p24-subsume-off", "P24", (SU, "cdb.make_permanent(cid);", "cdb[cid].turn_off(FlagClause::LEARNT);"))
bug("p24-derefer", "P24", ("src/cdb/mod.rs", "Tusize::NumClause => self.num_clause,", "Tusize::NumClause => self.clause.len() - 1,"))
bug("p24-derefer2", "P24", ("src/cdb/mod.rs", "Tusize::NumLearnt => self.num_learnt,", "Tusize::NumLearnt => self.num_learnt + self.num_bi_learnt,"))
# ---- P25
bug("p25-cfg", "P25", (SEL, "    fn best_phases_ref(&mut self, default_value: Option<bool>) -> HashMap<VarId, bool> {", "    fn best_phases_ref(&mut self, default_value: Option<bool>) -> HashMap<VarId, bool> {\n        #[cfg(not(feature = \"trail_saving\"))]\n        let _: usize = self.best_phases;"))
bug("p25-removed-cfg", "P25", (STK, "                #[cfg(feature = \"trail_saving\")]\n                self.clear_saved_trail();\n            }\n            SolverEvent::NewVar", "                self.clear_saved_trail();\n            }\n            SolverEvent::NewVar"))
bug("p25-unsafe-only", "P25", (DB, "        #[cfg(not(feature = \"unsafe_access\"))]\n        &self.clause[r]", "        #[cfg(not(feature = \"unsafe_access\"))]\n        &self.clauses[r]"))
bug("p25-rephase", "P25", (S, "            #[cfg(feature = \"rephase\")]\n            asg.select_rephasing_target();\n            asg.clear", "            asg.select_rephasing_target();\n            asg.clear"))
# ---- P30
bug("p30-no-back-unit", "P30", (VIV, """                                            self, &decisions, cnfl_lits, &mut seen,
                                        );
                                        asg.backtrack_sandbox();""", """                                            self, &decisions, cnfl_lits, &mut seen,
                                        );
                                        if vec.len() != 1 {
                                            asg.backtrack_sandbox();
                                        }"""))
bug("p30-no-back-bin", "P30", (VIV, """                                            self, &decisions, &cnfl_lits, &mut seen,
                                        );
                                        asg.backtrack_sandbox();
""", """                                            self, &decisions, &cnfl_lits, &mut seen,
                                        );
"""))
bug("p30-no-back-next", "P30", (VIV, "        'next_clause: while let Some(cp) = clauses.pop() {\n            asg.backtrack_sandbox();\n", "        'next_clause: while let Some(cp) = clauses.pop() {\n            if num_check % 2 == 0 {\n                asg.backtrack_sandbox();\n            }\n"))
bug("p30-no-back-end", "P30", (VIV, "        asg.backtrack_sandbox();\n        if asg.remains() {\n            asg.propagate_sandbox(self)\n                .map_err(SolverError::RootLevelConflict)?;\n        }\n        asg.clear", "        if asg.remains() {\n            asg.propagate_sandbox(self)\n                .map_err(SolverError::RootLevelConflict)?;\n        }\n        asg.clear"))
bug("p30-back-partial", "P30", ("src/assign/propagate.rs", "fn backtrack_sandbox(&mut self) {\n", "fn backtrack_sandbox(&mut self) {\n        if self.decision_level() == self.root_level + 1 && self.trail.len() == 1 {\n            return;\n        }\n"))
bug("p30-early-return", "P30", (VIV, "            if VIVIFY_LIMIT < num_check {\n                break;\n            }", "            if VIVIFY_LIMIT < num_check {\n                return Ok(());\n            }"))
# ---- P31
bug("p31-reduce-dead", "P31", (DB, "            .skip(1)\n            .filter(|(_, c)| !c.is_dead())\n        {\n            c.update_lbd", "            .skip(1)\n        {\n            c.update_lbd"))
bug("p31-simp-dead", "P31", (PR, "                if cdb[cid].is_dead() {\n                    continue;\n                }\n                debug_assert!(\n                    cdb[cid]\n", "                debug_assert!(\n                    cdb[cid]\n"))
bug("p31-elim-dead", "P31", (EL, "        if cdb[*cid].is_dead() {\n            continue;\n        }\n        elim.remove_cid_occur(asg, *cid, &mut cdb[*cid]);\n        cdb.remove_clause(*cid);\n    }\n    for cid in neg", "        elim.remove_cid_occur(asg, *cid, &mut cdb[*cid]);\n        cdb.remove_clause(*cid);\n    }\n    for cid in neg"))
bug("p31-vivify-dead", "P31", (VIV, "            if c.is_dead() {\n                continue;\n            }\n            let is_learnt", "            let is_learnt"))
bug("p31-double-free", "P31", (SU, "                cdb.remove_clause(did);\n                self.num_subsumed += 1;", "                cdb.remove_clause(did);\n                if cdb[did].is_dead() {\n                    cdb.remove_clause(did);\n                }\n                self.num_subsumed += 1;"))
bug("p31-no-free", "P31", (DB, "        self.freelist.push(cid);\n        // assert_eq!(self.clause.iter().skip(1).filter(|c| !c.is_dead()).count(), self.num_clause);\n    }\n    fn remove_clause_sandbox", "        if !self.freelist.contains(&cid) || self.freelist.len() < 2 {\n            self.freelist.push(cid);\n            self.freelist.push(cid);\n        }\n        // assert_eq!(self.clause.iter().skip(1).filter(|c| !c.is_dead()).count(), self.num_clause);\n    }\n    fn remove_clause_sandbox"))
bug("p31-no-clear", "P31", (DB, "    certification_store.delete_clause(&c.lits);\n    c.lits.clear();", "    certification_store.delete_clause(&c.lits);\n    c.lits.truncate(1);"))
bug("p31-occur-after", "P31", (SU, "            elim.remove_cid_occur(asg, cid, &mut cdb[cid]);\n            cdb.remove_clause(cid);\n            Ok(())", "            cdb.remove_clause(cid);\n            elim.remove_cid_occur(asg, cid, &mut cdb[cid]);\n            Ok(())"))
bug("p31-peek", "P31", (DB, "if let Some(cid_used) = self.freelist.pop() {\n            cid = cid_used;\n            let c = &mut self[cid];\n            // if", "if let Some(cid_used) = self.freelist.last().copied() {\n            cid = cid_used;\n            if 1 < self.freelist.len() {\n                self.freelist.pop();\n            }\n            let c = &mut self[cid];\n            // if"))
