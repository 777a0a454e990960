"""Bugs written from the statements of the properties and the code alone (fifth batch)."""
from cases import bug, same
SE = "src/solver/search.rs"
VV = "src/cdb/vivify.rs"
EL = "src/processor/eliminate.rs"
SB = "src/processor/subsume.rs"
SI = "src/processor/simplify.rs"
DB = "src/cdb/db.rs"
CO = "src/solver/conflict.rs"
UC = "src/cdb/unsat_certificate.rs"
PR = "src/assign/propagate.rs"
B = "src/solver/build.rs"
SP = "src/bin/splr.rs"

# ---- P04
bug("p04-viv-learnt-unit", "P04", (VV, "                                    self.certificate_add_assertion(vec[0]);\n", "                                    if is_learnt {\n                                        self.certificate_add_assertion(vec[0]);\n                                    }\n"))
bug("p04-elim-learnt-unit", "P04", (EL, "                            cdb.certificate_add_assertion(lit);\n", "                            if !learnt_p {\n                                cdb.certificate_add_assertion(lit);\n                            }\n"))
bug("p04-conflict-open", "P04", (CO, "                cdb.certificate_add_assertion(l0);\n", "                if asg.assigned(l0).is_none() {\n                    cdb.certificate_add_assertion(l0);\n                }\n"))
bug("p04-conflict-wrong-lit", "P04", (CO, "                cdb.certificate_add_assertion(l0);\n", "                cdb.certificate_add_assertion(cc.0);\n"))
bug("p04-new-after-swap", "P04", (DB, "        self.certification_store.add_clause(vec);\n        let cid;\n        if let Some(cid_used) = self.freelist.pop() {", "        let cid;\n        if let Some(cid_used) = self.freelist.pop() {"), (DB, "        let ClauseDB {\n            #[cfg(feature = \"bi_clause_completion\")]", "        self.certification_store.add_clause(vec);\n        let ClauseDB {\n            #[cfg(feature = \"bi_clause_completion\")]"))
bug("p04-new-fresh-only", "P04", (DB, "        self.certification_store.add_clause(vec);\n        let cid;\n        if let Some(cid_used) = self.freelist.pop() {\n            cid = cid_used;\n", "        let cid;\n        if !learnt || self.freelist.is_empty() {\n            self.certification_store.add_clause(vec);\n        }\n        if let Some(cid_used) = self.freelist.pop() {\n            cid = cid_used;\n"))
bug("p04-simp-short", "P04", (DB, "                if certification_store.is_active() {\n                    certification_store.add_clause(&c.lits);\n                    certification_store.delete_clause(&new_lits);\n                }\n                RefClause::Clause(cid)\n            }\n            _ => {", "                if certification_store.is_active() && !c.is(FlagClause::LEARNT) {\n                    certification_store.add_clause(&c.lits);\n                }\n                RefClause::Clause(cid)\n            }\n            _ => {"))
bug("p04-strength-unit-len", "P04", (SB, "            cdb.certificate_add_assertion(l0);\n", "            if asg.assigned(l0) == Some(true) {\n                cdb.certificate_add_assertion(l0);\n            }\n"))
bug("p04-root-unit-late", "P04", (PR, "                    RefClause::UnitClause(lit) => {", "                    RefClause::UnitClause(lit) if self.assigned(lit).is_none() && cdb[cid].len() == 2 => {\n                        self.assign_at_root_level(lit)?;\n                        cdb.certificate_add_assertion(lit);\n                        cdb.remove_clause(cid);\n                    }\n                    RefClause::UnitClause(lit) => {"))
bug("p04-pre-fix", "P04", (SE, "                    if asg.assign(vi).is_some() {\n                        continue;\n                    }\n                    if let Some((p, m)) = elim.stats(vi) {", "                    if asg.assign(vi).is_some() {\n                        continue;\n                    }\n                    if elim.stats(vi) == Some((0, 0)) {\n                        let l = Lit::from((vi, false));\n                        if asg.assign_at_root_level(l).is_err() {\n                            return Ok(Certificate::UNSAT);\n                        }\n                        continue;\n                    }\n                    if let Some((p, m)) = elim.stats(vi) {"))
bug("p04-viv-order2", "P04", (VV, "                                    #[cfg(not(feature = \"clause_rewarding\"))]\n                                    self.new_clause(asg, &mut vec, is_learnt);\n                                    self.remove_clause(cid);\n", "                                    self.remove_clause(cid);\n                                    self.new_clause(asg, &mut vec, is_learnt);\n"))
# ---- P05
bug("p05-simp-new-form", "P05", (DB, "                    certification_store.add_clause(&c.lits);\n                    certification_store.delete_clause(&new_lits);\n                }\n                RefClause::Clause(cid)\n            }\n        }\n    }\n    // used in `propagate`", "                    certification_store.add_clause(&c.lits);\n                    certification_store.delete_clause(&c.lits);\n                }\n                RefClause::Clause(cid)\n            }\n        }\n    }\n    // used in `propagate`"))
bug("p05-rereg-delete", "P05", (DB, "            self.num_reregistration += 1;\n            return", "            self.num_reregistration += 1;\n            self.certification_store.delete_clause(vec);\n            return"))
bug("p05-elim-registered", "P05", (DB, "                //\n                //## Case:3-0\n                //\n                return RefClause::RegisteredClause(reg);", "                //\n                //## Case:3-0\n                //\n                certification_store.delete_clause(lits);\n                return RefClause::RegisteredClause(reg);"))
bug("p05-remove-learnt", "P05", (DB, "    certification_store.delete_clause(&c.lits);\n    c.lits.clear();", "    if c.is(FlagClause::LEARNT) || c.len() == 2 {\n        certification_store.delete_clause(&c.lits);\n    }\n    c.lits.clear();"))
bug("p05-remove-pair", "P05", (DB, "    certification_store.delete_clause(&c.lits);\n    c.lits.clear();", "    certification_store.delete_clause(&[l0, l1]);\n    c.lits.clear();"))
bug("p05-simp-registered", "P05", (DB, "                    //## Case:3-0\n                    //\n                    self.remove_clause(cid);\n", "                    //## Case:3-0\n                    //\n                    certification_store.delete_clause(&c.lits);\n                    self.remove_clause(cid);\n"))
bug("p05-permanent", "P05", (DB, "            c.turn_off(FlagClause::LEARNT);\n            self.num_learnt -= 1;\n", "            c.turn_off(FlagClause::LEARNT);\n            self.num_learnt -= 1;\n            self.certification_store.add_clause(&c.lits);\n            self.certification_store.delete_clause(&c.lits);\n"))
bug("p05-elim-short", "P05", (DB, "        if certification_store.is_active() {\n            certification_store.add_clause(&c.lits);\n            certification_store.delete_clause(&new_lits);\n        }\n        RefClause::Clause(cid)\n    }\n    // Not in use so far", "        if certification_store.is_active() {\n            certification_store.add_clause(&c.lits);\n            if 2 < c.lits.len() {\n                certification_store.delete_clause(&new_lits);\n            }\n        }\n        RefClause::Clause(cid)\n    }\n    // Not in use so far"))
# ---- P06
bug("p06-last", "P06", (UC, "            while index < self.queue.len() {", "            while index + 2 < self.queue.len() {"))
bug("p06-u16", "P06", (UC, "            for _ in 0..(l.unsigned_abs() as usize) {", "            for _ in 0..(l.unsigned_abs() as u16) {"))
bug("p06-close-order", "P06", (UC, "        self.dump_to_file();\n        if let Some(ref mut buf) = self.buffer {\n            let _ = buf.write_all(b\"0\\n\");", "        if let Some(ref mut buf) = self.buffer {\n            let _ = buf.write_all(b\"0\\n\");\n        }\n        self.dump_to_file();\n        if self.buffer.is_some() {"))
bug("p06-close-empty", "P06", (UC, "        if self.buffer.is_none() {\n            return;\n        }\n        self.dump_to_file();", "        if self.buffer.is_none() || self.queue.is_empty() {\n            return;\n        }\n        self.dump_to_file();"))
bug("p06-clear-add", "P06", (UC, "        self.queue.push((clause.len() as i32).neg());\n", "        if DUMP_INTERVAL / 2 < self.queue.len() {\n            self.queue.clear();\n        }\n        self.queue.push((clause.len() as i32).neg());\n"))
bug("p06-dir", "P06", (UC, "config.io_odir.join(&config.io_pfile)", "config.io_pfile.clone()"))
bug("p06-append", "P06", (UC, "            if let Ok(out) = File::create(&cert) {", "            if let Ok(out) = File::options().append(true).create(true).open(&cert) {"))
bug("p06-save-flag", "P06", (SP, "            if s.state.config.use_certification {\n", "            if s.state.config.use_certification && !s.state.config.quiet_mode {\n"))
# ---- P14
bug("p14-stage-restart", "P14", (SE, "            RESTART!(asg, cdb, state);\n            #[cfg(feature = \"rephase\")]\n            asg.select_rephasing_target();\n            asg.clear_asserted_literals(cdb)?;", "            if 1 < asg.decision_level() {\n                RESTART!(asg, cdb, state);\n            }\n            #[cfg(feature = \"rephase\")]\n            asg.select_rephasing_target();\n            asg.clear_asserted_literals(cdb)?;"))
bug("p14-trend-reduce", "P14", (SE, "        } else if cdb.refer(cdb::property::TEma::LBD).trend() > state.config.rst_lbd_thr {\n", "        } else if cdb.refer(cdb::property::TEma::LBD).trend() > state.config.rst_lbd_thr {\n            if asg.decision_level() < 2 {\n                cdb.reduce(asg, ReductionType::RASonADD(1));\n            }\n"))
bug("p14-viv-decide", "P14", (SE, "                if cfg!(feature = \"clause_vivification\") {\n", "                if !asg.remains() && 0 < asg.derefer(assign::property::Tusize::NumUnassignedVar) {\n                    let lit = asg.select_decision_literal();\n                    asg.assign_by_decision(lit);\n                }\n                if cfg!(feature = \"clause_vivification\") {\n"))
bug("p14-conflict-clear", "P14", (SE, "        if 1 < handle_conflict(asg, cdb, state, &cc)? {\n            num_learnt += 1;\n        }\n", "        if 1 < handle_conflict(asg, cdb, state, &cc)? {\n            num_learnt += 1;\n        } else if !asg.remains() {\n            asg.clear_asserted_literals(cdb)?;\n        }\n"))
bug("p14-macro", "P14", (SE, "$asg.cancel_until($asg.root_level());", "$asg.cancel_until($asg.root_level() + 1);"))
# ---- P20
bug("p20-viv-clock", "P20", (VV, "            if VIVIFY_LIMIT < num_check {", "            if VIVIFY_LIMIT < num_check || state.elapsed().is_some_and(|t| 0.9 < t) {"))
bug("p20-addr", "P20", (DB, "        perm.sort();\n", "        if (perm.as_ptr() as usize) & 64 != 0 {\n            perm.reverse();\n        }\n        perm.sort();\n"))
bug("p20-scale-clock", "P20", (SE, "            let max_scale = state.stm.max_scale();\n", "            let max_scale = state.stm.max_scale().max((16.0 * state.elapsed().unwrap_or(0.0)) as usize);\n"))
bug("p20-elim-clock", "P20", (SI, "            if timedout == 0 {\n                self.clear_clause_queue(cdb);\n                self.clear_var_queue(asg);\n            } else {", "            if timedout == 0 || state.elapsed().is_some_and(|t| 0.5 < t) {\n                self.clear_clause_queue(cdb);\n                self.clear_var_queue(asg);\n            } else {"))
bug("p20-heat", "P20", (SE, "            let scale = state.stm.current_scale();\n", "            let scale = state.stm.current_scale()\n                + std::thread::available_parallelism().map_or(0, |n| n.get() / 64);\n"))
# ---- P21
bug("p21-cell", "P21", (CO, "    let mut max_lbd: u16 = 0;\n", "    static MAX: std::sync::atomic::AtomicU16 = std::sync::atomic::AtomicU16::new(0);\n    let mut max_lbd: u16 = MAX.load(std::sync::atomic::Ordering::Relaxed).min(1);\n    MAX.fetch_add(1, std::sync::atomic::Ordering::Relaxed);\n"))
bug("p21-tls-seen", "P21", (VV, "        let mut seen: Vec<usize> = vec![0; asg.num_vars + 1];\n", "        thread_local! {\n            static SEEN: std::cell::RefCell<Vec<usize>> = const { std::cell::RefCell::new(Vec::new()) };\n        }\n        let mut seen: Vec<usize> = SEEN.take();\n        if seen.len() <= asg.num_vars {\n            seen.resize(asg.num_vars + 1, 0);\n        }\n"), (VV, "        state[Stat::VivifiedClause] += num_shrink;\n        state[Stat::VivifiedVar] += num_assert;\n        Ok(())", "        SEEN.set(seen);\n        state[Stat::VivifiedClause] += num_shrink;\n        state[Stat::VivifiedVar] += num_assert;\n        Ok(())"))
bug("p21-lock-config", "P21", (B, "    fn instantiate(config: &Config, cnf: &CNFDescription) -> Solver {\n", "    fn instantiate(config: &Config, cnf: &CNFDescription) -> Solver {\n        static CONFIG: std::sync::OnceLock<Config> = std::sync::OnceLock::new();\n        let config = CONFIG.get_or_init(|| config.clone());\n"))
bug("p21-chdir", "P21", (UC, "            let cert: PathBuf = config.io_odir.join(&config.io_pfile);\n", "            let _ = std::env::set_current_dir(&config.io_odir);\n            let cert: PathBuf = config.io_pfile.clone();\n"))
# ---- P22
bug("p22-mkdir", "P22", (UC, "            let cert: PathBuf = config.io_odir.join(&config.io_pfile);\n", "            let cert: PathBuf = config.io_odir.join(&config.io_pfile);\n            let _ = std::fs::create_dir_all(&config.io_odir);\n"))
bug("p22-rm", "P22", (UC, "                if buf.write_all(b\"0\\n\").is_err() {\n                    self.buffer = None;\n", "                if buf.write_all(b\"0\\n\").is_err() {\n                    self.buffer = None;\n                    if let Some(t) = self.target.take() {\n                        let _ = std::fs::remove_file(t);\n                    }\n"))
bug("p22-print", "P22", (CO, "    if learnt_len == 0 {\n", "    if learnt_len == 0 {\n        println!(\"c empty learnt clause\");\n"))
bug("p22-stdin", "P22", (B, "    fn build(config: &Config) -> Result<Solver, SolverError> {\n", "    fn build(config: &Config) -> Result<Solver, SolverError> {\n        if std::io::IsTerminal::is_terminal(&std::io::stdin()) {\n            let mut s = String::new();\n            let _ = std::io::stdin().read_line(&mut s);\n        }\n"))
bug("p22-stderr", "P22", (VV, "                                    state.log(None, \"RootLevelConflict By vivify\");", "                                    let _ = std::io::Write::write_all(&mut std::io::stderr(), b\"RootLevelConflict By vivify\\n\");"))
bug("p22-net", "P22", (B, "    fn build(config: &Config) -> Result<Solver, SolverError> {\n", "    fn build(config: &Config) -> Result<Solver, SolverError> {\n        if let Ok(sock) = std::net::UdpSocket::bind(\"127.0.0.1:0\") {\n            let _ = sock.send_to(b\"splr\", \"127.0.0.1:9\");\n        }\n"))
bug("p22-validate-file", "P22", (SE, "                    state.log(None, \"failed to validate the extended model\");\n", "                    state.log(None, \"failed to validate the extended model\");\n                    cdb.dump_cnf(asg, std::path::Path::new(\"failed.cnf\"));\n"))
# ---- P30
bug("p30-limit-return", "P30", (VV, "            if VIVIFY_LIMIT < num_check {\n                break;\n            }\n", "            if VIVIFY_LIMIT < num_check {\n                state[Stat::VivifiedClause] += num_shrink;\n                state[Stat::VivifiedVar] += num_assert;\n                return Ok(());\n            }\n"))
bug("p30-back-late", "P30", (VV, "                                            self, &decisions, cnfl_lits, &mut seen,\n                                        );\n                                        asg.backtrack_sandbox();\n", "                                            self, &decisions, cnfl_lits, &mut seen,\n                                        );\n                                        if vec.len() == 1 {\n                                            asg.backtrack_sandbox();\n                                        }\n"))
bug("p30-end-cond", "P30", (VV, "        asg.backtrack_sandbox();\n        if asg.remains() {\n            asg.propagate_sandbox(self)\n                .map_err(SolverError::RootLevelConflict)?;\n        }\n        asg.clear_asserted_literals(self)?;", "        if 0 < num_shrink + num_assert {\n            asg.backtrack_sandbox();\n        }\n        if asg.remains() {\n            asg.propagate_sandbox(self)\n                .map_err(SolverError::RootLevelConflict)?;\n        }\n        asg.clear_asserted_literals(self)?;"))
bug("p30-err-live", "P30", (VV, "            if c.is_dead() {\n                continue;\n            }\n            let is_learnt", "            if c.is_dead() {\n                continue;\n            }\n            if 1 == c.iter().filter(|l| asg.assigned(**l) != Some(false)).count() {\n                let l = c.lit0();\n                if asg.assigned(l).is_none() {\n                    asg.assign_by_decision(l);\n                }\n                self.remove_clause(cid);\n                continue;\n            }\n            let is_learnt"))
# ---- P31
bug("p31-viv-targets", "P31", (VV, "            (!self.is_dead()).then(|| self.len() as f64)", "            Some(self.len() as f64)"), (VV, "            if c.is_dead() {\n                continue;\n            }\n            let is_learnt", "            let is_learnt"))
bug("p31-push-guard", "P31", (DB, "            cid,\n            c,\n        );\n        self.freelist.push(cid);\n        // assert_eq!(self.clause.iter().skip(1).filter(|c| !c.is_dead()).count(), self.num_clause);\n    }\n    fn remove_clause_sandbox", "            cid,\n            c,\n        );\n        self.freelist.push(cid);\n        if self.freelist.len() == 1 {\n            self.freelist.push(cid);\n        }\n    }\n    fn remove_clause_sandbox"))
bug("p31-lits-kept", "P31", (DB, "    c.lits.clear();\n}", "    if c.len() < 1000 {\n        c.lits.clear();\n    } else {\n        c.lits.truncate(1);\n    }\n}"))
bug("p31-validate-dead", "P31", (DB, "            if c.is_dead() || (strict && c.is(FlagClause::LEARNT)) {", "            if (strict && c.is_dead()) || (strict && c.is(FlagClause::LEARNT)) {"))
bug("p31-elim-twice", "P31", (EL, "        elim.remove_cid_occur(asg, *cid, &mut cdb[*cid]);\n        cdb.remove_clause(*cid);\n    }\n    elim[vi].clear();", "        elim.remove_cid_occur(asg, *cid, &mut cdb[*cid]);\n        cdb.remove_clause(*cid);\n    }\n    for cid in neg.iter() {\n        cdb.remove_clause(*cid);\n    }\n    elim[vi].clear();"))
bug("p31-heat", "P31", (DB, "        for c in self.iter().skip(1) {\n            if c.is_dead() {\n                continue;\n            }\n            for l in c.iter() {", "        for c in self.iter().skip(1) {\n            for l in c.iter() {"))
# ---- P01
bug("p01-validate-some", "P01", (DB, "                Some(false) => return Some(ClauseId::from(i)),\n                None if strict", "                Some(false) if strict || 2 < c.len() => return Some(ClauseId::from(i)),\n                None if strict"))
bug("p01-validate-nonempty", "P01", (SE, "                if cdb.validate(&model, false).is_some() {", "                if cdb.validate(&asg.assign_ref(), false).is_some() {"))
# ---- P02
bug("p02-any-root", "P02", (CO, "cdb[cid].iter().all(|l| asg.level(l.vi()) == 0)", "cdb[cid].iter().any(|l| asg.level(l.vi()) == 0)"))
bug("p02-level-le", "P02", (SE, "        if asg.decision_level() == asg.root_level() {\n            return Err(SolverError::RootLevelConflict(cc));", "        if asg.decision_level() <= asg.root_level() + 1 && asg.stack_len() < 4 {\n            return Err(SolverError::RootLevelConflict(cc));"))
bug("p02-sub-false", "P02", (SB, "                Some(true) => Ok(()),\n                Some(false) => Err(SolverError::RootLevelConflict((l0, asg.reason(l0.vi())))),", "                Some(_) => Err(SolverError::RootLevelConflict((l0, asg.reason(l0.vi())))),"))
bug("p02-elim-true", "P02", (EL, "                        Some(true) => (),\n                        Some(false) => {", "                        Some(true) if !learnt_p => (),\n                        Some(_) => {"))
bug("p02-idle", "P02", (SE, "            } else {\n                return Err(SolverError::UndescribedError);\n            }\n            RESTART!", "            } else {\n                return Ok(false);\n            }\n            RESTART!"))
bug("p02-conflict-lvl", "P02", (CO, "            Some(false) if asg.level(l0.vi()) == asg.root_level() => {", "            Some(false) if asg.level(l0.vi()) <= asg.root_level() + 1 => {"))
# ---- P24
bug("p24-simp-learnt2", "P24", (DB, "                if c.is(FlagClause::LEARNT) {\n                    self.num_learnt -= 1;\n                    c.turn_off(FlagClause::LEARNT);\n                }\n", "                c.turn_off(FlagClause::LEARNT);\n"))
bug("p24-new-bi-early", "P24", (DB, "        if len2 {\n            *num_bi_clause += 1;\n            binary_link.add(l0, l1, cid);", "        if len2 {\n            if !learnt {\n                *num_bi_clause += 1;\n            }\n            binary_link.add(l0, l1, cid);"))
bug("p24-permanent-all", "P24", (DB, "        if c.is(FlagClause::LEARNT) {\n            c.turn_off(FlagClause::LEARNT);\n            self.num_learnt -= 1;\n        }\n    }\n    //", "        c.turn_off(FlagClause::LEARNT);\n        self.num_learnt = self.num_learnt.saturating_sub(1);\n    }\n    //"))
bug("p24-elim3-2", "P24", (DB, "            binary_link.add(lits[0], lits[1], cid);\n            *num_bi_clause += 1;\n", "            binary_link.add(lits[0], lits[1], cid);\n            if !c.is(FlagClause::LEARNT) {\n                *num_bi_clause += 1;\n            }\n"))
bug("p20-viv-map", "P20", (VV, "        let mut seen: Vec<Option<OrderedProxy<ClauseId>>> = vec![None; 2 * (asg.num_vars + 1)];\n", "        let mut seen: std::collections::HashMap<usize, Option<OrderedProxy<ClauseId>>> = std::collections::HashMap::new();\n"), (VV, "let p = &mut seen[usize::from(c.lit0())];", "let p = seen.entry(usize::from(c.lit0())).or_default();"), (VV, "seen.iter().filter_map(|p| p.clone())", "seen.values().filter_map(|p| p.clone())"))
bug("p02-root-some", "P02", (PR, "            Some(x) if x == bool::from(l) => {\n                #[cfg(feature = \"boundary_check\")]", "            Some(x) if x == bool::from(l) && self.var[vi].reason == AssignReason::None => {\n                #[cfg(feature = \"boundary_check\")]"))
bug("p07-store-swap", "P07", (EL, "    if neg.len() < pos.len() {\n        for cid in neg {\n            debug_assert!(!cdb[*cid].is_dead());\n            make_eliminated_clause(cdb, store, v, *cid);\n        }\n        make_eliminating_unit_clause(store, Lit::from((v, true)));\n    } else {\n        for cid in pos {\n            debug_assert!(!cdb[*cid].is_dead());\n            make_eliminated_clause(cdb, store, v, *cid);\n        }\n        make_eliminating_unit_clause(store, Lit::from((v, false)));\n    }", "    let by_neg = neg.len() < pos.len();\n    let side = if by_neg { pos } else { neg };\n    for cid in side {\n        debug_assert!(!cdb[*cid].is_dead());\n        make_eliminated_clause(cdb, store, v, *cid);\n    }\n    make_eliminating_unit_clause(store, Lit::from((v, by_neg)));"))
bug("p07-store-sign", "P07", (EL, "    if neg.len() < pos.len() {\n        for cid in neg {\n            debug_assert!(!cdb[*cid].is_dead());\n            make_eliminated_clause(cdb, store, v, *cid);\n        }\n        make_eliminating_unit_clause(store, Lit::from((v, true)));\n    } else {\n        for cid in pos {\n            debug_assert!(!cdb[*cid].is_dead());\n            make_eliminated_clause(cdb, store, v, *cid);\n        }\n        make_eliminating_unit_clause(store, Lit::from((v, false)));\n    }", "    let by_neg = neg.len() < pos.len();\n    let side = if by_neg { neg } else { pos };\n    for cid in side {\n        debug_assert!(!cdb[*cid].is_dead());\n        make_eliminated_clause(cdb, store, v, *cid);\n    }\n    make_eliminating_unit_clause(store, Lit::from((v, !by_neg)));"))
