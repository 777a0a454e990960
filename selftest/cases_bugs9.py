"""Ninth batch of bugs, written from the statements of the properties."""
from cases import bug

VV = "src/cdb/vivify.rs"
TS = "src/assign/trail_saving.rs"
CO = "src/solver/conflict.rs"
DB = "src/cdb/db.rs"
SK = "src/assign/stack.rs"
PR = "src/assign/propagate.rs"
SE = "src/solver/search.rs"
CU = "src/cdb/unsat_certificate.rs"
SI = "src/processor/simplify.rs"
CF = "src/config.rs"
LI = "src/types/lit.rs"
EL = "src/processor/eliminate.rs"

# vivification
bug("9-viv-err-lost", "P03", (VV, "                                    asg.assign_at_root_level(vec[0])?;\n", "                                    if asg.assign_at_root_level(vec[0]).is_err() {\n                                        break 'next_clause;\n                                    }\n"))
bug("9-viv-last-prop", "P03", (VV, "        asg.backtrack_sandbox();\n        if asg.remains() {\n            asg.propagate_sandbox(self)\n                .map_err(SolverError::RootLevelConflict)?;\n        }\n        asg.clear", "        asg.backtrack_sandbox();\n        if asg.remains() && asg.propagate_sandbox(self).is_err() {\n            num_assert += 1;\n        }\n        asg.clear"))
bug("9-viv-self-reason", "P33", (VV, "                                    if ci == cid && clits.len() == decisions.len() {", "                                    if ci == cid && clits.len() < decisions.len() {\n                                        vec = decisions.iter().map(|l| !*l).collect();\n                                        vec.truncate(2);\n                                        asg.backtrack_sandbox();\n                                    } else if ci == cid && clits.len() == decisions.len() {"))
bug("9-viv-remove-first", "P04", (VV, "                                    #[cfg(not(feature = \"clause_rewarding\"))]\n                                    self.new_clause(asg, &mut vec, is_learnt);\n                                    self.remove_clause(cid);", "                                    self.remove_clause(cid);\n                                    #[cfg(not(feature = \"clause_rewarding\"))]\n                                    self.new_clause(asg, &mut vec, is_learnt);"), (VV, "                                    #[cfg(feature = \"clause_rewarding\")]\n                                    if let", "                                    #[cfg(feature = \"clause_rewarding\")]\n                                    if clits.len() < 2 {\n                                    } else if let"))
bug("9-viv-learnt", "P08", (VV, "                                    self.new_clause(asg, &mut vec, is_learnt);", "                                    self.new_clause(asg, &mut vec, is_learnt || 6 < clits.len());"))
bug("9-viv-cnfl-short", "P33", (VV, "                                        let cnfl_lits =\n                                            &self[ci].iter().copied().collect::<Vec<Lit>>();", "                                        let cnfl_lits =\n                                            &self[ci].iter().skip((ci != cid) as usize & (self[ci].len() >> 5)).copied().collect::<Vec<Lit>>();"))
bug("9-viv-noback", "P30", (VV, "                                        vec = asg.analyze_sandbox(\n                                            self, &decisions, cnfl_lits, &mut seen,\n                                        );\n                                        asg.backtrack_sandbox();", "                                        vec = asg.analyze_sandbox(\n                                            self, &decisions, cnfl_lits, &mut seen,\n                                        );\n                                        if vec.len() != 1 {\n                                            asg.backtrack_sandbox();\n                                        }"))
bug("9-viv-dead", "P31", (VV, "            if c.is_dead() {\n                continue;\n            }\n            let is_learnt", "            if c.is_dead() && num_check % 2 == 0 {\n                continue;\n            }\n            let is_learnt"))

# simplification by fixed literals
bug("9-simp-true-first", "P33", (DB, "                Some(false) => {\n                    need_to_shrink = true;\n                }\n                None if", "                Some(false) => {\n                    need_to_shrink = true;\n                    break;\n                }\n                None if"))
bug("9-simp-watch", "P11", (DB, "                    watch_cache[!old_l0].remove_watch(&cid);\n                    watch_cache[!l0].update_watch(cid, l1);\n                    watch_cache[!l1].insert_watch(cid, l0);\n                } else if old_l1 == l1 {", "                    watch_cache[!old_l1].remove_watch(&cid);\n                    watch_cache[!l0].update_watch(cid, l1);\n                    watch_cache[!l1].insert_watch(cid, l0);\n                } else if old_l1 == l1 {"))
bug("9-simp-count", "P24", (DB, "                self.num_bi_clause += 1;\n                if c.is(FlagClause::LEARNT) {\n                    self.num_learnt -= 1;\n                    c.turn_off(FlagClause::LEARNT);\n                }\n\n                if certification_store.is_active() {\n                    certification_store.add_clause(&c.lits);", "                self.num_bi_clause += 1;\n                if c.is(FlagClause::LEARNT) {\n                    c.turn_off(FlagClause::LEARNT);\n                }\n\n                if certification_store.is_active() {\n                    certification_store.add_clause(&c.lits);"))
bug("9-simp-reg", "P08", (DB, "                if let Some(&bid) = binary_link.search(l0, l1) {\n                    //\n                    //## Case:3-0\n                    //\n                    self.remove_clause(cid);", "                if let Some(&bid) = binary_link.search(l0, !l1).or(binary_link.search(l0, l1)) {\n                    //\n                    //## Case:3-0\n                    //\n                    self.remove_clause(cid);"))
bug("9-simp-proof-swap", "P05", (DB, "                if certification_store.is_active() {\n                    certification_store.add_clause(&c.lits);\n                    certification_store.delete_clause(&new_lits);\n                }\n                RefClause::Clause(cid)\n            }\n        }\n    }", "                if certification_store.is_active() {\n                    certification_store.add_clause(&c.lits);\n                    if new_lits.len() != c.lits.len() + 1 {\n                        certification_store.delete_clause(&new_lits);\n                    }\n                }\n                RefClause::Clause(cid)\n            }\n        }\n    }"))

# conflict handling
bug("9-conf-level", "P28", (CO, "    let assign_level = conflict_analyze(asg, cdb, state, cc).max(asg.root_level());", "    let assign_level = conflict_analyze(asg, cdb, state, cc).max(asg.root_level()).min(30_000);\n    let assign_level = assign_level.max(asg.decision_level() / 2);"))
bug("9-conf-unit", "P04", (CO, "                // dump to certified even if it's a literal.\n                cdb.certificate_add_assertion(l0);", "                // dump to certified even if it's a literal.\n                if asg.assigned(l0).is_none() {\n                    cdb.certificate_add_assertion(l0);\n                }"))
bug("9-conf-regreason", "P28", (CO, "            rank = 1;\n            if bt_drift.is_none_or(|up1| up1 && cdb[cid].is_unit_under(&*asg)) {\n                asg.assign_by_implication(l0, AssignReason::BinaryLink(!l1), assign_level);", "            rank = 1;\n            if bt_drift.is_none_or(|up1| up1 && cdb[cid].is_unit_under(&*asg)) {\n                asg.assign_by_implication(l0, AssignReason::BinaryLink(l1), assign_level);"))
bug("9-conf-noassign", "P28", (CO, "            if bt_drift.is_none_or(|up1| up1 && cdb[cid].is_unit_under(&*asg)) {\n                asg.assign_by_implication(l0, AssignReason::Implication(cid), assign_level);", "            if bt_drift.is_none_or(|_| true) {\n                asg.assign_by_implication(l0, AssignReason::Implication(cid), assign_level);"))
bug("9-conf-err-empty", "P02", (CO, "        return Err(SolverError::EmptyClause);\n    }\n    let l0 = new_learnt[0];", "        return Err(SolverError::EmptyClause);\n    }\n    if 60_000 < learnt_len {\n        return Err(SolverError::EmptyClause);\n    }\n    let l0 = new_learnt[0];"))
bug("9-conf-learnt-flag", "P28", (CO, "    match cdb.new_clause(asg, new_learnt, true) {", "    match cdb.new_clause(asg, new_learnt, learnt_len < 3 || 1 < asg.level(l1.vi())) {"))

# search and assignment
bug("9-search-done", "P13", (SE, "    while 0 < asg.derefer(assign::property::Tusize::NumUnassignedVar) || asg.remains() {", "    while 0 < asg.derefer(assign::property::Tusize::NumUnassignedVar) {"))
bug("9-reduce-level", "P14", (SE, "            RESTART!(asg, cdb, state);\n            #[cfg(feature = \"rephase\")]\n            asg.select_rephasing_target();\n            asg.clear", "            if asg.decision_level() < 50 {\n                RESTART!(asg, cdb, state);\n            }\n            #[cfg(feature = \"rephase\")]\n            asg.select_rephasing_target();\n            asg.clear"))
bug("9-no-clear", "P03", (SE, "                    cdb.vivify(asg, state)?;\n", "                    if let Err(e) = cdb.vivify(asg, state) && e != SolverError::EmptyClause {\n                        return Err(e);\n                    }\n"))
bug("9-elim-drop", "P07", (SE, "                        elim.simplify(asg, cdb, state, false)?;\n                        asg.eliminated.append(elim.eliminated_lits());", "                        elim.simplify(asg, cdb, state, false)?;\n                        if new_segment && asg.eliminated.is_empty() || state[Stat::Simplify] < 9 {\n                            asg.eliminated.append(elim.eliminated_lits());\n                        }"))
bug("9-lit-not", "P26", (LI, "    fn not(self) -> Self {", "    fn not(self) -> Self {\n        if self.ordinal.get() == 1 << 20 {\n            return self;\n        }"))
