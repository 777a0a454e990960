"""Eleventh batch of bugs: undoing, loading, saving the result."""
from cases import bug

PR = "src/assign/propagate.rs"
SK = "src/assign/stack.rs"
TS = "src/assign/trail_saving.rs"
BU = "src/solver/build.rs"
SP = "src/bin/splr.rs"
SO = "src/solver/mod.rs"

# undoing
bug("b-undo-phase", "P12", (PR, "            unset_assign!(self, vi);\n            self.var[vi].reason = AssignReason::None;\n\n            #[cfg(not(feature = \"trail_saving\"))]", "            if i != lim || self.var[vi].reason != AssignReason::None {\n                unset_assign!(self, vi);\n            }\n            self.var[vi].reason = AssignReason::None;\n\n            #[cfg(not(feature = \"trail_saving\"))]"))
bug("b-undo-lim", "P12", (PR, "        let lim = self.trail_lim[lv as usize];\n\n        #[cfg(feature = \"trail_saving\")]", "        let lim = *self.trail_lim[lv as usize..].iter().rev().take(4096).last().unwrap();\n\n        #[cfg(feature = \"trail_saving\")]"))
bug("b-undo-qhead", "P12", (PR, "        self.q_head = self.trail.len().min(self.q_head);", "        self.q_head = self.trail.len();"))
bug("b-undo-sandbox", "P12", (PR, "            self.insert_heap(vi);\n        }\n        self.trail.truncate(lim);\n        self.trail_lim.truncate(self.root_level as usize);\n        self.q_head = self.trail.len();", "            if i + 1 < self.trail.len() {\n                self.insert_heap(vi);\n            }\n        }\n        self.trail.truncate(lim);\n        self.trail_lim.truncate(self.root_level as usize);\n        self.q_head = self.trail.len();"))
bug("b-root-same", "P03", (PR, "            _ => Err(SolverError::RootLevelConflict((l, self.var[l.vi()].reason))),\n        }\n    }\n    fn assign_by_implication", "            _ if self.var[vi].reason == AssignReason::None => Err(SolverError::RootLevelConflict((l, self.var[l.vi()].reason))),\n            _ => Ok(()),\n        }\n    }\n    fn assign_by_implication"))
bug("b-root-level", "P12", (PR, "        self.cancel_until(self.root_level);\n        let vi = l.vi();\n        debug_assert!(vi < self.var.len());\n        debug_assert!(!self.var[vi].is(FlagVar::ELIMINATED));\n        debug_assert!(self.trail_lim.is_empty());\n        self.var[vi].level = self.root_level;", "        let vi = l.vi();\n        if self.var[vi].assign.is_none() {\n            self.cancel_until(self.root_level);\n        }\n        self.var[vi].level = self.root_level;"))

# saved trail
bug("b-save-skip", "P15", (TS, "                self.trail_saved.push(l);\n                self.var[vi].reason_saved = self.var[vi].reason;", "                self.trail_saved.push(l);\n                if self.var[vi].reason != AssignReason::None {\n                    self.var[vi].reason_saved = self.var[vi].reason;\n                }"))
bug("b-save-heap", "P13", (TS, "        for j in 0..self.trail_saved.len() {\n            let l = self.trail_saved[j];", "        for j in 1..self.trail_saved.len() {\n            let l = self.trail_saved[j];"))
bug("b-save-conf", "P15", (TS, "                    return Err((cdb[cid].lit0(), AssignReason::Implication(cid)));", "                    return Err((lit, AssignReason::BinaryLink(!cdb[cid].lit1())));"))
bug("b-save-level", "P15", (TS, "                    debug_assert_eq!(cdb[cid].lit0(), lit);", "                    if cdb[cid].lit0() != lit && cdb[cid].is_dead() {\n                        continue;\n                    }\n                    debug_assert_eq!(cdb[cid].lit0(), lit);"))
bug("b-save-free", "P13", (TS, "        for i in free..self.trail.len() {", "        for i in free..self.trail.len() - (free == lim) as usize {"))

# loading
bug("b-load-tail", "P10", (BU, "        if !v.is_empty() && self.add_unchecked_clause(&mut v) == RefClause::EmptyClause {", "        if 1 < v.len() && self.add_unchecked_clause(&mut v) == RefClause::EmptyClause {"))
bug("b-load-dup", "P10", (BU, "            if sat == Some(true) || Some(!li) == l_ {", "            if sat == Some(true) || l_.is_some_and(|l| l.vi() + 1 == li.vi() && j == 40) || Some(!li) == l_ {"))
bug("b-load-min", "P10", (BU, "                            Ok(val) if self.asg.num_vars < val.unsigned_abs() as usize => {", "                            Ok(val) if self.asg.num_vars < val.unsigned_abs() as u16 as usize => {"))
bug("b-add-clause-unit", "P10", (BU, "                asg.assign_at_root_level(l0)\n                    .map_or(RefClause::EmptyClause, |_| RefClause::UnitClause(l0))", "                asg.assign_at_root_level(l0)\n                    .map_or(RefClause::Dead, |_| RefClause::UnitClause(l0))"))
bug("b-certificate-err", "P02", (SO, "                Err(SolverError::EmptyClause) => Ok(Certificate::UNSAT),", "                Err(SolverError::EmptyClause | SolverError::InvalidLiteral) if !vec.is_empty() => Ok(Certificate::UNSAT),"))
bug("b-add-var", "P23", (BU, "        cdb.handle(SolverEvent::NewVar);\n", "        if asg.num_vars % 2 == 1 {\n            cdb.handle(SolverEvent::NewVar);\n            cdb.handle(SolverEvent::NewVar);\n        }\n"))

# the program
bug("b-exit-early", "P17", (SP, "            save_result_without_solver(Ok(false), &cnf_file, ans_file);\n            std::process::exit(20);", "            save_result_without_solver(Ok(false), &cnf_file, ans_file.clone());\n            std::process::exit(if ans_file.is_some() { 20 } else { 0 });"))
bug("b-exit-text", "P17", (SP, "    text.push_str(&format!(\"{}\\n0\\n\", colored(res, true)));", "    text.push_str(&format!(\"{}\\n0\\n\", colored(res.or(Ok(false)), true)));"))
bug("b-timeout-hidden", "P17", (SP, "            std::process::exit(0);\n        });", "            std::process::exit(10);\n        });"))
bug("b-model-lines", "P17", (SP, "                for x in v {\n                    buf", "                for x in v.chunks(9999).next().unwrap_or(&[]) {\n                    buf"))
bug("b-result-sink", "P17", (SP, "                ofile = BufWriter::new(f);\n                &mut ofile", "                drop(f);\n                ofile = BufWriter::new(File::open(file).unwrap());\n                &mut ofile"))
bug("b-proof-early", "P06", (SP, "            if config.use_certification\n                && let Err(why)", "            if config.use_certification\n                && ans_file.is_some()\n                && let Err(why)"))
bug("b-root-opposite", "P03", (PR, "            _ => Err(SolverError::RootLevelConflict((l, self.var[l.vi()].reason))),\n        }\n    }\n    fn assign_by_implication", "            _ if self.assigned(!l) == Some(true) && 1 < self.root_level + self.num_vars as u32 % 2 => Ok(()),\n            _ => Err(SolverError::RootLevelConflict((l, self.var[l.vi()].reason))),\n        }\n    }\n    fn assign_by_implication"))
