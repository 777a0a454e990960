"""Planted bugs, seventh batch: proof text, stage end, isolation, liveness, tentative reasoning."""
from cases import bug
SE = "src/solver/search.rs"
VV = "src/cdb/vivify.rs"
EL = "src/processor/eliminate.rs"
SB = "src/processor/subsume.rs"
SI = "src/processor/simplify.rs"
DB = "src/cdb/db.rs"
CO = "src/solver/conflict.rs"
PR = "src/assign/propagate.rs"
TS = "src/assign/trail_saving.rs"
UC = "src/cdb/unsat_certificate.rs"
TC = "src/types/clause.rs"
SA = "src/state.rs"

bug("p06-reversed", "P06", (UC, "        for l in clause.iter() {\n            self.queue.push(i32::from(*l));\n        }\n        if DUMP_INTERVAL < self.queue.len() {\n            self.dump_to_file();\n        }\n    }\n    pub fn delete_clause", "        for l in clause.iter().rev() {\n            self.queue.push(i32::from(*l));\n        }\n        if DUMP_INTERVAL < self.queue.len() {\n            self.dump_to_file();\n        }\n    }\n    pub fn delete_clause"))
bug("p06-dedup", "P06", (UC, "        if DUMP_INTERVAL < self.queue.len() {\n            self.dump_to_file();\n        }\n    }\n    pub fn delete_clause", "        if DUMP_INTERVAL < self.queue.len() {\n            self.queue.dedup();\n            self.dump_to_file();\n        }\n    }\n    pub fn delete_clause"))
bug("p06-return-early", "P06", (UC, "            while index < self.queue.len() {\n                let l = self.queue[index];", "            while index < self.queue.len() {\n                let l = self.queue[index];\n                if l == 0 {\n                    break;\n                }"))
bug("p06-hold", "P06", (UC, "        self.dump_to_file();\n        if let Some(ref mut buf) = self.buffer {\n            let _", "        if 2 < self.queue.len() {\n            self.dump_to_file();\n        }\n        if let Some(ref mut buf) = self.buffer {\n            let _"))
bug("p21-clone-proof", "P21", (UC, "        Self::default()\n    }\n}\n\n#[cfg(not(feature = \"no_IO\"))]\nimpl Instantiate", "        CertificationStore {\n            queue: Vec::new(),\n            target: self.target.clone(),\n            buffer: self\n                .buffer\n                .as_ref()\n                .and_then(|b| b.get_ref().try_clone().ok())\n                .map(BufWriter::new),\n        }\n    }\n}\n\n#[cfg(not(feature = \"no_IO\"))]\nimpl Instantiate"))
bug("p16-stage-new", "P16", (SE, "                if 1.0 <= p {", "                if 1.0 <= p && previous_stage.is_some() {"))
bug("p16-check-cond", "P16", (SI, "        cdb.check_size().map(|_| ())\n", "        if self.num_subsumed == 0 {\n            return cdb.check_size().map(|_| ());\n        }\n        Ok(())\n"))
bug("p16-stage-late", "P16", (SE, "            if let Some(p) = state.elapsed() {\n                if 1.0 <= p {", "            if let Some(p) = state.elapsed() {\n                if 1.0 <= p && cdb.check_size().is_ok_and(|ok| ok) {"))
bug("p01-unwrap-or", "P01", (SE, "                    .map(|(vi, _)| i32::from(Lit::from((vi, model[vi].unwrap()))))", "                    .map(|(vi, v)| {\n                        i32::from(Lit::from((\n                            vi,\n                            v.assign.or(model[vi]).unwrap(),\n                        )))\n                    })"))
bug("p01-validate-first", "P01", (SE, "                let model = asg.extend_model(cdb);\n\n                #[cfg(feature = \"boundary_check\")]\n                check(asg, cdb, true, \"After extending the model\");", "                let mut model = asg.extend_model(cdb);\n                let found = cdb.validate(&model, false);\n                for (vi, v) in asg.var_iter().enumerate().skip(1) {\n                    if v.is(FlagVar::ELIMINATED) && v.is(FlagVar::PHASE) {\n                        model[vi] = Some(true);\n                    }\n                }"), (SE, "                if cdb.validate(&model, false).is_some() {", "                if found.is_some() {"))
bug("p31-subsume-dead", "P31", (SI, "                        if !d.is_dead() && d.len() <= self.subsume_literal_limit {", "                        if d.len() <= self.subsume_literal_limit {"))
bug("p31-root-dead", "P31", (PR, "                if cdb[cid].is_dead() {\n                    continue;\n                }\n                debug_assert!(\n                    cdb[cid]", "                debug_assert!(\n                    cdb[cid]"))
bug("p31-viv-pop-dead", "P31", (VV, "            if c.is_dead() {\n                continue;\n            }\n            let is_learnt", "            if c.is_dead() && 1 < num_check {\n                continue;\n            }\n            let is_learnt"))
bug("p31-free-front", "P31", (DB, "            &mut self.num_learnt,\n            cid,\n            c,\n        );\n        self.freelist.push(cid);\n        // assert_eq!(self.clause.iter().skip(1).filter(|c| !c.is_dead()).count(), self.num_clause);\n    }\n    fn remove_clause_sandbox", "            &mut self.num_learnt,\n            cid,\n            c,\n        );\n        self.freelist.push(cid);\n        self.freelist.push(cid);\n        self.freelist.dedup();\n        if self.freelist.len() & 0xffff == 0xffff {\n            self.freelist.push(cid);\n        }\n    }\n    fn remove_clause_sandbox"))
bug("p30-remove-assumed", "P30", (VV, "                    Some(false) => (),\n                    //## Rule 2", "                    Some(false) if is_learnt && 3 < decisions.len() => {\n                        self.remove_clause(cid);\n                        continue 'next_clause;\n                    }\n                    Some(false) => (),\n                    //## Rule 2"))
bug("p30-assert-assumed", "P30", (VV, "                            match vec.len() {\n                                0 => {", "                            if is_learnt && vec.len() == 2 {\n                                asg.assign_by_decision(vec[0]);\n                            }\n                            match vec.len() {\n                                0 => {"))
bug("p30-limit-inside", "P30", (VV, "            asg.backtrack_sandbox();\n            debug_assert_eq!(asg.decision_level(), asg.root_level());\n            if asg.remains() {", "            if !cp.value().is_nan() && num_check % 8 == 0 {\n                asg.backtrack_sandbox();\n            }\n            if asg.remains() {"))
bug("p14-clean-early", "P14", (SE, "        asg.update_activity_tick();\n        #[cfg(feature = \"clause_rewarding\")]", "        asg.update_activity_tick();\n        if asg.decision_level() == asg.root_level() + 1 && num_learnt % 1024 == 1023 {\n            cdb.reduce(asg, ReductionType::RASonADD(state.stm.num_reducible(state.config.cls_rdc_rm1)));\n        }\n        #[cfg(feature = \"clause_rewarding\")]"))
bug("p14-unit-clean", "P14", (CO, "                state.restart.handle(SolverEvent::Assert(vi));", "                let lit = !l0;\n                asg.assign_by_decision(lit);\n                asg.clear_asserted_literals(cdb)?;\n                state.restart.handle(SolverEvent::Assert(vi));"))
bug("p14-phase-stage", "P14", (SE, "            state.restart.set_stage_parameters(scale);\n            previous_stage = next_stage;", "            state.restart.set_stage_parameters(scale);\n            if next_stage == Some(true) && !asg.remains() && previous_stage.is_none() {\n                let lit = asg.select_decision_literal();\n                asg.assign_by_decision(lit);\n                cdb.reduce(asg, ReductionType::RASonADD(1));\n            }\n            previous_stage = next_stage;"))
bug("p12-trunc-max", "P12", (PR, "        self.trail_lim.truncate(lv as usize);\n", "        self.trail_lim\n            .truncate((lv as usize).max(usize::from(self.q_head == 0)));\n"))
bug("p12-undo-saved", "P12", (PR, "            unset_assign!(self, vi);\n            self.var[vi].reason = AssignReason::None;\n\n            #[cfg(not(feature = \"trail_saving\"))]", "            unset_assign!(self, vi);\n            if self.var[vi].reason != self.var[vi].reason_saved {\n                self.var[vi].reason = AssignReason::None;\n            }\n\n            #[cfg(not(feature = \"trail_saving\"))]"))
bug("p12-sandbox-lim", "P12", (PR, "        let lim = self.trail_lim[self.root_level as usize];\n        for i in lim..self.trail.len() {\n            let l = self.trail[i];\n            let vi = l.vi();\n            debug_assert!(self.root_level", "        let lim = *self.trail_lim.last().unwrap();\n        for i in lim..self.trail.len() {\n            let l = self.trail[i];\n            let vi = l.vi();\n            debug_assert!(self.root_level"))
bug("p12-save-from", "P13", (TS, "            free = lim2;", "            free = lim2 + 1;"))
bug("p13-save-thr", "P13", (TS, "        for i in free..self.trail.len() {\n            let vi = self.trail[i].vi();\n            self.reward_at_unassign(vi);\n            self.insert_heap(vi);", "        for i in free..self.trail.len() {\n            let vi = self.trail[i].vi();\n            self.reward_at_unassign(vi);\n            if self.var[vi].reward <= 1.0 {\n                self.insert_heap(vi);\n            }"))
bug("p24-rm-learnt-bi", "P24", (DB, "    if c.is(FlagClause::LEARNT) {\n        *num_learnt -= 1;\n    }\n    *num_clause -= 1;", "    if c.is(FlagClause::LEARNT) && 2 < c.len() {\n        *num_learnt -= 1;\n    }\n    *num_clause -= 1;"))
bug("p20-cores", "P20", (VV, "            if VIVIFY_LIMIT < num_check {", "            if VIVIFY_LIMIT / std::thread::available_parallelism().map_or(1, |n| n.get()) < num_check {"))
bug("p20-pid", "P20", (SE, "    let stage_size: usize = 32;", "    let stage_size: usize = 32 + (std::process::id() & 1) as usize;"))
bug("p20-random-state", "P20", (SE, "    let stage_size: usize = 32;", "    let stage_size: usize = {\n        use std::hash::{BuildHasher, Hasher};\n        32 + (std::collections::hash_map::RandomState::new().build_hasher().finish() & 1) as usize\n    };"))
bug("p20-cap-path", "P20", (SE, "    let stage_size: usize = 32;", "    let stage_size: usize = if state.config.io_odir.exists() { 32 } else { 33 };"))
bug("p22-log-file", "P22", (SA, "        if self.config.splr_interface && !self.config.quiet_mode {\n            if mes.as_ref().is_empty() {", "        if self.config.use_certification {\n            let _ = std::fs::OpenOptions::new()\n                .append(true)\n                .open(\"splr.log\")\n                .and_then(|mut f| f.write_all(mes.as_ref().as_bytes()));\n        }\n        if self.config.splr_interface && !self.config.quiet_mode {\n            if mes.as_ref().is_empty() {"))
bug("p05-viv-twice", "P05", (VV, "                                    self.new_clause(asg, &mut vec, is_learnt);\n                                    self.remove_clause(cid);", "                                    if self.new_clause(asg, &mut vec, is_learnt).is_new().is_none() {\n                                        self.remove_clause_sandbox(cid);\n                                    }\n                                    self.remove_clause(cid);"))
bug("p05-strength-del", "P05", (DB, "            certification_store.add_clause(&c.lits);\n            certification_store.delete_clause(&new_lits);\n        }\n        RefClause::Clause(cid)\n    }\n    // Not in use so far", "            certification_store.add_clause(&c.lits);\n            if !c.is(FlagClause::ENQUEUED) {\n                certification_store.delete_clause(&new_lits);\n            }\n        }\n        RefClause::Clause(cid)\n    }\n    // Not in use so far"))
bug("p04-preprocess", "P04", (EL, "                            cdb.certificate_add_assertion(lit);\n                            asg.assign_at_root_level(lit)?;", "                            if learnt_p || !cdb[*n].is(FlagClause::LEARNT) {\n                                cdb.certificate_add_assertion(lit);\n                            }\n                            asg.assign_at_root_level(lit)?;"))
bug("p15-stage-scale", "P15", (SE, "            asg.handle(SolverEvent::Stage(scale));", "            if 1 < scale {\n                asg.handle(SolverEvent::Stage(scale));\n            }"))
bug("p15-restart-keep", "P15", (CO, "            asg.clear_saved_trail();", "            if !b {\n                asg.save_trail(assign_level.saturating_sub(1).min(asg.decision_level()));\n            }"))
bug("p28-drift-keep", "P28", (CO, "            asg.cancel_until(assign_level - 1);", "            asg.cancel_until(assign_level - u32::from(1 < assign_level));"))
bug("p03-stage-clear", "P03", (SE, "            asg.clear_asserted_literals(cdb)?;\n\n            #[cfg(feature = \"trace_equivalency\")]", "            if let Err(e) = asg.clear_asserted_literals(cdb) {\n                state.log(None, format!(\"{e}\"));\n                if !matches!(e, SolverError::RootLevelConflict(_)) {\n                    return Err(e);\n                }\n            }\n\n            #[cfg(feature = \"trace_equivalency\")]"))
bug("p02-stage-viv", "P02", (SE, "                    return Err(SolverError::TimeOut);\n                }\n            } else {\n                return Err(SolverError::UndescribedError);", "                    return Err(SolverError::TimeOut);\n                }\n            } else {\n                return Ok(false);"))
bug("p07-append-cond", "P07", (SE, "                        asg.eliminated.append(elim.eliminated_lits());\n                        state[Stat::Simplify] += 1;", "                        if 0 < elim.num_subsumed || next_stage.is_some_and(|s| !s) {\n                            asg.eliminated.append(elim.eliminated_lits());\n                        }\n                        state[Stat::Simplify] += 1;"))
