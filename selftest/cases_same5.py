"""Refactorings that keep the behaviour (fifth batch): types, state, configuration, stack, search, conflict, vivification."""
from cases import bug, same
SE = "src/solver/search.rs"
VV = "src/cdb/vivify.rs"
EL = "src/processor/eliminate.rs"
SB = "src/processor/subsume.rs"
SI = "src/processor/simplify.rs"
DB = "src/cdb/db.rs"
CO = "src/solver/conflict.rs"
PR = "src/assign/propagate.rs"
ST = "src/assign/stack.rs"
LI = "src/types/lit.rs"
CL = "src/types/clause.rs"
VA = "src/types/var.rs"
SA = "src/state.rs"
CF = "src/config.rs"
SM = "src/solver/mod.rs"

# ---- types
same("lit-asbool", (LI, "        NonZeroU32::get(self.ordinal) & 1 == 1\n", "        bool::from(*self)\n"))
same("lit-i32-ref", (LI, "    fn from(l: &Lit) -> i32 {\n        if NonZeroU32::get(l.ordinal).is_multiple_of(2) {\n            -((NonZeroU32::get(l.ordinal) >> 1) as i32)\n        } else {\n            (NonZeroU32::get(l.ordinal) >> 1) as i32\n        }\n    }", "    fn from(l: &Lit) -> i32 {\n        i32::from(*l)\n    }"))
same("lit-i32-vi", (LI, "    fn from(l: Lit) -> i32 {\n        if NonZeroU32::get(l.ordinal).is_multiple_of(2) {\n            -((NonZeroU32::get(l.ordinal) >> 1) as i32)\n        } else {\n            (NonZeroU32::get(l.ordinal) >> 1) as i32\n        }\n    }", "    fn from(l: Lit) -> i32 {\n        let v = l.vi() as i32;\n        if bool::from(l) { v } else { -v }\n    }"))
same("lit-pair-or", (LI, "((vi as u32) << 1) + (b as u32)", "((vi as u32) << 1) | u32::from(b)"))
same("lit-pair-mul", (LI, "((vi as u32) << 1) + (b as u32)", "2 * (vi as u32) + u32::from(b)"))
same("lit-from-usize", (LI, "        Lit {\n            ordinal: unsafe { NonZeroU32::new_unchecked(l as u32) },\n        }", "        Lit::from(l as u32)"))
same("lit-from-i32", (LI, "                NonZeroU32::new_unchecked((if x < 0 { -2 * x } else { 2 * x + 1 }) as u32)", "                NonZeroU32::new_unchecked((x.abs() * 2 + i32::from(0 < x || x == 0)) as u32)"))
same("lit-from-i32-let", (LI, "        Lit {\n            ordinal: unsafe {\n                NonZeroU32::new_unchecked((if x < 0 { -2 * x } else { 2 * x + 1 }) as u32)\n            },\n        }", "        let code = if 0 <= x { 2 * x + 1 } else { -2 * x };\n        Lit::from(code as u32)"))
same("lit-not", (LI, "        Lit {\n            ordinal: unsafe { NonZeroU32::new_unchecked(NonZeroU32::get(self.ordinal) ^ 1) },\n        }", "        let code = self.ordinal.get() ^ 1;\n        Lit::from(code)"))
same("lit-bool", (LI, "(NonZeroU32::get(l.ordinal) & 1) != 0", "!NonZeroU32::get(l.ordinal).is_multiple_of(2)"))
same("lit-vi", (LI, "(NonZeroU32::get(self.ordinal) >> 1) as VarId", "(self.ordinal.get() / 2) as VarId"))
same("clause-sat", (CL, "        for l in self.lits.iter() {\n            if asg.assigned(*l) == Some(true) {\n                return true;\n            }\n        }\n        false", "        self.lits.iter().any(|l| asg.assigned(*l) == Some(true))"))
same("clause-unit", (CL, "        let unassigned = self\n            .lits\n            .iter()\n            .filter(|l| asg.assigned(**l).is_none())\n            .count();\n        let all_others_false = self\n            .lits\n            .iter()\n            .filter(|l| asg.assigned(**l).is_some())\n            .all(|l| asg.assigned(*l) == Some(false));\n        unassigned == 1 && all_others_false", "        let mut open = 0;\n        for l in self.lits.iter() {\n            match asg.assigned(*l) {\n                Some(true) => return false,\n                Some(false) => (),\n                None => open += 1,\n            }\n        }\n        open == 1"))
same("clause-dead", (CL, "    fn is_dead(&self) -> bool {\n        self.lits.is_empty()\n    }", "    fn is_dead(&self) -> bool {\n        self.is_empty()\n    }"))
same("clause-len-dead", (CL, "    fn is_dead(&self) -> bool {\n        self.lits.is_empty()\n    }", "    fn is_dead(&self) -> bool {\n        self.lits.len() == 0\n    }"))
same("clause-contains", (CL, "        self.lits.contains(&lit)", "        self.lits.iter().any(|l| *l == lit)"))
same("var-new", (VA, "        (0..n as u32 + 1)\n", "        (0..=n as u32)\n"))
same("var-new-loop", (VA, "        (0..n as u32 + 1)\n            .map(|n| {\n                Var {\n                    level: n, // each literal occupies a single level.\n                    ..Default::default()\n                }\n            })\n            .collect::<Vec<_>>()", "        let mut vars = Vec::with_capacity(n + 1);\n        for i in 0..=n {\n            vars.push(Var {\n                level: i as u32,\n                ..Var::default()\n            });\n        }\n        vars"))
# ---- state
same("state-timeout", (SA, "        Duration::from_secs(self.config.c_timeout as u64) < self.start.elapsed()", "        let limit = Duration::from_secs(self.config.c_timeout as u64);\n        self.start.elapsed() > limit"))
same("state-elapsed", (SA, "        Some(\n            self.start.elapsed().as_secs_f64()\n                / Duration::from_secs(self.config.c_timeout as u64).as_secs_f64(),\n        )", "        let limit = Duration::from_secs(self.config.c_timeout as u64).as_secs_f64();\n        let spent = self.start.elapsed().as_secs_f64();\n        Some(spent / limit)"))
same("state-elapsed-instant", (SA, "            self.start.elapsed().as_secs_f64()\n", "            Instant::now().duration_since(self.start).as_secs_f64()\n"))
same("state-flush", (SA, "        if self.config.splr_interface && !self.config.quiet_mode {\n            if mes.as_ref().is_empty() {\n                print!(\"\\x1B[1G\\x1B[K\")\n            } else {\n                print!(\"{}\", mes.as_ref());\n            }\n            stdout().flush().unwrap();\n        }", "        if !self.config.splr_interface || self.config.quiet_mode {\n            return;\n        }\n        match mes.as_ref() {\n            \"\" => print!(\"\\x1B[1G\\x1B[K\"),\n            m => print!(\"{m}\"),\n        }\n        stdout().flush().unwrap();"))
same("state-silent", (SA, "impl StateIF for State {\n", "impl State {\n    fn is_silent(&self) -> bool {\n        !self.config.splr_interface || self.config.quiet_mode\n    }\n}\n\nimpl StateIF for State {\n"), (SA, "        if !self.config.splr_interface || self.config.quiet_mode {\n            return;\n        }\n        if 0 == self.progress_cnt", "        if self.is_silent() {\n            return;\n        }\n        if 0 == self.progress_cnt"), (SA, "        if !self.config.splr_interface || self.config.quiet_mode {\n            self.log_messages.clear();", "        if self.is_silent() {\n            self.log_messages.clear();"), (SA, "        if self.config.splr_interface && !self.config.quiet_mode {\n            if mes", "        if !self.is_silent() {\n            if mes"))
same("state-write", (SA, "                print!(\"{}\", mes.as_ref());\n            }\n            stdout()", "                let _ = stdout().write_all(mes.as_ref().as_bytes());\n            }\n            stdout()"))
# ---- stack
same("stack-asserted-order", (ST, "        self.var[vi].reason = AssignReason::Decision(0);\n        self.set_activity(vi, 0.0);\n        self.remove_from_heap(vi);", "        self.remove_from_heap(vi);\n        self.set_activity(vi, 0.0);\n        self.var[vi].reason = AssignReason::Decision(0);"))
same("stack-elim-guard", (ST, "            self.var[vi].turn_on(FlagVar::ELIMINATED);\n            self.set_activity(vi, 0.0);\n            self.remove_from_heap(vi);\n            debug_assert_eq!(self.decision_level(), self.root_level);\n            self.trail.retain(|l| l.vi() != vi);\n            self.num_eliminated_vars += 1;\n", "            self.num_eliminated_vars += 1;\n            self.remove_from_heap(vi);\n            self.trail.retain(|l| l.vi() != vi);\n            self.set_activity(vi, 0.0);\n            self.var_mut(vi).turn_on(FlagVar::ELIMINATED);\n"))
same("stack-assigned", (ST, "        match self.var[l.vi()].assign {\n            Some(x) if !bool::from(l) => Some(!x),\n            x => x,\n        }", "        self.var[l.vi()].assign.map(|b| b == bool::from(l))"))
same("stack-assigned-xor", (ST, "        match self.var[l.vi()].assign {\n            Some(x) if !bool::from(l) => Some(!x),\n            x => x,\n        }", "        let value = self.var[l.vi()].assign?;\n        Some(value ^ !bool::from(l))"))
same("stack-newvar", (ST, "                self.expand_heap();\n                self.num_vars += 1;\n                self.var.push(Var::default());", "                self.var.push(Var::default());\n                self.num_vars += 1;\n                self.expand_heap();"))
same("stack-assign-ref", (ST, "        self.var.iter().map(|v| v.assign).collect::<Vec<_>>()", "        let mut vec = Vec::with_capacity(self.var.len());\n        for v in &self.var {\n            vec.push(v.assign);\n        }\n        vec"))
same("stack-extend-iter", (ST, "        let mut i = lits.len();\n        while 0 < i {\n            i -= 1;\n            let width = usize::from(lits[i]);\n            debug_assert!(0 < width);\n            debug_assert!(width <= i);\n            let target_index = i - width;\n            let last_lit_index = i - 1;\n            let reason_literals = target_index + 1..=last_lit_index;\n            i = target_index;", "        let mut end = lits.len();\n        while let Some(i) = end.checked_sub(1) {\n            let width = usize::from(lits[i]);\n            debug_assert!(0 < width);\n            debug_assert!(width <= i);\n            let target_index = i - width;\n            let reason_literals = target_index + 1..=i - 1;\n            end = target_index;"))
same("stack-extend-drop-else", (ST, "            } else if lits[reason_literals.clone()]\n                .iter()\n                .any(|l| extended_model[l.vi()] == Some(bool::from(*l)))\n            {\n                continue;\n            }", "            }"))
same("stack-satisfies", (ST, "        for l in vec {\n            if self.assigned(*l) == Some(true) {\n                return true;\n            }\n        }\n        false", "        vec.iter().any(|l| self.assigned(*l) == Some(true))"))
same("stack-remains", (ST, "        self.q_head < self.trail.len()\n", "        self.trail.get(self.q_head).is_some()\n"))
same("stack-level", (ST, "        self.trail_lim.len() as DecisionLevel\n", "        let n = self.trail_lim.len();\n        n as DecisionLevel\n"))
same("stack-lenupto", (ST, "        self.trail_lim.get(n as usize).map_or(0, |n| *n)", "        match self.trail_lim.get(n as usize) {\n            Some(pos) => *pos,\n            None => 0,\n        }"))
# ---- search
same("search-timeout-match", (SE, "            if let Some(p) = state.elapsed() {\n                if 1.0 <= p {\n                    return Err(SolverError::TimeOut);\n                }\n            } else {\n                return Err(SolverError::UndescribedError);\n            }", "            match state.elapsed() {\n                Some(p) if 1.0 <= p => return Err(SolverError::TimeOut),\n                Some(_) => (),\n                None => return Err(SolverError::UndescribedError),\n            }"))
same("search-timeout-ok-or", (SE, "            if let Some(p) = state.elapsed() {\n                if 1.0 <= p {\n                    return Err(SolverError::TimeOut);\n                }\n            } else {\n                return Err(SolverError::UndescribedError);\n            }", "            let spent = state.elapsed().ok_or(SolverError::UndescribedError)?;\n            if spent >= 1.0 {\n                return Err(SolverError::TimeOut);\n            }"))
same("search-conflict-match", (SE, "        let Err(cc) = asg.propagate(cdb) else {\n            continue;\n        };\n", "        let cc = match asg.propagate(cdb) {\n            Ok(()) => continue,\n            Err(cc) => cc,\n        };\n"))
same("search-decide-fn", (SE, "        if !asg.remains() {\n            let lit = asg.select_decision_literal();\n            asg.assign_by_decision(lit);\n        }\n", "        if !asg.remains() {\n            decide(asg);\n        }\n"), (SE, "/// main loop; returns", "fn decide(asg: &mut AssignStack) {\n    let lit = asg.select_decision_literal();\n    asg.assign_by_decision(lit);\n}\n\n/// main loop; returns"))
same("search-rank-let", (SE, "        if 1 < handle_conflict(asg, cdb, state, &cc)? {\n            num_learnt += 1;\n        }\n", "        let rank = handle_conflict(asg, cdb, state, &cc)?;\n        num_learnt += usize::from(1 < rank);\n"))
same("search-pure-fn", (SE, "                        if m == 0 {\n                            let l = Lit::from((vi, true));\n                            debug_assert!(asg.assigned(l).is_none());\n                            cdb.certificate_add_assertion(l);\n                            if asg.assign_at_root_level(l).is_err() {\n                                return Ok(Certificate::UNSAT);\n                            }\n                        } else if p == 0 {\n                            let l = Lit::from((vi, false));\n                            debug_assert!(asg.assigned(l).is_none());\n                            cdb.certificate_add_assertion(l);\n                            if asg.assign_at_root_level(l).is_err() {\n                                return Ok(Certificate::UNSAT);\n                            }\n                        }", "                        if m == 0 || p == 0 {\n                            let l = Lit::from((vi, m == 0));\n                            debug_assert!(asg.assigned(l).is_none());\n                            cdb.certificate_add_assertion(l);\n                            if asg.assign_at_root_level(l).is_err() {\n                                return Ok(Certificate::UNSAT);\n                            }\n                        }"))
same("search-answer", (SE, "                let vals = asg\n                    .var_iter()\n                    .enumerate()\n                    .skip(1)\n                    .map(|(vi, _)| i32::from(Lit::from((vi, model[vi].unwrap()))))\n                    .collect::<Vec<i32>>();", "                let mut vals = Vec::with_capacity(asg.num_vars);\n                for (vi, val) in model.iter().enumerate().skip(1) {\n                    vals.push(i32::from(Lit::from((vi, val.unwrap()))));\n                }"))
same("search-answer-range", (SE, "                let vals = asg\n                    .var_iter()\n                    .enumerate()\n                    .skip(1)\n                    .map(|(vi, _)| i32::from(Lit::from((vi, model[vi].unwrap()))))\n                    .collect::<Vec<i32>>();", "                let vals = (1..=asg.num_vars)\n                    .map(|vi| i32::from(Lit::from((vi, model[vi].unwrap()))))\n                    .collect::<Vec<i32>>();"))
same("search-validate-some", (SE, "                if cdb.validate(&model, false).is_some() {\n", "                let broken = cdb.validate(&model, false);\n                if let Some(cid) = broken {\n                    state.log(None, format!(\"broken by {cid}\"));\n"))
same("search-reduce-fn", (SE, "            {\n                if !cfg!(feature = \"two_mode_reduction\") {\n                    cdb.reduce(\n                        asg,\n                        ReductionType::RASonADD(state.stm.num_reducible(state.config.cls_rdc_rm1)),\n                    );\n                }\n            }\n", "            if !cfg!(feature = \"two_mode_reduction\") {\n                let setting =\n                    ReductionType::RASonADD(state.stm.num_reducible(state.config.cls_rdc_rm1));\n                cdb.reduce(asg, setting);\n            }\n"))
same("search-flags-off", (SE, "                for v in asg.var_iter_mut().skip(1) {\n                    if v.is(FlagVar::ELIMINATED) {\n                        v.turn_off(FlagVar::ELIMINATED);\n                    }\n                }", "                for vi in 1..=asg.num_vars {\n                    asg.var_mut(vi).turn_off(FlagVar::ELIMINATED);\n                }"))
# ---- conflict
same("conflict-unit-if", (CO, "        match asg.assigned(l0) {\n            Some(true) if asg.root_level() < asg.level(l0.vi()) => {\n                panic!(\"double assignment occurred\");\n                // asg.lift_to_asserted(l0.vi());\n            }\n            Some(false) if asg.level(l0.vi()) == asg.root_level() => {\n                return Err(SolverError::RootLevelConflict((l0, asg.reason(l0.vi()))));\n            }\n            _ => {\n                // dump to certified even if it's a literal.\n                cdb.certificate_add_assertion(l0);\n                if asg.assign_at_root_level(l0).is_err() {\n                    unreachable!(\"handle_conflict::root_level_conflict_by_assertion\");\n                }\n                let vi = l0.vi();\n                state.restart.handle(SolverEvent::Assert(vi));\n                cdb.handle(SolverEvent::Assert(vi));\n                return Ok(0);\n            }\n        }\n", "        let vi = l0.vi();\n        let value = asg.assigned(l0);\n        if value == Some(true) && asg.root_level() < asg.level(vi) {\n            panic!(\"double assignment occurred\");\n        }\n        if value == Some(false) && asg.level(vi) == asg.root_level() {\n            return Err(SolverError::RootLevelConflict((l0, asg.reason(vi))));\n        }\n        cdb.certificate_add_assertion(l0);\n        if asg.assign_at_root_level(l0).is_err() {\n            unreachable!(\"handle_conflict::root_level_conflict_by_assertion\");\n        }\n        state.restart.handle(SolverEvent::Assert(vi));\n        cdb.handle(SolverEvent::Assert(vi));\n        return Ok(0);\n"))
same("conflict-root-match", (CO, "        if let AssignReason::Implication(cid) = cc.1\n            && cdb[cid].iter().all(|l| asg.level(l.vi()) == 0)\n        {\n            return Err(SolverError::RootLevelConflict(*cc));\n        }", "        match cc.1 {\n            AssignReason::Implication(cid) if !cdb[cid].iter().any(|l| asg.level(l.vi()) != 0) => {\n                return Err(SolverError::RootLevelConflict(*cc));\n            }\n            _ => (),\n        }"))
same("conflict-empty", (CO, "    if learnt_len == 0 {\n", "    if new_learnt.is_empty() {\n"))
same("conflict-levels-fn", (CO, "        && new_learnt\n            .iter()\n            .map(|l| asg.level(l.vi()))\n            .collect::<HashSet<_>>()\n            .len() as f64\n            >=", "        && {\n            let mut levels: HashSet<DecisionLevel> = HashSet::new();\n            for l in new_learnt.iter() {\n                levels.insert(asg.level(l.vi()));\n            }\n            levels.len()\n        } as f64\n            >="))
same("conflict-bin-used", (CO, "            if bt_drift.is_none() {\n                asg.assign_by_implication(l0, AssignReason::BinaryLink(!l1), assign_level);\n                cdb[cid].used = cdb[cid].used.saturating_add(1);\n            }\n            rank = 1;", "            rank = 1;\n            if bt_drift.is_none() {\n                cdb[cid].used = cdb[cid].used.saturating_add(1);\n                asg.assign_by_implication(l0, AssignReason::BinaryLink(!l1), assign_level);\n            }"))
same("conflict-an-level", (CO, "        let lvl = asg.level(vi);\n        if dl == lvl {\n            conflict_level!(vi);\n        } else {\n            debug_assert_ne!(root_level, lvl);\n            learnt.push(p);\n        }", "        if asg.level(vi) != dl {\n            learnt.push(p);\n        } else {\n            conflict_level!(vi);\n        }"))
same("conflict-an-if", (CO, "                    if !asg.var(vi).is(FlagVar::CA_SEEN) {\n                        let lvl = asg.level(vi);\n                        if root_level == lvl {\n                            trace_lit!(q, \" -- ignore\");\n                            continue;\n                        }\n                        set_seen!(vi);\n                        if dl == lvl {\n                            trace_lit!(q, \" -- found another path\");\n                            conflict_level!(vi);\n                        } else {\n                            trace_lit!(q, \" -- push to learnt\");\n                            learnt.push(*q);\n                        }\n                    } else {\n                        trace!(q, \" -- ignore flagged already\");\n                    }", "                    let lvl = asg.level(vi);\n                    if asg.var(vi).is(FlagVar::CA_SEEN) || lvl == root_level {\n                        continue;\n                    }\n                    set_seen!(vi);\n                    if lvl != dl {\n                        learnt.push(*q);\n                        continue;\n                    }\n                    conflict_level!(vi);"))
# ---- vivify
same("viv-unit-fn", (VV, "                                1 => {\n                                    self.certificate_add_assertion(vec[0]);\n                                    asg.assign_at_root_level(vec[0])?;\n                                    num_assert += 1;\n                                }", "                                1 => {\n                                    let unit = vec[0];\n                                    self.certificate_add_assertion(unit);\n                                    num_assert += 1;\n                                    asg.assign_at_root_level(unit)?;\n                                }"))
same("viv-back-once", (VV, "                                        asg.backtrack_sandbox();\n                                        continue 'next_clause;\n                                    } else {\n                                        // debug_assert!(clits.len() != 2 || decisions.len() != 2);\n                                        seen[0] = num_check;\n                                        vec = asg.analyze_sandbox(\n                                            self, &decisions, &cnfl_lits, &mut seen,\n                                        );\n                                        asg.backtrack_sandbox();\n                                    }", "                                        continue 'next_clause;\n                                    }\n                                    seen[0] = num_check;\n                                    vec = asg.analyze_sandbox(\n                                        self, &decisions, &cnfl_lits, &mut seen,\n                                    );\n                                    asg.backtrack_sandbox();"))
same("viv-back-common", (VV, "                                            self, &decisions, &cnfl_lits, &mut seen,\n                                        );\n                                        asg.backtrack_sandbox();\n", "                                            self, &decisions, &cnfl_lits, &mut seen,\n                                        );\n"), (VV, "                                            self, &decisions, cnfl_lits, &mut seen,\n                                        );\n                                        asg.backtrack_sandbox();\n", "                                            self, &decisions, cnfl_lits, &mut seen,\n                                        );\n"), (VV, "                            match vec.len() {\n", "                            asg.backtrack_sandbox();\n                            match vec.len() {\n"))
same("viv-for", (VV, "        'next_clause: while let Some(cp) = clauses.pop() {\n", "        'next_clause: for cp in std::mem::take(&mut clauses).into_iter().rev() {\n"))
same("viv-match-slice", (VV, "                            match vec.len() {\n                                0 => {", "                            match vec.as_slice() {\n                                [] => {"), (VV, "                                1 => {\n                                    self.certificate_add_assertion(vec[0]);\n                                    asg.assign_at_root_level(vec[0])?;", "                                [l] => {\n                                    self.certificate_add_assertion(*l);\n                                    asg.assign_at_root_level(*l)?;"))
same("viv-analyze-any", (VV, "            if decisions.contains(l) {\n", "            if decisions.iter().any(|d| d == l) {\n"))
same("viv-stats-fn", (VV, "                                    state.flush(\"\");\n                                    state[Stat::VivifiedClause] += num_shrink;\n                                    state[Stat::VivifiedVar] += num_assert;\n                                    state.log(None, \"RootLevelConflict By vivify\");\n                                    return", "                                    state[Stat::VivifiedVar] += num_assert;\n                                    state[Stat::VivifiedClause] += num_shrink;\n                                    state.flush(\"\");\n                                    state.log(None, \"RootLevelConflict By vivify\");\n                                    return"))
# ---- elimination
same("elim-remove-chain", (EL, "    for cid in pos.iter() {\n        if cdb[*cid].is_dead() {\n            continue;\n        }\n        elim.remove_cid_occur(asg, *cid, &mut cdb[*cid]);\n        cdb.remove_clause(*cid);\n    }\n    for cid in neg.iter() {\n        if cdb[*cid].is_dead() {\n            continue;\n        }\n        elim.remove_cid_occur(asg, *cid, &mut cdb[*cid]);\n        cdb.remove_clause(*cid);\n    }\n", "    for cid in pos.iter().chain(neg.iter()) {\n        if !cdb[*cid].is_dead() {\n            elim.remove_cid_occur(asg, *cid, &mut cdb[*cid]);\n            cdb.remove_clause(*cid);\n        }\n    }\n"))
same("elim-store-swap", (EL, "    if neg.len() < pos.len() {\n        for cid in neg {\n            debug_assert!(!cdb[*cid].is_dead());\n            make_eliminated_clause(cdb, store, v, *cid);\n        }\n        make_eliminating_unit_clause(store, Lit::from((v, true)));\n    } else {\n        for cid in pos {\n            debug_assert!(!cdb[*cid].is_dead());\n            make_eliminated_clause(cdb, store, v, *cid);\n        }\n        make_eliminating_unit_clause(store, Lit::from((v, false)));\n    }", "    let by_neg = neg.len() < pos.len();\n    let side = if by_neg { neg } else { pos };\n    for cid in side {\n        debug_assert!(!cdb[*cid].is_dead());\n        make_eliminated_clause(cdb, store, v, *cid);\n    }\n    make_eliminating_unit_clause(store, Lit::from((v, by_neg)));"))
same("elim-store-position", (EL, "    for l in c.iter() {\n        store.push(*l);\n        if l.vi() == vi {\n            let index = store.len() - 1;\n            debug_assert_eq!(store[index], *l);\n            debug_assert_eq!(store[index].vi(), vi);\n            // swap the first literal with the 'v'. So that the literal containing 'v' will occur first in the clause.\n            store.swap(index, first);\n        }\n    }", "    store.extend(c.iter().filter(|l| l.vi() == vi));\n    store.extend(c.iter().filter(|l| l.vi() != vi));"))
same("sub-have-all", (SB, "    'next: for l in ch.iter() {\n        for lo in ob.iter() {\n            if *l == *lo {\n                continue 'next;\n                // } else if ret == Subsumable::Success && *l == !*lo {\n                //     ret = Subsumable::By(*l);\n                //     continue 'next;\n            }\n        }\n        return Subsumable::None;\n    }\n    Subsumable::Success", "    if ch.iter().all(|l| ob.contains(*l)) {\n        Subsumable::Success\n    } else {\n        Subsumable::None\n    }"))
same("sub-lifted-any", (SB, "        for lo in oh.iter() {\n            if l == !*lo {\n                return Subsumable::By(l);\n            }\n        }\n        return Subsumable::None;", "        return if oh.contains(!l) {\n            Subsumable::By(l)\n        } else {\n            Subsumable::None\n        };"))
# ---- undo and assign
same("prop-root-if", (PR, "        match var_assign!(self, vi) {\n            None => {\n                set_assign!(self, l);\n                debug_assert!(!self.trail.contains(&!l));\n                self.trail.push(l);\n                self.make_var_asserted(vi);\n                Ok(())\n            }\n            Some(x) if x == bool::from(l) => {\n                #[cfg(feature = \"boundary_check\")]\n                panic!(\"double assignment(assertion)\");\n                #[cfg(not(feature = \"boundary_check\"))]\n                // Vivification tries to assign a var by propagation then can assert it.\n                // To make sure the var is asserted, we need to nullify its reason.\n                // || self.reason[vi] = AssignReason::None;\n                // self.make_var_asserted(vi);\n                Ok(())\n            }\n            _ => Err(SolverError::RootLevelConflict((l, self.var[l.vi()].reason))),\n        }", "        let Some(x) = var_assign!(self, vi) else {\n            set_assign!(self, l);\n            self.trail.push(l);\n            self.make_var_asserted(vi);\n            return Ok(());\n        };\n        if x != bool::from(l) {\n            return Err(SolverError::RootLevelConflict((l, self.var[vi].reason)));\n        }\n        Ok(())"))
same("prop-back-drain", (PR, "        for i in lim..self.trail.len() {\n            let l = self.trail[i];\n            let vi = l.vi();\n            debug_assert!(self.root_level < self.var[vi].level);\n            unset_assign!(self, vi);\n            self.var[vi].reason = AssignReason::None;\n            self.insert_heap(vi);\n        }\n        self.trail.truncate(lim);\n", "        while lim < self.trail.len() {\n            let Some(l) = self.trail.pop() else { break };\n            let vi = l.vi();\n            unset_assign!(self, vi);\n            self.var[vi].reason = AssignReason::None;\n            self.insert_heap(vi);\n        }\n"))
same("prop-back-split", (PR, "        for i in lim..self.trail.len() {\n            let l = self.trail[i];\n            let vi = l.vi();\n            debug_assert!(self.root_level < self.var[vi].level);\n            unset_assign!(self, vi);\n            self.var[vi].reason = AssignReason::None;\n            self.insert_heap(vi);\n        }\n        self.trail.truncate(lim);\n", "        let undone = self.trail.split_off(lim);\n        for l in undone.iter() {\n            let vi = l.vi();\n            unset_assign!(self, vi);\n            self.var[vi].reason = AssignReason::None;\n            self.insert_heap(vi);\n        }\n"))
# ---- configuration
same("conf-match-flag", (CF, "                if flags.contains(&name) {\n                    match name {\n                        \"C\" => self.no_color = true,", "                let is_flag = flags.iter().any(|f| *f == name);\n                if is_flag {\n                    match name {\n                        \"C\" => self.no_color = true,"))
same("conf-path-let", (CF, "                    if let Some(val) = iter.next() {\n                        match name {\n                            \"o\" => self.io_odir = PathBuf::from(val),\n                            \"p\" => self.io_pfile = PathBuf::from(val),\n                            \"r\" => self.io_rfile = PathBuf::from(val),\n                            \"t\" => {\n                                self.c_timeout = val.parse::<f64>().expect(\"-t requires a number\")\n                            }\n                            _ => panic!(\"invalid option: {name}\"),\n                        }\n                    } else {\n                        panic!(\"no argument for {name}\");\n                    }", "                    let Some(val) = iter.next() else {\n                        panic!(\"no argument for {name}\");\n                    };\n                    match name {\n                        \"o\" => self.io_odir = val.into(),\n                        \"p\" => self.io_pfile = val.into(),\n                        \"r\" => self.io_rfile = val.into(),\n                        \"t\" => self.c_timeout = val.parse().expect(\"-t requires a number\"),\n                        _ => panic!(\"invalid option: {name}\"),\n                    }"))
