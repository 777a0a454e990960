"""Edits that keep the behaviour: conflict analysis, search, vivification, the assignment stack."""
from cases import bug, same

CO, SR, VI, SK = "src/solver/conflict.rs", "src/solver/search.rs", "src/cdb/vivify.rs", "src/assign/stack.rs"

# ---- conflict.rs
same("co-root-match", (CO, "        if let AssignReason::Implication(cid) = cc.1\n            && cdb[cid].iter().all(|l| asg.level(l.vi()) == 0)\n        {\n            return Err(SolverError::RootLevelConflict(*cc));\n        }",
     "        let at_root = match cc.1 {\n            AssignReason::Implication(cid) => cdb[cid].iter().all(|l| asg.level(l.vi()) == 0),\n            _ => false,\n        };\n        if at_root {\n            return Err(SolverError::RootLevelConflict(*cc));\n        }"))
same("co-highest", (CO, "fn minimize_learnt(\n", "fn highest(lits: &[Lit], asg: &AssignStack) -> (usize, DecisionLevel) {\n    let mut max_i = 1;\n    let mut top = asg.level(lits[1].vi());\n    for (i, l) in lits.iter().enumerate().skip(2) {\n        let lv = asg.level(l.vi());\n        if top < lv {\n            top = lv;\n            max_i = i;\n        }\n    }\n    (max_i, top)\n}\n\nfn minimize_learnt(\n"),
     (CO, "        let mut max_i = 1;\n        level_to_return = asg.level(new_learnt[max_i].vi());\n        for (i, l) in new_learnt.iter().enumerate().skip(2) {\n            let lv = asg.level(l.vi());\n            if level_to_return < lv {\n                level_to_return = lv;\n                max_i = i;\n            }\n        }\n        new_learnt.swap(1, max_i);", "        let (max_i, top) = highest(new_learnt, asg);\n        level_to_return = top;\n        new_learnt.swap(1, max_i);"))
same("co-max-index", (CO, "        let mut max_i = 1;\n        level_to_return = asg.level(new_learnt[max_i].vi());\n        for (i, l) in new_learnt.iter().enumerate().skip(2) {\n            let lv = asg.level(l.vi());\n            if level_to_return < lv {\n                level_to_return = lv;\n                max_i = i;\n            }\n        }\n        new_learnt.swap(1, max_i);",
     "        let mut max_i = 1;\n        for i in 2..new_learnt.len() {\n            if asg.level(new_learnt[max_i].vi()) < asg.level(new_learnt[i].vi()) {\n                max_i = i;\n            }\n        }\n        level_to_return = asg.level(new_learnt[max_i].vi());\n        new_learnt.swap(1, max_i);"))
same("co-max-by-key", (CO, "        let mut max_i = 1;\n        level_to_return = asg.level(new_learnt[max_i].vi());\n        for (i, l) in new_learnt.iter().enumerate().skip(2) {\n            let lv = asg.level(l.vi());\n            if level_to_return < lv {\n                level_to_return = lv;\n                max_i = i;\n            }\n        }\n        new_learnt.swap(1, max_i);",
     "        let (max_i, lv) = new_learnt\n            .iter()\n            .enumerate()\n            .skip(1)\n            .map(|(i, l)| (i, asg.level(l.vi())))\n            .rev()\n            .max_by_key(|(_, lv)| *lv)\n            .unwrap();\n        level_to_return = lv;\n        new_learnt.swap(1, max_i);"))
same("co-undo", (CO, "#[allow(dead_code)]\nfn check_graph(", "fn undo(asg: &mut AssignStack, clear: &mut Vec<Lit>, top: usize) {\n    for l in clear.iter().skip(top) {\n        asg.var_mut(l.vi()).turn_off(FlagVar::CA_SEEN);\n    }\n    clear.truncate(top);\n}\n\n#[allow(dead_code)]\nfn check_graph("),
     (CO, "                            for l in &clear[top..] {\n                                asg.var_mut(l.vi()).turn_off(FlagVar::CA_SEEN);\n                            }\n                            clear.truncate(top);\n                            return false;\n                        }\n                    }\n                }\n                AssignReason::Implication", "                            undo(asg, clear, top);\n                            return false;\n                        }\n                    }\n                }\n                AssignReason::Implication"),
     (CO, "                                for l in &clear[top..] {\n                                    asg.var_mut(l.vi()).turn_off(FlagVar::CA_SEEN);\n                                }\n                                clear.truncate(top);\n                                return false;", "                                undo(asg, clear, top);\n                                return false;"))
same("co-drain", (CO, "                                for l in &clear[top..] {\n                                    asg.var_mut(l.vi()).turn_off(FlagVar::CA_SEEN);\n                                }\n                                clear.truncate(top);\n                                return false;", "                                for l in clear.drain(top..) {\n                                    asg.var_mut(l.vi()).turn_off(FlagVar::CA_SEEN);\n                                }\n                                return false;"))
same("co-undo-pop", (CO, "                                for l in &clear[top..] {\n                                    asg.var_mut(l.vi()).turn_off(FlagVar::CA_SEEN);\n                                }\n                                clear.truncate(top);\n                                return false;", "                                while clear.len() > top {\n                                    let l = clear.pop().unwrap();\n                                    asg.var_mut(l.vi()).turn_off(FlagVar::CA_SEEN);\n                                }\n                                return false;"))
same("co-red-continue", (CO, "                        let lv = asg.level(vi);\n                        if 0 < lv && !asg.var(vi).is(FlagVar::CA_SEEN) {\n                            // if asg.reason(vi) != AssignReason::default() && levels[lv as usize] {\n                            if matches!(\n                                asg.reason(vi),\n                                AssignReason::BinaryLink(_) | AssignReason::Implication(_)\n                            ) && levels[lv as usize]\n                            {\n                                asg.var_mut(vi).turn_on(FlagVar::CA_SEEN);\n                                stack.push(*q);\n                                clear.push(*q);\n                            } else {\n                                // one of the roots is a decision var at an unchecked level.\n                                for l in &clear[top..] {\n                                    asg.var_mut(l.vi()).turn_off(FlagVar::CA_SEEN);\n                                }\n                                clear.truncate(top);\n                                return false;\n                            }\n                        }",
     "                        let lv = asg.level(vi);\n                        if lv == 0 || asg.var(vi).is(FlagVar::CA_SEEN) {\n                            continue;\n                        }\n                        let implied = !matches!(\n                            asg.reason(vi),\n                            AssignReason::Decision(_) | AssignReason::None\n                        );\n                        if !implied || !levels[lv as usize] {\n                            for l in &clear[top..] {\n                                asg.var_mut(l.vi()).turn_off(FlagVar::CA_SEEN);\n                            }\n                            clear.truncate(top);\n                            return false;\n                        }\n                        asg.var_mut(vi).turn_on(FlagVar::CA_SEEN);\n                        stack.push(*q);\n                        clear.push(*q);"))
same("co-red-lits", (CO, "        while let Some(sl) = stack.pop() {\n            match asg.reason(sl.vi()) {\n                AssignReason::BinaryLink(l) => {\n                    let vi = l.vi();\n                    let lv = asg.level(vi);\n                    if 0 < lv && !asg.var(vi).is(FlagVar::CA_SEEN) {\n                        // if asg.reason(vi) != AssignReason::Decision(_) && levels[lv as usize] {\n                        if matches!(\n                            asg.reason(vi),\n                            AssignReason::Implication(_) | AssignReason::BinaryLink(_)\n                        ) && levels[lv as usize]\n                        {\n                            asg.var_mut(vi).turn_on(FlagVar::CA_SEEN);\n                            stack.push(l);\n                            clear.push(l);\n                        } else {\n                            // one of the roots is a decision var at an unchecked level.\n                            for l in &clear[top..] {\n                                asg.var_mut(l.vi()).turn_off(FlagVar::CA_SEEN);\n                            }\n                            clear.truncate(top);\n                            return false;\n                        }\n                    }\n                }\n                AssignReason::Implication(cid) => {\n                    let c = &cdb[cid];\n                    for q in &(*c)[1..] {\n                        let vi = q.vi();\n                        let lv = asg.level(vi);\n                        if 0 < lv && !asg.var(vi).is(FlagVar::CA_SEEN) {\n                            // if asg.reason(vi) != AssignReason::default() && levels[lv as usize] {\n                            if matches!(\n                                asg.reason(vi),\n                                AssignReason::BinaryLink(_) | AssignReason::Implication(_)\n                            ) && levels[lv as usize]\n                            {\n                                asg.var_mut(vi).turn_on(FlagVar::CA_SEEN);\n                                stack.push(*q);\n                                clear.push(*q);\n                            } else {\n                                // one of the roots is a decision var at an unchecked level.\n                                for l in &clear[top..] {\n                                    asg.var_mut(l.vi()).turn_off(FlagVar::CA_SEEN);\n                                }\n                                clear.truncate(top);\n                                return false;\n                            }\n                        }\n                    }\n                }\n                AssignReason::Decision(_) | AssignReason::None => unreachable!(\"is_redundant\"),\n            }\n        }",
     "        while let Some(sl) = stack.pop() {\n            let lits: Vec<Lit> = match asg.reason(sl.vi()) {\n                AssignReason::BinaryLink(l) => vec![l],\n                AssignReason::Implication(cid) => cdb[cid].iter().skip(1).copied().collect(),\n                AssignReason::Decision(_) | AssignReason::None => unreachable!(\"is_redundant\"),\n            };\n            for q in lits {\n                let vi = q.vi();\n                let lv = asg.level(vi);\n                if 0 < lv && !asg.var(vi).is(FlagVar::CA_SEEN) {\n                    if matches!(\n                        asg.reason(vi),\n                        AssignReason::BinaryLink(_) | AssignReason::Implication(_)\n                    ) && levels[lv as usize]\n                    {\n                        asg.var_mut(vi).turn_on(FlagVar::CA_SEEN);\n                        stack.push(q);\n                        clear.push(q);\n                    } else {\n                        for l in &clear[top..] {\n                            asg.var_mut(l.vi()).turn_off(FlagVar::CA_SEEN);\n                        }\n                        clear.truncate(top);\n                        return false;\n                    }\n                }\n            }\n        }"))
same("co-bt-match", (CO, "    if let Some(b) = bt_drift {\n        if b {\n            asg.cancel_until(conflicting_level - 1);\n            state.bt_drift_average.update(1.0);\n        } else {\n            asg.cancel_until(assign_level - 1);\n            state.bt_drift_average.update(-1.0);\n        }\n        #[cfg(feature = \"trail_saving\")]\n        {\n            asg.clear_saved_trail();\n        }\n        #[cfg(feature = \"chrono_BT\")]\n        {\n            state.num_chrono_bt += 1;\n        }\n    } else {\n        asg.cancel_until(assign_level);\n        state.bt_drift_average.update(0.0);\n    }",
     "    let (to, drift) = match bt_drift {\n        Some(true) => (conflicting_level - 1, 1.0),\n        Some(false) => (assign_level - 1, -1.0),\n        None => (assign_level, 0.0),\n    };\n    asg.cancel_until(to);\n    state.bt_drift_average.update(drift);\n    if bt_drift.is_some() {\n        #[cfg(feature = \"trail_saving\")]\n        {\n            asg.clear_saved_trail();\n        }\n        #[cfg(feature = \"chrono_BT\")]\n        {\n            state.num_chrono_bt += 1;\n        }\n    }"))
same("co-install", (CO, "fn minimize_learnt(\n", "fn install(asg: &mut AssignStack, cdb: &mut ClauseDB, cid: ClauseId, l: Lit, reason: AssignReason, level: DecisionLevel) {\n    asg.assign_by_implication(l, reason, level);\n    cdb[cid].used = cdb[cid].used.saturating_add(1);\n}\n\nfn minimize_learnt(\n"),
     (CO, "                asg.assign_by_implication(l0, AssignReason::BinaryLink(!l1), assign_level);\n                cdb[cid].used = cdb[cid].used.saturating_add(1);\n            }\n            rank = 1;\n            #[cfg", "                install(asg, cdb, cid, l0, AssignReason::BinaryLink(!l1), assign_level);\n            }\n            rank = 1;\n            #[cfg"),
     (CO, "                asg.assign_by_implication(l0, AssignReason::Implication(cid), assign_level);\n                cdb[cid].used = cdb[cid].used.saturating_add(1);", "                install(asg, cdb, cid, l0, AssignReason::Implication(cid), assign_level);"))
same("co-unit-fn", (CO, "fn minimize_learnt(\n", "fn assert_unit(asg: &mut AssignStack, cdb: &mut ClauseDB, state: &mut State, l0: Lit) -> Result<u16, SolverError> {\n    if asg.level(l0.vi()) == asg.root_level() && asg.assigned(l0) == Some(false) {\n        return Err(SolverError::RootLevelConflict((l0, asg.reason(l0.vi()))));\n    }\n    cdb.certificate_add_assertion(l0);\n    if asg.assign_at_root_level(l0).is_err() {\n        unreachable!(\"handle_conflict::root_level_conflict_by_assertion\");\n    }\n    let vi = l0.vi();\n    state.restart.handle(SolverEvent::Assert(vi));\n    cdb.handle(SolverEvent::Assert(vi));\n    Ok(0)\n}\n\nfn minimize_learnt(\n"),
     (CO, "            Some(false) if asg.level(l0.vi()) == asg.root_level() => {\n                return Err(SolverError::RootLevelConflict((l0, asg.reason(l0.vi()))));\n            }\n            _ => {\n                // dump to certified even if it's a literal.\n                cdb.certificate_add_assertion(l0);\n                if asg.assign_at_root_level(l0).is_err() {\n                    unreachable!(\"handle_conflict::root_level_conflict_by_assertion\");\n                }\n                let vi = l0.vi();\n                state.restart.handle(SolverEvent::Assert(vi));\n                cdb.handle(SolverEvent::Assert(vi));\n                return Ok(0);\n            }", "            _ => return assert_unit(asg, cdb, state, l0),"))
same("co-back-loop", (CO, "        while {\n            let vi = asg.stack(trail_index).vi();\n            boundary_check!(\n                0 < vi && vi < asg.num_vars,\n                \"trail[{}] has an invalid var index {}\",\n                trail_index,\n                asg.stack(trail_index)\n            );\n            let lvl = asg.level(vi);\n            let v = asg.var(vi);\n            !v.is(FlagVar::CA_SEEN) || lvl != dl\n        } {\n", "        loop {\n            let vi = asg.stack(trail_index).vi();\n            if asg.var(vi).is(FlagVar::CA_SEEN) && asg.level(vi) == dl {\n                break;\n            }\n"))
same("co-analyze-continue", (CO, "                    if !asg.var(vi).is(FlagVar::CA_SEEN) {\n                        let lvl = asg.level(vi);\n                        if root_level == lvl {\n                            trace_lit!(q, \" -- ignore\");\n                            continue;\n                        }\n                        set_seen!(vi);\n                        if dl == lvl {\n                            trace_lit!(q, \" -- found another path\");\n                            conflict_level!(vi);\n                        } else {\n                            trace_lit!(q, \" -- push to learnt\");\n                            learnt.push(*q);\n                        }\n                    } else {\n                        trace!(q, \" -- ignore flagged already\");\n                    }",
     "                    if asg.var(vi).is(FlagVar::CA_SEEN) || asg.level(vi) == root_level {\n                        continue;\n                    }\n                    set_seen!(vi);\n                    if asg.level(vi) != dl {\n                        learnt.push(*q);\n                    } else {\n                        conflict_level!(vi);\n                    }"))
same("co-visit", (CO, "fn minimize_learnt(\n", "fn visit(asg: &mut AssignStack, learnt: &mut Vec<Lit>, q: Lit, dl: DecisionLevel) -> usize {\n    let vi = q.vi();\n    asg.var_mut(vi).turn_on(FlagVar::CA_SEEN);\n    if asg.level(vi) == dl {\n        asg.reward_at_analysis(vi);\n        1\n    } else {\n        learnt.push(q);\n        0\n    }\n}\n\nfn minimize_learnt(\n"),
     (CO, "                    set_seen!(vi);\n                    trace_lit!(l, \" - binary linked\");\n                    let lvl = asg.level(vi);\n                    if dl == lvl {\n                        trace_lit!(l, \" -- found another path\");\n                        conflict_level!(vi);\n                    } else {\n                        trace_lit!(l, \" -- push to learnt\");\n                        // This path is created for chrono-BT.\n                        // So we must consider if `l` should be pushed or `!l`.\n                        // From debug log, it seems to be `!l`.\n                        learnt.push(!l);\n                    }", "                    path_cnt += visit(asg, learnt, !l, dl);"),
     (CO, "                        set_seen!(vi);\n                        if dl == lvl {\n                            trace_lit!(q, \" -- found another path\");\n                            conflict_level!(vi);\n                        } else {\n                            trace_lit!(q, \" -- push to learnt\");\n                            learnt.push(*q);\n                        }", "                        path_cnt += visit(asg, learnt, *q, dl);"))
same("co-dec-last", (CO, "        if path_cnt == 0 {\n            break;\n        }\n        debug_assert!(0 < trail_index);\n        trail_index -= 1;\n        reason = asg.reason(p.vi());", "        if 0 < path_cnt {\n            debug_assert!(0 < trail_index);\n            trail_index -= 1;\n            reason = asg.reason(p.vi());\n        } else {\n            break;\n        }"))
same("co-retain-loop", (CO, "    new_learnt.retain(|l| *l == l0 || !l.is_redundant(asg, cdb, &mut to_clear, &levels));", "    let all = std::mem::take(new_learnt);\n    for l in all {\n        if l == l0 || !l.is_redundant(asg, cdb, &mut to_clear, &levels) {\n            new_learnt.push(l);\n        }\n    }"))
same("co-levels-iter", (CO, "    for l in &new_learnt[1..] {\n        levels[asg.level(l.vi()) as usize] = true;\n    }", "    new_learnt\n        .iter()\n        .skip(1)\n        .for_each(|l| levels[asg.level(l.vi()) as usize] = true);"))
same("co-clear-into", (CO, "    for l in &to_clear {\n        asg.var_mut(l.vi()).turn_off(FlagVar::CA_SEEN);\n    }\n    level_to_return", "    while let Some(l) = to_clear.pop() {\n        asg.var_mut(l.vi()).turn_off(FlagVar::CA_SEEN);\n    }\n    level_to_return"))
same("co-clear-first", (CO, "    // find correct backtrack level from remaining literals\n", "    for l in &to_clear {\n        asg.var_mut(l.vi()).turn_off(FlagVar::CA_SEEN);\n    }\n"),
     (CO, "        new_learnt.swap(1, max_i);\n    }\n    for l in &to_clear {\n        asg.var_mut(l.vi()).turn_off(FlagVar::CA_SEEN);\n    }\n", "        new_learnt.swap(1, max_i);\n    }\n"))
same("co-rank-match", (CO, "            rank = 1;\n            if bt_drift.is_none_or(|up1| up1 && cdb[cid].is_unit_under(&*asg)) {", "            rank = 1;\n            let unit = match bt_drift {\n                None => true,\n                Some(up1) => up1 && cdb[cid].is_unit_under(&*asg),\n            };\n            if unit {"))
same("co-empty-test", (CO, "    if learnt_len == 0 {\n        #[cfg", "    if new_learnt.is_empty() {\n        #[cfg"))

# ---- search.rs
same("sr-loop", (SR, "    while 0 < asg.derefer(assign::property::Tusize::NumUnassignedVar) || asg.remains() {\n        if !asg.remains() {", "    loop {\n        if asg.derefer(assign::property::Tusize::NumUnassignedVar) == 0 && !asg.remains() {\n            break;\n        }\n        if !asg.remains() {"))
same("sr-decide", (SR, "fn search(\n", "fn decide(asg: &mut AssignStack) {\n    if asg.remains() {\n        return;\n    }\n    let lit = asg.select_decision_literal();\n    asg.assign_by_decision(lit);\n}\n\nfn search(\n"),
     (SR, "        if !asg.remains() {\n            let lit = asg.select_decision_literal();\n            asg.assign_by_decision(lit);\n        }\n", "        decide(asg);\n"))
same("sr-prop-match", (SR, "        let Err(cc) = asg.propagate(cdb) else {\n            continue;\n        };", "        let cc = match asg.propagate(cdb) {\n            Ok(()) => continue,\n            Err(cc) => cc,\n        };"))
same("sr-prop-nest", (SR, "        let Err(cc) = asg.propagate(cdb) else {\n            continue;\n        };", "        let result = asg.propagate(cdb);\n        if result.is_ok() {\n            continue;\n        }\n        let cc = result.unwrap_err();"))
same("sr-lbd", (SR, "        if 1 < handle_conflict(asg, cdb, state, &cc)? {\n            num_learnt += 1;\n        }", "        let lbd = handle_conflict(asg, cdb, state, &cc)?;\n        num_learnt += (lbd > 1) as usize;"))
same("sr-time-match", (SR, "            if let Some(p) = state.elapsed() {\n                if 1.0 <= p {\n                    return Err(SolverError::TimeOut);\n                }\n            } else {\n                return Err(SolverError::UndescribedError);\n            }", "            match state.elapsed() {\n                Some(p) if 1.0 <= p => return Err(SolverError::TimeOut),\n                Some(_) => (),\n                None => return Err(SolverError::UndescribedError),\n            }"))
same("sr-time-fn", (SR, "fn search(\n", "fn in_time(state: &State) -> MaybeInconsistent {\n    let p = state.elapsed().ok_or(SolverError::UndescribedError)?;\n    if p >= 1.0 {\n        return Err(SolverError::TimeOut);\n    }\n    Ok(())\n}\n\nfn search(\n"),
     (SR, "            if let Some(p) = state.elapsed() {\n                if 1.0 <= p {\n                    return Err(SolverError::TimeOut);\n                }\n            } else {\n                return Err(SolverError::UndescribedError);\n            }", "            in_time(state)?;"))
same("sr-restart-fn", (SR, "fn search(\n", "fn restart(asg: &mut AssignStack, cdb: &mut ClauseDB, state: &mut State) {\n    asg.cancel_until(asg.root_level());\n    cdb.handle(SolverEvent::Restart);\n    state.handle(SolverEvent::Restart);\n}\n\nfn search(\n"),
     (SR, "            RESTART!(asg, cdb, state);\n            #[cfg(feature = \"rephase\")]", "            restart(asg, cdb, state);\n            #[cfg(feature = \"rephase\")]"),
     (SR, "state.config.rst_lbd_thr {\n            RESTART!(asg, cdb, state);", "state.config.rst_lbd_thr {\n            restart(asg, cdb, state);"))
same("sr-vals", (SR, "                let vals = asg\n                    .var_iter()\n                    .enumerate()\n                    .skip(1)\n                    .map(|(vi, _)| i32::from(Lit::from((vi, model[vi].unwrap()))))\n                    .collect::<Vec<i32>>();", "                let mut vals: Vec<i32> = Vec::with_capacity(asg.num_vars);\n                for (vi, b) in model.iter().enumerate().skip(1) {\n                    vals.push(i32::from(Lit::from((vi, b.unwrap()))));\n                }"))
same("sr-vals-range", (SR, "                let vals = asg\n                    .var_iter()\n                    .enumerate()\n                    .skip(1)\n                    .map(|(vi, _)| i32::from(Lit::from((vi, model[vi].unwrap()))))\n                    .collect::<Vec<i32>>();", "                let vals = (1..=asg.num_vars)\n                    .map(|vi| {\n                        let l = Lit::from((vi, model[vi].unwrap()));\n                        i32::from(l)\n                    })\n                    .collect::<Vec<i32>>();"))
same("sr-model-fn", (SR, "/// main loop; returns", "fn checked_model(asg: &mut AssignStack, cdb: &mut ClauseDB) -> Option<Vec<Option<bool>>> {\n    let model = asg.extend_model(cdb);\n    if cdb.validate(&model, false).is_some() {\n        return None;\n    }\n    Some(model)\n}\n\n/// main loop; returns"),
     (SR, "                let model = asg.extend_model(cdb);\n", ""),
     (SR, "                if cdb.validate(&model, false).is_some() {\n                    state.log(None, \"failed to validate the extended model\");\n                    state.progress(asg, cdb);\n                    return Err(SolverError::SolverBug);\n                }", "                let Some(model) = checked_model(asg, cdb) else {\n                    state.log(None, \"failed to validate the extended model\");\n                    state.progress(asg, cdb);\n                    return Err(SolverError::SolverBug);\n                };"))
same("sr-turn-off", (SR, "                for v in asg.var_iter_mut().skip(1) {\n                    if v.is(FlagVar::ELIMINATED) {\n                        v.turn_off(FlagVar::ELIMINATED);\n                    }\n                }", "                for v in asg.var_iter_mut().skip(1) {\n                    v.turn_off(FlagVar::ELIMINATED);\n                }"))
same("sr-pure", (SR, "                        if m == 0 {\n                            let l = Lit::from((vi, true));\n                            debug_assert!(asg.assigned(l).is_none());\n                            cdb.certificate_add_assertion(l);\n                            if asg.assign_at_root_level(l).is_err() {\n                                return Ok(Certificate::UNSAT);\n                            }\n                        } else if p == 0 {\n                            let l = Lit::from((vi, false));\n                            debug_assert!(asg.assigned(l).is_none());\n                            cdb.certificate_add_assertion(l);\n                            if asg.assign_at_root_level(l).is_err() {\n                                return Ok(Certificate::UNSAT);\n                            }\n                        }", "                        if m == 0 || p == 0 {\n                            let l = Lit::from((vi, m == 0));\n                            debug_assert!(asg.assigned(l).is_none());\n                            cdb.certificate_add_assertion(l);\n                            if asg.assign_at_root_level(l).is_err() {\n                                return Ok(Certificate::UNSAT);\n                            }\n                        }"))
same("sr-elim-extend", (SR, "            asg.eliminated.append(elim.eliminated_lits());\n            state[Stat::Simplify] += 1;\n            state[Stat::SubsumedClause] = elim.num_subsumed;\n        }\n        //", "            asg.eliminated.extend(elim.eliminated_lits().drain(..));\n            state[Stat::Simplify] += 1;\n            state[Stat::SubsumedClause] = elim.num_subsumed;\n        }\n        //"))
same("sr-elim-take", (SR, "            asg.eliminated.append(elim.eliminated_lits());\n            state[Stat::Simplify] += 1;\n            state[Stat::SubsumedClause] = elim.num_subsumed;\n        }\n        //", "            let mut lits = std::mem::take(elim.eliminated_lits());\n            asg.eliminated.append(&mut lits);\n            state[Stat::Simplify] += 1;\n            state[Stat::SubsumedClause] = elim.num_subsumed;\n        }\n        //"))
same("sr-answer-err", (SR, "            Ok(false) | Err(SolverError::EmptyClause | SolverError::RootLevelConflict(_)) => {\n                #[cfg(feature = \"support_user_assumption\")]\n                analyze_final(asg, state, &cdb[ci]);\n\n                RESTART!(asg, cdb, state);\n                Ok(Certificate::UNSAT)\n            }\n            Err(e) => {\n                RESTART!(asg, cdb, state);\n                state.progress(asg, cdb);\n                Err(e)\n            }", "            Ok(false) => {\n                RESTART!(asg, cdb, state);\n                Ok(Certificate::UNSAT)\n            }\n            Err(e) => {\n                RESTART!(asg, cdb, state);\n                if matches!(e, SolverError::EmptyClause | SolverError::RootLevelConflict(_)) {\n                    return Ok(Certificate::UNSAT);\n                }\n                state.progress(asg, cdb);\n                Err(e)\n            }"))
same("sr-simplify-fn", (SR, "fn search(\n", "fn inprocess(asg: &mut AssignStack, cdb: &mut ClauseDB, state: &mut State) -> MaybeInconsistent {\n    let mut elim = Eliminator::instantiate(&state.config, &state.cnf);\n    state.flush(\"clause subsumption, \");\n    elim.simplify(asg, cdb, state, false)?;\n    asg.eliminated.append(elim.eliminated_lits());\n    state[Stat::Simplify] += 1;\n    state[Stat::SubsumedClause] = elim.num_subsumed;\n    Ok(())\n}\n\nfn search(\n"),
     (SR, "                        let mut elim = Eliminator::instantiate(&state.config, &state.cnf);\n                        state.flush(\"clause subsumption, \");\n                        elim.simplify(asg, cdb, state, false)?;\n                        asg.eliminated.append(elim.eliminated_lits());\n                        state[Stat::Simplify] += 1;\n                        state[Stat::SubsumedClause] = elim.num_subsumed;\n                    }\n                    if cfg!(feature = \"dyn", "                        inprocess(asg, cdb, state)?;\n                    }\n                    if cfg!(feature = \"dyn"))
same("sr-stage-flag", (SR, "        if state.stm.stage_ended(/* num_learnt */ stage_counter) {\n            if let Some(p)", "        let ended = state.stm.stage_ended(/* num_learnt */ stage_counter);\n        if ended {\n            if let Some(p)"))
same("sr-mem-fn", (SR, "                if cdb.check_size().is_err() {\n                    return Err(SolverError::OutOfMemory);\n                }\n                state.log(None, \"By eliminator\");\n                return Ok(Certificate::UNSAT);", "                return if cdb.check_size().is_err() {\n                    Err(SolverError::OutOfMemory)\n                } else {\n                    state.log(None, \"By eliminator\");\n                    Ok(Certificate::UNSAT)\n                };"))

# ---- vivify.rs
same("vi-root-if", (VI, "            asg.propagate_sandbox(self).map_err(|cc| {\n                state.log(None, \"By vivifier\");\n                SolverError::RootLevelConflict(cc)\n            })?;", "            if let Err(cc) = asg.propagate_sandbox(self) {\n                state.log(None, \"By vivifier\");\n                return Err(SolverError::RootLevelConflict(cc));\n            }"))
same("vi-settle2", (VI, "fn select_targets(\n", "fn settle(asg: &mut AssignStack, cdb: &mut ClauseDB) -> MaybeInconsistent {\n    asg.backtrack_sandbox();\n    if asg.remains() {\n        asg.propagate_sandbox(cdb)\n            .map_err(SolverError::RootLevelConflict)?;\n    }\n    Ok(())\n}\n\nfn select_targets(\n"),
     (VI, "            asg.backtrack_sandbox();\n            debug_assert_eq!(asg.decision_level(), asg.root_level());\n            if asg.remains() {\n                asg.propagate_sandbox(self)\n                    .map_err(SolverError::RootLevelConflict)?;\n            }\n", "            settle(asg, self)?;\n"),
     (VI, "        asg.backtrack_sandbox();\n        if asg.remains() {\n            asg.propagate_sandbox(self)\n                .map_err(SolverError::RootLevelConflict)?;\n        }\n        asg.clear", "        settle(asg, self)?;\n        asg.clear"))
same("vi-shrink", (VI, "fn select_targets(\n", "fn shrink(cdb: &mut ClauseDB, asg: &mut AssignStack, cid: ClauseId, vec: &mut Vec<Lit>, learnt: bool) {\n    cdb.new_clause(asg, vec, learnt);\n    cdb.remove_clause(cid);\n}\n\nfn select_targets(\n"),
     (VI, "                                    #[cfg(not(feature = \"clause_rewarding\"))]\n                                    self.new_clause(asg, &mut vec, is_learnt);\n                                    self.remove_clause(cid);\n", "                                    #[cfg(not(feature = \"clause_rewarding\"))]\n                                    shrink(self, asg, cid, &mut vec, is_learnt);\n"))
same("vi-len-if", (VI, "                            match vec.len() {\n                                0 => {\n                                    state.flush(\"\");\n                                    state[Stat::VivifiedClause] += num_shrink;\n                                    state[Stat::VivifiedVar] += num_assert;\n                                    state.log(None, \"RootLevelConflict By vivify\");\n                                    return Err(SolverError::EmptyClause);\n                                }\n                                1 => {", "                            if vec.is_empty() {\n                                state.flush(\"\");\n                                state[Stat::VivifiedClause] += num_shrink;\n                                state[Stat::VivifiedVar] += num_assert;\n                                state.log(None, \"RootLevelConflict By vivify\");\n                                return Err(SolverError::EmptyClause);\n                            }\n                            match vec.len() {\n                                1 => {"))
same("vi-one-analysis", (VI, "                            let mut vec: Vec<Lit>;\n                            match cc.1 {\n                                AssignReason::BinaryLink(l) => {\n                                    let cnfl_lits = vec![cc.0, !l];\n                                    // vec = asg.analyze_sandbox(self, &decisions, &cnfl_lits, &mut seen);\n                                    // asg.backtrack_sandbox();\n                                    if clits.len() == 2\n                                        && cnfl_lits.contains(&clits[0])\n                                        && cnfl_lits.contains(&clits[1])\n                                    {\n                                        asg.backtrack_sandbox();\n                                        continue 'next_clause;\n                                    } else {\n                                        // debug_assert!(clits.len() != 2 || decisions.len() != 2);\n                                        seen[0] = num_check;\n                                        vec = asg.analyze_sandbox(\n                                            self, &decisions, &cnfl_lits, &mut seen,\n                                        );\n                                        asg.backtrack_sandbox();\n                                    }\n                                }\n                                AssignReason::Implication(ci) => {\n                                    if ci == cid && clits.len() == decisions.len() {\n                                        asg.backtrack_sandbox();\n                                        continue 'next_clause;\n                                    } else {\n                                        let cnfl_lits =\n                                            &self[ci].iter().copied().collect::<Vec<Lit>>();\n                                        seen[0] = num_check;\n                                        vec = asg.analyze_sandbox(\n                                            self, &decisions, cnfl_lits, &mut seen,\n                                        );\n                                        asg.backtrack_sandbox();\n                                    }\n                                }\n                                AssignReason::Decision(_) | AssignReason::None => {\n                                    unreachable!(\"vivify\")\n                                }\n                            }\n",
     "                            let (itself, cnfl_lits) = match cc.1 {\n                                AssignReason::BinaryLink(l) => {\n                                    let v = vec![cc.0, !l];\n                                    (clits.len() == 2 && v.contains(&clits[0]) && v.contains(&clits[1]), v)\n                                }\n                                AssignReason::Implication(ci) => (\n                                    ci == cid && clits.len() == decisions.len(),\n                                    self[ci].iter().copied().collect::<Vec<Lit>>(),\n                                ),\n                                AssignReason::Decision(_) | AssignReason::None => {\n                                    unreachable!(\"vivify\")\n                                }\n                            };\n                            if itself {\n                                asg.backtrack_sandbox();\n                                continue 'next_clause;\n                            }\n                            seen[0] = num_check;\n                            let mut vec = asg.analyze_sandbox(self, &decisions, &cnfl_lits, &mut seen);\n                            asg.backtrack_sandbox();\n"))
same("vi-value-if", (VI, "                match asg.assigned(!lit) {\n                    //## Rule 1\n                    Some(false) => (),\n                    //## Rule 2\n                    Some(true) => break,\n                    None => {", "                match asg.assigned(lit) {\n                    //## Rule 1\n                    Some(true) => (),\n                    //## Rule 2\n                    Some(false) => break,\n                    None => {"))
same("vi-dead-let", (VI, "            let c = &mut self[cid];\n            if c.is_dead() {\n                continue;\n            }\n            let is_learnt = c.is(FlagClause::LEARNT);\n            c.vivified();\n            let clits = c.iter().copied().collect::<Vec<Lit>>();", "            if self[cid].is_dead() {\n                continue;\n            }\n            let is_learnt = self[cid].is(FlagClause::LEARNT);\n            self[cid].vivified();\n            let clits: Vec<Lit> = self[cid].iter().copied().collect();"))
same("vi-neg-loop", (VI, "                        decisions.push(!lit);\n                        asg.assign_by_decision(!lit);", "                        let d = !lit;\n                        asg.assign_by_decision(d);\n                        decisions.push(d);"))
same("vi-mark", (VI, "                AssignReason::Implication(cid) => {\n                    for r in cdb[cid].iter().skip(1) {\n                        seen[r.vi()] = key;\n                    }\n                }\n                AssignReason::None => unreachable!(\"analyze", "                AssignReason::Implication(cid) => {\n                    cdb[cid].iter().skip(1).for_each(|r| seen[r.vi()] = key);\n                }\n                AssignReason::None => unreachable!(\"analyze"))
same("vi-sweep", (VI, "            if seen[l.vi()] != key {\n                continue;\n            }\n            if decisions", "            let marked = seen[l.vi()] == key;\n            if !marked {\n                continue;\n            }\n            if decisions"))
same("vi-any-dec", (VI, "            if decisions.contains(l) {", "            if decisions.iter().any(|d| d == l) {"))
same("vi-limit-first", (VI, "            if VIVIFY_LIMIT < num_check {\n                break;\n            }\n        }", "            if num_check > VIVIFY_LIMIT {\n                break 'next_clause;\n            }\n        }"))

# ---- stack.rs
same("sk-assigned", (SK, "        match self.var[l.vi()].assign {\n            Some(x) if !bool::from(l) => Some(!x),\n            x => x,\n        }", "        self.var[l.vi()].assign.map(|x| if bool::from(l) { x } else { !x })"))
same("sk-assigned-eq", (SK, "        match self.var[l.vi()].assign {\n            Some(x) if !bool::from(l) => Some(!x),\n            x => x,\n        }", "        self.var[l.vi()].assign.map(|x| x == bool::from(l))"))
same("sk-assigned-q", (SK, "        match self.var[l.vi()].assign {\n            Some(x) if !bool::from(l) => Some(!x),\n            x => x,\n        }", "        let x = self.var[l.vi()].assign?;\n        Some(if bool::from(l) { x } else { !x })"))
same("sk-len-upto", (SK, "        self.trail_lim.get(n as usize).map_or(0, |n| *n)", "        match self.trail_lim.get(n as usize) {\n            Some(k) => *k,\n            None => 0,\n        }"))
same("sk-len-upto2", (SK, "        self.trail_lim.get(n as usize).map_or(0, |n| *n)", "        let i = n as usize;\n        if i < self.trail_lim.len() { self.trail_lim[i] } else { 0 }"))
same("sk-elim-early", (SK, "        if !self.var[vi].is(FlagVar::ELIMINATED) {\n            self.var[vi].turn_on(FlagVar::ELIMINATED);\n            self.set_activity(vi, 0.0);\n            self.remove_from_heap(vi);\n            debug_assert_eq!(self.decision_level(), self.root_level);\n            self.trail.retain(|l| l.vi() != vi);\n            self.num_eliminated_vars += 1;\n", "        if self.var[vi].is(FlagVar::ELIMINATED) {\n            return;\n        }\n        {\n            self.num_eliminated_vars += 1;\n            self.trail.retain(|l| l.vi() != vi);\n            self.remove_from_heap(vi);\n            self.set_activity(vi, 0.0);\n            self.var[vi].turn_on(FlagVar::ELIMINATED);\n"),
     (SK, "        } else {\n            #[cfg(feature = \"boundary_check\")]\n            panic!(\"double elimination\");\n        }\n    }\n}", "        }\n    }\n}"))
same("sk-satisfies", (SK, "        for l in vec {\n            if self.assigned(*l) == Some(true) {\n                return true;\n            }\n        }\n        false", "        vec.iter().any(|l| self.assigned(*l) == Some(true))"))
same("sk-remains", (SK, "        self.q_head < self.trail.len()", "        self.trail.len() > self.q_head"))
same("sk-extend-plain", (SK, "                let l = lits[target_index];\n                extended_model[l.vi()] = Some(bool::from(l));\n            } else if lits[reason_literals.clone()]\n                .iter()\n                .any(|l| extended_model[l.vi()] == Some(bool::from(*l)))\n            {\n                continue;\n            }", "                let l = lits[target_index];\n                extended_model[l.vi()] = Some(bool::from(l));\n            }"))
same("sk-extend-slice", (SK, "            if lits[reason_literals.clone()]\n                .iter()\n                .all(|l| extended_model[l.vi()] == Some(!bool::from(*l)))\n            {", "            let others = &lits[target_index + 1..=last_lit_index];\n            if others\n                .iter()\n                .all(|l| extended_model[l.vi()] == Some(!bool::from(*l)))\n            {"))
same("sk-extend-loop", (SK, "        let mut i = lits.len();\n        while 0 < i {\n            i -= 1;\n            let width", "        let mut i = lits.len();\n        loop {\n            if i == 0 {\n                break;\n            }\n            i -= 1;\n            let width"))
same("sk-extend-noempty", (SK, "        let mut extended_model: Vec<Option<bool>> = self.assign_ref();\n        if lits.is_empty() {\n            return extended_model;\n        }\n", "        let mut extended_model: Vec<Option<bool>> = self.assign_ref();\n"))
same("sk-extend-not-any", (SK, "            if lits[reason_literals.clone()]\n                .iter()\n                .all(|l| extended_model[l.vi()] == Some(!bool::from(*l)))\n            {", "            if !lits[reason_literals.clone()]\n                .iter()\n                .any(|l| extended_model[l.vi()] != Some(!bool::from(*l)))\n            {"))
same("sk-assign-ref", (SK, "        self.var.iter().map(|v| v.assign).collect::<Vec<_>>()", "        let mut v = Vec::with_capacity(self.var.len());\n        for x in &self.var {\n            v.push(x.assign);\n        }\n        v"))
same("sk-best", (SK, "        (self.build_best_at == self.num_propagation).then_some(self.num_vars - self.num_best_assign)", "        if self.num_propagation != self.build_best_at {\n            return None;\n        }\n        Some(self.num_vars - self.num_best_assign)"))
same("sk-asserted-order", (SK, "        self.var[vi].reason = AssignReason::Decision(0);\n        self.set_activity(vi, 0.0);\n        self.remove_from_heap(vi);", "        self.remove_from_heap(vi);\n        self.var[vi].reason = AssignReason::Decision(0);\n        self.set_activity(vi, 0.0);"))
