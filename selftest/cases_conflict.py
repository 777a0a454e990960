from cases import bug, same
CO = "src/solver/conflict.rs"
# ---- P28 bugs
REG = """            if bt_drift.is_none_or(|up1| up1 && cdb[cid].is_unit_under(&*asg)) {
                asg.assign_by_implication(l0, AssignReason::BinaryLink(!l1), assign_level);
                cdb[cid].used = cdb[cid].used.saturating_add(1);
            }
        }"""
BI = """            if bt_drift.is_none() {
                asg.assign_by_implication(l0, AssignReason::BinaryLink(!l1), assign_level);"""
LONG = """            if bt_drift.is_none_or(|up1| up1 && cdb[cid].is_unit_under(&*asg)) {
                asg.assign_by_implication(l0, AssignReason::Implication(cid), assign_level);"""
bug("p28-registered", "P28", (CO, REG, """            cdb[cid].used = cdb[cid].used.saturating_add(1);
        }"""))
bug("p28-registered-cond", "P28", (CO, REG, REG.replace("bt_drift.is_none_or(|up1| up1 && cdb[cid].is_unit_under(&*asg))", "bt_drift.is_none() && cdb[cid].used < 3")))
bug("p28-reason-sign", "P28", (CO, BI, BI.replace("!l1", "l1")))
bug("p28-reason-sign2", "P28", (CO, REG, REG.replace("!l1", "l1")))
bug("p28-reason-l0", "P28", (CO, BI, BI.replace("!l1", "!l0")))
bug("p28-long-binary", "P28", (CO, LONG, LONG.replace("AssignReason::Implication(cid)", "AssignReason::BinaryLink(!l1)")))
bug("p28-lit1", "P28", (CO, LONG, LONG.replace("assign_by_implication(l0", "assign_by_implication(l1")))
bug("p28-cancel-deeper", "P28", (CO, "        asg.cancel_until(assign_level);\n        state.bt", "        asg.cancel_until(assign_level.saturating_sub(1));\n        state.bt"))
bug("p28-cancel-short", "P28", (CO, "        asg.cancel_until(assign_level);\n        state.bt", "        asg.cancel_until(assign_level + 1);\n        state.bt"))
bug("p28-cancel-dl", "P28", (CO, "        asg.cancel_until(assign_level);\n        state.bt", "        asg.cancel_until(conflicting_level - 1);\n        state.bt"))
bug("p28-drift-level", "P28", (CO, "            asg.cancel_until(assign_level - 1);\n", "            asg.cancel_until(assign_level);\n"))
bug("p28-drift-assign", "P28", (CO, LONG, LONG.replace("is_none_or(|up1| up1 && cdb[cid].is_unit_under(&*asg))", "is_none_or(|up1| up1 || cdb[cid].is_unit_under(&*asg))"),))
bug("p28-drift-assign2", "P28", (CO, LONG, LONG.replace("is_none_or(|up1| up1 && cdb[cid].is_unit_under(&*asg))", "is_none_or(|up1| !up1)")))
bug("p28-not-cancelled", "P28", (CO, """        asg.cancel_until(assign_level);
        state.bt""", """        if assign_level + 1 < conflicting_level {
            asg.cancel_until(assign_level);
        }
        state.bt"""))
bug("p28-level", "P28", (CO, "AssignReason::Implication(cid), assign_level);", "AssignReason::Implication(cid), conflicting_level);"))
bug("p28-not-learnt", "P28", (CO, "cdb.new_clause(asg, new_learnt, true)", "cdb.new_clause(asg, new_learnt, 2 < learnt_len)"))
bug("p28-front", "P28", (CO, "    learnt[0] = !p;", "    learnt[0] = p;"))
bug("p28-unit-lit", "P28", (CO, "if asg.assign_at_root_level(l0).is_err()", "if asg.assign_at_root_level(!l0).is_err()"))
bug("p28-unit-skip", "P28", (CO, "            _ => {\n                // dump to", "            Some(true) => return Ok(0),\n            _ => {\n                // dump to"))
bug("p28-early-ok", "P28", (CO, "    let l1 = new_learnt[1];\n", "    let l1 = new_learnt[1];\n    if 1000 < learnt_len {\n        asg.cancel_until(assign_level);\n        return Ok(100);\n    }\n"))
bug("p28-skip3", "P28", (CO, ".enumerate().skip(2)", ".enumerate().skip(3)"))
bug("p28-noswap", "P28", (CO, "        new_learnt.swap(1, max_i);\n", ""))
bug("p28-swapsome", "P28", (CO, "        new_learnt.swap(1, max_i);\n", "        if max_i < 64 {\n            new_learnt.swap(1, max_i);\n        }\n"))
bug("p28-nolevel", "P28", (CO, "                level_to_return = lv;\n                max_i = i;", "                max_i = i;"))
bug("p28-noindex", "P28", (CO, "                level_to_return = lv;\n                max_i = i;", "                level_to_return = lv;\n                max_i = max_i.max(2);"))
bug("p28-lowest", "P28", (CO, "if level_to_return < lv {", "if lv < level_to_return {"))
bug("p28-clear-late", "P28", (CO, "    let mut to_clear: Vec<Lit> = new_learnt.clone();\n", ""), (CO, """    if 2 < new_learnt.len() {
        cdb.minimize""", """    to_clear.extend(new_learnt.iter());
    if 2 < new_learnt.len() {
        cdb.minimize"""), (CO, "    let mut levels = vec", "    let mut to_clear: Vec<Lit> = Vec::new();\n    let mut levels = vec"))
bug("p28-clear-some", "P28", (CO, "    for l in &to_clear {", "    for l in to_clear.iter().take(256) {"))
bug("p28-clear-cond", "P28", (CO, "    for l in &to_clear {\n", "    for l in &to_clear {\n        if asg.level(l.vi()) == level_to_return && 2 < new_learnt.len() {\n            continue;\n        }\n"))
bug("p28-clear-learnt", "P28", (CO, "    for l in &to_clear {", "    for l in new_learnt.iter() {"))
bug("p28-clear-none", "P28", (CO, "    let mut level_to_return = 0;\n    if 1", "    let mut level_to_return = 0;\n    if new_learnt.len() == 1 {\n        return 0;\n    }\n    if 1"))
bug("p28-red-noclear", "P28", (CO, """                            clear.truncate(top);
                            return false;
                        }
                    }
                }""", """                            return false;
                        }
                    }
                }"""))
bug("p28-red-nooff", "P28", (CO, """                                for l in &clear[top..] {
                                    asg.var_mut(l.vi()).turn_off(FlagVar::CA_SEEN);
                                }
                                clear.truncate(top);""", """                                clear.truncate(top);"""))
bug("p28-red-nopush", "P28", (CO, "                                stack.push(*q);\n                                clear.push(*q);", "                                stack.push(*q);"))
bug("p28-red-order", "P28", (CO, """                            for l in &clear[top..] {
                                asg.var_mut(l.vi()).turn_off(FlagVar::CA_SEEN);
                            }
                            clear.truncate(top);""", """                            clear.truncate(top);
                            for l in &clear[top..] {
                                asg.var_mut(l.vi()).turn_off(FlagVar::CA_SEEN);
                            }"""))
bug("p28-red-from", "P28", (CO, """                                for l in &clear[top..] {""", """                                for l in &clear[top + 1..] {"""))
bug("p28-an-nocount", "P28", (CO, """                        if dl == lvl {
                            trace_lit!(q, " -- found another path");
                            conflict_level!(vi);
                        } else {""", """                        if dl == lvl {
                            asg.reward_at_analysis(vi);
                        } else {"""))
bug("p28-an-nopush", "P28", (CO, """                            trace_lit!(q, " -- push to learnt");
                            learnt.push(*q);""", """                            if max_lbd < 1000 {
                                learnt.push(*q);
                            }"""))
bug("p28-an-skip2", "P28", (CO, "for q in cdb[cid].iter().skip(1) {", "for q in cdb[cid].iter().skip(2) {"))
bug("p28-an-break", "P28", (CO, """                            trace_lit!(q, " -- ignore");
                            continue;""", """                            trace_lit!(q, " -- ignore");
                            break;"""))
bug("p28-an-nooff", "P28", (CO, "        asg.var_mut(p.vi()).turn_off(FlagVar::CA_SEEN);\n        // since", "        if path_cnt > 1 {\n            asg.var_mut(p.vi()).turn_off(FlagVar::CA_SEEN);\n        }\n        // since"))
bug("p28-an-binary", "P28", (CO, """                        trace_lit!(l, " -- push to learnt");""", """                        if asg.root_level() + 1 == lvl {
                            break;
                        }"""))
bug("p28-an-level", "P28", (CO, """                        set_seen!(vi);
                        if dl == lvl {
                            trace_lit!(q,""", """                        set_seen!(vi);
                        if dl <= lvl + 1 {
                            trace_lit!(q,"""))
bug("p28-an-stop", "P28", (CO, "        if path_cnt == 0 {\n            break;", "        if path_cnt <= 1 {\n            break;"))
# ---- P28 same
same("p28-tgt", (CO, """    if let Some(b) = bt_drift {
        if b {
            asg.cancel_until(conflicting_level - 1);
            state.bt_drift_average.update(1.0);
        } else {
            asg.cancel_until(assign_level - 1);
            state.bt_drift_average.update(-1.0);
        }
""", """    let (target, drift) = match bt_drift {
        Some(true) => (conflicting_level - 1, 1.0),
        Some(false) => (assign_level - 1, -1.0),
        None => (assign_level, 0.0),
    };
    asg.cancel_until(target);
    state.bt_drift_average.update(drift);
    if bt_drift.is_some() {
"""), (CO, """    } else {
        asg.cancel_until(assign_level);
        state.bt_drift_average.update(0.0);
    }
    // debug""", """    }
    // debug"""))
same("p28-match", (CO, """    if let Some(b) = bt_drift {
        if b {
            asg.cancel_until(conflicting_level - 1);
            state.bt_drift_average.update(1.0);
        } else {
            asg.cancel_until(assign_level - 1);
            state.bt_drift_average.update(-1.0);
        }
""", """    match bt_drift {
        Some(true) => {
            asg.cancel_until(conflicting_level - 1);
            state.bt_drift_average.update(1.0);
        }
        Some(false) => {
            asg.cancel_until(assign_level - 1);
            state.bt_drift_average.update(-1.0);
        }
        None => {
            asg.cancel_until(assign_level);
            state.bt_drift_average.update(0.0);
        }
    }
    if bt_drift.is_some() {
"""), (CO, """    } else {
        asg.cancel_until(assign_level);
        state.bt_drift_average.update(0.0);
    }
    // debug""", """    }
    // debug"""))
same("p28-none-first", (CO, """    if let Some(b) = bt_drift {
        if b {
            asg.cancel_until(conflicting_level - 1);
            state.bt_drift_average.update(1.0);
        } else {
            asg.cancel_until(assign_level - 1);
            state.bt_drift_average.update(-1.0);
        }
""", """    if bt_drift.is_none() {
        asg.cancel_until(assign_level);
        state.bt_drift_average.update(0.0);
    } else {
        if bt_drift == Some(true) {
            asg.cancel_until(conflicting_level - 1);
            state.bt_drift_average.update(1.0);
        } else {
            asg.cancel_until(assign_level - 1);
            state.bt_drift_average.update(-1.0);
        }
"""), (CO, """    } else {
        asg.cancel_until(assign_level);
        state.bt_drift_average.update(0.0);
    }
    // debug""", """    }
    // debug"""))
same("p28-assign-helper", (CO, LONG.replace("AssignReason::Implication(cid), assign_level);", "AssignReason::Implication(cid), assign_level);") + "\n                cdb[cid].used = cdb[cid].used.saturating_add(1);\n            }\n            rank = cdb[cid].rank;", """            if bt_drift.is_none_or(|up1| up1 && cdb[cid].is_unit_under(&*asg)) {
                assert_first(asg, cdb, cid, l0, AssignReason::Implication(cid), assign_level);
            }
            rank = cdb[cid].rank;"""), (CO, "///\n/// ## Conflict Analysis\n///\n", """fn assert_first(
    asg: &mut AssignStack,
    cdb: &mut ClauseDB,
    cid: ClauseId,
    l0: Lit,
    reason: AssignReason,
    lvl: DecisionLevel,
) {
    asg.assign_by_implication(l0, reason, lvl);
    cdb[cid].used = cdb[cid].used.saturating_add(1);
}

///
/// ## Conflict Analysis
///
"""))
same("p28-assign-match", (CO, LONG, """            let assertable = match bt_drift {
                None => true,
                Some(up1) => up1 && cdb[cid].is_unit_under(&*asg),
            };
            if assertable {
                asg.assign_by_implication(l0, AssignReason::Implication(cid), assign_level);"""))
same("p28-drift-helper", (CO, """    if let Some(b) = bt_drift {
        if b {
            asg.cancel_until(conflicting_level - 1);
            state.bt_drift_average.update(1.0);
        } else {
            asg.cancel_until(assign_level - 1);
            state.bt_drift_average.update(-1.0);
        }
""", """    let drift = bt_drift.map_or(0.0, |b| if b { 1.0 } else { -1.0 });
    if let Some(b) = bt_drift {
        asg.cancel_until(if b { conflicting_level } else { assign_level } - 1);
        state.bt_drift_average.update(drift);
"""))
same("p28-unit-helper", (CO, """                cdb.certificate_add_assertion(l0);
                if asg.assign_at_root_level(l0).is_err() {
                    unreachable!("handle_conflict::root_level_conflict_by_assertion");
                }
                let vi = l0.vi();
                state.restart.handle(SolverEvent::Assert(vi));
                cdb.handle(SolverEvent::Assert(vi));
                return Ok(0);""", """                return Ok(fix_literal(asg, cdb, &mut state.restart, l0));"""), (CO, "///\n/// ## Conflict Analysis\n///\n", """fn fix_literal(
    asg: &mut AssignStack,
    cdb: &mut ClauseDB,
    rst: &mut crate::solver::restart::RestartManager,
    lit: Lit,
) -> u16 {
    cdb.certificate_add_assertion(lit);
    asg.assign_at_root_level(lit)
        .expect("handle_conflict::root_level_conflict_by_assertion");
    rst.handle(SolverEvent::Assert(lit.vi()));
    cdb.handle(SolverEvent::Assert(lit.vi()));
    0
}

///
/// ## Conflict Analysis
///
"""))
same("p28-maxlevel", (CO, """        let mut max_i = 1;
        level_to_return = asg.level(new_learnt[max_i].vi());
        for (i, l) in new_learnt.iter().enumerate().skip(2) {
            let lv = asg.level(l.vi());
            if level_to_return < lv {
                level_to_return = lv;
                max_i = i;
            }
        }
        new_learnt.swap(1, max_i);""", """        let mut max_i = 1;
        for i in 2..new_learnt.len() {
            if asg.level(new_learnt[max_i].vi()) < asg.level(new_learnt[i].vi()) {
                max_i = i;
            }
        }
        new_learnt.swap(1, max_i);
        level_to_return = asg.level(new_learnt[1].vi());"""))
same("p28-maxby", (CO, """        let mut max_i = 1;
        level_to_return = asg.level(new_learnt[max_i].vi());
        for (i, l) in new_learnt.iter().enumerate().skip(2) {
            let lv = asg.level(l.vi());
            if level_to_return < lv {
                level_to_return = lv;
                max_i = i;
            }
        }
        new_learnt.swap(1, max_i);""", """        let max_i = (1..new_learnt.len())
            .rev()
            .max_by_key(|i| asg.level(new_learnt[*i].vi()))
            .unwrap();
        level_to_return = asg.level(new_learnt[max_i].vi());
        new_learnt.swap(1, max_i);"""))
same("p28-level-helper", (CO, """    // find correct backtrack level from remaining literals
    let mut level_to_return = 0;
    if 1 < new_learnt.len() {
        let mut max_i = 1;
        level_to_return = asg.level(new_learnt[max_i].vi());
        for (i, l) in new_learnt.iter().enumerate().skip(2) {
            let lv = asg.level(l.vi());
            if level_to_return < lv {
                level_to_return = lv;
                max_i = i;
            }
        }
        new_learnt.swap(1, max_i);
    }
    for l in &to_clear {
        asg.var_mut(l.vi()).turn_off(FlagVar::CA_SEEN);
    }
    level_to_return
}
""", """    let level_to_return = place_second(new_learnt, asg);
    to_clear
        .iter()
        .for_each(|l| asg.var_mut(l.vi()).turn_off(FlagVar::CA_SEEN));
    level_to_return
}

fn place_second(new_learnt: &mut [Lit], asg: &AssignStack) -> DecisionLevel {
    if new_learnt.len() < 2 {
        return 0;
    }
    let mut second = 1;
    let mut highest = asg.level(new_learnt[1].vi());
    for (i, l) in new_learnt.iter().enumerate().skip(1) {
        let lv = asg.level(l.vi());
        if lv > highest {
            second = i;
            highest = lv;
        }
    }
    new_learnt.swap(1, second);
    highest
}
"""))
same("p28-clear-first", (CO, """    for l in &to_clear {
        asg.var_mut(l.vi()).turn_off(FlagVar::CA_SEEN);
    }
    level_to_return""", "    level_to_return"), (CO, "    // find correct backtrack level", """    while let Some(l) = to_clear.pop() {
        asg.var_mut(l.vi()).turn_off(FlagVar::CA_SEEN);
    }
    // find correct backtrack level"""))
same("p28-red-helper", (CO, """                            for l in &clear[top..] {
                                asg.var_mut(l.vi()).turn_off(FlagVar::CA_SEEN);
                            }
                            clear.truncate(top);
                            return false;""", """                            return forget(asg, clear, top);"""), (CO, """                                for l in &clear[top..] {
                                    asg.var_mut(l.vi()).turn_off(FlagVar::CA_SEEN);
                                }
                                clear.truncate(top);
                                return false;""", """                                return forget(asg, clear, top);"""), (CO, "#[allow(dead_code)]\nfn check_graph", """fn forget(asg: &mut AssignStack, clear: &mut Vec<Lit>, top: usize) -> bool {
    for l in clear.drain(top..) {
        asg.var_mut(l.vi()).turn_off(FlagVar::CA_SEEN);
    }
    false
}

#[allow(dead_code)]
fn check_graph"""))
same("p28-red-one", (CO, """                            asg.var_mut(vi).turn_on(FlagVar::CA_SEEN);
                            stack.push(l);
                            clear.push(l);""", """                            clear.push(l);
                            stack.push(l);
                            asg.var_mut(vi).turn_on(FlagVar::CA_SEEN);"""), (CO, """        let mut stack = vec![self];
        let top = clear.len();""", """        let top = clear.len();
        let mut stack = vec![self];"""))
same("p28-red-whilelet", (CO, """                            for l in &clear[top..] {
                                asg.var_mut(l.vi()).turn_off(FlagVar::CA_SEEN);
                            }
                            clear.truncate(top);""", """                            while top < clear.len() {
                                if let Some(l) = clear.pop() {
                                    asg.var_mut(l.vi()).turn_off(FlagVar::CA_SEEN);
                                }
                            }"""))
same("p28-an-range", (CO, "for q in cdb[cid].iter().skip(1) {", "for q in &cdb[cid][1..] {"))
same("p28-an-all", (CO, "for q in cdb[cid].iter().skip(1) {", "for q in cdb[cid].iter() {\n                    if q.vi() == p.vi() {\n                        continue;\n                    }"))
same("p28-an-order", (CO, """                        set_seen!(vi);
                        if dl == lvl {
                            trace_lit!(q, " -- found another path");
                            conflict_level!(vi);
                        } else {
                            trace_lit!(q, " -- push to learnt");
                            learnt.push(*q);
                        }""", """                        if lvl != dl {
                            trace_lit!(q, " -- push to learnt");
                            learnt.push(*q);
                        } else {
                            conflict_level!(vi);
                        }
                        set_seen!(vi);"""))
same("p28-an-helper", (CO, """        p = asg.stack(trail_index);
        trace!("move to flagged {}; num path: {}", p.vi(), path_cnt - 1);

        asg.var_mut(p.vi()).turn_off(FlagVar::CA_SEEN);
        // since the trail can contain a literal which level is under `dl` after
        // the `dl`-th decision var, we must skip it.
        path_cnt -= 1;""", """        p = unmark(asg, trail_index);
        path_cnt -= 1;"""), (CO, "fn minimize_learnt(", """fn unmark(asg: &mut AssignStack, at: usize) -> Lit {
    let lit = asg.stack(at);
    asg.var_mut(lit.vi()).turn_off(FlagVar::CA_SEEN);
    lit
}

fn minimize_learnt("""))
same("p28-an-next", (CO, """        #[allow(clippy::blocks_in_conditions)]
        while {
            let vi = asg.stack(trail_index).vi();
            boundary_check!(
                0 < vi && vi < asg.num_vars,
                "trail[{}] has an invalid var index {}",
                trail_index,
                asg.stack(trail_index)
            );
            let lvl = asg.level(vi);
            let v = asg.var(vi);
            !v.is(FlagVar::CA_SEEN) || lvl != dl
        } {""", """        loop {
            let vi = asg.stack(trail_index).vi();
            if asg.var(vi).is(FlagVar::CA_SEEN) && asg.level(vi) == dl {
                break;
            }"""))
same("p28-an-trace", (CO, """    {
        trace_lit!("- handle conflicting literal", p);
        let vi = p.vi();
        validate_vi!(vi);
        set_seen!(vi);
        let lvl = asg.level(vi);
        if dl == lvl {
            conflict_level!(vi);
        } else {
            debug_assert_ne!(root_level, lvl);
            learnt.push(p);
        }
    }
""", """    if visit(asg, learnt, p, p.vi(), dl) {
        path_cnt += 1;
    }
"""), (CO, """                        set_seen!(vi);
                        if dl == lvl {
                            trace_lit!(q, " -- found another path");
                            conflict_level!(vi);
                        } else {
                            trace_lit!(q, " -- push to learnt");
                            learnt.push(*q);
                        }""", """                        if visit(asg, learnt, *q, vi, dl) {
                            path_cnt += 1;
                        }"""), (CO, "fn minimize_learnt(", """fn visit(
    asg: &mut AssignStack,
    learnt: &mut Vec<Lit>,
    lit: Lit,
    vi: VarId,
    dl: DecisionLevel,
) -> bool {
    asg.var_mut(vi).turn_on(FlagVar::CA_SEEN);
    if dl == asg.level(vi) {
        asg.reward_at_analysis(vi);
        return true;
    }
    learnt.push(lit);
    false
}

fn minimize_learnt("""))
