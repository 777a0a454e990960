from cases import bug, same
EL = "src/processor/eliminate.rs"
ST = "src/assign/stack.rs"
SE = "src/solver/search.rs"
SI = "src/processor/simplify.rs"
# ---- P07
bug("p07-forward", "P07", (ST, """            if lits[reason_literals.clone()]
                .iter()
                .all(|l| extended_model[l.vi()] == Some(!bool::from(*l)))
            {""", """            if lits[reason_literals.clone()]
                .iter()
                .any(|l| extended_model[l.vi()] == Some(!bool::from(*l)))
            {"""))
bug("p07-always", "P07", (ST, """            if lits[reason_literals.clone()]
                .iter()
                .all(|l| extended_model[l.vi()] == Some(!bool::from(*l)))
            {""", """            if !lits[target_index..=target_index]
                .iter()
                .all(|l| extended_model[l.vi()] == Some(bool::from(*l)))
            {"""))
bug("p07-sat-polarity", "P07", (ST, ".all(|l| extended_model[l.vi()] == Some(!bool::from(*l)))", ".all(|l| extended_model[l.vi()] == Some(bool::from(*l)))"))
bug("p07-value", "P07", (ST, "extended_model[l.vi()] = Some(bool::from(l));", "extended_model[l.vi()] = Some(!bool::from(l));"))
bug("p07-range", "P07", (ST, "let last_lit_index = i - 1;", "let last_lit_index = i.max(target_index + 2) - 2;"), (ST, "let reason_literals = target_index + 1..=last_lit_index;", "let reason_literals = target_index + 1..i - 1;"))
bug("p07-range2", "P07", (ST, "let reason_literals = target_index + 1..=last_lit_index;", "let reason_literals = target_index + 2..=last_lit_index;"))
bug("p07-first-only", "P07", (ST, """                extended_model[l.vi()] = Some(bool::from(l));
            } else""", """                extended_model[l.vi()] = Some(bool::from(l));
                if width == 9 {
                    break;
                }
            } else"""))
bug("p07-step", "P07", (ST, "            i = target_index;\n", "            i = target_index.saturating_sub(1);\n"))
bug("p07-default-sign", "P07", (EL, "make_eliminating_unit_clause(store, Lit::from((v, false)));", "make_eliminating_unit_clause(store, Lit::from((v, !pos.is_empty())));"))
bug("p07-default-swapped", "P07", (EL, "        make_eliminating_unit_clause(store, Lit::from((v, false)));", "        make_eliminating_unit_clause(store, Lit::from((v, true)));"))
bug("p07-unit-first", "P07", (EL, """        for cid in neg {
            debug_assert!(!cdb[*cid].is_dead());
            make_eliminated_clause(cdb, store, v, *cid);
        }
        make_eliminating_unit_clause(store, Lit::from((v, true)));
""", """        make_eliminating_unit_clause(store, Lit::from((v, true)));
        for cid in neg {
            debug_assert!(!cdb[*cid].is_dead());
            make_eliminated_clause(cdb, store, v, *cid);
        }
"""))
bug("p07-wrong-args", "P07", (EL, "make_eliminated_clauses(cdb, &mut elim.elim_lits, vi, &pos, &neg);", "make_eliminated_clauses(cdb, &mut elim.elim_lits, vi, &neg, &pos);"))
bug("p07-learnt-skip", "P07", (EL, """        for cid in pos {
            debug_assert!(!cdb[*cid].is_dead());
            make_eliminated""", """        for cid in pos {
            debug_assert!(!cdb[*cid].is_dead());
            if cdb[*cid].len() > 40 {
                continue;
            }
            make_eliminated"""))
bug("p07-no-swap", "P07", (EL, "            store.swap(index, first);\n", "            if index == first + 1 {\n                store.swap(index, first);\n            }\n"))
bug("p07-swap-zero", "P07", (EL, "            store.swap(index, first);\n", "            store.swap(index, first.min(index.saturating_sub(1)) & !1);\n"))
bug("p07-len", "P07", (EL, "    store.push(Lit::from(c.len()));\n", "    if 1 < c.len() {\n        store.push(Lit::from(c.len()));\n    }\n"))
bug("p07-late", "P07", (EL, "    make_eliminated_clauses(cdb, &mut elim.elim_lits, vi, &pos, &neg);\n", ""), (EL, "    elim[vi].clear();\n", "    make_eliminated_clauses(cdb, &mut elim.elim_lits, vi, &pos, &neg);\n    elim[vi].clear();\n"))
bug("p07-after-resolve", "P07", (EL, "    make_eliminated_clauses(cdb, &mut elim.elim_lits, vi, &pos, &neg);\n", "    if !(pos.is_empty() || neg.is_empty()) {\n        make_eliminated_clauses(cdb, &mut elim.elim_lits, vi, &pos, &neg);\n    }\n"))
bug("p07-not-handed", "P07", (SE, "                        asg.eliminated.append(elim.eliminated_lits());\n", "                        if elim.num_subsumed == 0 {\n                            asg.eliminated.append(elim.eliminated_lits());\n                        }\n"))
bug("p07-not-handed2", "P07", (SE, "            asg.eliminated.append(elim.eliminated_lits());\n            state[Stat::Simplify]", "            if elim.stats(1).is_none() {\n                asg.eliminated.append(elim.eliminated_lits());\n            }\n            state[Stat::Simplify]"))
bug("p07-clear", "P07", (SI, "        self.clause_queue.clear();\n        for c in &mut cdb", "        self.clause_queue.clear();\n        self.elim_lits.clear();\n        for c in &mut cdb") if False else (SI, "    fn eliminated_lits(&mut self) -> &mut Vec<Lit> {\n", "    fn eliminated_lits(&mut self) -> &mut Vec<Lit> {\n        self.elim_lits.truncate(1 << 20);\n"))
bug("p07-mark", "P07", (EL, "    asg.handle(SolverEvent::Eliminate(vi));\n", "    if !asg.var(vi).is(FlagVar::PHASE) {\n        asg.handle(SolverEvent::Eliminate(vi));\n    }\n"))
same("p07-table", (EL, """    if neg.len() < pos.len() {
        for cid in neg {
            debug_assert!(!cdb[*cid].is_dead());
            make_eliminated_clause(cdb, store, v, *cid);
        }
        make_eliminating_unit_clause(store, Lit::from((v, true)));
    } else {
        for cid in pos {
            debug_assert!(!cdb[*cid].is_dead());
            make_eliminated_clause(cdb, store, v, *cid);
        }
        make_eliminating_unit_clause(store, Lit::from((v, false)));
    }
""", """    let (saved, default) = if neg.len() < pos.len() {
        (neg, true)
    } else {
        (pos, false)
    };
    for &cid in saved.iter() {
        debug_assert!(!cdb[cid].is_dead());
        make_eliminated_clause(cdb, store, v, cid);
    }
    make_eliminating_unit_clause(store, Lit::from((v, default)));
"""))
bug("p07-table-wrong", "P07", (EL, """    if neg.len() < pos.len() {
        for cid in neg {
            debug_assert!(!cdb[*cid].is_dead());
            make_eliminated_clause(cdb, store, v, *cid);
        }
        make_eliminating_unit_clause(store, Lit::from((v, true)));
    } else {
        for cid in pos {
            debug_assert!(!cdb[*cid].is_dead());
            make_eliminated_clause(cdb, store, v, *cid);
        }
        make_eliminating_unit_clause(store, Lit::from((v, false)));
    }
""", """    let (saved, default) = if neg.len() < pos.len() {
        (neg, false)
    } else {
        (pos, true)
    };
    for &cid in saved.iter() {
        debug_assert!(!cdb[cid].is_dead());
        make_eliminated_clause(cdb, store, v, cid);
    }
    make_eliminating_unit_clause(store, Lit::from((v, default)));
"""))
same("p07-foreach", (EL, """        for cid in neg {
            debug_assert!(!cdb[*cid].is_dead());
            make_eliminated_clause(cdb, store, v, *cid);
        }
""", """        neg.iter()
            .for_each(|cid| make_eliminated_clause(cdb, store, v, *cid));
"""))
same("p07-extend", (EL, """    for l in c.iter() {
        store.push(*l);
        if l.vi() == vi {
            let index = store.len() - 1;
            debug_assert_eq!(store[index], *l);
            debug_assert_eq!(store[index].vi(), vi);
            // swap the first literal with the 'v'. So that the literal containing 'v' will occur first in the clause.
            store.swap(index, first);
        }
    }
""", """    store.extend(c.iter().copied());
    for index in first..store.len() {
        if store[index].vi() == vi {
            store.swap(first, index);
            break;
        }
    }
"""))
same("p07-extend2", (EL, """    for l in c.iter() {
        store.push(*l);
        if l.vi() == vi {
            let index = store.len() - 1;
            debug_assert_eq!(store[index], *l);
            debug_assert_eq!(store[index].vi(), vi);
            // swap the first literal with the 'v'. So that the literal containing 'v' will occur first in the clause.
            store.swap(index, first);
        }
    }
""", """    for l in c.iter() {
        store.push(*l);
    }
    if let Some(offset) = store[first..].iter().position(|l| l.vi() == vi) {
        store.swap(first, first + offset);
    }
"""))
same("p07-enumerate", (EL, """    for l in c.iter() {
        store.push(*l);
        if l.vi() == vi {
            let index = store.len() - 1;
            debug_assert_eq!(store[index], *l);
            debug_assert_eq!(store[index].vi(), vi);
            // swap the first literal with the 'v'. So that the literal containing 'v' will occur first in the clause.
            store.swap(index, first);
        }
    }
""", """    for (offset, l) in c.iter().enumerate() {
        store.push(*l);
        if l.vi() == vi {
            store.swap(first + offset, first);
        }
    }
"""))
same("p07-two-pass", (EL, """    for l in c.iter() {
        store.push(*l);
        if l.vi() == vi {
            let index = store.len() - 1;
            debug_assert_eq!(store[index], *l);
            debug_assert_eq!(store[index].vi(), vi);
            // swap the first literal with the 'v'. So that the literal containing 'v' will occur first in the clause.
            store.swap(index, first);
        }
    }
""", """    store.extend(c.iter().filter(|l| l.vi() == vi).copied());
    store.extend(c.iter().filter(|l| l.vi() != vi).copied());
"""))
same("p07-split", (ST, """            let target_index = i - width;
            let last_lit_index = i - 1;
            let reason_literals = target_index + 1..=last_lit_index;
            i = target_index;
            debug_assert!(
                lits[reason_literals.clone()]
                    .iter()
                    .all(|l| extended_model[l.vi()].is_some()),
                "impossible: pseudo clause has unassigned literal(s)."
            );
            if lits[reason_literals.clone()]
                .iter()
                .all(|l| extended_model[l.vi()] == Some(!bool::from(*l)))
            {
                let l = lits[target_index];
                extended_model[l.vi()] = Some(bool::from(l));
            } else if lits[reason_literals.clone()]
                .iter()
                .any(|l| extended_model[l.vi()] == Some(bool::from(*l)))
            {
                continue;
            }
""", """            i -= width;
            let (target, reasons) = lits[i..i + width]
                .split_first()
                .expect("empty clause");
            let satisfied = reasons
                .iter()
                .any(|l| extended_model[l.vi()] != Some(!bool::from(*l)));
            if !satisfied {
                extended_model[target.vi()] = Some(bool::from(*target));
            }
"""))
same("p07-loop", (ST, """            if lits[reason_literals.clone()]
                .iter()
                .all(|l| extended_model[l.vi()] == Some(!bool::from(*l)))
            {
                let l = lits[target_index];
                extended_model[l.vi()] = Some(bool::from(l));
            } else if lits[reason_literals.clone()]
                .iter()
                .any(|l| extended_model[l.vi()] == Some(bool::from(*l)))
            {
                continue;
            }
""", """            let mut falsified = true;
            for l in lits[reason_literals].iter() {
                if extended_model[l.vi()] == Some(bool::from(*l)) {
                    falsified = false;
                    break;
                }
            }
            if !falsified {
                continue;
            }
            let l = lits[target_index];
            extended_model[l.vi()] = Some(bool::from(l));
"""))
bug("p07-loop-last", "P07", (ST, """            if lits[reason_literals.clone()]
                .iter()
                .all(|l| extended_model[l.vi()] == Some(!bool::from(*l)))
            {
                let l = lits[target_index];
                extended_model[l.vi()] = Some(bool::from(l));
            } else if lits[reason_literals.clone()]
                .iter()
                .any(|l| extended_model[l.vi()] == Some(bool::from(*l)))
            {
                continue;
            }
""", """            let mut falsified = true;
            for l in lits[reason_literals].iter() {
                falsified = extended_model[l.vi()] != Some(bool::from(*l));
            }
            if !falsified {
                continue;
            }
            let l = lits[target_index];
            extended_model[l.vi()] = Some(bool::from(l));
"""))
same("p07-while-some", (ST, """        let mut i = lits.len();
        while 0 < i {
            i -= 1;
            let width = usize::from(lits[i]);
            debug_assert!(0 < width);
            debug_assert!(width <= i);
            let target_index = i - width;
            let last_lit_index = i - 1;
            let reason_literals = target_index + 1..=last_lit_index;
            i = target_index;
""", """        let mut end = lits.len();
        while end != 0 {
            let width_index = end - 1;
            let width = usize::from(lits[width_index]);
            let target_index = width_index - width;
            let reason_literals = target_index + 1..width_index;
            end = target_index;
"""))
same("p07-lits", (SE, "            asg.eliminated.append(elim.eliminated_lits());\n            state[Stat::Simplify]", "            let mut saved = std::mem::take(elim.eliminated_lits());\n            asg.eliminated.append(&mut saved);\n            state[Stat::Simplify]"))
same("p07-drain", (SE, "                        asg.eliminated.append(elim.eliminated_lits());\n", "                        asg.eliminated.extend(elim.eliminated_lits().drain(..));\n"))
same("p07-order", (EL, "    elim[vi].clear();\n    asg.handle(SolverEvent::Eliminate(vi));\n    state.restart.handle(SolverEvent::Eliminate(vi));\n", "    asg.handle(SolverEvent::Eliminate(vi));\n    elim[vi].clear();\n    state.restart.handle(SolverEvent::Eliminate(vi));\n"))
