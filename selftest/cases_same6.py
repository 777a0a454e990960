"""Refactorings that keep the behaviour (sixth batch): marks, occurrence lists, elimination, heap, list primitives."""
from cases import same
EL = "src/processor/eliminate.rs"
SB = "src/processor/subsume.rs"
SI = "src/processor/simplify.rs"
PH = "src/processor/heap.rs"
TC = "src/types/clause.rs"
TV = "src/types/var.rs"
AH = "src/assign/heap.rs"
VV = "src/cdb/vivify.rs"

# ---- marks
same("flag-on-or", (TC, "        self.flags.insert(flag);", "        self.flags |= flag;"))
same("flag-off-and", (TC, "        self.flags.remove(flag);", "        self.flags &= !flag;"))
same("flag-off-diff", (TV, "        self.flags.remove(flag);", "        self.flags -= flag;"))
same("flag-on-union", (TV, "        self.flags.insert(flag);", "        self.flags.set(flag, true);"))
same("flag-on-set", (TV, "        self.flags.insert(flag);", "        self.set(flag, true);"))
same("flag-is-intersect", (TV, "        self.flags.contains(flag)", "        self.flags.intersects(flag)"))
same("flag-is-eq", (TC, "        self.flags.contains(flag)", "        let wanted = flag.bits();\n        self.flags.bits() & wanted == wanted"))
same("flag-set-if", (TC, "        self.flags.set(f, b);", "        if b {\n            self.turn_on(f);\n        } else {\n            self.turn_off(f);\n        }"))
# ---- occurrence lists
same("occ-prepare-let", (SI, "            let vec = c.iter().copied().collect::<Vec<_>>();\n            debug_assert!(vec.iter().all(|l| !vec.contains(&!*l)));\n            self.add_cid_occur(asg, ClauseId::from(cid), c, false);", "            let id = ClauseId::from(cid);\n            self.add_cid_occur(asg, id, c, false);"))
same("occ-prepare-if", (SI, "            if c.is_dead() || c.is(FlagClause::OCCUR_LINKED) {\n                continue;\n            }\n            let vec = c.iter().copied().collect::<Vec<_>>();\n            debug_assert!(vec.iter().all(|l| !vec.contains(&!*l)));\n            self.add_cid_occur(asg, ClauseId::from(cid), c, false);", "            if !c.is_dead() {\n                self.add_cid_occur(asg, ClauseId::from(cid), c, false);\n            }"))
same("occ-prepare-filter", (SI, "        for (cid, c) in &mut cdb.iter_mut().enumerate().skip(1) {\n            if c.is_dead() || c.is(FlagClause::OCCUR_LINKED) {\n                continue;\n            }", "        for (cid, c) in cdb\n            .iter_mut()\n            .enumerate()\n            .skip(1)\n            .filter(|(_, c)| !c.is_dead() && !c.is(FlagClause::OCCUR_LINKED))\n        {"))
same("occ-prepare-foreach", (SI, "        for w in &mut self[1..] {\n            w.clear();\n        }\n        for (cid, c)", "        self[1..].iter_mut().for_each(LitOccurs::clear);\n        for (cid, c)"))
same("occ-prepare-clear-var", (SI, "        for w in &mut self[1..] {\n            w.clear();\n        }\n        for (cid, c)", "        for w in self.var.iter_mut() {\n            w.clear();\n        }\n        for (cid, c)"))
same("occ-add-match", (SI, "        if self.mode != EliminatorMode::Running || c.is(FlagClause::OCCUR_LINKED) {\n            return;\n        }\n        let evo", "        if self.mode == EliminatorMode::Dormant {\n            return;\n        }\n        if c.is(FlagClause::OCCUR_LINKED) {\n            return;\n        }\n        let evo"))
same("occ-add-wrapped", (SI, "        if self.mode != EliminatorMode::Running || c.is(FlagClause::OCCUR_LINKED) {\n            return;\n        }\n        let evo", "        let running = self.mode == EliminatorMode::Running;\n        let linked = c.is(FlagClause::OCCUR_LINKED);\n        if !running || linked {\n            return;\n        }\n        let evo"))
same("occ-add-else", (SI, "            if evo < pl * nl {\n                w.aborted = true;\n                continue;\n            }\n            if !v.is(FlagVar::ELIMINATED) {", "            if evo < pl * nl {\n                w.aborted = true;\n            } else if !v.is(FlagVar::ELIMINATED) {"))
same("occ-add-list", (SI, "                    w.pos_occurs.push(cid);\n                } else {", "                    let occurs = &mut w.pos_occurs;\n                    occurs.push(cid);\n                } else {"))
same("occ-add-or", (SI, "                w.aborted = true;\n                continue;", "                w.aborted |= true;\n                continue;"))
same("occ-remove-retain", (SI, "            w.pos_occurs.delete_unstable(|&c| c == cid);", "            w.pos_occurs.retain(|&c| c != cid);"))
same("occ-remove-match", (SI, "        if w.aborted {\n            return;\n        }\n        if bool::from(l) {", "        let aborted = w.aborted;\n        if aborted {\n            return;\n        }\n        if l.as_bool() {"))
same("occ-remove-list", (SI, "        if bool::from(l) {\n            debug_assert_eq!(w.pos_occurs.iter().filter(|&c| *c == cid).count(), 1);\n            w.pos_occurs.delete_unstable(|&c| c == cid);\n            debug_assert!(!w.pos_occurs.contains(&cid));\n        } else {\n            debug_assert_eq!(w.neg_occurs.iter().filter(|&c| *c == cid).count(), 1);\n            w.neg_occurs.delete_unstable(|&c| c == cid);\n            debug_assert!(!w.neg_occurs.contains(&cid));\n        }", "        let occurs = if bool::from(l) {\n            &mut w.pos_occurs\n        } else {\n            &mut w.neg_occurs\n        };\n        occurs.delete_unstable(|&c| c == cid);"))
same("occ-stop-noforce", (SI, "        let force: bool = true;\n        self.clear_clause_queue(cdb);\n        self.clear_var_queue(asg);\n        if force {\n            for c in &mut cdb.iter_mut().skip(1) {\n                c.turn_off(FlagClause::OCCUR_LINKED);\n            }\n            for w in &mut self[1..] {\n                w.clear();\n            }\n        }", "        self.clear_clause_queue(cdb);\n        self.clear_var_queue(asg);\n        for c in cdb.iter_mut().skip(1) {\n            c.turn_off(FlagClause::OCCUR_LINKED);\n        }\n        for w in self.var[1..].iter_mut() {\n            w.clear();\n        }"))
same("occ-stop-foreach", (SI, "            for c in &mut cdb.iter_mut().skip(1) {\n                c.turn_off(FlagClause::OCCUR_LINKED);\n            }", "            cdb.iter_mut()\n                .skip(1)\n                .for_each(|c| c.turn_off(FlagClause::OCCUR_LINKED));"))
same("occ-stop-if", (SI, "                c.turn_off(FlagClause::OCCUR_LINKED);\n            }\n            for w", "                if c.is(FlagClause::OCCUR_LINKED) {\n                    c.turn_off(FlagClause::OCCUR_LINKED);\n                }\n            }\n            for w"))
same("occ-simplify-running", (SI, "        if self.mode != EliminatorMode::Dormant {\n            self.stop(asg, cdb);\n        }", "        if self.mode == EliminatorMode::Running {\n            self.stop(asg, cdb);\n        }"))
same("occ-clear-default", (PH, "        self.aborted = false;\n        self.pos_occurs.clear();\n        self.neg_occurs.clear();", "        self.pos_occurs.clear();\n        self.neg_occurs.clear();\n        self.aborted = false;"))
# ---- elimination
same("el6-retain-dead", (EL, "        .retain(|&c| cdb[c].contains(Lit::from((vi, true))));", "        .retain(|&c| !cdb[c].is_dead() && cdb[c].contains(Lit::from((vi, true))));"))
same("el6-retain-let", (EL, "    w.pos_occurs\n        .retain(|&c| cdb[c].contains(Lit::from((vi, true))));", "    let pos_lit = Lit::from((vi, true));\n    w.pos_occurs.retain(|&c| cdb[c].contains(pos_lit));"))
same("el6-retain-not", (EL, "        .retain(|&c| cdb[c].contains(Lit::from((vi, false))));", "        .retain(|&c| cdb[c].contains(!Lit::from((vi, true))));"))
same("el6-clone-tovec", (EL, "    let pos = w.pos_occurs.clone();\n    let neg = w.neg_occurs.clone();", "    let pos = w.pos_occurs.to_vec();\n    let neg: Vec<ClauseId> = w.neg_occurs.iter().copied().collect();"))
same("el6-iflet", (EL, "                        RefClause::Dead => (),\n                        RefClause::EmptyClause => (),\n                        RefClause::RegisteredClause(_) => (),\n                        RefClause::UnitClause(_) => (),\n", "                        _ => (),\n"))
same("el6-enter-helper", (EL, "                            elim.add_cid_occur(asg, ci, &mut cdb[ci], true);\n", "                            enter(asg, cdb, elim, ci);\n"), (EL, "/// returns `true` if elimination is impossible.", "fn enter(\n    asg: &mut impl AssignIF,\n    cdb: &mut impl ClauseDBIF,\n    elim: &mut Eliminator,\n    ci: ClauseId,\n) {\n    elim.add_cid_occur(asg, ci, &mut cdb[ci], true);\n}\n\n/// returns `true` if elimination is impossible."))
same("el6-remove-loop", (EL, "    for cid in pos.iter() {\n        if cdb[*cid].is_dead() {\n            continue;\n        }\n        elim.remove_cid_occur(asg, *cid, &mut cdb[*cid]);\n        cdb.remove_clause(*cid);\n    }\n    for cid in neg.iter() {", "    for cid in pos.iter().chain(neg.iter()) {"))
same("el6-remove-order", (EL, "    for cid in pos.iter() {\n        if cdb[*cid].is_dead() {\n            continue;\n        }\n        elim.remove_cid_occur(asg, *cid, &mut cdb[*cid]);\n        cdb.remove_clause(*cid);\n    }", "    for &cid in &pos {\n        if !cdb[cid].is_dead() {\n            elim.remove_cid_occur(asg, cid, &mut cdb[cid]);\n            cdb.remove_clause(cid);\n        }\n    }"))
same("el6-clear", (EL, "    elim[vi].clear();\n", "    let occurs = &mut elim[vi];\n    occurs.clear();\n"))
same("el6-learnt-let", (EL, "                    match cdb.new_clause(asg, vec, learnt_p && cdb[*n].is(FlagClause::LEARNT)) {", "                    let learnt = learnt_p && cdb[*n].is(FlagClause::LEARNT);\n                    match cdb.new_clause(asg, vec, learnt) {"))
same("el6-strengthen-order", (SB, "            elim.enqueue_clause(cid, &mut cdb[cid]);\n            elim.remove_lit_occur(asg, l, cid);\n", "            elim.remove_lit_occur(asg, l, cid);\n            elim.enqueue_clause(cid, &mut cdb[cid]);\n"))
same("el6-sub-let", (SB, "                self.remove_cid_occur(asg, did, &mut cdb[did]);\n                cdb.remove_clause(did);", "                let d = &mut cdb[did];\n                self.remove_cid_occur(asg, did, d);\n                cdb.remove_clause(did);"))
same("el6-sweep", (SI, "                self[best].pos_occurs.retain(|cid| !cdb[*cid].is_dead());\n                self[best].neg_occurs.retain(|cid| !cdb[*cid].is_dead());\n                for cls", "                let w = &mut self[best];\n                w.pos_occurs.retain(|&c| !cdb[c].is_dead());\n                w.neg_occurs.retain(|&c| !cdb[c].is_dead());\n                for cls"))
same("el6-sub-let-chain", (SI, "                for cls in [self[best].pos_occurs.clone(), self[best].neg_occurs.clone()].iter() {", "                let both = [self[best].pos_occurs.clone(), self[best].neg_occurs.clone()];\n                for cls in both.iter() {"))
# ---- heap
same("heap6-contains", (AH, "        self.idxs[v] <= self.idxs[0]", "        let last = self.idxs[0];\n        !(last < self.idxs[v])"))
same("heap6-insert", (AH, "        let i = self.idxs[vi];\n        let n = self.idxs[0] + 1;\n        let vn = self.heap[n as usize];\n        self.heap.swap(i as usize, n as usize);\n        self.idxs.swap(vi, vn as usize);\n        self.idxs[0] = n;\n        n as usize", "        self.idxs[0] += 1;\n        let i = self.idxs[vi] as usize;\n        let n = self.idxs[0] as usize;\n        let vn = self.heap[n] as usize;\n        self.heap.swap(i, n);\n        self.idxs.swap(vi, vn);\n        n"))
same("heap6-root-order", (AH, "        self.heap.swap(n as usize, s);\n        self.idxs.swap(vn as usize, vs as usize);\n        self.idxs[0] -= 1;\n        vs as VarId", "        self.idxs[0] -= 1;\n        self.idxs.swap(vs as usize, vn as usize);\n        self.heap.swap(s, n as usize);\n        vs as VarId"))
same("heap6-remove", (AH, "        if n < i {\n            return None;\n        }\n        let vn", "        if !self.contains(vi) {\n            return None;\n        }\n        let vn"))
same("heap6-remove-then", (AH, "        if 1 < self.idxs[0] {\n            return Some(i as usize);\n        }\n        None\n", "        (1 < self.idxs[0]).then_some(i as usize)\n"))
same("heap6-down-break", (AH, "            } else {\n                self.var_order.heap[i as usize] = vi;\n                debug_assert!(vi != 0, \"invalid index\");\n                self.var_order.idxs[vi as usize] = i;\n                return;\n            }\n        }\n    }\n    fn remove_from_heap", "            } else {\n                break;\n            }\n        }\n        self.var_order.heap[i as usize] = vi;\n        self.var_order.idxs[vi as usize] = i;\n    }\n    fn remove_from_heap"))
same("heap6-up-while", (AH, "                self.var_order.heap[q as usize] = vq;\n                debug_assert!(vq != 0, \"Invalid index in percolate_up\");\n                self.var_order.idxs[vq as usize] = q;\n                return;\n            } else {\n                let vp", "                break;\n            } else {\n                let vp"), (AH, "                } else {\n                    self.var_order.heap[q as usize] = vq;\n                    debug_assert!(vq != 0, \"Invalid index in percolate_up\");\n                    self.var_order.idxs[vq as usize] = q;\n                    return;\n                }\n            }\n        }\n    }\n    fn percolate_down", "                } else {\n                    break;\n                }\n            }\n        }\n        self.var_order.heap[q as usize] = vq;\n        self.var_order.idxs[vq as usize] = q;\n    }\n    fn percolate_down"))
same("heap6-removefrom", (AH, "        if let Some(i) = self.var_order.remove(vi) {\n            self.percolate_down(i as u32);\n        }", "        match self.var_order.remove(vi) {\n            Some(i) => self.percolate_down(i as u32),\n            None => (),\n        }"))
same("viv6-decisions", (VV, "                                        vec = asg.analyze_sandbox(\n                                            self, &decisions, cnfl_lits, &mut seen,\n                                        );", "                                        let made = &decisions[..];\n                                        vec = asg.analyze_sandbox(self, made, cnfl_lits, &mut seen);"))
