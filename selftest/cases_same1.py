"""Edits that keep the behaviour: files that had few of them so far."""
from cases import bug, same

BN, WC, CL, SU = "src/cdb/binary.rs", "src/cdb/watch_cache.rs", "src/types/clause.rs", "src/processor/subsume.rs"
SE, TS, HE, PH = "src/assign/select.rs", "src/assign/trail_saving.rs", "src/assign/heap.rs", "src/processor/heap.rs"
ST, LU, CN, TC = "src/solver/stage.rs", "src/types/luby.rs", "src/cnf/mod.rs", "src/types/cnf.rs"

# ---- binary.rs
same("bn-key-helper", (BN, "impl BinaryLinkIF for BinaryLinkDB {", "fn pair(a: Lit, b: Lit) -> (Lit, Lit) {\n    if a < b { (a, b) } else { (b, a) }\n}\n\nimpl BinaryLinkIF for BinaryLinkDB {"),
     (BN, "        let l0 = lit0.min(lit1);\n        let l1 = lit0.max(lit1);\n        self.hash.insert((l0, l1), cid);", "        self.hash.insert(pair(lit0, lit1), cid);"),
     (BN, "        let l0 = lit0.min(lit1);\n        let l1 = lit0.max(lit1);\n        self.hash.remove(&(l0, l1));", "        self.hash.remove(&pair(lit0, lit1));"),
     (BN, "        let l0 = lit0.min(lit1);\n        let l1 = lit0.max(lit1);\n        self.hash.get(&(l0, l1))", "        self.hash.get(&pair(lit0, lit1))"))
same("bn-loop", (BN, "        self.list[lit0].push((lit1, cid));\n        self.list[lit1].push((lit0, cid));", "        for (a, b) in [(lit0, lit1), (lit1, lit0)] {\n            self.list[a].push((b, cid));\n        }"))
same("bn-retain", (BN, "        self.list[lit0].delete_unstable(|p| p.0 == lit1);\n        self.list[lit1].delete_unstable(|p| p.0 == lit0);", "        self.list[lit0].retain(|p| p.0 != lit1);\n        self.list[lit1].retain(|p| p.0 != lit0);"))
same("bn-order", (BN, "        self.hash.insert((l0, l1), cid);\n        self.list[lit0].push((lit1, cid));\n        self.list[lit1].push((lit0, cid));", "        self.list[lit1].push((lit0, cid));\n        self.list[lit0].push((lit1, cid));\n        self.hash.insert((l0, l1), cid);"))
same("bn-addvar", (BN, "        for _ in 0..2 {\n            self.list.push(Vec::new());\n        }", "        self.list.push(Vec::new());\n        self.list.push(Vec::new());"))
same("bn-addvar2", (BN, "        for _ in 0..2 {\n            self.list.push(Vec::new());\n        }", "        let n = self.list.len() + 2;\n        self.list.resize(n, Vec::new());"))
same("bn-match", (BN, "        let l0 = lit0.min(lit1);\n        let l1 = lit0.max(lit1);\n        self.hash.get(&(l0, l1))", "        let key = match lit0.cmp(&lit1) {\n            std::cmp::Ordering::Less => (lit0, lit1),\n            _ => (lit1, lit0),\n        };\n        self.hash.get(&key)"))
# ---- watch_cache.rs
same("wc-find", (WC, "        self.iter().find_map(|e| (e.0 == *cid).then_some(&e.1))", "        self.iter().find(|e| e.0 == *cid).map(|e| &e.1)"))
same("wc-get-loop", (WC, "        self.iter().find_map(|e| (e.0 == *cid).then_some(&e.1))", "        for (c, l) in self.iter() {\n            if c == cid {\n                return Some(l);\n            }\n        }\n        None"))
same("wc-remove-loop", (WC, "        if let Some(i) = self.iter().position(|e| e.0 == *cid) {\n            self.swap_remove(i);\n        }", "        for i in 0..self.len() {\n            if self[i].0 == *cid {\n                self.swap_remove(i);\n                break;\n            }\n        }"))
same("wc-remove-retain", (WC, "        if let Some(i) = self.iter().position(|e| e.0 == *cid) {\n            self.swap_remove(i);\n        }", "        self.retain(|e| e.0 != *cid);"))
same("wc-update-find", (WC, "        for e in self.iter_mut() {\n            if e.0 == cid {\n                e.1 = l;\n                break;\n            }\n        }", "        if let Some(e) = self.iter_mut().find(|e| e.0 == cid) {\n            e.1 = l;\n        }"))
same("wc-append", (WC, "        self.append(&mut appendant);", "        self.extend(appendant.drain(..));"))
same("wc-iter", (WC, "        (self.index < self.end_at).then_some({\n            // assert!(0 < self.checksum);\n            // self.checksum -= 1;\n            self.index\n        })", "        if self.index >= self.end_at {\n            return None;\n        }\n        Some(self.index)"))
same("wc-iter-ne", (WC, "        (self.index < self.end_at).then_some({\n            // assert!(0 < self.checksum);\n            // self.checksum -= 1;\n            self.index\n        })", "        let i = self.index;\n        if i < self.end_at { Some(i) } else { None }"))
# ---- clause.rs
same("cl-sat-any", (CL, "        for l in self.lits.iter() {\n            if asg.assigned(*l) == Some(true) {\n                return true;\n            }\n        }\n        false", "        self.lits.iter().any(|l| asg.assigned(*l) == Some(true))"))
same("cl-contains", (CL, "        self.lits.contains(&lit)", "        self.lits.iter().any(|l| *l == lit)"))
same("cl-lbd-filter", (CL, "            if lv == 0 {\n                continue;\n            }\n            let p = &mut lbd_temp[lv as usize];\n            if *p != key {\n                *p = key;\n                cnt += 1;\n            }", "            if lv != 0 && lbd_temp[lv as usize] != key {\n                lbd_temp[lv as usize] = key;\n                cnt += 1;\n            }"))
same("cl-from", (CL, "        c.lits.iter().map(|l| i32::from(*l)).collect::<Vec<i32>>()", "        let mut v = Vec::with_capacity(c.lits.len());\n        for l in &c.lits {\n            v.push(i32::from(*l));\n        }\n        v"))
same("cl-refclause", (CL, "            RefClause::Clause(cid) => *cid,\n            RefClause::RegisteredClause(cid) => *cid,\n            _ => panic", "            RefClause::Clause(cid) | RefClause::RegisteredClause(cid) => *cid,\n            _ => panic"))
same("cl-isnew", (CL, "            RefClause::Clause(cid) => Some(*cid),\n            RefClause::RegisteredClause(_) => None,\n            RefClause::EmptyClause => None,\n            RefClause::Dead => None,\n            RefClause::UnitClause(_) => None,", "            RefClause::Clause(cid) => Some(*cid),\n            _ => None,"))
# ---- subsume.rs
same("su-all", (SU, "    'next: for l in ch.iter() {\n        for lo in ob.iter() {\n            if *l == *lo {\n                continue 'next;\n                // } else if ret == Subsumable::Success && *l == !*lo {\n                //     ret = Subsumable::By(*l);\n                //     continue 'next;\n            }\n        }\n        return Subsumable::None;\n    }\n    Subsumable::Success", "    if ch.iter().all(|l| ob.contains(*l)) {\n        Subsumable::Success\n    } else {\n        Subsumable::None\n    }"))
same("su-any", (SU, "        for lo in oh.iter() {\n            if l == !*lo {\n                return Subsumable::By(l);\n            }\n        }\n        return Subsumable::None;", "        return if oh.iter().any(|lo| *lo == !l) {\n            Subsumable::By(l)\n        } else {\n            Subsumable::None\n        };"))
same("su-contains", (SU, "        for lo in oh.iter() {\n            if l == !*lo {\n                return Subsumable::By(l);\n            }\n        }\n        return Subsumable::None;", "        if oh.contains(!l) {\n            return Subsumable::By(l);\n        }\n        return Subsumable::None;"))
same("su-if", (SU, "            match asg.assigned(l0) {\n                None => asg.assign_at_root_level(l0),\n                Some(true) => Ok(()),\n                Some(false) => Err(SolverError::RootLevelConflict((l0, asg.reason(l0.vi())))),\n            }", "            if let Some(b) = asg.assigned(l0) {\n                if b {\n                    return Ok(());\n                }\n                return Err(SolverError::RootLevelConflict((l0, asg.reason(l0.vi()))));\n            }\n            asg.assign_at_root_level(l0)"))
same("su-forget", (SU, "fn strengthen_clause(", "fn forget(asg: &mut impl AssignIF, cdb: &mut impl ClauseDBIF, elim: &mut Eliminator, cid: ClauseId) {\n    elim.remove_cid_occur(asg, cid, &mut cdb[cid]);\n    cdb.remove_clause(cid);\n}\n\nfn strengthen_clause("),
     (SU, "        RefClause::RegisteredClause(_) => {\n            elim.remove_cid_occur(asg, cid, &mut cdb[cid]);\n            cdb.remove_clause(cid);\n            Ok(())", "        RefClause::RegisteredClause(_) => {\n            forget(asg, cdb, elim, cid);\n            Ok(())"),
     (SU, "            cdb.certificate_add_assertion(l0);\n            elim.remove_cid_occur(asg, cid, &mut cdb[cid]);\n            cdb.remove_clause(cid);", "            cdb.certificate_add_assertion(l0);\n            forget(asg, cdb, elim, cid);"))
same("su-learnt-var", (SU, "                if !cdb[did].is(FlagClause::LEARNT) {\n                    cdb.make_permanent(cid);\n                }", "                let original = !cdb[did].is(FlagClause::LEARNT);\n                if original {\n                    cdb.make_permanent(cid);\n                }"))
same("su-always-perm", (SU, "                if !cdb[did].is(FlagClause::LEARNT) {\n                    cdb.make_permanent(cid);\n                }", "                if !cdb[did].is(FlagClause::LEARNT) && cdb[cid].is(FlagClause::LEARNT) {\n                    cdb.make_permanent(cid);\n                }"))
# ---- select.rs
same("se-while", (SE, "        loop {\n            let vi = self.get_heap_root();\n            if var_assign!(self, vi).is_none() && !self.var[vi].is(FlagVar::ELIMINATED) {\n                return vi;\n            }\n        }", "        let mut vi = self.get_heap_root();\n        while var_assign!(self, vi).is_some() || self.var[vi].is(FlagVar::ELIMINATED) {\n            vi = self.get_heap_root();\n        }\n        vi"))
same("se-free", (SE, "impl AssignStack {\n", "impl AssignStack {\n    fn is_free(&self, vi: VarId) -> bool {\n        let v = &self.var[vi];\n        v.assign.is_none() && !v.is(FlagVar::ELIMINATED)\n    }\n"),
     (SE, "            let vi = self.get_heap_root();\n            if var_assign!(self, vi).is_none() && !self.var[vi].is(FlagVar::ELIMINATED) {", "            let vi = self.get_heap_root();\n            if self.is_free(vi) {"),
     (SE, "            if var_assign!(self, vi).is_none() && !self.var[vi].is(FlagVar::ELIMINATED) {\n                self.insert_heap(vi);", "            if self.is_free(vi) {\n                self.insert_heap(vi);"))
same("se-continue", (SE, "            if var_assign!(self, vi).is_none() && !self.var[vi].is(FlagVar::ELIMINATED) {\n                self.insert_heap(vi);\n            }", "            if var_assign!(self, vi).is_some() || self.var[vi].is(FlagVar::ELIMINATED) {\n                continue;\n            }\n            self.insert_heap(vi);"))
same("se-phase", (SE, "        Lit::from((vi, self.var[vi].is(FlagVar::PHASE)))", "        let phase = self.var[vi].is(FlagVar::PHASE);\n        Lit::from((vi, phase))"))
same("se-inline", (SE, "        let vi = self.select_var();\n        Lit::from((vi, self.var[vi].is(FlagVar::PHASE)))", "        loop {\n            let vi = self.get_heap_root();\n            let v = &self.var[vi];\n            if v.assign.is_none() && !v.is(FlagVar::ELIMINATED) {\n                return Lit::from((vi, v.is(FlagVar::PHASE)));\n            }\n        }"),
     (SE, "impl AssignStack {\n", "impl AssignStack {\n    #[allow(dead_code)]\n"))
# ---- trail_saving.rs
same("ts-clear-take", (TS, "        for j in 0..self.trail_saved.len() {\n            let l = self.trail_saved[j];\n            self.insert_heap(l.vi());\n        }\n        self.trail_saved.clear();\n    }\n}", "        let saved = std::mem::take(&mut self.trail_saved);\n        for l in saved {\n            self.insert_heap(l.vi());\n        }\n    }\n}"))
same("ts-clear-pop", (TS, "        for j in 0..self.trail_saved.len() {\n            let l = self.trail_saved[j];\n            self.insert_heap(l.vi());\n        }\n        self.trail_saved.clear();\n    }\n}", "        while let Some(l) = self.trail_saved.pop() {\n            self.insert_heap(l.vi());\n        }\n    }\n}"))
same("ts-while", (TS, "        for i in (0..self.trail_saved.len()).rev() {\n            let lit = self.trail_saved[i];", "        let mut n = self.trail_saved.len();\n        while 0 < n {\n            n -= 1;\n            let i = n;\n            let lit = self.trail_saved[i];"))
same("ts-inline-trunc", (TS, "                (_, AssignReason::Decision(lvl)) => {\n                    debug_assert_ne!(0, lvl);\n                    self.insert_heap(vi);\n                    return self.truncate_trail_saved(i + 1);", "                (_, AssignReason::Decision(lvl)) => {\n                    debug_assert_ne!(0, lvl);\n                    self.insert_heap(vi);\n                    self.trail_saved.truncate(i + 1);\n                    return Ok(());"))
same("ts-if-chain", (TS, "                (None, AssignReason::Implication(c)) if q < cdb[c].rank => {\n                    self.insert_heap(vi);\n                    return self.truncate_trail_saved(i + 1);\n                }\n                (None, AssignReason::Implication(cid)) => {", "                (None, AssignReason::Implication(cid)) => {\n                    if q < cdb[cid].rank {\n                        self.insert_heap(vi);\n                        return self.truncate_trail_saved(i + 1);\n                    }"))
same("ts-save-split", (TS, "        for i in free..self.trail.len() {\n            let vi = self.trail[i].vi();\n            self.reward_at_unassign(vi);\n            self.insert_heap(vi);\n        }", "        let mut i = free;\n        while i < self.trail.len() {\n            let vi = self.trail[i].vi();\n            self.reward_at_unassign(vi);\n            self.insert_heap(vi);\n            i += 1;\n        }"))
# ---- heap.rs
same("he-up-while", (HE, "        loop {\n            let p = q / 2;\n            if p == 0 {\n                self.var_order.heap[q as usize] = vq;\n                debug_assert!(vq != 0, \"Invalid index in percolate_up\");\n                self.var_order.idxs[vq as usize] = q;\n                return;\n            } else {\n                let vp = self.var_order.heap[p as usize];\n                let ap = self.activity(vp as usize);\n                if ap < aq {\n                    // move down the current parent, and make it empty\n                    self.var_order.heap[q as usize] = vp;\n                    debug_assert!(vq != 0, \"Invalid index in percolate_up\");\n                    self.var_order.idxs[vp as usize] = q;\n                    q = p;\n                } else {\n                    self.var_order.heap[q as usize] = vq;\n                    debug_assert!(vq != 0, \"Invalid index in percolate_up\");\n                    self.var_order.idxs[vq as usize] = q;\n                    return;\n                }\n            }\n        }",
     "        while 1 < q {\n            let p = q / 2;\n            let vp = self.var_order.heap[p as usize];\n            let ap = self.activity(vp as usize);\n            if ap < aq {\n                self.var_order.heap[q as usize] = vp;\n                self.var_order.idxs[vp as usize] = q;\n                q = p;\n            } else {\n                break;\n            }\n        }\n        self.var_order.heap[q as usize] = vq;\n        self.var_order.idxs[vq as usize] = q;"))
same("he-place", (HE, "                if ai < ac {\n                    self.var_order.heap[i as usize] = vc;\n                    self.var_order.idxs[vc as usize] = i;\n                    i = target;\n                } else {\n                    self.var_order.heap[i as usize] = vi;\n                    debug_assert!(vi != 0, \"invalid index\");\n                    self.var_order.idxs[vi as usize] = i;\n                    return;\n                }", "                if ac <= ai {\n                    self.var_order.heap[i as usize] = vi;\n                    self.var_order.idxs[vi as usize] = i;\n                    return;\n                }\n                self.var_order.heap[i as usize] = vc;\n                self.var_order.idxs[vc as usize] = i;\n                i = target;"))
same("he-insert-swap", (HE, "        self.heap.swap(i as usize, n as usize);\n        self.idxs.swap(vi, vn as usize);\n        self.idxs[0] = n;\n        n as usize", "        self.heap[i as usize] = vn;\n        self.heap[n as usize] = vi as u32;\n        self.idxs[vn as usize] = i;\n        self.idxs[vi] = n;\n        self.idxs[0] = n;\n        n as usize"))
same("he-clear-iter", (HE, "        for i in 0..self.idxs.len() {\n            self.idxs[i] = i as u32;\n            self.heap[i] = i as u32;\n        }", "        for (i, x) in self.idxs.iter_mut().enumerate() {\n            *x = i as u32;\n        }\n        for (i, x) in self.heap.iter_mut().enumerate() {\n            *x = i as u32;\n        }"))
same("he-contains", (HE, "        self.idxs[v] <= self.idxs[0]\n    }\n    fn get_root", "        let n = self.idxs[0];\n        n >= self.idxs[v]\n    }\n    fn get_root"))
same("he-remove-if", (HE, "        if n < i {\n            return None;\n        }\n        let vn", "        if !self.contains(vi) {\n            return None;\n        }\n        let vn"))
same("he-root-dec", (HE, "        self.heap.swap(n as usize, s);\n        self.idxs.swap(vn as usize, vs as usize);\n        self.idxs[0] -= 1;\n        vs as VarId", "        self.idxs.swap(vn as usize, vs as usize);\n        self.heap.swap(n as usize, s);\n        self.idxs[0] = n - 1;\n        vs as VarId"))
same("he-update", (HE, "        let start = self.var_order.idxs[v];\n        if self.var_order.contains(v) {\n            self.percolate_up(start);\n        }", "        if !self.var_order.contains(v) {\n            return;\n        }\n        self.percolate_up(self.var_order.idxs[v]);"))
same("he-new", (HE, "        let mut heap = Vec::with_capacity(n + 1);\n        let mut idxs = Vec::with_capacity(n + 1);\n        heap.push(0);\n        idxs.push(n as u32);\n        for i in 1..=n {\n            heap.push(i as u32);\n            idxs.push(i as u32);\n        }\n        idxs[0] = n as u32;\n        VarIdHeap { heap, idxs }", "        let heap: Vec<u32> = (0..=n as u32).collect();\n        let mut idxs = heap.clone();\n        idxs[0] = n as u32;\n        VarIdHeap { heap, idxs }"))
# ---- processor/heap.rs
same("ph-select-while", (PH, "        loop {\n            let vi = self.get_root(occur);\n            if vi == 0 {\n                return None;\n            }\n            if !asg.var(vi).is(FlagVar::ELIMINATED) {\n                return Some(vi);\n            }\n        }", "        let mut vi = self.get_root(occur);\n        while vi != 0 {\n            if !asg.var(vi).is(FlagVar::ELIMINATED) {\n                return Some(vi);\n            }\n            vi = self.get_root(occur);\n        }\n        None"))
same("ph-occ-new", (PH, "        let mut vec = Vec::with_capacity(n + 1);\n        for _ in 0..=n {\n            vec.push(LitOccurs::default());\n        }\n        vec", "        vec![LitOccurs::default(); n + 1]"))
# ---- stage.rs
same("st-span", (ST, "        let span = self.current_span();\n        self.end_of_stage = now + span;\n        new_cycle", "        self.end_of_stage = now + self.cycle * self.unit_size;\n        new_cycle"))
same("st-if", (ST, "        new_cycle.then_some(new_segment)", "        if new_cycle { Some(new_segment) } else { None }"))
# ---- cnf/mod.rs
same("cn-contains", (CN, "self.cls_map.iter().any(|ref_c| *ref_c == cc)", "self.cls_map.contains(&cc)"))
same("cn-any-swap", (CN, "self.cls_map.iter().any(|ref_c| *ref_c == cc)", "self.cls_map.iter().any(|ref_c| cc == *ref_c)"))
same("cn-max-loop", (CN, "        self.num_vars = self\n            .num_vars\n            .max(c.iter().map(|v| v.unsigned_abs()).max().unwrap());", "        for l in &c {\n            self.num_vars = self.num_vars.max(l.unsigned_abs());\n        }"))
same("cn-empty-first", (CN, "        let c = clause.as_ref().clone();\n", "        let c = clause.as_ref().clone();\n        if c.is_empty() && self.no_check_uniqueness {\n            return Err(CNFOperationError::AddingEmptyClause);\n        }\n"))
same("cn-fold", (CN, "            max_var = max_var.max(ref_c.iter().map(|v| v.unsigned_abs()).max().unwrap());", "            max_var = ref_c.iter().fold(max_var, |m, v| m.max(v.unsigned_abs()));"))
same("cn-push-order", (CN, "        if !self.no_check_uniqueness {\n            self.cls_map.insert(cc);\n        }\n        self.clauses.push(c);", "        self.clauses.push(c);\n        if !self.no_check_uniqueness {\n            self.cls_map.insert(cc);\n        }"))
same("cn-save-q", (CN, "            buf.write_all(self.dump_to_string().as_bytes())\n                .and_then(|_| buf.flush())", "            let text = self.dump_to_string();\n            buf.write_all(text.as_bytes()).and_then(|()| buf.flush())"))
same("cn-load-helper", (CN, "impl CnfIf for CNF {\n", "fn header(line: &str) -> Option<(usize, usize)> {\n    let mut iter = line.split_whitespace();\n    if iter.next() != Some(\"p\") || iter.next() != Some(\"cnf\") {\n        return None;\n    }\n    let v = iter.next()?.parse::<usize>().ok()?;\n    let c = iter.next()?.parse::<usize>().ok()?;\n    Some((v, c))\n}\n\nimpl CnfIf for CNF {\n"),
     (CN, "                    let mut iter = buf.split_whitespace();\n                    if iter.next() == Some(\"p\")\n                        && iter.next() == Some(\"cnf\")\n                        && let Some(v) = iter.next().and_then(|s| s.parse::<usize>().ok())\n                        && let Some(c) = iter.next().and_then(|s| s.parse::<usize>().ok())\n                    {", "                    if let Some((v, c)) = header(&buf) {"))
# ---- types/cnf.rs
same("tc-helper", (TC, "impl TryFrom<&Path> for CNFReader {\n", "fn parse_header(line: &str) -> Option<(usize, usize)> {\n    let mut iter = line.split_whitespace();\n    if iter.next() == Some(\"p\")\n        && iter.next() == Some(\"cnf\")\n        && let Some(v) = iter.next().and_then(|s| s.parse::<usize>().ok())\n        && v <= i32::MAX as usize\n        && let Some(c) = iter.next().and_then(|s| s.parse::<usize>().ok())\n    {\n        Some((v, c))\n    } else {\n        None\n    }\n}\n\nimpl TryFrom<&Path> for CNFReader {\n"),
     (TC, "                    let mut iter = buf.split_whitespace();\n                    if iter.next() == Some(\"p\")\n                        && iter.next() == Some(\"cnf\")\n                        && let Some(v) = iter.next().and_then(|s| s.parse::<usize>().ok())\n                        // literals are read as `i32`\n                        && v <= i32::MAX as usize\n                        && let Some(c) = iter.next().and_then(|s| s.parse::<usize>().ok())\n                    {\n                        nv = v;\n                        nc = c;\n                        found_valid_header = true;\n                        break;\n                    }\n                    continue;", "                    if let Some((v, c)) = parse_header(&buf) {\n                        nv = v;\n                        nc = c;\n                        found_valid_header = true;\n                        break;\n                    }"))
same("tc-option", (TC, "        let mut nv: usize = 0;\n        let mut nc: usize = 0;\n        let mut found_valid_header = false;\n", "        let mut found: Option<(usize, usize)> = None;\n"),
     (TC, "                        nv = v;\n                        nc = c;\n                        found_valid_header = true;\n", "                        found = Some((v, c));\n"),
     (TC, "        if !found_valid_header {\n            return Err(SolverError::IOError);\n        }\n", "        let Some((nv, nc)) = found else {\n            return Err(SolverError::IOError);\n        };\n"))
same("tc-break-value", (TC, "        let mut nv: usize = 0;\n        let mut nc: usize = 0;\n        let mut found_valid_header = false;\n        loop {", "        let (nv, nc) = loop {"),
     (TC, "                Ok(0) => break,", "                Ok(0) => return Err(SolverError::IOError),"),
     (TC, "                        nv = v;\n                        nc = c;\n                        found_valid_header = true;\n                        break;", "                        break (v, c);"),
     (TC, "                    return Err(SolverError::IOError);\n                }\n            }\n        }\n        if !found_valid_header {\n            return Err(SolverError::IOError);\n        }\n", "                    return Err(SolverError::IOError);\n                }\n            }\n        };\n"))
