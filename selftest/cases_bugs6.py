"""Sixth batch of bugs: occurrence lists, heaps, flags, lists and small primitives the larger steps rest on."""
from cases import bug, same
EL = "src/processor/eliminate.rs"
SI = "src/processor/simplify.rs"
SB = "src/processor/subsume.rs"
PH = "src/processor/heap.rs"
AH = "src/assign/heap.rs"
TV = "src/types/var.rs"
TC = "src/types/clause.rs"
WC = "src/cdb/watch_cache.rs"
BI = "src/cdb/binary.rs"
DB = "src/cdb/db.rs"
TS = "src/assign/trail_saving.rs"
IX = "src/types/idx.rs"
VV = "src/cdb/vivify.rs"
# -- occurrence lists
bug("p08-prep-learnt", "P08", (SI, "            if c.is_dead() || c.is(FlagClause::OCCUR_LINKED) {", "            if c.is_dead() || c.is(FlagClause::OCCUR_LINKED | FlagClause::LEARNT) || c.is(FlagClause::LEARNT) && 2 < c.len() {"))
bug("p08-occ-noabort", "P08", (SI, "                w.aborted = true;\n                continue;", "                w.aborted = w.aborted || nl < pl;\n                continue;"))
bug("p08-occ-abort-back", "P08", (SI, "        if w.aborted {\n            return;\n        }\n        if bool::from(l) {", "        if w.aborted {\n            w.aborted = w.pos_occurs.contains(&cid) || w.neg_occurs.contains(&cid);\n            return;\n        }\n        if bool::from(l) {"))
bug("p08-elim-abort", "P08", (EL, "    if asg.assign(vi).is_some() || w.aborted {", "    if asg.assign(vi).is_some() || w.aborted && w.pos_occurs.is_empty() {"))
bug("p08-merge-noocc", "P08", (EL, "                            elim.add_cid_occur(asg, ci, &mut cdb[ci], true);", "                            if cdb[ci].len() <= 3 * COMBINATION_LIMIT as usize {\n                                elim.add_cid_occur(asg, ci, &mut cdb[ci], true);\n                            }"))
bug("p08-occ-queue", "P08", (SI, "        if self.mode != EliminatorMode::Running || c.is(FlagClause::OCCUR_LINKED) {", "        if self.mode != EliminatorMode::Running || c.is(FlagClause::OCCUR_LINKED) || c.is(FlagClause::ENQUEUED) {"))
bug("p08-stop-flag", "P08", (SI, "            for c in &mut cdb.iter_mut().skip(1) {\n                c.turn_off(FlagClause::OCCUR_LINKED);", "            for c in &mut cdb.iter_mut().skip(1).filter(|c| !c.is(FlagClause::ENQUEUED) && 2 < c.len()) {\n                c.turn_off(FlagClause::OCCUR_LINKED);"))
bug("p08-retain-len", "P08", (EL, "        .retain(|&c| cdb[c].contains(Lit::from((vi, true))));", "        .retain(|&c| cdb[c].contains(Lit::from((vi, true))) && cdb[c].len() < 1024);"))
bug("p08-clone-part", "P08", (EL, "    let neg = w.neg_occurs.clone();", "    let neg = w.neg_occurs.iter().copied().take(elim.eliminate_occurrence_limit).collect::<Vec<_>>();"))
# -- flags
bug("p28-flag-toggle", "P28", (TV, "        self.flags.remove(flag);", "        self.flags.toggle(flag);"))
bug("p13-flag-on", "P13", (TV, "        self.flags.insert(flag);", "        self.flags = flag;"))
bug("p31-flag-clear", "P08", (TC, "        self.flags.remove(flag);", "        self.flags = FlagClause::empty();"))
bug("p08-flag-is", "P08", (TC, "        self.flags.contains(flag)", "        self.flags.bits() == flag.bits()"))
bug("p26-lifted", "P26", (IX, "0 != 0x8000_0000 & NonZeroU32::get(self.ordinal)", "0x8000_0002 < NonZeroU32::get(self.ordinal)"))
# -- heaps
bug("p13-heap-idx", "P13", (AH, "                    self.var_order.heap[q as usize] = vp;\n                    debug_assert!(vq != 0, \"Invalid index in percolate_up\");\n                    self.var_order.idxs[vp as usize] = q;\n                    q = p;", "                    self.var_order.heap[q as usize] = vp;\n                    debug_assert!(vq != 0, \"Invalid index in percolate_up\");\n                    if 1 < p {\n                        self.var_order.idxs[vp as usize] = q;\n                    }\n                    q = p;"))
bug("p13-heap-lost", "P13", (AH, "                    self.var_order.heap[i as usize] = vc;\n                    self.var_order.idxs[vc as usize] = i;\n                    i = target;", "                    self.var_order.heap[i as usize] = vc;\n                    self.var_order.idxs[vc as usize] = i;\n                    if ac == vc as f64 {\n                        return;\n                    }\n                    i = target;"))
bug("p13-heap-insert", "P13", (AH, "        self.idxs.swap(vi, vn as usize);\n        self.idxs[0] = n;", "        self.idxs.swap(vi, vn as usize);\n        self.idxs[0] = n.max(i);"))
bug("p13-heap-remove", "P13", (AH, "        self.heap.swap(n as usize, i as usize);\n        self.idxs.swap(vn as usize, vi);\n        self.idxs[0] -= 1;", "        self.heap.swap(n as usize, i as usize);\n        self.idxs.swap(vn as usize, i as usize);\n        self.idxs[0] -= 1;"))
bug("p13-heap-root", "P13", (AH, "        self.heap.swap(n as usize, s);\n        self.idxs.swap(vn as usize, vs as usize);\n        self.idxs[0] -= 1;\n        vs as VarId", "        self.heap.swap(n as usize, s);\n        self.idxs.swap(vn as usize, vs as usize);\n        self.idxs[0] = self.idxs[0].saturating_sub(1 + (n / 0x10_0000));\n        vs as VarId"))
bug("p13-heap-contains", "P13", (AH, "        self.idxs[v] <= self.idxs[0]", "        self.idxs[v] <= self.idxs[0].max(1)"))
bug("p13-heap-root-clear", "P13", (AH, "        #[cfg(feature = \"trail_saving\")]\n        if self.var_order.is_empty() {\n            self.clear_saved_trail();\n        }\n        let vs", "        let vs"))
# -- lists
bug("p11-rm-all", "P11", (WC, "        if let Some(i) = self.iter().position(|e| e.0 == *cid) {", "        if let Some(i) = self.iter().position(|e| e.0 <= *cid) {"))
bug("p11-update-first", "P11", (WC, "            if e.0 == cid {\n                e.1 = l;\n                break;", "            if e.0 == cid || e.1 == l {\n                e.1 = l;\n                break;"))
bug("p11-restore-two", "P32", (WC, "        self.index += 1;", "        self.index += 1 + (self.end_at >> 20);"))
bug("p32-detach", "P32", (WC, "        self.end_at -= 1;", "        self.end_at -= 1;\n        if self.end_at == self.index + 1 {\n            self.end_at -= 1;\n        }"))
bug("p11-bin-search", "P11", (BI, "        let l0 = lit0.min(lit1);\n        let l1 = lit0.max(lit1);\n        self.hash.get(&(l0, l1))", "        let l0 = lit0.min(lit1);\n        let l1 = lit0.max(lit1);\n        self.hash.get(&(l0, l1)).or_else(|| self.hash.get(&(!l1, !l0)))"))
bug("p11-bin-list", "P11", (BI, "        self.list[lit1].delete_unstable(|p| p.0 == lit0);", "        self.list[lit1].delete_unstable(|p| p.0.vi() == lit0.vi());"))
bug("p11-delete-unstable", "P11", ("src/types/mod.rs", "            self.swap_remove(i);", "            self.truncate(self.len() - usize::from(i + 1 == self.len()));"))
# -- saved trail
bug("p13-insert-less", "P13", (TS, "        for j in 0..self.trail_saved.len() {", "        for j in 1..self.trail_saved.len() {"))
# -- vivification
bug("p33-viv-prev", "P33", (VV, "                                        seen[0] = num_check;\n                                        vec = asg.analyze_sandbox(\n                                            self, &decisions, cnfl_lits, &mut seen,\n                                        );", "                                        seen[0] = num_check;\n                                        vec = asg.analyze_sandbox(\n                                            self, &decisions[decisions.len() / 16..], cnfl_lits, &mut seen,\n                                        );"))
bug("p33-viv-learnt-prefix", "P33", (VV, "                                    self.new_clause(asg, &mut vec, is_learnt);\n                                    self.remove_clause(cid);", "                                    if 8 < vec.len() {\n                                        vec.retain(|l| clits[..8].contains(l) || asg.assigned(*l).is_none());\n                                        vec.truncate(64);\n                                    }\n                                    self.new_clause(asg, &mut vec, is_learnt);\n                                    self.remove_clause(cid);"))
