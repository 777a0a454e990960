"""Tenth batch of bugs: the data structures below the solver."""
from cases import bug

HP = "src/assign/heap.rs"
WC = "src/cdb/watch_cache.rs"
BI = "src/cdb/binary.rs"
SL = "src/assign/select.rs"
LS = "src/cdb/sls.rs"
CU = "src/cdb/unsat_certificate.rs"
UC = "src/cnf/mod.rs"
TC = "src/types/cnf.rs"

# the heap of free variables
bug("a-heap-insert-idx", "P13", (HP, "        self.idxs.swap(vi, vn as usize);\n        self.idxs[0] = n;\n        n as usize", "        if i != n {\n            self.idxs.swap(vi, vn as usize);\n        }\n        self.idxs[0] = n - ((1 << 20) < n) as u32;\n        n as usize"))
bug("a-heap-contains", "P13", (HP, "        self.idxs[v] <= self.idxs[0]", "        self.idxs[v] <= self.idxs[0].max(1)"))
bug("a-heap-rebuild", "P13", (SL, "        for vi in 1..self.var.len() {\n            if var_assign!(self, vi).is_none()", "        for vi in 1..self.var.len().min(1 << 20) {\n            if var_assign!(self, vi).is_none()"))
bug("a-heap-clear-insert", "P13", (SL, "                self.insert_heap(vi);\n            }\n        }\n    }\n}", "                self.insert_heap(vi);\n            } else if self.var[vi].is(FlagVar::PHASE) {\n                break;\n            }\n        }\n    }\n}"))
bug("a-heap-get-root", "P13", (HP, "        self.idxs.swap(vn as usize, vs as usize);\n        self.idxs[0] -= 1;\n        vs as VarId", "        self.idxs[0] -= 1;\n        if 2 < n {\n            self.idxs.swap(vn as usize, vs as usize);\n        }\n        vs as VarId"))

# watch lists
bug("a-watch-update", "P11", (WC, "            if e.0 == cid {\n                e.1 = l;\n                break;", "            if e.0 == cid {\n                if e.1 != !l {\n                    e.1 = l;\n                }\n                break;"))
bug("a-watch-remove-last", "P11", (WC, "            self.swap_remove(i);", "            self.truncate(i);"))
bug("a-watch-append", "P11", (WC, "        self.append(&mut appendant);", "        if self.is_empty() {\n            *self = appendant;\n        } else {\n            self.extend(appendant.drain(1..));\n        }"))
bug("a-watch-iter", "P32", (WC, "        (self.index < self.end_at).then_some({", "        (self.index < self.end_at.min(1 << 16)).then_some({"))
bug("a-watch-insert", "P11", (WC, "        self.push((cid, l));", "        if self.iter().all(|e| e.1 != l) {\n            self.push((cid, l));\n        }"))

# two-literal clauses
bug("a-bin-remove", "P11", (BI, "        self.list[lit1].delete_unstable(|p| p.0 == lit0);\n        Ok(())", "        self.list[l1].delete_unstable(|p| p.0 == lit0);\n        Ok(())"))
bug("a-bin-search", "P11", (BI, "        self.hash.get(&(l0, l1))", "        self.hash.get(&(l0, l1)).or_else(|| self.hash.get(&(!l1, !l0)))"))
bug("a-bin-list", "P11", (BI, "        self.list[lit1].push((lit0, cid));", "        if self.list[lit1].last() != self.list[lit0].last() {\n            self.list[lit1].push((lit0, cid));\n        }"))

# rephasing
bug("a-sls-time", "P20", (LS, "        let mut seed = 721_109;", "        let mut seed = 721_109 + (assignment as *const _ as usize >> 4) % 2;"))

# proof
bug("a-cert-len", "P06", (CU, "        self.queue.push((clause.len() as i32).neg());", "        self.queue.push((clause.len() as i16 as i32).neg());"))
bug("a-cert-full", "P06", (CU, "    pub fn add_clause(&mut self, clause: &[Lit]) {\n        self.queue.push(clause.len() as i32);", "    pub fn add_clause(&mut self, clause: &[Lit]) {\n        if 2 * DUMP_INTERVAL < self.queue.len() {\n            self.queue.clear();\n        }\n        self.queue.push(clause.len() as i32);"))
bug("a-cert-close", "P06", (CU, "        self.dump_to_file();\n        if let Some(ref mut buf) = self.buffer {\n            let _ = buf.write_all(b\"0\\n\");", "        if self.queue.len() < 2 * DUMP_INTERVAL {\n            self.dump_to_file();\n        }\n        if let Some(ref mut buf) = self.buffer {\n            let _ = buf.write_all(b\"0\\n\");"))
bug("a-cert-unsigned", "P06", (CU, "                for _ in 0..(l.unsigned_abs() as usize) {", "                for _ in 0..(l.unsigned_abs() as u16) {"))

# CNF utility
bug("a-util-vars", "P27", (UC, "            max_var = max_var.max(ref_c.iter().map(|v| v.unsigned_abs()).max().unwrap());", "            max_var = max_var.max(ref_c.iter().map(|v| *v as u32).max().unwrap());"))
bug("a-util-take", "P27", (UC, "cnf.add_clause(std::mem::take(&mut vec))", "cnf.add_clause(&vec.drain(..).collect::<std::collections::BTreeSet<_>>().into_iter().collect::<Vec<i32>>())"))
bug("a-util-many", "P27", (UC, "            self.no_check_uniqueness = true;\n            self.cls_map.clear();", "            self.no_check_uniqueness = true;\n            self.cls_map.clear();\n            self.clauses.shrink_to_fit();\n            self.clauses.dedup();"))
bug("a-util-left", "P27", (UC, "        if !found_valid_header || !vec.is_empty() {", "        if !found_valid_header || 1 < vec.len() {"))
bug("a-util-flush", "P27", (UC, "                .and_then(|_| buf.flush())\n", "                .map(|_| drop(buf.flush()))\n"))
bug("a-util-blank", "P27", (UC, "                Ok(_) if buf.starts_with('c') => (),", "                Ok(_) if buf.contains('c') && found_valid_header => (),\n                Ok(_) if buf.starts_with('c') => (),"))

# description of a vector
bug("a-desc-max", "P09", (TC, "                    .filter_map(|l| l.checked_abs())\n                    .max()", "                    .filter_map(|l| l.checked_abs())\n                    .take(1 << 10)\n                    .max()"))
