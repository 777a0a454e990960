from cases import bug, same
P = "src/assign/propagate.rs"
W = "src/cdb/watch_cache.rs"
D = "src/cdb/db.rs"
U = "src/types/mod.rs"
REST = "                cdb.transform_by_restoring_watch_cache(propagating, &mut source, updated_cache);\n                if other_watch_value == Some(false) {\n                    check_in!(cid, Propagate::EmitConflict"
CHAIN = "                        .skip(start as usize)\n                        .chain(c.iter().enumerate().skip(2).take(start as usize - 2))\n"
LOOP = """                    for (k, lk) in c
                        .iter()
                        .enumerate()
""" + CHAIN + """                    {
                        if lit_assign!(self, *lk) != Some(false) {
                            let new_watch = !*lk;
                            cdb.detach_watch_cache(propagating, &mut source);
                            cdb.transform_by_updating_watch(cid, false_watch_pos, k, true);
                            cdb[cid].search_from = (k + 1).min(u16::MAX as usize) as u16;
                            debug_assert_ne!(self.assigned(new_watch), Some(true));
                            check_in!(
                                cid,
                                Propagate::FindNewWatch(self.num_conflict, propagating, new_watch)
                            );
                            continue 'next_clause;
                        }
                    }
"""
CONF = """                if other_watch_value == Some(false) {
                    check_in!(cid, Propagate::EmitConflict(self.num_conflict + 1, cached));
                    conflict_path!(cached, AssignReason::Implication(cid));
                }
"""
BIN = """                match lit_assign!(self, blocker) {
                    Some(true) => (),
                    Some(false) => {
                        check_in!(cid, Propagate::EmitConflict(self.num_conflict + 1, blocker));
                        conflict_path!(blocker, minimized_reason!(propagating));
                    }
                    None => {"""
HEAD = "            self.num_propagation += 1;\n            self.q_head += 1;\n"
# ---- P32
bug("p32-take", "P32", (P, "take(start as usize - 2)", "take((start as usize - 2).saturating_sub(1))"))
bug("p32-nochain", "P32", (P, "                        .chain(c.iter().enumerate().skip(2).take(start as usize - 2))\n", ""))
bug("p32-skip1", "P32", (P, "                        .skip(start as usize)\n", "                        .skip(start as usize + 1)\n"))
bug("p32-enumerate", "P32", (P, LOOP, LOOP.replace("                        .enumerate()\n                        .skip(start as usize)\n                        .chain(c.iter().enumerate().skip(2)", "                        .skip(start as usize)\n                        .enumerate()\n                        .chain(c.iter().enumerate().skip(2)")))
bug("p32-truewatch", "P32", (P, "if lit_assign!(self, *lk) != Some(false) {", "if lit_assign!(self, *lk).is_none() {"))
bug("p32-falsewatch", "P32", (P, "if lit_assign!(self, *lk) != Some(false) {", "if lit_assign!(self, *lk) != Some(true) {"))
bug("p32-nodetach", "P32", (P, "                            cdb.detach_watch_cache(propagating, &mut source);\n", "                            cdb.transform_by_restoring_watch_cache(propagating, &mut source, None);\n"))
bug("p32-wrongpos", "P32", (P, "cdb.transform_by_updating_watch(cid, false_watch_pos, k, true);", "cdb.transform_by_updating_watch(cid, 1 - false_watch_pos, k, true);"))
bug("p32-removed", "P32", (P, "                            cdb.detach_watch_cache(propagating, &mut source);\n                            cdb.transform_by_updating_watch(cid, false_watch_pos, k, true);", "                            cdb.transform_by_updating_watch(cid, false_watch_pos, k, false);\n                            source.detach_entry();"))
bug("p32-noswap", "P32", (P, "                    if false_watch_pos == 0 {\n                        cdb.swap_watch(cid);", "                    if false_watch_pos == 0 && updated_cache.is_none() {\n                        cdb.swap_watch(cid);"))
bug("p32-norestore", "P32", (P, REST, REST.replace("                cdb.transform_by_restoring_watch_cache(propagating, &mut source, updated_cache);\n", "                if updated_cache.is_some() {\n                    cdb.transform_by_restoring_watch_cache(propagating, &mut source, updated_cache);\n                }\n")))
bug("p32-doublerestore", "P32", (P, REST, REST.replace("                if other", "                if updated_cache.is_some() {\n                    source.restore_entry();\n                }\n                if other")))
bug("p32-stalevalue", "P32", (P, "                        other_watch_value = lit_assign!(self, other);\n                        if Some(true) == other_watch_value {\n                            debug_assert!(!self.var[other", "                        if Some(true) == lit_assign!(self, other) {\n                            debug_assert!(!self.var[other"))
bug("p32-cachewrong", "P32", (P, "                    if cached != other {\n                        cached = other;\n                        other_watch_value", "                    if cached != other {\n                        other_watch_value"))
bug("p32-blocker", "P32", (P, "                if Some(true) == other_watch_value {\n                    #[cfg(feature = \"maintain", "                if other_watch_value.is_some() {\n                    #[cfg(feature = \"maintain"))
bug("p32-noconflict", "P32", (P, CONF, CONF.replace("other_watch_value == Some(false)", "other_watch_value == Some(false) && updated_cache.is_none()")))
bug("p32-binskip", "P32", (P, BIN, BIN.replace("Some(true) => ()", "Some(true) => break")))
bug("p32-binreason", "P32", (P, BIN, BIN.replace("conflict_path!(blocker, minimized_reason!(propagating))", "conflict_path!(blocker, minimized_reason!(blocker))")))
bug("p32-binlinks", "P32", (P, "cdb.binary_links(false_lit).iter().copied() {\n                debug", "cdb.binary_links(propagating).iter().copied() {\n                debug"))
bug("p32-qhead", "P32", (P, HEAD, HEAD.replace("q_head += 1", "q_head += 1 + usize::from(dl == 0 && self.trail.len() > self.q_head + 1)")))
bug("p32-early", "P32", (P, "                        cdb[cid].search_from = (k + 1)", "                        cdb[cid].search_from = (k - 1)"))
bug("p32-search0", "P32", (D, "            c.search_from = 2;\n", "            c.search_from = 1;\n"))
bug("p32-level", "P32", (P, """                cdb[cid].used = cdb[cid].used.saturating_add(1);
                self.assign_by_implication(
                    cached,
                    AssignReason::Implication(cid),
                    if cfg!(feature = "chrono_BT") {
                        debug_assert!(self.var[cdb[cid].lit0().vi()].assign.is_none());
                        cdb[cid]
                            .iter()
                            .skip(1)
                            .map(|l| self.var[l.vi()].level)
                            .max()
                            .unwrap_or(self.root_level)
                    } else {
                        dl
                    },""", """                cdb[cid].used = cdb[cid].used.saturating_add(1);
                self.assign_by_implication(
                    cached,
                    AssignReason::BinaryLink(propagating),
                    dl,"""))
bug("p32-sandbox-dead", "P32", (P, "                    cdb.transform_by_restoring_watch_cache(propagating, &mut source, None);\n                    continue;", "                    cdb.detach_watch_cache(propagating, &mut source);\n                    continue;"))
bug("p32-sandbox-sat", "P32", (P, "                if matches!(other_watch_value, Some(true)) {", "                if matches!(other_watch_value, Some(_)) {"))
bug("p32-iter-le", "P32", (W, "(self.index < self.end_at).then_some", "(self.index + 1 < self.end_at).then_some"))
bug("p32-iter-new", "P32", (W, "            end_at: len,", "            end_at: len.saturating_sub(1),"))
bug("p32-restore", "P32", (W, "        self.index += 1;", "        self.index += 2;"))
bug("p32-detach", "P32", (W, "        self.end_at -= 1;", "        self.end_at -= 1;\n        self.index += 1;"))
bug("p32-detachremove", "P32", (D, "        self.watch_cache[l].swap_remove(iter.index);", "        self.watch_cache[l].pop();"))
bug("p32-restoreentry", "P32", (D, "            self.watch_cache[l][iter.index].1 = p;\n        }\n", "            self.watch_cache[!l][iter.index].1 = p;\n        }\n"))
bug("p32-restoreorder", "P32", (D, "        if let Some(p) = op {\n            self.watch_cache[l][iter.index].1 = p;\n        }\n", "        iter.restore_entry();\n        if let Some(p) = op {\n            self.watch_cache[l][iter.index].1 = p;\n        }\n        return;\n"))
bug("p32-linksneg", "P32", (D, "        self.binary_link.connect_with(l)\n", "        self.binary_link.connect_with(!l)\n"))
bug("p32-delete", "P32", (U, "if let Some(i) = self.iter().position(filter) {", "if let Some(i) = self.iter().skip(1).position(filter) {"))
bug("p32-litval", "P32", (P, """            l => match unsafe { $asg.var.get_unchecked(l.vi()).assign } {
                Some(x) if !bool::from(l) => Some(!x),""", """            l => match unsafe { $asg.var.get_unchecked(l.vi()).assign } {
                Some(x) if bool::from(l) => Some(!x),"""))

same("p32-s-find", (P, LOOP, """                    let found = c
                        .iter()
                        .enumerate()
                        .skip(start as usize)
                        .chain(c.iter().enumerate().skip(2).take(start as usize - 2))
                        .find(|(_, lk)| lit_assign!(self, **lk) != Some(false))
                        .map(|(k, _)| k);
                    if let Some(k) = found {
                        cdb.detach_watch_cache(propagating, &mut source);
                        cdb.transform_by_updating_watch(cid, false_watch_pos, k, true);
                        cdb[cid].search_from = (k + 1).min(u16::MAX as usize) as u16;
                        continue 'next_clause;
                    }
"""))
same("p32-s-two", (P, LOOP, """                    let mut found: Option<usize> = None;
                    for (k, lk) in c.iter().enumerate().skip(start as usize) {
                        if lit_assign!(self, *lk) != Some(false) {
                            found = Some(k);
                            break;
                        }
                    }
                    if found.is_none() {
                        for (k, lk) in c.iter().enumerate().take(start as usize).skip(2) {
                            if lit_assign!(self, *lk) != Some(false) {
                                found = Some(k);
                                break;
                            }
                        }
                    }
                    if let Some(k) = found {
                        cdb.transform_by_updating_watch(cid, false_watch_pos, k, true);
                        cdb.detach_watch_cache(propagating, &mut source);
                        cdb[cid].search_from = (k + 1).min(u16::MAX as usize) as u16;
                        continue 'next_clause;
                    }
"""))
same("p32-s-helper", (P, LOOP, """                    if let Some(k) = self.unfalsified(c, start as usize) {
                        cdb.detach_watch_cache(propagating, &mut source);
                        cdb.transform_by_updating_watch(cid, false_watch_pos, k, true);
                        cdb[cid].search_from = (k + 1).min(u16::MAX as usize) as u16;
                        continue 'next_clause;
                    }
"""), (P, "impl PropagateIF for AssignStack {\n", """impl AssignStack {
    fn unfalsified(&self, c: &Clause, start: usize) -> Option<usize> {
        for (k, lk) in c
            .iter()
            .enumerate()
            .skip(start)
            .chain(c.iter().enumerate().skip(2).take(start - 2))
        {
            if lit_assign!(self, *lk) != Some(false) {
                return Some(k);
            }
        }
        None
    }
}

impl PropagateIF for AssignStack {
"""))
same("p32-s-assigned", (P, "                let mut other_watch_value = lit_assign!(self, cached);\n                let mut updated_cache: Option<Lit> = None;\n                if Some(true)", "                let mut other_watch_value = self.assigned(cached);\n                let mut updated_cache: Option<Lit> = None;\n                if Some(true)"))
same("p32-s-match", (P, CONF, """                match other_watch_value {
                    Some(false) => {
                        conflict_path!(cached, AssignReason::Implication(cid));
                    }
                    _ => (),
                }
"""))
same("p32-s-while", (P, "        while let Some(p) = self.trail.get(self.q_head) {\n            self.num_propagation += 1;\n            self.q_head += 1;\n", "        loop {\n            let Some(p) = self.trail.get(self.q_head) else {\n                break;\n            };\n            self.q_head += 1;\n            self.num_propagation += 1;\n"))
same("p32-s-index", (P, "        while let Some(p) = self.trail.get(self.q_head) {\n            self.num_propagation += 1;\n            self.q_head += 1;\n", "        while self.q_head < self.trail.len() {\n            let p = &self.trail[self.q_head];\n            self.num_propagation += 1;\n            self.q_head += 1;\n"))
same("p32-s-bin", (P, BIN, BIN.replace("match lit_assign!(self, blocker) {", "let value = self.assigned(blocker);\n                match value {")))
same("p32-s-bincont", (P, """                match lit_assign!(self, blocker) {
                    Some(true) => (),
                    Some(false) => {
                        check_in""", """                let value = lit_assign!(self, blocker);
                if value == Some(true) {
                    continue;
                }
                match value {
                    Some(true) => (),
                    Some(false) => {
                        check_in"""))
same("p32-s-iter", (W, """        (self.index < self.end_at).then_some({
            // assert!(0 < self.checksum);
            // self.checksum -= 1;
            self.index
        })""", """        if self.index >= self.end_at {
            return None;
        }
        Some(self.index)"""))
same("p32-s-detach", (D, "        self.watch_cache[l].swap_remove(iter.index);\n        iter.detach_entry();", "        let at = iter.index;\n        iter.detach_entry();\n        let list = &mut self.watch_cache[l];\n        list.swap_remove(at);"))
same("p32-s-order", (P, REST, "                if other_watch_value == Some(false) {\n                    cdb.transform_by_restoring_watch_cache(propagating, &mut source, updated_cache);\n                    conflict_path!(cached, AssignReason::Implication(cid));\n                }\n" + REST), )
same("p32-s-cand", (P, "                    let (false_watch_pos, other) = if false_lit == lit1 {\n                        (1, lit0)\n                    } else {\n                        (0, lit1)\n                    };\n", "                    let false_watch_pos = usize::from(lit1 == false_lit);\n                    let other = if false_watch_pos == 1 { lit0 } else { lit1 };\n"))
same("p32-s-delete", (U, """        if let Some(i) = self.iter().position(filter) {
            self.swap_remove(i);
        }""", """        let Some(i) = self.iter().position(filter) else {
            return;
        };
        self.swap_remove(i);"""))
same("p32-s-whileidx", (P, LOOP, """                    let n = c.len();
                    let mut step = 0;
                    while step + 2 < n {
                        let at = start as usize + step;
                        let k = if at < n { at } else { at + 2 - n };
                        let lk = c.lits[k];
                        if lit_assign!(self, lk) != Some(false) {
                            cdb.detach_watch_cache(propagating, &mut source);
                            cdb.transform_by_updating_watch(cid, false_watch_pos, k, true);
                            cdb[cid].search_from = (k + 1).min(u16::MAX as usize) as u16;
                            continue 'next_clause;
                        }
                        step += 1;
                    }
"""))
