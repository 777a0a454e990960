"""Behaviour-preserving edits inside functions whose text also occurs elsewhere (trial propagation and others)."""
from cases import same, bug

PR = "src/assign/propagate.rs"
DB = "src/cdb/db.rs"
UC = "src/cdb/unsat_certificate.rs"
BU = "src/solver/build.rs"
SE = "src/solver/search.rs"
TY = "src/types/mod.rs"
WC = "src/cdb/watch_cache.rs"
BI = "src/cdb/binary.rs"
SG = "src/solver/stage.rs"


def within(file, start, *edits):
    """edits of the text after the last place where `start` occurs, as one edit"""
    s = open("/repo/" + file).read()
    i = s.rindex(start)
    end = max(s.index(o, i) + len(o) for o, _ in edits)
    t = s[i:end]
    u = t
    for o, n in edits:
        assert o in u, o
        u = u.replace(o, n, 1)
    return (file, t, u)


PS = "fn propagate_sandbox("
same("ps-head-helper", within(PR, PS, ("            let propagating = Lit::from(usize::from(*p));\n            let false_lit = !*p;\n", "            let propagating = *p;\n            let false_lit = !propagating;\n")))
same("ps-iflet-bin", within(PR, PS, ("""                match lit_assign!(self, blocker) {
                    Some(true) => (),
                    Some(false) => conflict_path!(blocker, AssignReason::BinaryLink(propagating)),
                    None => {""", """                let val = lit_assign!(self, blocker);
                if val == Some(true) {
                    continue;
                }
                if val == Some(false) {
                    return Err((blocker, AssignReason::BinaryLink(propagating)));
                }
                {
                    {""")))
same("ps-dead-first", within(PR, PS, ("""                if cdb[cid].is_dead() {
                    cdb.transform_by_restoring_watch_cache(propagating, &mut source, None);
                    continue;
                }
""", """                let gone = cdb[cid].is_dead();
                if gone {
                    cdb.transform_by_restoring_watch_cache(propagating, &mut source, None);
                    continue 'next_clause;
                }
""")))
same("ps-value-let", within(PR, PS, ("if matches!(other_watch_value, Some(true)) {", "let satisfied = other_watch_value.unwrap_or(false);\n                if satisfied {")))
same("ps-pos-match", within(PR, PS, ("""                    let (false_watch_pos, other) = if false_lit == lit1 {
                        (1, lit0)
                    } else {
                        (0, lit1)
                    };
""", """                    let false_watch_pos = usize::from(false_lit == lit1);
                    let other = if false_watch_pos == 1 { lit0 } else { lit1 };
""")))
same("ps-cached-order", within(PR, PS, ("""                        cached = other;
                        other_watch_value = lit_assign!(self, other);
                        if Some(true) == other_watch_value {""", """                        other_watch_value = lit_assign!(self, other);
                        cached = other;
                        if let Some(true) = other_watch_value {""")))
same("ps-search-chain", within(PR, PS, ("""                    let start = c.search_from;
                    for (k, lk) in c
                        .iter()
                        .enumerate()
                        .skip(start as usize)
                        .chain(c.iter().enumerate().skip(2).take(start as usize - 2))
                    {
                        if lit_assign!(self, *lk) != Some(false) {""", """                    let start = c.search_from as usize;
                    let later = c.iter().enumerate().skip(start);
                    let earlier = c.iter().enumerate().take(start).skip(2);
                    for (k, lk) in later.chain(earlier) {
                        if lit_assign!(self, *lk) != Some(false) {""")))
same("ps-notfalse", within(PR, PS, ("                        if lit_assign!(self, *lk) != Some(false) {", "                        if !matches!(lit_assign!(self, *lk), Some(false)) {")))
same("ps-falsified-continue", within(PR, PS, ("""                        if lit_assign!(self, *lk) != Some(false) {
                            let new_watch = !*lk;""", """                        {
                            if self.assigned(*lk) == Some(false) {
                                continue;
                            }
                            let new_watch = !*lk;""")))
same("ps-conflict-first", within(PR, PS, ("""                cdb.transform_by_restoring_watch_cache(propagating, &mut source, updated_cache);
                if other_watch_value == Some(false) {
                    check_in!(
                        cid,
                        Propagate::SandboxEmitConflict(self.num_conflict, propagating)
                    );
                    return Err((cached, AssignReason::Implication(cid)));
                }
""", """                let conflicting = matches!(other_watch_value, Some(false));
                cdb.transform_by_restoring_watch_cache(propagating, &mut source, updated_cache);
                if conflicting {
                    return Err((cached, AssignReason::Implication(cid)));
                }
""")))
same("ps-reason-let", within(PR, PS, ("""                self.assign_by_implication(
                    cached,
                    AssignReason::Implication(cid),
                    if cfg""", """                let reason = AssignReason::Implication(cid);
                self.assign_by_implication(
                    cached,
                    reason,
                    if cfg""")))
same("ps-swap-nested", within(PR, PS, ("""                    if false_watch_pos == 0 {
                        cdb.swap_watch(cid);
                    }
""", """                    if cdb[cid].lit0() == false_lit {
                        cdb.swap_watch(cid);
                    }
""")))
same("ps-loop-while", within(PR, PS, ("        while let Some(p) = self.trail.get(self.q_head) {\n", "        while self.q_head < self.trail.len() {\n            let p = &self.trail[self.q_head];\n")))
same("ps-clause-loop", within(PR, PS, ("""            'next_clause: while let Some((cid, mut cached)) = source
                .next()
                .map(|index| cdb.fetch_watch_cache_entry(propagating, index))
            {
""", """            'next_clause: while let Some(index) = source.next() {
                let (cid, mut cached) = cdb.fetch_watch_cache_entry(propagating, index);
""")))
same("ps-detach-late", within(PR, PS, ("""                            cdb.detach_watch_cache(propagating, &mut source);
                            cdb.transform_by_updating_watch(cid, false_watch_pos, k, true);
                            cdb[cid].search_from = (k + 1).min(u16::MAX as usize) as u16;
""", """                            cdb[cid].search_from = (k + 1).min(u16::MAX as usize) as u16;
                            cdb.detach_watch_cache(propagating, &mut source);
                            cdb.transform_by_updating_watch(cid, false_watch_pos, k, true);
""")))
# the same for the main propagation
PP = "fn propagate(&mut self, cdb: &mut impl ClauseDBIF) -> PropagationResult {"
same("pr-swap-lit", within(PR, PP, ("                    if false_watch_pos == 0 {", "                    if cdb[cid].lit0() == false_lit {")))
same("pr-loop-while", within(PR, PP, ("        while let Some(p) = self.trail.get(self.q_head) {\n", "        while self.q_head < self.trail.len() {\n            let p = &self.trail[self.q_head];\n")))
same("pr-value-unwrap", within(PR, PP, ("if matches!(other_watch_value, Some(true)) {", "if other_watch_value.is_some_and(|b| b) {")))
same("pr-value-mapor", within(PR, PP, ("if matches!(other_watch_value, Some(true)) {", "if other_watch_value.map_or(false, |b| b) {")))
same("pr-value-default", within(PR, PP, ("if matches!(other_watch_value, Some(true)) {", "if other_watch_value.unwrap_or_default() {")))
same("pr-value-noneor", within(PR, PP, ("                        if lit_assign!(self, *lk) != Some(false) {", "                        if self.assigned(*lk).is_none_or(|b| b) {")))
# restoring an entry
same("restore-map", within(DB, "fn transform_by_restoring_watch_cache(", ("        if let Some(p) = op {\n            self.watch_cache[l][iter.index].1 = p;\n        }\n", "        let entry = &mut self.watch_cache[l][iter.index];\n        entry.1 = op.unwrap_or(entry.1);\n")))
same("restore-match", within(DB, "fn transform_by_restoring_watch_cache(", ("        if let Some(p) = op {\n            self.watch_cache[l][iter.index].1 = p;\n        }\n", "        match op {\n            Some(p) => {\n                let list = &mut self.watch_cache[l];\n                list[iter.index].1 = p;\n            }\n            None => (),\n        }\n")))
# removal
same("remove-destructure", within(DB, "fn remove_clause(&mut self", ("        let c = &mut self.clause[NonZeroU32::get(cid.ordinal) as usize];\n", "        let index = usize::from(cid);\n        let c = &mut self.clause[index];\n")))
same("remove-free-first", within(DB, "fn remove_clause(&mut self", ("        let c = &mut self.clause", "        self.freelist.push(cid);\n        let c = &mut self.clause"), ("            cid,\n            c,\n        );\n        self.freelist.push(cid);\n", "            cid,\n            c,\n        );\n")))
same("removefn-match", within(DB, "fn remove_clause_fn(", ("    if c.len() == 2 {\n        binary_link\n            .remove(l0, l1)\n            .expect(\"Eror (remove_clause_fn#01)\");\n        *num_bi_clause -= 1;\n    } else {\n", "    let binary = c.lits.len() == 2;\n    if binary {\n        *num_bi_clause -= 1;\n        binary_link\n            .remove(l0, l1)\n            .expect(\"Eror (remove_clause_fn#01)\");\n    } else {\n")))
# proof file
same("cert-match", within(UC, "fn instantiate(", ("            if let Ok(out) = File::create(&cert) {\n                return CertificationStore {\n                    queue: Vec::with_capacity(DUMP_INTERVAL + 1024),\n                    buffer: Some(BufWriter::new(out)),\n                    target: Some(cert),\n                };\n            }\n", "            match File::create(&cert) {\n                Ok(out) => {\n                    let mut store = CertificationStore::default();\n                    store.queue.reserve(DUMP_INTERVAL + 1024);\n                    store.buffer = Some(BufWriter::new(out));\n                    store.target = Some(cert);\n                    return store;\n                }\n                Err(_) => return CertificationStore::default(),\n            }\n")))
same("cert-invert", within(UC, "fn instantiate(", ("        if config.use_certification {\n            let cert", "        if !config.use_certification {\n            return CertificationStore::default();\n        }\n        {\n            let cert")))
same("cert-path", within(UC, "fn instantiate(", ("            let cert: PathBuf = config.io_odir.join(&config.io_pfile);\n", "            let mut cert: PathBuf = config.io_odir.clone();\n            cert.push(&config.io_pfile);\n")))
same("cert-close-take", within(UC, "pub fn close(", ("        if let Some(ref mut buf) = self.buffer {\n            let _ = buf.write_all(b\"0\\n\");\n            self.buffer = None;\n            self.target = None;\n        }\n", "        if let Some(mut buf) = self.buffer.take() {\n            let _ = buf.write_all(b\"0\\n\");\n            self.target = None;\n        }\n")))
same("cert-add-extend", within(UC, "pub fn add_clause(", ("        for l in clause.iter() {\n            self.queue.push(i32::from(*l));\n        }\n", "        self.queue.extend(clause.iter().map(|l| i32::from(*l)));\n")))
same("cert-flush-helper", within(UC, "pub fn add_clause(", ("        if DUMP_INTERVAL < self.queue.len() {\n            self.dump_to_file();\n        }\n    }\n    pub fn delete_clause(&mut self, clause: &[Lit]) {\n        self.queue.push((clause.len() as i32).neg());\n        for l in clause.iter() {\n            self.queue.push(i32::from(*l));\n        }\n        if DUMP_INTERVAL < self.queue.len() {\n            self.dump_to_file();\n        }\n    }\n", "        self.flush_if_full();\n    }\n    fn flush_if_full(&mut self) {\n        if DUMP_INTERVAL < self.queue.len() {\n            self.dump_to_file();\n        }\n    }\n    pub fn delete_clause(&mut self, clause: &[Lit]) {\n        self.push_line(-(clause.len() as i32), clause);\n    }\n    fn push_line(&mut self, head: i32, clause: &[Lit]) {\n        self.queue.push(head);\n        for l in clause.iter() {\n            self.queue.push(i32::from(*l));\n        }\n        self.flush_if_full();\n    }\n")))
# building
same("build-match", within(BU, "fn try_from((config, vec)", ("        match Solver::instantiate(&config, &cnf).inject_from_vec(vec) {\n            Err(SolverError::RootLevelConflict(_)) => Err(Ok(Certificate::UNSAT)),\n            Err(e) => Err(Err(e)),\n            Ok(s) => Ok(s),\n        }\n", "        Solver::instantiate(&config, &cnf)\n            .inject_from_vec(vec)\n            .map_err(|e| match e {\n                SolverError::RootLevelConflict(_) => Ok(Certificate::UNSAT),\n                e => Err(e),\n            })\n")))
same("build-assign-match", within(BU, "fn add_assignment(", ("        match self.asg.assigned(lit) {\n            None => self.asg.assign_at_root_level(lit).map(|_| self),\n            Some(true) => Ok(self),\n", "        match self.asg.assigned(lit) {\n            None => {\n                self.asg.assign_at_root_level(lit)?;\n                Ok(self)\n            }\n            Some(true) => Ok(self),\n")))
# lists
same("delete-loop", within(TY, "impl<T> Delete<T> for Vec<T> {", ("        if let Some(i) = self.iter().position(filter) {\n            self.swap_remove(i);\n        }\n", "        let found = self.iter().position(filter);\n        match found {\n            Some(i) => {\n                self.swap_remove(i);\n            }\n            None => (),\n        }\n")))
same("delete-remove", within(TY, "impl<T> Delete<T> for Vec<T> {", ("            self.swap_remove(i);\n", "            let last = self.len() - 1;\n            self.swap(i, last);\n            self.pop();\n")))
same("delete-order", within(TY, "impl<T> Delete<T> for Vec<T> {", ("            self.swap_remove(i);\n", "            self.remove(i);\n")))
same("bin-add-entry", within(BI, "fn add(&mut self, lit0: Lit, lit1: Lit, cid: ClauseId) {", ("        let l0 = lit0.min(lit1);\n        let l1 = lit0.max(lit1);\n        self.hash.insert((l0, l1), cid);\n        self.list[lit0].push((lit1, cid));\n        self.list[lit1].push((lit0, cid));\n", "        let key = if lit0 < lit1 { (lit0, lit1) } else { (lit1, lit0) };\n        for (a, b) in [(lit0, lit1), (lit1, lit0)] {\n            self.list[a].push((b, cid));\n        }\n        self.hash.insert(key, cid);\n")))
same("bin-key-helper", (BI, "impl BinaryLinkIF for BinaryLinkDB {", "#[inline]\nfn pair(a: Lit, b: Lit) -> (Lit, Lit) {\n    (a.min(b), a.max(b))\n}\n\nimpl BinaryLinkIF for BinaryLinkDB {"), within(BI, "fn search(&self, lit0: Lit, lit1: Lit) -> Option<&ClauseId> {", ("        let l0 = lit0.min(lit1);\n        let l1 = lit0.max(lit1);\n        self.hash.get(&(l0, l1))\n", "        self.hash.get(&pair(lit0, lit1))\n")))
# root propagation, decisions
same("root-loop-do", within(PR, "fn propagate_at_root_level(", ("        let mut num_propagated = 0;\n        while num_propagated < self.trail.len() {\n            num_propagated = self.trail.len();\n", "        let mut num_propagated = 0;\n        loop {\n            if num_propagated >= self.trail.len() {\n                break;\n            }\n            num_propagated = self.trail.len();\n")))
same("root-match-group", within(PR, "fn propagate_at_root_level(", ("                    RefClause::Clause(_) => (),\n                    RefClause::Dead => (), // was a satisfied clause\n                    RefClause::EmptyClause => return Err(SolverError::EmptyClause),\n                    RefClause::RegisteredClause(_) => (),\n", "                    RefClause::Clause(_) | RefClause::Dead | RefClause::RegisteredClause(_) => (),\n                    RefClause::EmptyClause => return Err(SolverError::EmptyClause),\n")))
same("root-clear-split", within(PR, "fn clear_asserted_literals(&mut self", ("        self.num_asserted_vars += self.trail.len();\n        self.trail.clear();\n        self.q_head = 0;\n", "        let wiped = self.trail.len();\n        self.q_head = 0;\n        self.trail.clear();\n        self.num_asserted_vars += wiped;\n")))
same("root-clear-loop", within(PR, "fn clear_asserted_literals(&mut self", ("        loop {\n            if self.remains() {\n                self.propagate_sandbox(cdb)\n                    .map_err(SolverError::RootLevelConflict)?;\n            }\n            self.propagate_at_root_level(cdb)?;\n            if self.remains() {\n                self.propagate_sandbox(cdb)\n                    .map_err(SolverError::RootLevelConflict)?;\n            } else {\n                break;\n            }\n        }\n", "        loop {\n            if self.remains() {\n                if let Err(cc) = self.propagate_sandbox(cdb) {\n                    return Err(SolverError::RootLevelConflict(cc));\n                }\n            }\n            self.propagate_at_root_level(cdb)?;\n            if !self.remains() {\n                break;\n            }\n        }\n")))
# stages
same("stage-ge", (SG, "        self.end_of_stage == now", "        self.end_of_stage <= now"))
same("stage-span", (SG, "        let span = self.current_span();\n        self.end_of_stage = now + span;\n        new_cycle", "        self.end_of_stage = now + self.cycle * self.unit_size;\n        new_cycle"))
# bugs of stage ends: the limits are tested there
bug("p16-init-end", "P16", (SG, "        self.end_of_stage = unit_size;\n        self.next_is_new_segment = true;\n    }\n    pub fn reset", "        self.next_is_new_segment = true;\n    }\n    pub fn reset"))
bug("p16-jump", "P16", (SE, "        if 1 < handle_conflict(asg, cdb, state, &cc)? {\n            num_learnt += 1;\n        }", "        num_learnt += handle_conflict(asg, cdb, state, &cc)?.min(8) as usize;"))
bug("p16-stage-mod", "P16", (SE, "            num_learnt += 1;\n        }", "            num_learnt += 1;\n            if previous_stage.is_none() && num_learnt % 1000 == 0 {\n                num_learnt += 2;\n            }\n        }"))
bug("p16-uncounted", "P16", (SE, "        if 1 < handle_conflict(asg, cdb, state, &cc)? {\n            num_learnt += 1;", "        if 1 < handle_conflict(asg, cdb, state, &cc)? && asg.decision_level() < 4096 {\n            num_learnt += 1;"))
bug("p16-end-scale", "P16", (SG, "        self.end_of_stage = now + span;", "        self.end_of_stage = span * self.scale;"))
bug("p16-prepare-cond", "P16", (SE, "            let next_stage: Option<bool> =\n                state.stm.prepare_new_stage(/* num_learnt */ stage_counter);", "            let next_stage: Option<bool> = if asg.remains() {\n                previous_stage\n            } else {\n                state.stm.prepare_new_stage(/* num_learnt */ stage_counter)\n            };"))
same("stage-counter-bool", (SE, "        if 1 < handle_conflict(asg, cdb, state, &cc)? {\n            num_learnt += 1;\n        }", "        let rank = handle_conflict(asg, cdb, state, &cc)?;\n        num_learnt += usize::from(1 < rank);"))
same("stage-counter-match", (SE, "        if 1 < handle_conflict(asg, cdb, state, &cc)? {\n            num_learnt += 1;\n        }", "        match handle_conflict(asg, cdb, state, &cc)? {\n            0 | 1 => (),\n            _ => num_learnt += 1,\n        }"))
same("stage-counter-direct", (SE, "        let stage_counter = num_learnt; // - state.num_chrono_bt;\n        if state.stm.stage_ended(/* num_learnt */ stage_counter) {", "        let stage_counter: usize = num_learnt;\n        let ended = state.stm.stage_ended(num_learnt);\n        if ended {"))
same("stage-end-plus", (SG, "        self.end_of_stage = now + span;", "        self.end_of_stage += span;"))
same("stage-end-swap", (SG, "        let span = self.current_span();\n        self.end_of_stage = now + span;\n        new_cycle.then_some(new_segment)", "        self.end_of_stage = self.current_span() + now;\n        if new_cycle { Some(new_segment) } else { None }"))
