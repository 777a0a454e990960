"""Refactorings of the clause database, the proof, the simplifiers and the main loop; every check must stay quiet."""
from cases import bug, same
DB = "src/cdb/db.rs"
CE = "src/cdb/unsat_certificate.rs"
VI = "src/cdb/vivify.rs"
EL = "src/processor/eliminate.rs"
SU = "src/processor/subsume.rs"
SI = "src/processor/simplify.rs"
SE = "src/solver/search.rs"
ST = "src/assign/stack.rs"

# ---- clause database
same("db-alloc", (DB, """        self.certification_store.add_clause(vec);
        let cid;
        if let Some(cid_used) = self.freelist.pop() {
            cid = cid_used;
            let c = &mut self[cid];
            // if !c""", """        self.certification_store.add_clause(vec);
        let cid = match self.freelist.pop() {
            Some(reused) => reused,
            None => {
                let fresh = ClauseId::from(self.clause.len());
                self.clause.push(Clause::default());
                fresh
            }
        };
        {
            let c = &mut self[cid];
            // if !c"""), (DB, """            debug_assert!(c.lits.is_empty()); // c.lits.clear();
            std::mem::swap(&mut c.lits, vec);
            c.search_from = 2;
        } else {
            cid = ClauseId::from(self.clause.len());
            let mut c = Clause {
                flags: FlagClause::empty(),
                ..Clause::default()
            };
            std::mem::swap(&mut c.lits, vec);
            self.clause.push(c);
        };
""", """            debug_assert!(c.lits.is_empty()); // c.lits.clear();
            std::mem::swap(&mut c.lits, vec);
            c.search_from = 2;
        };
"""))
same("db-link-helper", (DB, """        if len2 {
            *num_bi_clause += 1;
            binary_link.add(l0, l1, cid);
        } else {
            watch_cache[!l0].insert_watch(cid, l1);
            watch_cache[!l1].insert_watch(cid, l0);
        }
        RefClause::Clause(cid)
    }
    fn new_clause_sandbox""", """        if len2 {
            *num_bi_clause += 1;
        }
        link_clause(binary_link, watch_cache, cid, l0, l1, len2);
        RefClause::Clause(cid)
    }
    fn new_clause_sandbox"""), (DB, "#[inline]\n#[allow(clippy::too_many_arguments)]\nfn remove_clause_fn(", """fn link_clause(
    links: &mut BinaryLinkDB,
    watches: &mut [WatchCache],
    cid: ClauseId,
    l0: Lit,
    l1: Lit,
    binary: bool,
) {
    if binary {
        links.add(l0, l1, cid);
        return;
    }
    watches[usize::from(!l0)].insert_watch(cid, l1);
    watches[usize::from(!l1)].insert_watch(cid, l0);
}

#[inline]
#[allow(clippy::too_many_arguments)]
fn remove_clause_fn("""))
same("db-watch-loop", (DB, """        } else {
            watch_cache[!l0].insert_watch(cid, l1);
            watch_cache[!l1].insert_watch(cid, l0);
        }
        RefClause::Clause(cid)
    }
    fn new_clause_sandbox""", """        } else {
            for (watched, other) in [(l0, l1), (l1, l0)] {
                watch_cache[!watched].insert_watch(cid, other);
            }
        }
        RefClause::Clause(cid)
    }
    fn new_clause_sandbox"""))
same("db-counts-first", (DB, """        self.lbd.update(c.rank);
        *num_clause += 1;
        if learnt {
            if len2 {
                *num_bi_learnt += 1;
            } else {
                c.turn_on(FlagClause::LEARNT);
                *num_learnt += 1;
                if c.rank <= 2 {
                    *num_lbd2 += 1;
                }
            }
        }
""", """        self.lbd.update(c.rank);
        match (learnt, len2) {
            (true, true) => *num_bi_learnt += 1,
            (true, false) => {
                *num_learnt += 1;
                c.turn_on(FlagClause::LEARNT);
                if c.rank <= 2 {
                    *num_lbd2 += 1;
                }
            }
            (false, _) => (),
        }
        *num_clause += 1;
"""))
same("db-remove-reorder", (DB, """    if c.is(FlagClause::LEARNT) {
        *num_learnt -= 1;
    }
    *num_clause -= 1;
    certification_store.delete_clause(&c.lits);
    c.lits.clear();
}""", """    certification_store.delete_clause(&c.lits);
    c.lits.clear();
    *num_clause -= 1;
    if c.is(FlagClause::LEARNT) {
        *num_learnt -= 1;
    }
}"""))
same("db-remove-match", (DB, """    if c.len() == 2 {
        binary_link
            .remove(l0, l1)
            .expect("Eror (remove_clause_fn#01)");
        *num_bi_clause -= 1;
    } else {
        watcher[usize::from(!l0)].remove_watch(&cid); // .expect("db1076");
        watcher[usize::from(!l1)].remove_watch(&cid); // .expect("db1077");
    }
""", """    match c.lits.len() {
        2 => {
            *num_bi_clause -= 1;
            binary_link
                .remove(l0, l1)
                .expect("Eror (remove_clause_fn#01)");
        }
        _ => {
            for l in [l0, l1] {
                watcher[usize::from(!l)].remove_watch(&cid);
            }
        }
    }
"""))
same("db-remove-slice", (DB, """    let l0 = c.lits[0];
    let l1 = c.lits[1];
    if c.len() == 2 {
        binary_link""", """    let (l0, l1) = (c.lit0(), c.lit1());
    let binary = c.lits.len() == 2;
    if binary {
        binary_link"""))
same("db-permanent", (DB, """        if c.is(FlagClause::LEARNT) {
            c.turn_off(FlagClause::LEARNT);
            self.num_learnt -= 1;
        }
    }
    //
    fn transform_by_rest""", """        if !c.is(FlagClause::LEARNT) {
            return;
        }
        self.num_learnt -= 1;
        c.turn_off(FlagClause::LEARNT);
    }
    //
    fn transform_by_rest"""))
same("db-elim-newlits", (DB, """        let mut new_lits: Vec<Lit> = lits
            .iter()
            .filter(|&l| *l != p)
            .copied()
            .collect::<Vec<Lit>>();
        if new_lits.len() == 2 {
            if let Some(&reg) = binary""", """        let mut new_lits: Vec<Lit> = lits.clone();
        new_lits.retain(|l| *l != p);
        if new_lits.len() == 2 {
            if let Some(&reg) = binary"""))
same("db-elim-rewatch", (DB, """            if p == old_l0 {
                watch_cache[!p].remove_watch(&cid);
                if old_l1 == l0 {
                    debug_assert!(watch_cache[!l1].iter().all(|e| e.0 != cid));
                    watch_cache[!l1].insert_watch(cid, l0);

                    #[cfg(feature = "maintain_watch_cache")]
                    {
                        watch_cache[!l0].update_watch(cid, l1);
                    }
                } else if old_l1 == l1 {
                    debug_assert!(watch_cache[!l0].iter().all(|e| e.0 != cid));
                    watch_cache[!l0].insert_watch(cid, l1);

                    #[cfg(feature = "maintain_watch_cache")]
                    {
                        watch_cache[!l1].update_watch(cid, l0);
                    }
                } else {
                    unreachable!("transform_by_elimination");
                }
            } else if p == old_l1 {
                watch_cache[!p].remove_watch(&cid);
                if old_l0 == l0 {
                    debug_assert!(watch_cache[!l1].iter().all(|e| e.0 != cid));
                    watch_cache[!l1].insert_watch(cid, l0);

                    #[cfg(feature = "maintain_watch_cache")]
                    {
                        watch_cache[!l0].update_watch(cid, l1);
                    }
                } else if old_l0 == l1 {
                    debug_assert!(watch_cache[!l0].iter().all(|e| e.0 != cid));
                    watch_cache[!l0].insert_watch(cid, l1);

                    #[cfg(feature = "maintain_watch_cache")]
                    {
                        watch_cache[!l1].update_watch(cid, l0);
                    }
                } else {
                    unreachable!("transform_by_elimination");
                }
            } else {""", """            if p == old_l0 || p == old_l1 {
                watch_cache[!old_l0].remove_watch(&cid);
                watch_cache[!old_l1].remove_watch(&cid);
                watch_cache[!l0].insert_watch(cid, l1);
                watch_cache[!l1].insert_watch(cid, l0);
            } else {"""))
same("db-elim-partner", (DB, """            if p == old_l0 {
                watch_cache[!p].remove_watch(&cid);
                if old_l1 == l0 {
                    debug_assert!(watch_cache[!l1].iter().all(|e| e.0 != cid));
                    watch_cache[!l1].insert_watch(cid, l0);

                    #[cfg(feature = "maintain_watch_cache")]
                    {
                        watch_cache[!l0].update_watch(cid, l1);
                    }
                } else if old_l1 == l1 {""", """            if p == old_l0 {
                watch_cache[!p].remove_watch(&cid);
                let kept = old_l1;
                if kept == l0 {
                    watch_cache[!l1].insert_watch(cid, kept);

                    #[cfg(feature = "maintain_watch_cache")]
                    {
                        watch_cache[!l0].update_watch(cid, l1);
                    }
                } else if kept == l1 {"""))
same("db-elim-cert", (DB, """        if certification_store.is_active() {
            certification_store.add_clause(&c.lits);
            certification_store.delete_clause(&new_lits);
        }
        RefClause::Clause(cid)
    }
    // Not""", """        if !certification_store.is_active() {
            return RefClause::Clause(cid);
        }
        certification_store.add_clause(&c.lits);
        certification_store.delete_clause(&new_lits);
        RefClause::Clause(cid)
    }
    // Not"""))
same("db-elim-swap", (DB, """        if lits.len() == 2 {
            if lits[0] == p {
                lits.swap(0, 1);
            }
            return RefClause::UnitClause(lits[0]);
        }
""", """        if let [first, second] = lits[..] {
            return RefClause::UnitClause(if first == p { second } else { first });
        }
"""))
same("db-simp-any", (DB, """        let mut need_to_shrink = false;
        for l in self[cid].iter() {
            debug_assert!(!asg.var(l.vi()).is(FlagVar::ELIMINATED));
            match asg.assigned(*l) {
                Some(true) => {
                    self.remove_clause(cid);
                    return RefClause::Dead;
                }
                Some(false) => {
                    need_to_shrink = true;
                }
                None if asg.var(l.vi()).is(FlagVar::ELIMINATED) => {
                    need_to_shrink = true;
                }
                None => (),
            }
        }
""", """        if self[cid].iter().any(|l| asg.assigned(*l) == Some(true)) {
            self.remove_clause(cid);
            return RefClause::Dead;
        }
        let need_to_shrink = self[cid]
            .iter()
            .any(|l| asg.assigned(*l).is_some() || asg.var(l.vi()).is(FlagVar::ELIMINATED));
"""))
same("db-simp-rewatch", (DB, """                if old_l0 == l0 && old_l1 == l1 {
                    #[cfg(feature = "maintain_watch_cache")]
                    {
                        watch_cache[!l0].update_watch(cid, l1);
                        watch_cache[!l1].update_watch(cid, l0);
                    }
                } else if old_l0 == l0 {
                    // assert_ne!(old_l1, l1);
                    watch_cache[!old_l1].remove_watch(&cid);
                    watch_cache[!l0].update_watch(cid, l1);
                    // assert!(watch_cache[!l1].iter().all(|e| e.0 != cid));
                    watch_cache[!l1].insert_watch(cid, l0);
                } else if old_l0 == l1 {
                    // assert_ne!(old_l1, l0);
                    watch_cache[!old_l1].remove_watch(&cid);
                    // assert!(watch_cache[!l0].iter().all(|e| e.0 != cid));
                    watch_cache[!l0].insert_watch(cid, l1);
                    watch_cache[!l1].update_watch(cid, l0);
                } else if old_l1 == l0 {
                    // assert_ne!(old_l0, l1);
                    watch_cache[!old_l0].remove_watch(&cid);
                    watch_cache[!l0].update_watch(cid, l1);
                    watch_cache[!l1].insert_watch(cid, l0);
                } else if old_l1 == l1 {
                    // assert_ne!(old_l0, l0);
                    watch_cache[!old_l0].remove_watch(&cid);
                    watch_cache[!l0].insert_watch(cid, l1);
                    watch_cache[!l1].update_watch(cid, l0);
                } else {
""", """                if old_l0 != l0 || old_l1 != l1 {
"""))
same("db-simp-cert-helper", (DB, """                if c.is(FlagClause::LEARNT) {
                    self.num_learnt -= 1;
                    c.turn_off(FlagClause::LEARNT);
                }

                if certification_store.is_active() {
                    certification_store.add_clause(&c.lits);
                    certification_store.delete_clause(&new_lits);
                }
                RefClause::Clause(cid)
            }
            _ => {""", """                if certification_store.is_active() {
                    certification_store.replace(&new_lits, &c.lits);
                }
                if c.is(FlagClause::LEARNT) {
                    c.turn_off(FlagClause::LEARNT);
                    self.num_learnt -= 1;
                }
                RefClause::Clause(cid)
            }
            _ => {"""), (CE, """    pub fn close(&mut self) {
        if self""", """    pub fn replace(&mut self, old: &[Lit], new: &[Lit]) {
        self.add_clause(new);
        self.delete_clause(old);
    }
    pub fn close(&mut self) {
        if self"""))
same("db-simp-push", (DB, """        let mut new_lits = c
            .lits
            .iter()
            .filter(|l| asg.assigned(**l).is_none() && !asg.var(l.vi()).is(FlagVar::ELIMINATED))
            .copied()
            .collect::<Vec<_>>();
""", """        let mut new_lits: Vec<Lit> = Vec::with_capacity(c.lits.len());
        for &l in c.lits.iter() {
            if asg.assigned(l).is_some() || asg.var(l.vi()).is(FlagVar::ELIMINATED) {
                continue;
            }
            new_lits.push(l);
        }
"""))
same("db-updating-watch", (DB, """        let other = (old == 0) as usize;
        if removed {
            debug_assert!(watch_cache[!c.lits[old]].get_watch(&cid).is_none());
        } else {
            //## Step:1
            watch_cache[!c.lits[old]].remove_watch(&cid);
        }
        //## Step:2
        // assert!(watch_cache[!c.lits[new]].iter().all(|e| e.0 != cid));
        watch_cache[!c.lits[new]].insert_watch(cid, c.lits[other]);
""", """        let other = 1 - old;
        if !removed {
            watch_cache[!c.lits[old]].remove_watch(&cid);
        }
        let (fresh, blocker) = (c.lits[new], c.lits[other]);
        watch_cache[!fresh].insert_watch(cid, blocker);
"""))
same("db-updating-swapfirst", (DB, """        //## Step:2
        // assert!(watch_cache[!c.lits[new]].iter().all(|e| e.0 != cid));
        watch_cache[!c.lits[new]].insert_watch(cid, c.lits[other]);

        #[cfg(feature = "maintain_watch_cache")]
        {
            //## Step:3
            watch_cache[!c.lits[other]].update_watch(cid, c.lits[new]);
        }

        c.lits.swap(old, new);
""", """        c.lits.swap(old, new);
        //## Step:2
        watch_cache[!c.lits[old]].insert_watch(cid, c.lits[other]);

        #[cfg(feature = "maintain_watch_cache")]
        {
            //## Step:3
            watch_cache[!c.lits[other]].update_watch(cid, c.lits[old]);
        }
"""))
same("db-reduce-victims", (DB, """        perm.sort();
        for i in perm.iter().skip(keep) {
            self.remove_clause(ClauseId::from(i.to()));
        }
""", """        perm.sort();
        let victims: Vec<ClauseId> = perm[keep.min(perm.len())..]
            .iter()
            .map(|i| ClauseId::from(i.to()))
            .collect();
        for cid in victims {
            self.remove_clause(cid);
        }
"""))
same("db-reduce-loop", (DB, """        for (i, c) in clause
            .iter_mut()
            .enumerate()
            .skip(1)
            .filter(|(_, c)| !c.is_dead())
        {
            c.update_lbd(asg, lbd_temp);
""", """        for (i, c) in clause.iter_mut().enumerate().skip(1) {
            if c.is_dead() {
                continue;
            }
            c.update_lbd(asg, lbd_temp);
"""))
same("db-reduce-nested", (DB, """            if !c.is(FlagClause::LEARNT) {
                continue;
            }
            alives += 1;
            if c.rank <= 4 {
                continue;
            }
            match setting {""", """            let learnt = c.is(FlagClause::LEARNT);
            if learnt {
                alives += 1;
            }
            if !learnt || c.rank <= 4 {
                continue;
            }
            match setting {"""))
same("db-validate-iter", (DB, """        for (i, c) in self.clause.iter().enumerate().skip(1) {
            if c.is_dead() || (strict && c.is(FlagClause::LEARNT)) {
                continue;
            }
            match c.evaluate(model) {
                Some(false) => return Some(ClauseId::from(i)),
                None if strict => return Some(ClauseId::from(i)),
                _ => (),
            }
        }
        None
""", """        self.clause
            .iter()
            .enumerate()
            .skip(1)
            .filter(|(_, c)| !c.is_dead() && !(strict && c.is(FlagClause::LEARNT)))
            .find(|(_, c)| match c.evaluate(model) {
                Some(satisfied) => !satisfied,
                None => strict,
            })
            .map(|(i, _)| ClauseId::from(i))
"""))
same("db-validate-index", (DB, """        for (i, c) in self.clause.iter().enumerate().skip(1) {
            if c.is_dead() || (strict && c.is(FlagClause::LEARNT)) {
                continue;
            }
            match c.evaluate(model) {""", """        for i in 1..self.clause.len() {
            let c = &self.clause[i];
            if c.is_dead() || (strict && c.is(FlagClause::LEARNT)) {
                continue;
            }
            match c.evaluate(model) {"""))
same("db-evaluate", (DB, """        let mut falsified = Some(false);
        for l in self.lits.iter() {
            match model[l.vi()] {
                Some(x) if x == bool::from(*l) => return Some(true),
                Some(_) => (),
                None => falsified = None,
            }
        }
        falsified
""", """        let mut open = false;
        for l in &self.lits {
            if let Some(x) = model[l.vi()] {
                if x == bool::from(*l) {
                    return Some(true);
                }
            } else {
                open = true;
            }
        }
        if open { None } else { Some(false) }
"""))
same("db-checksize", (DB, """        if self.soft_limit == 0 || self.num_clause <= self.soft_limit {
            let nc = self.derefer(property::Tusize::NumClause);
            Ok(0 == self.soft_limit || 4 * nc < 3 * self.soft_limit)
        } else {
            Err(SolverError::OutOfMemory)
        }
""", """        match self.soft_limit {
            0 => Ok(true),
            limit if limit < self.num_clause => Err(SolverError::OutOfMemory),
            limit => Ok(4 * self.num_clause < 3 * limit),
        }
"""))
same("db-assertion", (DB, "        self.certification_store.add_clause(&[lit]);", "        let unit = [lit];\n        self.certification_store.add_clause(&unit);"))
same("db-bicomp", (DB, """        for pair in vec.iter_mut() {
            self.new_clause(asg, pair, false);
            self.num_bi_clause_completion += 1;
        }""", """        for mut pair in vec {
            self.num_bi_clause_completion += 1;
            self.new_clause(asg, &mut pair, false);
        }"""))
# ---- the proof
same("ce-enqueue", (CE, """        self.queue.push(clause.len() as i32);
        for l in clause.iter() {
            self.queue.push(i32::from(*l));
        }
        if DUMP_INTERVAL < self.queue.len() {
            self.dump_to_file();
        }
    }
    pub fn delete_clause(&mut self, clause: &[Lit]) {
        self.queue.push((clause.len() as i32).neg());
        for l in clause.iter() {
            self.queue.push(i32::from(*l));
        }
        if DUMP_INTERVAL < self.queue.len() {
            self.dump_to_file();
        }
    }""", """        self.enqueue(clause.len() as i32, clause);
    }
    pub fn delete_clause(&mut self, clause: &[Lit]) {
        self.enqueue((clause.len() as i32).neg(), clause);
    }
    fn enqueue(&mut self, header: i32, clause: &[Lit]) {
        self.queue.push(header);
        for l in clause.iter() {
            self.queue.push(i32::from(*l));
        }
        if DUMP_INTERVAL < self.queue.len() {
            self.dump_to_file();
        }
    }"""))
same("ce-flag", (CE, """        self.queue.push(clause.len() as i32);
        for l in clause.iter() {
            self.queue.push(i32::from(*l));
        }
        if DUMP_INTERVAL < self.queue.len() {
            self.dump_to_file();
        }
    }
    pub fn delete_clause(&mut self, clause: &[Lit]) {
        self.queue.push((clause.len() as i32).neg());
        for l in clause.iter() {
            self.queue.push(i32::from(*l));
        }
        if DUMP_INTERVAL < self.queue.len() {
            self.dump_to_file();
        }
    }""", """        self.record(clause, false);
    }
    pub fn delete_clause(&mut self, clause: &[Lit]) {
        self.record(clause, true);
    }
    fn record(&mut self, clause: &[Lit], deletion: bool) {
        let n = clause.len() as i32;
        self.queue.push(if deletion { n.neg() } else { n });
        self.queue.extend(clause.iter().map(|l| i32::from(*l)));
        if self.queue.len() > DUMP_INTERVAL {
            self.dump_to_file();
        }
    }"""))
same("ce-close", (CE, """        if self.buffer.is_none() {
            return;
        }
        self.dump_to_file();
        if let Some(ref mut buf) = self.buffer {
            let _ = buf.write_all(b"0\\n");
            self.buffer = None;
            self.target = None;
        }
""", """        if self.buffer.is_some() {
            self.dump_to_file();
        }
        if let Some(mut buf) = self.buffer.take() {
            self.target = None;
            let _ = buf.write_all(b"0\\n");
            let _ = buf.flush();
        }
"""))
same("ce-while", (CE, """                for _ in 0..(l.unsigned_abs() as usize) {
                    index += 1;
                    if buf
                        .write_all(format!("{} ", self.queue[index]).as_bytes())
                        .is_err()
                    {
                        self.buffer = None;
                        return;
                    }
                }
""", """                let mut rest = l.unsigned_abs();
                while 0 < rest {
                    rest -= 1;
                    index += 1;
                    let word = format!("{} ", self.queue[index]);
                    if buf.write_all(word.as_bytes()).is_err() {
                        self.buffer = None;
                        return;
                    }
                }
"""))
same("ce-string", (CE, """                for _ in 0..(l.unsigned_abs() as usize) {
                    index += 1;
                    if buf
                        .write_all(format!("{} ", self.queue[index]).as_bytes())
                        .is_err()
                    {
                        self.buffer = None;
                        return;
                    }
                }
                if buf.write_all(b"0\\n").is_err() {
                    self.buffer = None;
                    break;
                }
                index += 1;
""", """                let n = l.unsigned_abs() as usize;
                for x in &self.queue[index + 1..index + 1 + n] {
                    if write!(buf, "{x} ").is_err() {
                        self.buffer = None;
                        return;
                    }
                }
                if buf.write_all(b"0\\n").is_err() {
                    self.buffer = None;
                    break;
                }
                index += n + 1;
"""))
same("ce-create", (CE, """        if config.use_certification {
            let cert: PathBuf = config.io_odir.join(&config.io_pfile);
            if let Ok(out) = File::create(&cert) {
                return CertificationStore {
                    queue: Vec::with_capacity(DUMP_INTERVAL + 1024),
                    buffer: Some(BufWriter::new(out)),
                    target: Some(cert),
                };
            }
        }
        CertificationStore::default()
""", """        if !config.use_certification {
            return CertificationStore::default();
        }
        let target: PathBuf = config.io_odir.join(&config.io_pfile);
        match File::create(&target) {
            Ok(out) => CertificationStore {
                queue: Vec::with_capacity(DUMP_INTERVAL + 1024),
                buffer: Some(BufWriter::new(out)),
                target: Some(target),
            },
            Err(_) => CertificationStore::default(),
        }
"""))
# ---- vivification
same("vi-conclude", (VI, """                            match vec.len() {
                                0 => {
                                    state.flush("");
                                    state[Stat::VivifiedClause] += num_shrink;
                                    state[Stat::VivifiedVar] += num_assert;
                                    state.log(None, "RootLevelConflict By vivify");
                                    return Err(SolverError::EmptyClause);
                                }
                                1 => {
                                    self.certificate_add_assertion(vec[0]);
                                    asg.assign_at_root_level(vec[0])?;
                                    num_assert += 1;
                                }
                                _ => {""", """                            match vec[..] {
                                [] => {
                                    state.flush("");
                                    state[Stat::VivifiedClause] += num_shrink;
                                    state[Stat::VivifiedVar] += num_assert;
                                    state.log(None, "RootLevelConflict By vivify");
                                    return Err(SolverError::EmptyClause);
                                }
                                [unit] => {
                                    num_assert += 1;
                                    self.certificate_add_assertion(unit);
                                    asg.assign_at_root_level(unit)?;
                                }
                                _ => {"""))
same("vi-back-once", (VI, """                                        seen[0] = num_check;
                                        vec = asg.analyze_sandbox(
                                            self, &decisions, &cnfl_lits, &mut seen,
                                        );
                                        asg.backtrack_sandbox();
                                    }
                                }
                                AssignReason::Impl""", """                                        seen[0] = num_check;
                                        vec = asg.analyze_sandbox(
                                            self, &decisions, &cnfl_lits, &mut seen,
                                        );
                                    }
                                }
                                AssignReason::Impl"""), (VI, """                                        vec = asg.analyze_sandbox(
                                            self, &decisions, cnfl_lits, &mut seen,
                                        );
                                        asg.backtrack_sandbox();
                                    }""", """                                        vec = asg.analyze_sandbox(
                                            self, &decisions, cnfl_lits, &mut seen,
                                        );
                                    }"""), (VI, """                            match vec.len() {
                                0 => {""", """                            asg.backtrack_sandbox();
                            match vec.len() {
                                0 => {"""))
same("vi-settle", (VI, """            asg.backtrack_sandbox();
            debug_assert_eq!(asg.decision_level(), asg.root_level());
            if asg.remains() {
                asg.propagate_sandbox(self)
                    .map_err(SolverError::RootLevelConflict)?;
            }

            // debug_assert!(asg.stack_is_empty() || !asg.remains());
            // debug""", """            settle(asg, self)?;

            // debug_assert!(asg.stack_is_empty() || !asg.remains());
            // debug"""), (VI, """        asg.backtrack_sandbox();
        if asg.remains() {
            asg.propagate_sandbox(self)
                .map_err(SolverError::RootLevelConflict)?;
        }
        asg.clear""", """        settle(asg, self)?;
        asg.clear"""), (VI, "fn select_targets(", """fn settle(asg: &mut AssignStack, cdb: &mut ClauseDB) -> MaybeInconsistent {
    asg.backtrack_sandbox();
    if asg.remains() {
        asg.propagate_sandbox(cdb)
            .map_err(SolverError::RootLevelConflict)?;
    }
    Ok(())
}

fn select_targets("""))
same("vi-match-prop", (VI, """            if asg.remains() {
                asg.propagate_sandbox(self)
                    .map_err(SolverError::RootLevelConflict)?;
            }

            // debug_assert!(asg.stack_is_empty()""", """            if asg.remains() {
                match asg.propagate_sandbox(self) {
                    Ok(_) => (),
                    Err(cc) => return Err(SolverError::RootLevelConflict(cc)),
                }
            }

            // debug_assert!(asg.stack_is_empty()"""))
same("vi-for", (VI, """            for lit in clits.iter().copied() {
                // assert!(!asg.var(lit.vi()).is(FlagVar::ELIMINATED));
                match asg.assigned(!lit) {
                    //## Rule 1
                    Some(false) => (),
                    //## Rule 2
                    Some(true) => break,
                    None => {
                        decisions.push(!lit);
                        asg.assign_by_decision(!lit);""", """            for lit in &clits {
                let assumed = !*lit;
                match asg.assigned(assumed) {
                    //## Rule 1
                    Some(false) => continue,
                    //## Rule 2
                    Some(true) => break,
                    None => {
                        asg.assign_by_decision(assumed);
                        decisions.push(assumed);"""))
same("vi-dead", (VI, """            let c = &mut self[cid];
            if c.is_dead() {
                continue;
            }
            let is_learnt""", """            if self[cid].is_dead() {
                continue;
            }
            let c = &mut self[cid];
            let is_learnt"""))
# ---- elimination
same("el-drop", (EL, """    for cid in pos.iter() {
        if cdb[*cid].is_dead() {
            continue;
        }
        elim.remove_cid_occur(asg, *cid, &mut cdb[*cid]);
        cdb.remove_clause(*cid);
    }
    for cid in neg.iter() {
        if cdb[*cid].is_dead() {
            continue;
        }
        elim.remove_cid_occur(asg, *cid, &mut cdb[*cid]);
        cdb.remove_clause(*cid);
    }
""", """    for cid in pos.iter().chain(neg.iter()).copied() {
        if !cdb[cid].is_dead() {
            elim.remove_cid_occur(asg, cid, &mut cdb[cid]);
            cdb.remove_clause(cid);
        }
    }
"""))
same("el-drop-fn", (EL, """    for cid in pos.iter() {
        if cdb[*cid].is_dead() {
            continue;
        }
        elim.remove_cid_occur(asg, *cid, &mut cdb[*cid]);
        cdb.remove_clause(*cid);
    }
    for cid in neg.iter() {
        if cdb[*cid].is_dead() {
            continue;
        }
        elim.remove_cid_occur(asg, *cid, &mut cdb[*cid]);
        cdb.remove_clause(*cid);
    }
""", """    drop_clauses(asg, cdb, elim, &pos);
    drop_clauses(asg, cdb, elim, &neg);
"""), (EL, "/// returns `true` if elimination is impossible.", """fn drop_clauses(
    asg: &mut impl AssignIF,
    cdb: &mut impl ClauseDBIF,
    elim: &mut Eliminator,
    targets: &[ClauseId],
) {
    for &cid in targets {
        if cdb[cid].is_dead() {
            continue;
        }
        elim.remove_cid_occur(asg, cid, &mut cdb[cid]);
        cdb.remove_clause(cid);
    }
}

/// returns `true` if elimination is impossible."""))
same("el-unit-fn", (EL, """                    match asg.assigned(lit) {
                        Some(true) => (),
                        Some(false) => {
                            return Err(SolverError::RootLevelConflict((
                                lit,
                                asg.reason(lit.vi()),
                            )));
                        }
                        None => {
                            debug_assert!(asg.assigned(lit).is_none());
                            cdb.certificate_add_assertion(lit);
                            asg.assign_at_root_level(lit)?;
                        }
                    }
""", """                    fix_unit(asg, cdb, lit)?;
"""), (EL, "/// returns `true` if elimination is impossible.", """fn fix_unit(asg: &mut impl AssignIF, cdb: &mut impl ClauseDBIF, lit: Lit) -> MaybeInconsistent {
    match asg.assigned(lit) {
        Some(true) => Ok(()),
        Some(false) => Err(SolverError::RootLevelConflict((lit, asg.reason(lit.vi())))),
        None => {
            cdb.certificate_add_assertion(lit);
            asg.assign_at_root_level(lit)
        }
    }
}

/// returns `true` if elimination is impossible."""))
same("el-resolvent", (EL, """                    match cdb.new_clause(asg, vec, learnt_p && cdb[*n].is(FlagClause::LEARNT)) {
                        RefClause::Clause(ci) => {
                            // the merged clause might be a duplicated clause.
                            elim.add_cid_occur(asg, ci, &mut cdb[ci], true);
""", """                    let learnt = learnt_p && cdb[*n].is(FlagClause::LEARNT);
                    let added = cdb.new_clause(asg, vec, learnt);
                    match added {
                        RefClause::Clause(ci) => {
                            // the merged clause might be a duplicated clause.
                            elim.add_cid_occur(asg, ci, &mut cdb[ci], true);
"""))
same("el-ifs", (EL, """    if *timedout < num_combination
        || skip_var_elimination(
            asg,
            cdb,
            &w.pos_occurs,
            &w.neg_occurs,
            vi,
            elim.eliminate_grow_limit,
        )
    {
        return Ok(());
    } else {
        *timedout -= num_combination;
    }
""", """    if *timedout < num_combination {
        return Ok(());
    }
    let too_costly = skip_var_elimination(
        asg,
        cdb,
        &w.pos_occurs,
        &w.neg_occurs,
        vi,
        elim.eliminate_grow_limit,
    );
    if too_costly {
        return Ok(());
    }
    *timedout -= num_combination;
"""))
# ---- subsumption
same("su-strengthen", (SU, """        RefClause::UnitClause(l0) => {
            cdb.certificate_add_assertion(l0);
            elim.remove_cid_occur(asg, cid, &mut cdb[cid]);
            cdb.remove_clause(cid);
            match asg.assigned(l0) {
                None => asg.assign_at_root_level(l0),
                Some(true) => Ok(()),
                Some(false) => Err(SolverError::RootLevelConflict((l0, asg.reason(l0.vi())))),
            }
        }""", """        RefClause::UnitClause(l0) => {
            cdb.certificate_add_assertion(l0);
            drop_clause(asg, cdb, elim, cid);
            let value = asg.assigned(l0);
            if value == Some(false) {
                return Err(SolverError::RootLevelConflict((l0, asg.reason(l0.vi()))));
            }
            if value.is_none() {
                asg.assign_at_root_level(l0)?;
            }
            Ok(())
        }"""), (SU, """        RefClause::RegisteredClause(_) => {
            elim.remove_cid_occur(asg, cid, &mut cdb[cid]);
            cdb.remove_clause(cid);
            Ok(())
        }""", """        RefClause::RegisteredClause(_) => {
            drop_clause(asg, cdb, elim, cid);
            Ok(())
        }"""), (SU, "/// removes `l` from clause `cid`", """fn drop_clause(
    asg: &mut impl AssignIF,
    cdb: &mut impl ClauseDBIF,
    elim: &mut Eliminator,
    cid: ClauseId,
) {
    elim.remove_cid_occur(asg, cid, &mut cdb[cid]);
    cdb.remove_clause(cid);
}

/// removes `l` from clause `cid`"""))
same("su-success", (SU, """                if !cdb[did].is(FlagClause::LEARNT) {
                    cdb.make_permanent(cid);
                }
                self.remove_cid_occur(asg, did, &mut cdb[did]);
                cdb.remove_clause(did);
                self.num_subsumed += 1;
""", """                self.num_subsumed += 1;
                let original = !cdb[did].is(FlagClause::LEARNT);
                self.remove_cid_occur(asg, did, &mut cdb[did]);
                cdb.remove_clause(did);
                if original {
                    cdb.make_permanent(cid);
                }
"""))
same("su-lits", (SU, """    'next: for l in ch.iter() {
        for lo in ob.iter() {
            if *l == *lo {
                continue 'next;
                // } else if ret == Subsumable::Success && *l == !*lo {
                //     ret = Subsumable::By(*l);
                //     continue 'next;
            }
        }
        return Subsumable::None;
    }
    Subsumable::Success
""", """    if ch.iter().all(|l| ob.contains(*l)) {
        Subsumable::Success
    } else {
        Subsumable::None
    }
"""))
# ---- simplification
same("si-try", (SI, """            asg.propagate_sandbox(cdb)
                .map_err(SolverError::RootLevelConflict)?;
        }
        if self.mode""", """            if let Err(cc) = asg.propagate_sandbox(cdb) {
                return Err(SolverError::RootLevelConflict(cc));
            }
        }
        if self.mode"""))
same("si-loop", (SI, """            while let Some(vi) = self.var_queue.select_var(&self.var, asg) {
                let v = asg.var_mut(vi);
                v.turn_off(FlagVar::ENQUEUED);
                if !v.is(FlagVar::ELIMINATED) && asg.assign(vi).is_none() {
                    eliminate_var(asg, cdb, self, state, vi, &mut timedout)?;
                }
            }
""", """            loop {
                let Some(vi) = self.var_queue.select_var(&self.var, asg) else {
                    break;
                };
                asg.var_mut(vi).turn_off(FlagVar::ENQUEUED);
                if asg.var(vi).is(FlagVar::ELIMINATED) || asg.assign(vi).is_some() {
                    continue;
                }
                eliminate_var(asg, cdb, self, state, vi, &mut timedout)?;
            }
"""))
same("si-check", (SI, "        cdb.check_size().map(|_| ())\n", "        cdb.check_size()?;\n        Ok(())\n"))
same("si-prepare", (SI, """        for (cid, c) in &mut cdb.iter_mut().enumerate().skip(1) {
            if c.is_dead() || c.is(FlagClause::OCCUR_LINKED) {
                continue;
            }
            let vec = c.iter().copied().collect::<Vec<_>>();
            debug_assert!(vec.iter().all(|l| !vec.contains(&!*l)));
            self.add_cid_occur(asg, ClauseId::from(cid), c, false);
        }
""", """        cdb.iter_mut()
            .enumerate()
            .skip(1)
            .filter(|(_, c)| !c.is_dead() && !c.is(FlagClause::OCCUR_LINKED))
            .for_each(|(i, c)| self.add_cid_occur(asg, ClauseId::from(i), c, false));
"""))
# ---- the main loop
same("se-unsat", (SE, """            Ok(false) | Err(SolverError::EmptyClause | SolverError::RootLevelConflict(_)) => {
                #[cfg(feature = "support_user_assumption")]
                analyze_final(asg, state, &cdb[ci]);

                RESTART!(asg, cdb, state);
                Ok(Certificate::UNSAT)
            }
            Err(e) => {
                RESTART!(asg, cdb, state);
                state.progress(asg, cdb);
                Err(e)
            }""", """            Ok(false) => {
                RESTART!(asg, cdb, state);
                Ok(Certificate::UNSAT)
            }
            Err(e) => {
                RESTART!(asg, cdb, state);
                if matches!(e, SolverError::EmptyClause | SolverError::RootLevelConflict(_)) {
                    return Ok(Certificate::UNSAT);
                }
                state.progress(asg, cdb);
                Err(e)
            }"""))
same("se-pure", (SE, """                        if m == 0 {
                            let l = Lit::from((vi, true));
                            debug_assert!(asg.assigned(l).is_none());
                            cdb.certificate_add_assertion(l);
                            if asg.assign_at_root_level(l).is_err() {
                                return Ok(Certificate::UNSAT);
                            }
                        } else if p == 0 {
                            let l = Lit::from((vi, false));
                            debug_assert!(asg.assigned(l).is_none());
                            cdb.certificate_add_assertion(l);
                            if asg.assign_at_root_level(l).is_err() {
                                return Ok(Certificate::UNSAT);
                            }
                        }
""", """                        if m == 0 || p == 0 {
                            let l = Lit::from((vi, m == 0));
                            cdb.certificate_add_assertion(l);
                            if asg.assign_at_root_level(l).is_err() {
                                return Ok(Certificate::UNSAT);
                            }
                        }
"""))
same("se-limit", (SE, """            if let Some(p) = state.elapsed() {
                if 1.0 <= p {
                    return Err(SolverError::TimeOut);
                }
            } else {
                return Err(SolverError::UndescribedError);
            }
            RESTART""", """            match state.elapsed() {
                Some(p) if p >= 1.0 => return Err(SolverError::TimeOut),
                Some(_) => (),
                None => return Err(SolverError::UndescribedError),
            }
            RESTART"""))
same("se-limit-fn", (SE, """            if let Some(p) = state.elapsed() {
                if 1.0 <= p {
                    return Err(SolverError::TimeOut);
                }
            } else {
                return Err(SolverError::UndescribedError);
            }
            RESTART""", """            check_time(state)?;
            RESTART"""), (SE, "/// main loop; returns", """fn check_time(state: &State) -> Result<(), SolverError> {
    let Some(spent) = state.elapsed() else {
        return Err(SolverError::UndescribedError);
    };
    if spent < 1.0 {
        Ok(())
    } else {
        Err(SolverError::TimeOut)
    }
}

/// main loop; returns"""))
same("se-model", (SE, """                let vals = asg
                    .var_iter()
                    .enumerate()
                    .skip(1)
                    .map(|(vi, _)| i32::from(Lit::from((vi, model[vi].unwrap()))))
                    .collect::<Vec<i32>>();
""", """                let mut vals: Vec<i32> = Vec::with_capacity(asg.num_vars);
                for vi in 1..=asg.num_vars {
                    vals.push(i32::from(Lit::from((vi, model[vi].unwrap()))));
                }
"""))
same("se-model2", (SE, """                let vals = asg
                    .var_iter()
                    .enumerate()
                    .skip(1)
                    .map(|(vi, _)| i32::from(Lit::from((vi, model[vi].unwrap()))))
                    .collect::<Vec<i32>>();
""", """                let vals = model
                    .iter()
                    .enumerate()
                    .skip(1)
                    .map(|(vi, value)| i32::from(Lit::from((vi, value.unwrap()))))
                    .collect::<Vec<i32>>();
"""))
same("se-validate", (SE, """                if cdb.validate(&model, false).is_some() {
                    state.log(None, "failed to validate the extended model");
                    state.progress(asg, cdb);
                    return Err(SolverError::SolverBug);
                }
""", """                let falsified = cdb.validate(&model, false);
                if let Some(cid) = falsified {
                    state.log(None, format!("failed to validate the extended model: {cid}"));
                    state.progress(asg, cdb);
                    return Err(SolverError::SolverBug);
                }
"""))
same("se-flags", (SE, """                for v in asg.var_iter_mut().skip(1) {
                    if v.is(FlagVar::ELIMINATED) {
                        v.turn_off(FlagVar::ELIMINATED);
                    }
                }
""", """                asg.var_iter_mut()
                    .skip(1)
                    .for_each(|v| v.turn_off(FlagVar::ELIMINATED));
"""))
same("se-step", (SE, """        if !asg.remains() {
            let lit = asg.select_decision_literal();
            asg.assign_by_decision(lit);
        }
        let Err(cc) = asg.propagate(cdb) else {
            continue;
        };
        if asg""", """        if !asg.remains() {
            decide(asg);
        }
        let cc = match asg.propagate(cdb) {
            Ok(()) => continue,
            Err(conflict) => conflict,
        };
        if asg"""), (SE, "/// main loop; returns", """fn decide(asg: &mut AssignStack) {
    let lit = asg.select_decision_literal();
    asg.assign_by_decision(lit);
}

/// main loop; returns"""))
same("se-inproc", (SE, """                        let mut elim = Eliminator::instantiate(&state.config, &state.cnf);
                        state.flush("clause subsumption, ");
                        elim.simplify(asg, cdb, state, false)?;
                        asg.eliminated.append(elim.eliminated_lits());
                        state[Stat::Simplify] += 1;
                        state[Stat::SubsumedClause] = elim.num_subsumed;
""", """                        state.flush("clause subsumption, ");
                        inprocess(asg, cdb, state)?;
"""), (SE, "/// main loop; returns", """fn inprocess(
    asg: &mut AssignStack,
    cdb: &mut ClauseDB,
    state: &mut State,
) -> Result<(), SolverError> {
    let mut elim = Eliminator::instantiate(&state.config, &state.cnf);
    elim.simplify(asg, cdb, state, false)?;
    state[Stat::Simplify] += 1;
    state[Stat::SubsumedClause] = elim.num_subsumed;
    asg.eliminated.append(elim.eliminated_lits());
    Ok(())
}

/// main loop; returns"""))
