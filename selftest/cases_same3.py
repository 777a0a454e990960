"""Edits that keep the behaviour: the clause database, the eliminator, propagation."""
from cases import bug, same

DB, EL, SI, SU, PR = ("src/cdb/db.rs", "src/processor/eliminate.rs", "src/processor/simplify.rs",
                      "src/processor/subsume.rs", "src/assign/propagate.rs")

# ---- db.rs
same("db-new-dup-match", (DB, """        if vec.len() == 2
            && let Some(&cid) = self.link_to_cid(vec[0], vec[1])
        {
            self.num_reregistration += 1;
            return RefClause::RegisteredClause(cid);
        }
""", """        if let [l0, l1] = vec[..] {
            if let Some(cid) = self.link_to_cid(l0, l1).copied() {
                self.num_reregistration += 1;
                return RefClause::RegisteredClause(cid);
            }
        }
"""))
same("db-new-watch-fn", (DB, """#[inline]
#[allow(clippy::too_many_arguments)]
fn remove_clause_fn(""", """fn attach(links: &mut BinaryLinkDB, watch: &mut [WatchCache], cid: ClauseId, lits: &[Lit]) {
    let (l0, l1) = (lits[0], lits[1]);
    if lits.len() == 2 {
        links.add(l0, l1, cid);
        return;
    }
    watch[usize::from(!l0)].insert_watch(cid, l1);
    watch[usize::from(!l1)].insert_watch(cid, l0);
}

#[inline]
#[allow(clippy::too_many_arguments)]
fn remove_clause_fn("""), (DB, """        let l0 = c.lits[0];
        let l1 = c.lits[1];
        if len2 {
            *num_bi_clause += 1;
            binary_link.add(l0, l1, cid);
        } else {
            watch_cache[!l0].insert_watch(cid, l1);
            watch_cache[!l1].insert_watch(cid, l0);
        }
        RefClause::Clause(cid)""", """        if len2 {
            *num_bi_clause += 1;
        }
        attach(binary_link, watch_cache, cid, &c.lits);
        RefClause::Clause(cid)"""))
same("db-new-count-order", (DB, """        self.lbd.update(c.rank);
        *num_clause += 1;
        if learnt {
            if len2 {
                *num_bi_learnt += 1;
            } else {
                c.turn_on(FlagClause::LEARNT);
                *num_learnt += 1;
                if c.rank <= 2 {
                    *num_lbd2 += 1;
                }
            }
        }
""", """        if learnt && len2 {
            *num_bi_learnt += 1;
        }
        if learnt && !len2 {
            *num_learnt += 1;
            *num_lbd2 += usize::from(c.rank <= 2);
            c.turn_on(FlagClause::LEARNT);
        }
        self.lbd.update(c.rank);
        *num_clause += 1;
"""))
same("db-new-alloc", (DB, """        } else {
            cid = ClauseId::from(self.clause.len());
            let mut c = Clause {
                flags: FlagClause::empty(),
                ..Clause::default()
            };
            std::mem::swap(&mut c.lits, vec);
            self.clause.push(c);
        };
""", """        } else {
            cid = ClauseId::from(self.clause.len());
            self.clause.push(Clause {
                lits: std::mem::take(vec),
                flags: FlagClause::empty(),
                ..Clause::default()
            });
        };
"""))
same("db-new-alloc-match", (DB, """        let cid;
        if let Some(cid_used) = self.freelist.pop() {
            cid = cid_used;
            let c = &mut self[cid];
            // if !c.is_dead() {""", """        let cid = match self.freelist.pop() {
            Some(reused) => reused,
            None => {
                let fresh = ClauseId::from(self.clause.len());
                self.clause.push(Clause {
                    flags: FlagClause::empty(),
                    ..Clause::default()
                });
                fresh
            }
        };
        {
            let c = &mut self[cid];
            // if !c.is_dead() {"""), (DB, """            debug_assert!(c.lits.is_empty()); // c.lits.clear();
            std::mem::swap(&mut c.lits, vec);
            c.search_from = 2;
        } else {
            cid = ClauseId::from(self.clause.len());
            let mut c = Clause {
                flags: FlagClause::empty(),
                ..Clause::default()
            };
            std::mem::swap(&mut c.lits, vec);
            self.clause.push(c);
        };
""", """            debug_assert!(c.lits.is_empty()); // c.lits.clear();
            std::mem::swap(&mut c.lits, vec);
            c.search_from = 2;
        }
"""))
same("db-new-cert-late", (DB, """        self.certification_store.add_clause(vec);
        let cid;
""", """        let cid;
"""), (DB, """        let ClauseDB {
            #[cfg(feature = "bi_clause_completion")]
            bi_clause_completion_queue,
            clause,
""", """        let at = NonZeroU32::get(cid.ordinal) as usize;
        self.certification_store.add_clause(&self.clause[at].lits);
        let ClauseDB {
            #[cfg(feature = "bi_clause_completion")]
            bi_clause_completion_queue,
            clause,
"""))
same("db-remove-inline-freelist", (DB, """        debug_assert!(!c.is_dead());
        debug_assert!(1 < c.lits.len());
        remove_clause_fn(
            &mut self.certification_store,
            &mut self.binary_link,
            &mut self.watch_cache,
            &mut self.num_bi_clause,
            &mut self.num_clause,
            &mut self.num_learnt,
            cid,
            c,
        );
        self.freelist.push(cid);""", """        debug_assert!(!c.is_dead());
        debug_assert!(1 < c.lits.len());
        self.freelist.push(cid);
        remove_clause_fn(
            &mut self.certification_store,
            &mut self.binary_link,
            &mut self.watch_cache,
            &mut self.num_bi_clause,
            &mut self.num_clause,
            &mut self.num_learnt,
            cid,
            c,
        );"""))
same("db-removefn-order", (DB, """    if c.is(FlagClause::LEARNT) {
        *num_learnt -= 1;
    }
    *num_clause -= 1;
    certification_store.delete_clause(&c.lits);
    c.lits.clear();
}""", """    certification_store.delete_clause(&c.lits);
    c.lits.clear();
    *num_clause -= 1;
    *num_learnt -= c.is(FlagClause::LEARNT) as usize;
}"""))
same("db-removefn-take", (DB, """    certification_store.delete_clause(&c.lits);
    c.lits.clear();
}""", """    let lits = std::mem::take(&mut c.lits);
    certification_store.delete_clause(&lits);
}"""))
same("db-removefn-match", (DB, """    if c.len() == 2 {
        binary_link
            .remove(l0, l1)
            .expect("Eror (remove_clause_fn#01)");
        *num_bi_clause -= 1;
    } else {
        watcher[usize::from(!l0)].remove_watch(&cid); // .expect("db1076");
        watcher[usize::from(!l1)].remove_watch(&cid); // .expect("db1077");
    }
""", """    match c.lits.len() {
        2 => {
            *num_bi_clause -= 1;
            if binary_link.remove(l0, l1).is_err() {
                panic!("Eror (remove_clause_fn#01)");
            }
        }
        _ => {
            for l in [l0, l1] {
                watcher[usize::from(!l)].remove_watch(&cid);
            }
        }
    }
"""))
same("db-perm-guard", (DB, """        if c.is(FlagClause::LEARNT) {
            c.turn_off(FlagClause::LEARNT);
            self.num_learnt -= 1;
        }
    }
    //""", """        if !c.is(FlagClause::LEARNT) {
            return;
        }
        self.num_learnt -= 1;
        c.turn_off(FlagClause::LEARNT);
    }
    //"""))
same("db-elim-unit", (DB, """            if lits[0] == p {
                lits.swap(0, 1);
            }
            return RefClause::UnitClause(lits[0]);""", """            let rest = if lits[0] == p { lits[1] } else { lits[0] };
            return RefClause::UnitClause(rest);"""))
same("db-elim-newlits-loop", (DB, """        let mut new_lits: Vec<Lit> = lits
            .iter()
            .filter(|&l| *l != p)
            .copied()
            .collect::<Vec<Lit>>();""", """        let mut new_lits: Vec<Lit> = Vec::with_capacity(lits.len());
        for l in lits.iter() {
            if *l == p {
                continue;
            }
            new_lits.push(*l);
        }"""))
same("db-elim-newlits-retain", (DB, """        let mut new_lits: Vec<Lit> = lits
            .iter()
            .filter(|&l| *l != p)
            .copied()
            .collect::<Vec<Lit>>();""", """        let mut new_lits: Vec<Lit> = lits.clone();
        new_lits.retain(|l| *l != p);"""))
same("db-elim-cert", (DB, """        if certification_store.is_active() {
            certification_store.add_clause(&c.lits);
            certification_store.delete_clause(&new_lits);
        }
        RefClause::Clause(cid)
    }
    // Not in use so far""", """        certification_store.add_clause(&c.lits);
        certification_store.delete_clause(&new_lits);
        RefClause::Clause(cid)
    }
    // Not in use so far"""))
same("db-elim-rewatch", (DB, """            if p == old_l0 {
                watch_cache[!p].remove_watch(&cid);
                if old_l1 == l0 {
                    debug_assert!(watch_cache[!l1].iter().all(|e| e.0 != cid));
                    watch_cache[!l1].insert_watch(cid, l0);
""", """            if p == old_l0 || p == old_l1 {
                watch_cache[!old_l0].remove_watch(&cid);
                watch_cache[!old_l1].remove_watch(&cid);
                watch_cache[!l0].insert_watch(cid, l1);
                watch_cache[!l1].insert_watch(cid, l0);
            } else if p == old_l0 {
                watch_cache[!p].remove_watch(&cid);
                if old_l1 == l0 {
                    debug_assert!(watch_cache[!l1].iter().all(|e| e.0 != cid));
                    watch_cache[!l1].insert_watch(cid, l0);
"""))
same("db-simp-first-any", (DB, """        let mut need_to_shrink = false;
        for l in self[cid].iter() {
            debug_assert!(!asg.var(l.vi()).is(FlagVar::ELIMINATED));
            match asg.assigned(*l) {
                Some(true) => {
                    self.remove_clause(cid);
                    return RefClause::Dead;
                }
                Some(false) => {
                    need_to_shrink = true;
                }
                None if asg.var(l.vi()).is(FlagVar::ELIMINATED) => {
                    need_to_shrink = true;
                }
                None => (),
            }
        }
        if !need_to_shrink {""", """        if self[cid].iter().any(|l| asg.assigned(*l) == Some(true)) {
            self.remove_clause(cid);
            return RefClause::Dead;
        }
        let need_to_shrink = self[cid].iter().any(|l| {
            asg.assigned(*l) == Some(false) || asg.var(l.vi()).is(FlagVar::ELIMINATED)
        });
        if !need_to_shrink {"""))
same("db-simp-lens", (DB, """        match new_lits.len() {
            0 => RefClause::EmptyClause,             //## Case:0
            1 => RefClause::UnitClause(new_lits[0]), //## Case:1
            2 => {""", """        if new_lits.is_empty() {
            return RefClause::EmptyClause;
        }
        if let [unit] = new_lits[..] {
            return RefClause::UnitClause(unit);
        }
        match new_lits.len() {
            2 => {"""))
same("db-simp-loop", (DB, """        let mut new_lits = c
            .lits
            .iter()
            .filter(|l| asg.assigned(**l).is_none() && !asg.var(l.vi()).is(FlagVar::ELIMINATED))
            .copied()
            .collect::<Vec<_>>();""", """        let mut new_lits: Vec<Lit> = Vec::new();
        for l in c.lits.iter() {
            if asg.assigned(*l).is_none() && !asg.var(l.vi()).is(FlagVar::ELIMINATED) {
                new_lits.push(*l);
            }
        }"""))
same("db-simp-rewatch", (DB, """                if old_l0 == l0 && old_l1 == l1 {
                    #[cfg(feature = "maintain_watch_cache")]
                    {
                        watch_cache[!l0].update_watch(cid, l1);
                        watch_cache[!l1].update_watch(cid, l0);
                    }
                } else if old_l0 == l0 {
                    // assert_ne!(old_l1, l1);
                    watch_cache[!old_l1].remove_watch(&cid);
                    watch_cache[!l0].update_watch(cid, l1);
                    // assert!(watch_cache[!l1].iter().all(|e| e.0 != cid));
                    watch_cache[!l1].insert_watch(cid, l0);
                } else if old_l0 == l1 {
                    // assert_ne!(old_l1, l0);
                    watch_cache[!old_l1].remove_watch(&cid);
                    // assert!(watch_cache[!l0].iter().all(|e| e.0 != cid));
                    watch_cache[!l0].insert_watch(cid, l1);
                    watch_cache[!l1].update_watch(cid, l0);
                } else if old_l1 == l0 {
                    // assert_ne!(old_l0, l1);
                    watch_cache[!old_l0].remove_watch(&cid);
                    watch_cache[!l0].update_watch(cid, l1);
                    watch_cache[!l1].insert_watch(cid, l0);
                } else if old_l1 == l1 {
                    // assert_ne!(old_l0, l0);
                    watch_cache[!old_l0].remove_watch(&cid);
                    watch_cache[!l0].insert_watch(cid, l1);
                    watch_cache[!l1].update_watch(cid, l0);
                } else {
                    watch_cache[!old_l0].remove_watch(&cid);
                    watch_cache[!old_l1].remove_watch(&cid);
                    // assert!(watch_cache[!l0].iter().all(|e| e.0 != cid));
                    watch_cache[!l0].insert_watch(cid, l1);
                    // assert!(watch_cache[!l1].iter().all(|e| e.0 != cid));
                    watch_cache[!l1].insert_watch(cid, l0);
                }
""", """                watch_cache[!old_l0].remove_watch(&cid);
                watch_cache[!old_l1].remove_watch(&cid);
                watch_cache[!l0].insert_watch(cid, l1);
                watch_cache[!l1].insert_watch(cid, l0);
"""))
same("db-simp-perm-fn", (DB, """                self.num_bi_clause += 1;
                if c.is(FlagClause::LEARNT) {
                    self.num_learnt -= 1;
                    c.turn_off(FlagClause::LEARNT);
                }

                if certification_store.is_active() {
                    certification_store.add_clause(&c.lits);
                    certification_store.delete_clause(&new_lits);
                }
                RefClause::Clause(cid)""", """                if certification_store.is_active() {
                    certification_store.add_clause(&c.lits);
                    certification_store.delete_clause(&new_lits);
                }
                self.num_bi_clause += 1;
                self.make_permanent(cid);
                RefClause::Clause(cid)"""))
same("db-upd-names", (DB, """        let c = &mut clause[NonZeroU32::get(cid.ordinal) as usize];
        let other = (old == 0) as usize;
        if removed {
            debug_assert!(watch_cache[!c.lits[old]].get_watch(&cid).is_none());
        } else {
            //## Step:1
            watch_cache[!c.lits[old]].remove_watch(&cid);
        }
        //## Step:2
        // assert!(watch_cache[!c.lits[new]].iter().all(|e| e.0 != cid));
        watch_cache[!c.lits[new]].insert_watch(cid, c.lits[other]);
""", """        let c = &mut clause[NonZeroU32::get(cid.ordinal) as usize];
        let other = 1 - old;
        let (from, to, blocker) = (c.lits[old], c.lits[new], c.lits[other]);
        if !removed {
            //## Step:1
            watch_cache[!from].remove_watch(&cid);
        }
        //## Step:2
        // assert!(watch_cache[!c.lits[new]].iter().all(|e| e.0 != cid));
        watch_cache[!to].insert_watch(cid, blocker);
"""))
same("db-upd-swap-first", (DB, """        if removed {
            debug_assert!(watch_cache[!c.lits[old]].get_watch(&cid).is_none());
        } else {
            //## Step:1
            watch_cache[!c.lits[old]].remove_watch(&cid);
        }
        //## Step:2
        // assert!(watch_cache[!c.lits[new]].iter().all(|e| e.0 != cid));
        watch_cache[!c.lits[new]].insert_watch(cid, c.lits[other]);
""", """        c.lits.swap(old, new);
        if !removed {
            watch_cache[!c.lits[new]].remove_watch(&cid);
        }
        watch_cache[!c.lits[old]].insert_watch(cid, c.lits[other]);
"""), (DB, """            watch_cache[!c.lits[other]].update_watch(cid, c.lits[new]);
        }

        c.lits.swap(old, new);
""", """            watch_cache[!c.lits[other]].update_watch(cid, c.lits[old]);
        }
"""))
same("db-ana", (DB, """        if learnt {
            #[cfg(feature = "just_used")]
            c.turn_on(FlagClause::USED);
            #[cfg(feature = "clause_rewarding")]
            self.reward_at_analysis(cid);
        }
        if 1 < rank {
            self.lb_entanglement.update(rank as f64);
        }
        learnt
""", """        match rank {
            0 | 1 => (),
            r => self.lb_entanglement.update(r as f64),
        }
        #[cfg(feature = "just_used")]
        if learnt {
            self.clause[NonZeroU32::get(cid.ordinal) as usize].turn_on(FlagClause::USED);
        }
        #[cfg(feature = "clause_rewarding")]
        if learnt {
            self.reward_at_analysis(cid);
        }
        learnt
"""))
same("db-red-range", (DB, """        for (i, c) in clause
            .iter_mut()
            .enumerate()
            .skip(1)
            .filter(|(_, c)| !c.is_dead())
        {
            c.update_lbd(asg, lbd_temp);
""", """        for i in 1..clause.len() {
            let c = &mut clause[i];
            if c.is_dead() {
                continue;
            }
            c.update_lbd(asg, lbd_temp);
"""))
same("db-red-nest", (DB, """            if !c.is(FlagClause::LEARNT) {
                continue;
            }
            alives += 1;
            if c.rank <= 4 {
                continue;
            }
            match setting {""", """            let removable = c.is(FlagClause::LEARNT);
            alives += removable as usize;
            if !removable || c.rank <= 4 {
                continue;
            }
            match setting {"""))
same("db-red-split", (DB, """        perm.sort();
        for i in perm.iter().skip(keep) {
            self.remove_clause(ClauseId::from(i.to()));
        }
    }
    fn reset""", """        perm.sort();
        perm.into_iter()
            .skip(keep)
            .map(|i| ClauseId::from(i.to()))
            .for_each(|cid| self.remove_clause(cid));
    }
    fn reset"""))
same("db-red-slice", (DB, """        for i in perm.iter().skip(keep) {
            self.remove_clause(ClauseId::from(i.to()));
        }
    }
    fn reset""", """        let victims = if keep < perm.len() { &perm[keep..] } else { &[] };
        for i in victims {
            let cid = ClauseId::from(i.to());
            self.remove_clause(cid);
        }
    }
    fn reset"""))
same("db-red-victim-fn", (DB, """#[inline]
#[allow(clippy::too_many_arguments)]
fn remove_clause_fn(""", """fn score(c: &Clause, asg: &impl AssignIF, setting: &ReductionType) -> Option<f64> {
    match *setting {
        ReductionType::RASonADD(_) => Some(c.reverse_activity_sum(asg)),
        ReductionType::RASonALL(cutoff, _) => {
            let value = c.reverse_activity_sum(asg);
            (cutoff < value.min(c.rank as f64)).then_some(value)
        }
        ReductionType::LBDonADD(_) => Some(c.lbd()),
        ReductionType::LBDonALL(cutoff, _) => (cutoff < c.rank).then_some(c.rank as f64),
    }
}

#[inline]
#[allow(clippy::too_many_arguments)]
fn remove_clause_fn("""), (DB, """            match setting {
                ReductionType::RASonADD(_) => {
                    perm.push(OrderedProxy::new(i, c.reverse_activity_sum(asg)));
                }
                ReductionType::RASonALL(cutoff, _) => {
                    let value = c.reverse_activity_sum(asg);
                    if cutoff < value.min(c.rank as f64) {
                        perm.push(OrderedProxy::new(i, value));
                    }
                }
                ReductionType::LBDonADD(_) => {
                    perm.push(OrderedProxy::new(i, c.lbd()));
                }
                ReductionType::LBDonALL(cutoff, _) => {
                    let value = c.rank;
                    if cutoff < value {
                        perm.push(OrderedProxy::new(i, value as f64));
                    }
                }
            }
""", """            if let Some(value) = score(c, asg, &setting) {
                perm.push(OrderedProxy::new(i, value));
            }
"""))
same("db-size", (DB, """        if self.soft_limit == 0 || self.num_clause <= self.soft_limit {
            let nc = self.derefer(property::Tusize::NumClause);
            Ok(0 == self.soft_limit || 4 * nc < 3 * self.soft_limit)
        } else {
            Err(SolverError::OutOfMemory)
        }""", """        if self.soft_limit == 0 {
            return Ok(true);
        }
        if self.soft_limit < self.num_clause {
            return Err(SolverError::OutOfMemory);
        }
        Ok(4 * self.num_clause < 3 * self.soft_limit)"""))
same("db-validate-find", (DB, """        for (i, c) in self.clause.iter().enumerate().skip(1) {
            if c.is_dead() || (strict && c.is(FlagClause::LEARNT)) {
                continue;
            }
            match c.evaluate(model) {
                Some(false) => return Some(ClauseId::from(i)),
                None if strict => return Some(ClauseId::from(i)),
                _ => (),
            }
        }
        None
""", """        self.clause
            .iter()
            .enumerate()
            .skip(1)
            .filter(|(_, c)| !c.is_dead() && !(strict && c.is(FlagClause::LEARNT)))
            .find(|(_, c)| match c.evaluate(model) {
                Some(sat) => !sat,
                None => strict,
            })
            .map(|(i, _)| ClauseId::from(i))
"""))
same("db-eval", (DB, """        let mut falsified = Some(false);
        for l in self.lits.iter() {
            match model[l.vi()] {
                Some(x) if x == bool::from(*l) => return Some(true),
                Some(_) => (),
                None => falsified = None,
            }
        }
        falsified
""", """        if self.lits.iter().any(|l| model[l.vi()] == Some(bool::from(*l))) {
            return Some(true);
        }
        if self.lits.iter().any(|l| model[l.vi()].is_none()) {
            None
        } else {
            Some(false)
        }
"""))
same("db-eval-open", (DB, """        let mut falsified = Some(false);
        for l in self.lits.iter() {
            match model[l.vi()] {
                Some(x) if x == bool::from(*l) => return Some(true),
                Some(_) => (),
                None => falsified = None,
            }
        }
        falsified
""", """        let mut open = false;
        for l in self.lits.iter() {
            let Some(x) = model[l.vi()] else {
                open = true;
                continue;
            };
            if x == bool::from(*l) {
                return Some(true);
            }
        }
        if open { None } else { Some(false) }
"""))
same("db-mini", (DB, """        if vec.len() <= 1 {
            return;
        }
        self.lbd_temp[0] += 1;
        let key = self.lbd_temp[0];
        for l in &vec[1..] {
            self.lbd_temp[l.vi() as usize] = key;
        }
        let l0 = vec[0];
""", """        let [l0, rest @ ..] = &vec[..] else {
            return;
        };
        if rest.is_empty() {
            return;
        }
        let l0 = *l0;
        self.lbd_temp[0] += 1;
        let key = self.lbd_temp[0];
        for l in rest {
            self.lbd_temp[l.vi() as usize] = key;
        }
"""))
same("db-mini-other", (DB, """            let c = &self.clause[NonZeroU32::get(cid.ordinal) as usize];
            debug_assert!(c[0] == l0 || c[1] == l0);
            let other = c[(c[0] == l0) as usize];
            let vi = other.vi();
            if self.lbd_temp[vi] == key && asg.assigned(other) == Some(true) {
                num_sat += 1;
                self.lbd_temp[vi] = key - 1;
            }
""", """            let c = &self.clause[NonZeroU32::get(cid.ordinal) as usize];
            let other = if c[0] == l0 { c[1] } else { c[0] };
            if self.lbd_temp[other.vi()] != key {
                continue;
            }
            if let Some(true) = asg.assigned(other) {
                self.lbd_temp[other.vi()] = key - 1;
                num_sat += 1;
            }
"""))
same("db-mini-flag", (DB, """        let mut num_sat = 0;
        for (_, cid)""", """        let mut found = false;
        for (_, cid)"""), (DB, """                num_sat += 1;
                self.lbd_temp[vi] = key - 1;
            }
        }
        if 0 < num_sat {""", """                found = true;
                self.lbd_temp[vi] = key - 1;
            }
        }
        if found {"""))
same("db-dump", (DB, """        let Ok(out) = File::create(fname) else {
            return;
        };
        let mut buf = std::io::BufWriter::new(out);""", """        let out = match File::create(fname) {
            Ok(f) => f,
            Err(_) => return,
        };
        let mut buf = std::io::BufWriter::new(out);"""))
same("db-dump-writeln", (DB, """            for l in c.iter() {
                buf.write_all(format!("{} ", i32::from(*l)).as_bytes())
                    .unwrap();
            }
            buf.write_all(b"0\\n").unwrap();
""", """            let mut line = String::new();
            for l in c.iter() {
                line.push_str(&i32::from(*l).to_string());
                line.push(' ');
            }
            line.push_str("0\\n");
            buf.write_all(line.as_bytes()).unwrap();
"""))
same("db-handle-newvar", (DB, """                self.binary_link.add_new_var();
                // for negated literal
                self.watch_cache.push(WatchCache::new());
                // for positive literal
                self.watch_cache.push(WatchCache::new());
                self.lbd_temp.push(0);""", """                for _ in 0..2 {
                    self.watch_cache.push(WatchCache::new());
                }
                self.lbd_temp.push(0);
                self.binary_link.add_new_var();"""))
same("db-inst", (DB, """        let mut watcher = Vec::with_capacity(2 * (nv + 1));
        for _ in 0..2 * (nv + 1) {
            watcher.push(WatchCache::new());
        }""", """        let watcher = (0..2 * (nv + 1)).map(|_| WatchCache::new()).collect::<Vec<_>>();"""))

# ---- eliminate.rs
same("el-guard", (EL, """    if asg.assign(vi).is_some() || w.aborted {
        return Ok(());
    }
""", """    if w.aborted {
        return Ok(());
    }
    if let Some(_) = asg.assign(vi) {
        return Ok(());
    }
"""))
same("el-skip-split", (EL, """    if *timedout < num_combination
        || skip_var_elimination(
            asg,
            cdb,
            &w.pos_occurs,
            &w.neg_occurs,
            vi,
            elim.eliminate_grow_limit,
        )
    {
        return Ok(());
    } else {
        *timedout -= num_combination;
    }
    let pos = w.pos_occurs.clone();
    let neg = w.neg_occurs.clone();
""", """    let pos = w.pos_occurs.clone();
    let neg = w.neg_occurs.clone();
    if num_combination > *timedout {
        return Ok(());
    }
    if skip_var_elimination(asg, cdb, &pos, &neg, vi, elim.eliminate_grow_limit) {
        return Ok(());
    }
    *timedout -= num_combination;
"""))
same("el-remove-chain", (EL, """    for cid in pos.iter() {
        if cdb[*cid].is_dead() {
            continue;
        }
        elim.remove_cid_occur(asg, *cid, &mut cdb[*cid]);
        cdb.remove_clause(*cid);
    }
    for cid in neg.iter() {
        if cdb[*cid].is_dead() {
            continue;
        }
        elim.remove_cid_occur(asg, *cid, &mut cdb[*cid]);
        cdb.remove_clause(*cid);
    }
""", """    for cid in pos.iter().chain(neg.iter()).copied() {
        if !cdb[cid].is_dead() {
            elim.remove_cid_occur(asg, cid, &mut cdb[cid]);
            cdb.remove_clause(cid);
        }
    }
"""))
same("el-remove-fn", (EL, """/// returns `true` if elimination is impossible.
""", """fn discard(asg: &mut impl AssignIF, cdb: &mut impl ClauseDBIF, elim: &mut Eliminator, ids: &[ClauseId]) {
    for cid in ids {
        if cdb[*cid].is_dead() {
            continue;
        }
        elim.remove_cid_occur(asg, *cid, &mut cdb[*cid]);
        cdb.remove_clause(*cid);
    }
}

/// returns `true` if elimination is impossible.
"""), (EL, """    for cid in pos.iter() {
        if cdb[*cid].is_dead() {
            continue;
        }
        elim.remove_cid_occur(asg, *cid, &mut cdb[*cid]);
        cdb.remove_clause(*cid);
    }
    for cid in neg.iter() {
        if cdb[*cid].is_dead() {
            continue;
        }
        elim.remove_cid_occur(asg, *cid, &mut cdb[*cid]);
        cdb.remove_clause(*cid);
    }
""", """    discard(asg, cdb, elim, &pos);
    discard(asg, cdb, elim, &neg);
"""))
same("el-save-late", (EL, """    make_eliminated_clauses(cdb, &mut elim.elim_lits, vi, &pos, &neg);
""", ""), (EL, """    debug_assert!(pos.iter().all(|cid| !cdb[*cid].is_dead()));
    debug_assert!(neg.iter().all(|cid| !cdb[*cid].is_dead()));
""", """    make_eliminated_clauses(cdb, &mut elim.elim_lits, vi, &pos, &neg);
"""))
same("el-assert-fn", (EL, """/// returns `true` if elimination is impossible.
""", """fn assert_unit(asg: &mut impl AssignIF, cdb: &mut impl ClauseDBIF, lit: Lit) -> MaybeInconsistent {
    if let Some(value) = asg.assigned(lit) {
        if value {
            return Ok(());
        }
        return Err(SolverError::RootLevelConflict((lit, asg.reason(lit.vi()))));
    }
    cdb.certificate_add_assertion(lit);
    asg.assign_at_root_level(lit)
}

/// returns `true` if elimination is impossible.
"""), (EL, """                    match asg.assigned(lit) {
                        Some(true) => (),
                        Some(false) => {
                            return Err(SolverError::RootLevelConflict((
                                lit,
                                asg.reason(lit.vi()),
                            )));
                        }
                        None => {
                            debug_assert!(asg.assigned(lit).is_none());
                            cdb.certificate_add_assertion(lit);
                            asg.assign_at_root_level(lit)?;
                        }
                    }
""", """                    assert_unit(asg, cdb, lit)?;
"""))
same("el-new-iflet", (EL, """                    match cdb.new_clause(asg, vec, learnt_p && cdb[*n].is(FlagClause::LEARNT)) {
                        RefClause::Clause(ci) => {
                            // the merged clause might be a duplicated clause.
                            elim.add_cid_occur(asg, ci, &mut cdb[ci], true);

                            #[cfg(feature = "trace_elimination")]
                            println!(
                                " - eliminate_var {}: X {} from {} and {}",
                                vi, cdb[ci], cdb[*p], cdb[*n],
                            );
                        }
                        RefClause::Dead => (),
                        RefClause::EmptyClause => (),
                        RefClause::RegisteredClause(_) => (),
                        RefClause::UnitClause(_) => (),
                    }
""", """                    let learnt = cdb[*p].is(FlagClause::LEARNT) && cdb[*n].is(FlagClause::LEARNT);
                    if let RefClause::Clause(ci) = cdb.new_clause(asg, vec, learnt) {
                        elim.add_cid_occur(asg, ci, &mut cdb[ci], true);
                    }
"""))
same("el-merge-loop", (EL, """    let mut lits = pb
        .iter()
        .filter(|l| l.vi() != vi && !qb.contains(**l))
        .copied()
        .collect::<Vec<_>>();
    lits.append(
        &mut qb
            .iter()
            .filter(|l| l.vi() != vi)
            .copied()
            .collect::<Vec<_>>(),
    );
    std::mem::swap(&mut lits, vec);
""", """    for l in pb.iter() {
        if l.vi() != vi && !qb.contains(*l) {
            vec.push(*l);
        }
    }
    vec.extend(qb.iter().filter(|l| l.vi() != vi));
"""))
same("el-merge-taut", (EL, """    if pb.iter().filter(|l| l.vi() != vi).any(|l| qb.contains(!*l)) {
        return 0;
    }
""", """    for l in pb.iter() {
        if l.vi() != vi && qb.contains(!*l) {
            return 0;
        }
    }
"""))
same("el-merge-match", (EL, """            match merge(asg, cdb, *p, *n, vi, vec) {
                0 => {""", """            let size = merge(asg, cdb, *p, *n, vi, vec);
            match size {
                0 => {"""))
same("el-save-one", (EL, """    if neg.len() < pos.len() {
        for cid in neg {
            debug_assert!(!cdb[*cid].is_dead());
            make_eliminated_clause(cdb, store, v, *cid);
        }
        make_eliminating_unit_clause(store, Lit::from((v, true)));
    } else {
        for cid in pos {
            debug_assert!(!cdb[*cid].is_dead());
            make_eliminated_clause(cdb, store, v, *cid);
        }
        make_eliminating_unit_clause(store, Lit::from((v, false)));
    }
""", """    let (side, phase) = if neg.len() < pos.len() { (neg, true) } else { (pos, false) };
    for cid in side {
        make_eliminated_clause(cdb, store, v, *cid);
    }
    make_eliminating_unit_clause(store, Lit::from((v, phase)));
"""))
same("el-save-order", (EL, """    for l in c.iter() {
        store.push(*l);
        if l.vi() == vi {
            let index = store.len() - 1;
            debug_assert_eq!(store[index], *l);
            debug_assert_eq!(store[index].vi(), vi);
            // swap the first literal with the 'v'. So that the literal containing 'v' will occur first in the clause.
            store.swap(index, first);
        }
    }
""", """    store.extend(c.iter());
    for index in first..store.len() {
        if store[index].vi() == vi {
            store.swap(index, first);
            break;
        }
    }
"""))
same("el-save-two", (EL, """    for l in c.iter() {
        store.push(*l);
        if l.vi() == vi {
            let index = store.len() - 1;
            debug_assert_eq!(store[index], *l);
            debug_assert_eq!(store[index].vi(), vi);
            // swap the first literal with the 'v'. So that the literal containing 'v' will occur first in the clause.
            store.swap(index, first);
        }
    }
""", """    store.extend(c.iter().filter(|l| l.vi() == vi).copied());
    store.extend(c.iter().filter(|l| l.vi() != vi).copied());
"""))
same("el-skip-iter", (EL, """            if let Some(clause_size) = merge_cost(asg, cdb, *c_pos, *c_neg, v) {
                if clause_size == 0 {
                    continue;
                }
                cnt += 1;
                average_len *= 1.0 - scale;
                average_len += scale * clause_size as f64;
                if clslen + limit < cnt || COMBINATION_LIMIT < average_len {
                    return true;
                }
            } else {
                debug_assert!(false, "impossible");
            }
""", """            let Some(clause_size) = merge_cost(asg, cdb, *c_pos, *c_neg, v) else {
                continue;
            };
            if clause_size > 0 {
                cnt += 1;
                average_len = (1.0 - scale) * average_len + scale * clause_size as f64;
                if cnt > clslen + limit || average_len > COMBINATION_LIMIT {
                    return true;
                }
            }
"""))

# ---- simplify.rs, subsume.rs
same("si-prepare-nest", (SI, """            if c.is_dead() || c.is(FlagClause::OCCUR_LINKED) {
                continue;
            }
            let vec = c.iter().copied().collect::<Vec<_>>();
            debug_assert!(vec.iter().all(|l| !vec.contains(&!*l)));
            self.add_cid_occur(asg, ClauseId::from(cid), c, false);
""", """            if !c.is_dead() && !c.is(FlagClause::OCCUR_LINKED) {
                self.add_cid_occur(asg, ClauseId::from(cid), c, false);
            }
"""))
same("si-prepare-range", (SI, """        for (cid, c) in &mut cdb.iter_mut().enumerate().skip(1) {
            if c.is_dead() || c.is(FlagClause::OCCUR_LINKED) {
                continue;
            }
            let vec = c.iter().copied().collect::<Vec<_>>();
            debug_assert!(vec.iter().all(|l| !vec.contains(&!*l)));
            self.add_cid_occur(asg, ClauseId::from(cid), c, false);
        }
""", """        for i in 1..cdb.len() {
            let cid = ClauseId::from(i);
            let c = &mut cdb[cid];
            if c.is_dead() || c.is(FlagClause::OCCUR_LINKED) {
                continue;
            }
            self.add_cid_occur(asg, cid, c, false);
        }
"""))
same("si-prepare-vars", (SI, """                if asg.var(vi).is(FlagVar::ELIMINATED) || asg.assign(vi).is_some() {
                    continue;
                }
                self.enqueue_var(asg, vi, true);
""", """                let free = asg.assign(vi).is_none() && !asg.var(vi).is(FlagVar::ELIMINATED);
                if free {
                    self.enqueue_var(asg, vi, true);
                }
"""))
same("si-enqueue", (SI, """        let w = &mut self[vi];
        if !asg.var(vi).is(FlagVar::ENQUEUED) && w.activity() < self.eliminate_occurrence_limit {
            asg.var_mut(vi).turn_on(FlagVar::ENQUEUED);
            self.var_queue.insert(&self.var, vi, upward);
        }
""", """        if asg.var(vi).is(FlagVar::ENQUEUED) {
            return;
        }
        if self.eliminate_occurrence_limit <= self[vi].activity() {
            return;
        }
        self.var_queue.insert(&self.var, vi, upward);
        asg.var_mut(vi).turn_on(FlagVar::ENQUEUED);
"""))
same("si-add-lists", (SI, """                if bool::from(*l) {
                    debug_assert!(
                        !w.pos_occurs.contains(&cid),
                        "elim.add_cid_occur for {:?} found a strange positive clause{}{}, {:?}",
                        v,
                        cid,
                        c,
                        w.pos_occurs,
                    );
                    w.pos_occurs.push(cid);
                } else {
                    debug_assert!(
                        !w.neg_occurs.contains(&cid),
                        "elim.add_cid_occur for {:?} found a strange negative clause{}{}, {:?}",
                        v,
                        cid,
                        c,
                        w.pos_occurs,
                    );
                    w.neg_occurs.push(cid);
                }
""", """                let list = if bool::from(*l) {
                    &mut w.pos_occurs
                } else {
                    &mut w.neg_occurs
                };
                list.push(cid);
"""))
same("si-simplify-else", (SI, """        if self.enable {
            if !force_run && self.mode == EliminatorMode::Dormant {""", """        if !self.enable {
            asg.propagate_sandbox(cdb)
                .map_err(SolverError::RootLevelConflict)?;
        } else {
            if !force_run && self.mode == EliminatorMode::Dormant {"""), (SI, """            self.eliminate(asg, cdb, state)?;
        } else {
            asg.propagate_sandbox(cdb)
                .map_err(SolverError::RootLevelConflict)?;
        }
""", """            self.eliminate(asg, cdb, state)?;
        }
"""))
same("si-simplify-size", (SI, """        cdb.check_size().map(|_| ())
    }
    fn sorted""", """        cdb.check_size()?;
        Ok(())
    }
    fn sorted"""))
same("si-simplify-match", (SI, """            self.eliminate(asg, cdb, state)?;
        } else {
            asg.propagate_sandbox(cdb)
                .map_err(SolverError::RootLevelConflict)?;
        }
""", """            self.eliminate(asg, cdb, state)?;
        } else if let Err(cc) = asg.propagate_sandbox(cdb) {
            return Err(SolverError::RootLevelConflict(cc));
        }
"""))
same("si-stop", (SI, """        let force: bool = true;
        self.clear_clause_queue(cdb);
        self.clear_var_queue(asg);
        if force {
            for c in &mut cdb.iter_mut().skip(1) {
                c.turn_off(FlagClause::OCCUR_LINKED);
            }
            for w in &mut self[1..] {
                w.clear();
            }
        }
        self.mode = EliminatorMode::Dormant;
""", """        self.mode = EliminatorMode::Dormant;
        self.clear_var_queue(asg);
        self.clear_clause_queue(cdb);
        self[1..].iter_mut().for_each(|w| w.clear());
        cdb.iter_mut()
            .skip(1)
            .for_each(|c| c.turn_off(FlagClause::OCCUR_LINKED));
"""))
same("si-back-best-fn", (SI, """    /// run clause subsumption and variable elimination.
""", """    fn rarest(&self, asg: &impl AssignIF, c: &Clause, limit: usize) -> VarId {
        let mut best = 0;
        let mut least = limit;
        for l in c.iter() {
            let vi = l.vi();
            let w = &self[vi];
            if asg.assign(vi).is_some() || w.aborted || asg.var(vi).is(FlagVar::ELIMINATED) {
                continue;
            }
            let n = if bool::from(*l) { w.neg_occurs.len() } else { w.pos_occurs.len() };
            if n < least {
                best = vi;
                least = n;
            }
        }
        best
    }
    /// run clause subsumption and variable elimination.
"""), (SI, """                    let mut tmp = cdb.derefer(cdb::property::Tusize::NumClause);
                    let c = &mut cdb[cid];""", """                    let tmp = cdb.derefer(cdb::property::Tusize::NumClause);
                    let c = &mut cdb[cid];"""), (SI, """                    let mut b = 0;
                    for l in c.iter() {
                        let v = &asg.var(l.vi());
                        let w = &self[l.vi()];
                        if asg.assign(l.vi()).is_some() || w.aborted {
                            continue;
                        }
                        let num_sum = if bool::from(*l) {
                            w.neg_occurs.len()
                        } else {
                            w.pos_occurs.len()
                        };
                        if !v.is(FlagVar::ELIMINATED) && num_sum < tmp {
                            b = l.vi();
                            tmp = num_sum;
                        }
                    }
                    b
""", """                    self.rarest(asg, &cdb[cid], tmp)
"""))
same("si-back-chain", (SI, """                for cls in [self[best].pos_occurs.clone(), self[best].neg_occurs.clone()].iter() {
                    for did in cls.iter() {
                        if *did == cid {
                            continue;
                        }
                        let d = &cdb[*did];
                        if d.len() <= *timedout {
                            *timedout -= d.len();
                        } else {
                            *timedout = 0;
                            return Ok(());
                        }
                        if !d.is_dead() && d.len() <= self.subsume_literal_limit {
                            debug_assert!(
                                d.contains(Lit::from((best, false)))
                                    || d.contains(Lit::from((best, true)))
                            );
                            self.try_subsume(asg, cdb, cid, *did)?;
                        }
                    }
                }
""", """                let mut candidates = self[best].pos_occurs.clone();
                candidates.extend(self[best].neg_occurs.iter().copied());
                for did in candidates {
                    if did == cid {
                        continue;
                    }
                    let len = cdb[did].len();
                    if *timedout < len {
                        *timedout = 0;
                        return Ok(());
                    }
                    *timedout -= len;
                    if cdb[did].is_dead() || self.subsume_literal_limit < len {
                        continue;
                    }
                    self.try_subsume(asg, cdb, cid, did)?;
                }
"""))
same("si-back-push", (SI, """            if self.clause_queue.is_empty() && self.bwdsub_assigns < asg.stack_len() {
                let c = ClauseId::from(asg.stack(self.bwdsub_assigns));
                self.clause_queue.push(c);
                self.bwdsub_assigns += 1;
            }
            if let Some(cid) = self.clause_queue.pop() {""", """            let next = match self.clause_queue.pop() {
                Some(cid) => Some(cid),
                None if self.bwdsub_assigns < asg.stack_len() => {
                    self.bwdsub_assigns += 1;
                    Some(ClauseId::from(asg.stack(self.bwdsub_assigns - 1)))
                }
                None => None,
            };
            if let Some(cid) = next {"""))
same("si-loop", (SI, """            if na == asg.stack_len()
                && (!self.is_running()
                    || (0 == self.clause_queue_len() && 0 == self.var_queue_len()))
            {
                break;
            }
            if 0.1""", """            let quiet = asg.stack_len() == na;
            let idle = self.clause_queue_len() == 0 && self.var_queue_len() == 0;
            if quiet && (idle || !self.is_running()) {
                break;
            }
            if 0.1"""))
same("si-main-var", (SI, """                let v = asg.var_mut(vi);
                v.turn_off(FlagVar::ENQUEUED);
                if !v.is(FlagVar::ELIMINATED) && asg.assign(vi).is_none() {
                    eliminate_var(asg, cdb, self, state, vi, &mut timedout)?;
                }
""", """                asg.var_mut(vi).turn_off(FlagVar::ENQUEUED);
                if asg.var(vi).is(FlagVar::ELIMINATED) || asg.assign(vi).is_some() {
                    continue;
                }
                eliminate_var(asg, cdb, self, state, vi, &mut timedout)?;
"""))
same("si-rm-list", (SI, """        if bool::from(l) {
            debug_assert_eq!(w.pos_occurs.iter().filter(|&c| *c == cid).count(), 1);
            w.pos_occurs.delete_unstable(|&c| c == cid);
            debug_assert!(!w.pos_occurs.contains(&cid));
        } else {
            debug_assert_eq!(w.neg_occurs.iter().filter(|&c| *c == cid).count(), 1);
            w.neg_occurs.delete_unstable(|&c| c == cid);
            debug_assert!(!w.neg_occurs.contains(&cid));
        }
""", """        match bool::from(l) {
            true => w.pos_occurs.retain(|&c| c != cid),
            false => w.neg_occurs.retain(|&c| c != cid),
        }
"""))
same("si-qclear", (SI, """        for cid in &self.clause_queue {
            cdb[*cid].turn_off(FlagClause::ENQUEUED);
        }
        self.clause_queue.clear();
""", """        while let Some(cid) = self.clause_queue.pop() {
            cdb[cid].turn_off(FlagClause::ENQUEUED);
        }
"""))
same("si-qdrain", (SI, """        for cid in &self.clause_queue {
            cdb[*cid].turn_off(FlagClause::ENQUEUED);
        }
        self.clause_queue.clear();
""", """        for cid in self.clause_queue.drain(..) {
            cdb[cid].turn_off(FlagClause::ENQUEUED);
        }
"""))
same("su-all", (SU, """    'next: for l in ch.iter() {
        for lo in ob.iter() {
            if *l == *lo {
                continue 'next;
                // } else if ret == Subsumable::Success && *l == !*lo {
                //     ret = Subsumable::By(*l);
                //     continue 'next;
            }
        }
        return Subsumable::None;
    }
    Subsumable::Success
""", """    if ch.iter().all(|l| ob.contains(*l)) {
        Subsumable::Success
    } else {
        Subsumable::None
    }
"""))
same("su-any", (SU, """        for lo in oh.iter() {
            if l == !*lo {
                return Subsumable::By(l);
            }
        }
        return Subsumable::None;
""", """        return if oh.contains(!l) {
            Subsumable::By(l)
        } else {
            Subsumable::None
        };
"""))
same("su-learnt", (SU, """                if !cdb[did].is(FlagClause::LEARNT) {
                    cdb.make_permanent(cid);
                }
                self.remove_cid_occur""", """                let original = !cdb[did].is(FlagClause::LEARNT);
                if original && cdb[cid].is(FlagClause::LEARNT) {
                    cdb.make_permanent(cid);
                }
                self.remove_cid_occur"""))
same("su-str-order", (SU, """            cdb.certificate_add_assertion(l0);
            elim.remove_cid_occur(asg, cid, &mut cdb[cid]);
            cdb.remove_clause(cid);
            match asg.assigned(l0) {
                None => asg.assign_at_root_level(l0),
                Some(true) => Ok(()),
                Some(false) => Err(SolverError::RootLevelConflict((l0, asg.reason(l0.vi())))),
            }
""", """            elim.remove_cid_occur(asg, cid, &mut cdb[cid]);
            cdb.certificate_add_assertion(l0);
            cdb.remove_clause(cid);
            if let Some(value) = asg.assigned(l0) {
                if value {
                    return Ok(());
                }
                return Err(SolverError::RootLevelConflict((l0, asg.reason(l0.vi()))));
            }
            asg.assign_at_root_level(l0)
"""))

# ---- propagate.rs
same("pr-root-first", (PR, """        self.var[vi].level = self.root_level;
        match var_assign!(self, vi) {
            None => {
                set_assign!(self, l);
                debug_assert!(!self.trail.contains(&!l));
                self.trail.push(l);
                self.make_var_asserted(vi);
                Ok(())
            }
            Some(x) if x == bool::from(l) => {
                #[cfg(feature = "boundary_check")]
                panic!("double assignment(assertion)");
                #[cfg(not(feature = "boundary_check"))]
                // Vivification tries to assign a var by propagation then can assert it.
                // To make sure the var is asserted, we need to nullify its reason.
                // || self.reason[vi] = AssignReason::None;
                // self.make_var_asserted(vi);
                Ok(())
            }
            _ => Err(SolverError::RootLevelConflict((l, self.var[l.vi()].reason))),
        }
""", """        self.var[vi].level = self.root_level;
        let Some(x) = var_assign!(self, vi) else {
            self.var[vi].assign = Some(bool::from(l));
            self.make_var_asserted(vi);
            self.trail.push(l);
            return Ok(());
        };
        if x != bool::from(l) {
            return Err(SolverError::RootLevelConflict((l, self.var[vi].reason)));
        }
        #[cfg(feature = "boundary_check")]
        panic!("double assignment(assertion)");
        #[cfg(not(feature = "boundary_check"))]
        Ok(())
"""))
same("pr-imp-order", (PR, """        set_assign!(self, l);

        self.var[vi].level = lv;
        self.var[vi].reason = reason;
        self.reward_at_assign(vi);
        debug_assert!(!self.trail.contains(&l));
        debug_assert!(!self.trail.contains(&!l));
        self.trail.push(l);
        if self.root_level == lv {
            self.make_var_asserted(vi);
        }
""", """        {
            let v = &mut self.var[vi];
            v.assign = Some(bool::from(l));
            v.reason = reason;
            v.level = lv;
        }
        self.trail.push(l);
        self.reward_at_assign(vi);
        if lv == self.root_level {
            self.make_var_asserted(vi);
        }
"""))
same("pr-dec-order", (PR, """        self.level_up();
        let dl = self.trail_lim.len() as DecisionLevel;
        let vi = l.vi();
        let v = &mut self.var[vi];
        v.level = dl;
        debug_assert!(!v.is(FlagVar::ELIMINATED));
        debug_assert_eq!(self.var[vi].assign, None);
        debug_assert_eq!(self.var[vi].reason, AssignReason::None);
        set_assign!(self, l);
        self.var[vi].reason = AssignReason::Decision(self.decision_level());
        self.reward_at_assign(vi);
        self.trail.push(l);
        self.num_decision += 1;
""", """        self.num_decision += 1;
        self.trail_lim.push(self.trail.len());
        let dl = self.decision_level();
        let vi = l.vi();
        let v = &mut self.var[vi];
        v.assign = Some(bool::from(l));
        v.level = dl;
        v.reason = AssignReason::Decision(dl);
        self.trail.push(l);
        self.reward_at_assign(vi);
"""))
same("pr-cancel-pop", (PR, """            unset_assign!(self, vi);
            self.var[vi].reason = AssignReason::None;

            #[cfg(not(feature = "trail_saving"))]
            {
                self.reward_at_unassign(vi);
                self.insert_heap(vi);
            }
        }
        self.trail.truncate(lim);
        // moved""", """            let v = &mut self.var[vi];
            v.reason = AssignReason::None;
            v.assign = None;

            #[cfg(not(feature = "trail_saving"))]
            {
                self.reward_at_unassign(vi);
                self.insert_heap(vi);
            }
        }
        self.trail.drain(lim..);
        // moved"""))
same("pr-cancel-slice", (PR, """        for i in lim..self.trail.len() {
            let l = self.trail[i];
            debug_assert!(
                self.var[l.vi()].assign.is_some(),""", """        let undone: Vec<Lit> = self.trail[lim..].to_vec();
        for l in undone {
            debug_assert!(
                self.var[l.vi()].assign.is_some(),"""))
same("pr-cancel-qhead", (PR, """        self.q_head = self.trail.len().min(self.q_head);

        #[cfg(feature = "chrono_BT")]
        self.trail.append""", """        if self.trail.len() < self.q_head {
            self.q_head = self.trail.len();
        }

        #[cfg(feature = "chrono_BT")]
        self.trail.append"""))
same("pr-sandbox-bt", (PR, """        for i in lim..self.trail.len() {
            let l = self.trail[i];
            let vi = l.vi();
            debug_assert!(self.root_level < self.var[vi].level);
            unset_assign!(self, vi);
            self.var[vi].reason = AssignReason::None;
            self.insert_heap(vi);
        }
        self.trail.truncate(lim);
        self.trail_lim.truncate(self.root_level as usize);
        self.q_head = self.trail.len();
""", """        while lim < self.trail.len() {
            let Some(l) = self.trail.pop() else {
                break;
            };
            let vi = l.vi();
            unset_assign!(self, vi);
            self.var[vi].reason = AssignReason::None;
            self.insert_heap(vi);
        }
        self.q_head = lim;
        self.trail_lim.truncate(self.root_level as usize);
"""))
same("pr-asserted-loop", (PR, """        loop {
            if self.remains() {
                self.propagate_sandbox(cdb)
                    .map_err(SolverError::RootLevelConflict)?;
            }
            self.propagate_at_root_level(cdb)?;
            if self.remains() {
                self.propagate_sandbox(cdb)
                    .map_err(SolverError::RootLevelConflict)?;
            } else {
                break;
            }
        }
        // wipe asserted literals from trail and increment the number of asserted vars.
        self.num_asserted_vars += self.trail.len();
        self.trail.clear();
        self.q_head = 0;
        Ok(())
""", """        loop {
            if self.remains() {
                self.propagate_sandbox(cdb)
                    .map_err(SolverError::RootLevelConflict)?;
            }
            self.propagate_at_root_level(cdb)?;
            if !self.remains() {
                break;
            }
        }
        let asserted = self.trail.len();
        self.trail.clear();
        self.q_head = 0;
        self.num_asserted_vars += asserted;
        Ok(())
"""))
same("pr-rootprop-iflet", (PR, """                match cdb.transform_by_simplification(self, cid) {
                    RefClause::Clause(_) => (),
                    RefClause::Dead => (), // was a satisfied clause
                    RefClause::EmptyClause => return Err(SolverError::EmptyClause),
                    RefClause::RegisteredClause(_) => (),
                    RefClause::UnitClause(lit) => {
                        debug_assert!(self.assigned(lit).is_none());
                        cdb.certificate_add_assertion(lit);
                        self.assign_at_root_level(lit)?;
                        cdb.remove_clause(cid);
                    }
                }
""", """                let result = cdb.transform_by_simplification(self, cid);
                if let RefClause::EmptyClause = result {
                    return Err(SolverError::EmptyClause);
                }
                if let RefClause::UnitClause(lit) = result {
                    cdb.certificate_add_assertion(lit);
                    cdb.remove_clause(cid);
                    self.assign_at_root_level(lit)?;
                }
"""))
same("pr-while", (PR, """        while let Some(p) = self.trail.get(self.q_head) {
            self.num_propagation += 1;
            self.q_head += 1;
            #[cfg(feature = "debug_propagation")]
            {""", """        while self.q_head < self.trail.len() {
            let p = &self.trail[self.q_head];
            self.q_head += 1;
            self.num_propagation += 1;
            #[cfg(feature = "debug_propagation")]
            {"""))
same("pr-bin-if", (PR, """                match lit_assign!(self, blocker) {
                    Some(true) => (),
                    Some(false) => {
                        check_in!(cid, Propagate::EmitConflict(self.num_conflict + 1, blocker));
                        conflict_path!(blocker, minimized_reason!(propagating));
                    }
                    None => {
                        debug_assert!(cdb[cid].lit0() == false_lit || cdb[cid].lit1() == false_lit);
                        self.assign_by_implication(
                            blocker,
                            minimized_reason!(propagating),
                            if cfg!(feature = "chrono_BT") {
                                self.var[propagating.vi()].level
                            } else {
                                dl
                            },
                        );
                    }
                }
""", """                let value = lit_assign!(self, blocker);
                if value == Some(true) {
                    continue;
                }
                if value == Some(false) {
                    check_in!(cid, Propagate::EmitConflict(self.num_conflict + 1, blocker));
                    conflict_path!(blocker, minimized_reason!(propagating));
                }
                let _ = cid;
                let lv = if cfg!(feature = "chrono_BT") {
                    self.var[propagating.vi()].level
                } else {
                    dl
                };
                self.assign_by_implication(blocker, minimized_reason!(propagating), lv);
"""))
same("pr-watchpos", (PR, """                    let (false_watch_pos, other) = if false_lit == lit1 {
                        (1, lit0)
                    } else {
                        (0, lit1)
                    };

                    if cached != other {
                        cached = other;
                        other_watch_value = lit_assign!(self, other);
                        if Some(true) == other_watch_value {
                            debug_assert!(!self.var[other.vi()]""", """                    let false_watch_pos = (false_lit == lit1) as usize;
                    let other = if false_watch_pos == 1 { lit0 } else { lit1 };

                    if cached != other {
                        cached = other;
                        other_watch_value = lit_assign!(self, other);
                        if Some(true) == other_watch_value {
                            debug_assert!(!self.var[other.vi()]"""))
same("pr-find", (PR, """                    for (k, lk) in c
                        .iter()
                        .enumerate()
                        .skip(start as usize)
                        .chain(c.iter().enumerate().skip(2).take(start as usize - 2))
                    {
                        if lit_assign!(self, *lk) != Some(false) {
                            let new_watch = !*lk;
                            cdb.detach_watch_cache(propagating, &mut source);
                            cdb.transform_by_updating_watch(cid, false_watch_pos, k, true);
                            cdb[cid].search_from = (k + 1).min(u16::MAX as usize) as u16;
                            debug_assert_ne!(self.assigned(new_watch), Some(true));
                            check_in!(
                                cid,
                                Propagate::FindNewWatch(self.num_conflict, propagating, new_watch)
                            );
                            continue 'next_clause;
                        }
                    }
""", """                    let found = c
                        .iter()
                        .enumerate()
                        .skip(start as usize)
                        .chain(c.iter().enumerate().skip(2).take(start as usize - 2))
                        .find(|(_, lk)| self.assigned(**lk) != Some(false))
                        .map(|(k, _)| k);
                    if let Some(k) = found {
                        cdb.detach_watch_cache(propagating, &mut source);
                        cdb.transform_by_updating_watch(cid, false_watch_pos, k, true);
                        cdb[cid].search_from = (k + 1).min(u16::MAX as usize) as u16;
                        continue 'next_clause;
                    }
"""))
