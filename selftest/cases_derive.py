"""Derived clauses: bugs and rewrites of the places that leave literals out."""
from cases import bug, same
VV = "src/cdb/vivify.rs"
EL = "src/processor/eliminate.rs"
SB = "src/processor/subsume.rs"
SI = "src/processor/simplify.rs"
DB = "src/cdb/db.rs"
CO = "src/solver/conflict.rs"
# -- resolution
bug("p33-merge-skip", "P33", (EL, "        .filter(|l| l.vi() != vi && !qb.contains(**l))", "        .skip(pb.len() / 64).filter(|l| l.vi() != vi && !qb.contains(**l))"))
bug("p33-merge-neg", "P33", (EL, "        .filter(|l| l.vi() != vi && !qb.contains(**l))", "        .filter(|l| l.vi() != vi && !qb.contains(!**l) && !qb.contains(**l) && !asg.assigned(**l).is_some_and(|b| !b))"))
bug("p33-merge-one", "P33", (EL, "            .filter(|l| l.vi() != vi)\n            .copied()\n            .collect::<Vec<_>>(),", "            .filter(|l| l.vi() != vi && !pb.contains(**l))\n            .copied()\n            .collect::<Vec<_>>(),"))
bug("p33-merge-take", "P33", (EL, "            .filter(|l| l.vi() != vi)\n            .copied()\n            .collect::<Vec<_>>(),", "            .filter(|l| l.vi() != vi)\n            .take(255)\n            .copied()\n            .collect::<Vec<_>>(),"))
bug("p33-merge-taut", "P33", (EL, "any(|l| qb.contains(!*l))", "any(|l| qb.iter().any(|m| m.vi() == l.vi()) && 8 < qb.len())"))
bug("p33-merge-taut-vi", "P33", (EL, "    if pb.iter().filter(|l| l.vi() != vi).any(|l| qb.contains(!*l)) {", "    if 16 < qb.len() && pb.iter().any(|l| qb.contains(!*l)) {"))
bug("p33-merge-elim", "P33", (EL, "            .filter(|l| l.vi() != vi)\n            .copied()\n            .collect::<Vec<_>>(),", "            .filter(|l| l.vi() != vi && !asg.var(l.vi()).is(FlagVar::ELIMINATED))\n            .copied()\n            .collect::<Vec<_>>(),"))
# -- dropping one literal
bug("p33-drop-var", "P33", (DB, "            .filter(|&l| *l != p)\n", "            .filter(|&l| l.vi() != p.vi())\n"))
bug("p33-drop-unit", "P33", (DB, "            if lits[0] == p {\n                lits.swap(0, 1);\n            }\n            return RefClause::UnitClause(lits[0]);", "            if lits[0] != p {\n                lits.swap(0, 1);\n            }\n            return RefClause::UnitClause(lits[0]);"))
bug("p33-strengthen-lit", "P33", (SB, "strengthen_clause(asg, cdb, self, did, !l)?;", "strengthen_clause(asg, cdb, self, did, if cdb[did].contains(l) { l } else { !l })?;"))
bug("p33-strengthen-merge", "P33", (SB, "    'next: for l in ch.iter() {\n        for lo in ob.iter() {\n            if *l == *lo {", "    let last = ch.iter().find(|l| ob.contains(!**l)).copied();\n    if let Some(l) = last {\n        if ch.iter().all(|m| *m == l || ob.contains(*m)) || ch.len() == 3 && ob.len() == 3 {\n            return Subsumable::By(l);\n        }\n    }\n    'next: for l in ch.iter() {\n        for lo in ob.iter() {\n            if *l == *lo {"))
bug("p33-lifted-any", "P33", (SB, "            if l == !*lo {\n                return Subsumable::By(l);", "            if l.vi() == lo.vi() {\n                return Subsumable::By(l);"))
bug("p33-lift-decision", "P33", (SI, "ClauseId::from(asg.stack(self.bwdsub_assigns))", "ClauseId::from(!asg.stack(self.bwdsub_assigns))"))
# -- root simplification
bug("p33-simp-sat", "P33", (DB, "                Some(true) => {\n                    self.remove_clause(cid);\n                    return RefClause::Dead;\n                }\n                Some(false) => {", "                Some(true) if asg.level(l.vi()) == asg.root_level() => {\n                    self.remove_clause(cid);\n                    return RefClause::Dead;\n                }\n                Some(_) => {"))
bug("p33-simp-phase", "P33", (DB, "            .filter(|l| asg.assigned(**l).is_none() && !asg.var(l.vi()).is(FlagVar::ELIMINATED))", "            .filter(|l| asg.assigned(**l).is_none() && !asg.var(l.vi()).is(FlagVar::ELIMINATED) && !(asg.var(l.vi()).is(FlagVar::PHASE) && asg.reason(l.vi()) != AssignReason::None))"))
bug("p33-simp-take", "P33", (DB, "            .filter(|l| asg.assigned(**l).is_none() && !asg.var(l.vi()).is(FlagVar::ELIMINATED))\n            .copied()", "            .filter(|l| asg.assigned(**l).is_none() && !asg.var(l.vi()).is(FlagVar::ELIMINATED))\n            .take(u16::MAX as usize)\n            .copied()"))
bug("p33-simp-dedup", "P33", (DB, "        match new_lits.len() {\n            0 => RefClause::EmptyClause, ", "        new_lits.dedup_by_key(|l| l.vi() / 2);\n        match new_lits.len() {\n            0 => RefClause::EmptyClause, "))
bug("p33-simp-unit", "P33", (DB, "            1 => RefClause::UnitClause(new_lits[0]), //## Case:1", "            1 => RefClause::UnitClause(c.lits[0]), //## Case:1"))
# -- minimisation with binary clauses
bug("p33-min-sat", "P33", (DB, "self.lbd_temp[vi] == key && asg.assigned(other) == Some(true)", "self.lbd_temp[vi] == key && asg.assigned(other).is_some()"))
bug("p33-min-false", "P33", (DB, "self.lbd_temp[vi] == key && asg.assigned(other) == Some(true)", "self.lbd_temp[vi] == key && asg.assigned(other) == Some(false)"))
bug("p33-min-link", "P33", (DB, "self.binary_link.connect_with(l0).iter()", "self.binary_link.connect_with(!l0).iter()"))
bug("p33-min-same", "P33", (DB, "let other = c[(c[0] == l0) as usize];", "let other = c[(c[0] != l0) as usize];"))
bug("p33-min-l0", "P33", (DB, "            self.lbd_temp[l0.vi()] = key;\n            vec.retain", "            vec.retain"))
bug("p33-min-key", "P33", (DB, "        self.lbd_temp[0] += 1;\n        let key = self.lbd_temp[0];\n        for l in &vec[1..] {", "        let key = self.lbd_temp[0];\n        for l in &vec[1..] {"))
bug("p33-min-from2", "P33", (DB, "        for l in &vec[1..] {\n            self.lbd_temp[l.vi() as usize] = key;\n        }\n        let l0", "        for l in &vec[2..] {\n            self.lbd_temp[l.vi() as usize] = key;\n        }\n        let l0"))
bug("p33-min-retain", "P33", (DB, "            vec.retain(|l| self.lbd_temp[l.vi()] == key);", "            vec.retain(|l| self.lbd_temp[l.vi()] == key && asg.level(l.vi()) != 1);"))
# -- vivification
bug("p33-viv-skip2", "P33", (VV, "                    for r in cdb[cid].iter().skip(1) {\n                        seen[r.vi()] = key;", "                    for r in cdb[cid].iter().skip(2) {\n                        seen[r.vi()] = key;"))
bug("p33-viv-bin", "P33", (VV, "                AssignReason::BinaryLink(bil) => {\n                    seen[bil.vi()] = key;\n                }", "                AssignReason::BinaryLink(bil) => {\n                    if self.level(bil.vi()) != self.level(l.vi()) {\n                        seen[bil.vi()] = key;\n                    }\n                }"))
bug("p33-viv-dec", "P33", (VV, "            if decisions.contains(l) {", "            if decisions.contains(l) && (learnt.is_empty() || *l != decisions[0]) {"))
bug("p33-viv-sign", "P33", (VV, "                learnt.push(!*l);\n", "                learnt.push(*l);\n"))
bug("p33-viv-conflict", "P33", (VV, "        for l in conflicting {\n            seen[l.vi()] = key;", "        for l in conflicting.iter().skip(1) {\n            seen[l.vi()] = key;"))
bug("p33-viv-break", "P33", (VV, "                learnt.push(!*l);\n            }\n            match", "                learnt.push(!*l);\n                if learnt.len() == decisions.len() / 2 + 1 {\n                    break;\n                }\n            }\n            match"))
bug("p33-viv-walk", "P33", (VV, "self.stack_iter().skip(self.len_upto(0)).rev()", "self.stack_iter().skip(self.len_upto(1)).rev()"))
bug("p33-viv-forward", "P33", (VV, "self.stack_iter().skip(self.len_upto(0)).rev()", "self.stack_iter().skip(self.len_upto(0))"))
bug("p33-viv-cnfl", "P33", (VV, "let cnfl_lits = vec![cc.0, !l];", "let cnfl_lits = vec![cc.0, cc.0];"))
bug("p33-viv-key", "P33", (VV, "                                        seen[0] = num_check;\n                                        vec = asg.analyze_sandbox(\n                                            self, &decisions, &cnfl_lits", "                                        vec = asg.analyze_sandbox(\n                                            self, &decisions, &cnfl_lits"))
bug("p33-viv-undecided", "P33", (VV, "                        decisions.push(!lit);\n                        asg.assign_by_decision(!lit);", "                        if !decisions.is_empty() || clits.len() < 6 {\n                            decisions.push(!lit);\n                        } else {\n                            decisions.insert(0, clits[clits.len() - 1]);\n                        }\n                        asg.assign_by_decision(!lit);"))
bug("p33-viv-trunc", "P33", (VV, "                            match vec.len() {\n                                0 => {", "                            vec.truncate(64);\n                            match vec.len() {\n                                0 => {"))
bug("p33-viv-seen", "P33", (VV, "let mut seen: Vec<usize> = vec![0; asg.num_vars + 1];", "let mut seen: Vec<usize> = vec![1; asg.num_vars + 1];"))
# -- elsewhere
bug("p33-elim-pop", "P33", (EL, "                    debug_assert!(vec.iter().all(|l| !vec.contains(&!*l)));", "                    if 12 < vec.len() {\n                        vec.pop();\n                    }"))
bug("p33-minimise-retain", "P33", (CO, "new_learnt.retain(|l| *l == l0 ||", "new_learnt.retain(|l| *l == l0 || asg.level(l.vi()) == 1 &&"))
bug("p33-learn-trunc", "P33", (CO, "    let l1 = new_learnt[1];\n", "    new_learnt.truncate(4096);\n    let l1 = new_learnt[1];\n"))
# -- rewrites
same("derive-merge-loops", (EL, "    let mut lits = pb\n        .iter()\n        .filter(|l| l.vi() != vi && !qb.contains(**l))\n        .copied()\n        .collect::<Vec<_>>();\n    lits.append(\n        &mut qb\n            .iter()\n            .filter(|l| l.vi() != vi)\n            .copied()\n            .collect::<Vec<_>>(),\n    );\n    std::mem::swap(&mut lits, vec);", "    for l in pb.iter() {\n        if l.vi() == vi || qb.contains(*l) {\n            continue;\n        }\n        vec.push(*l);\n    }\n    for l in qb.iter() {\n        if l.vi() != vi {\n            vec.push(*l);\n        }\n    }"))
same("derive-merge-chain", (EL, "    let mut lits = pb\n        .iter()\n        .filter(|l| l.vi() != vi && !qb.contains(**l))\n        .copied()\n        .collect::<Vec<_>>();\n    lits.append(\n        &mut qb\n            .iter()\n            .filter(|l| l.vi() != vi)\n            .copied()\n            .collect::<Vec<_>>(),\n    );\n    std::mem::swap(&mut lits, vec);", "    vec.extend(\n        pb.iter()\n            .filter(|l| !qb.contains(**l))\n            .chain(qb.iter())\n            .filter(|l| l.vi() != vi),\n    );"))
same("derive-merge-extend", (EL, "    lits.append(\n        &mut qb\n            .iter()\n            .filter(|l| l.vi() != vi)\n            .copied()\n            .collect::<Vec<_>>(),\n    );\n    std::mem::swap(&mut lits, vec);", "    lits.extend(qb.iter().copied().filter(|l| vi != l.vi()));\n    *vec = lits;"))
same("derive-merge-taut-loop", (EL, "    if pb.iter().filter(|l| l.vi() != vi).any(|l| qb.contains(!*l)) {\n        return 0;\n    }", "    for l in pb.iter() {\n        if l.vi() != vi && qb.contains(!*l) {\n            return 0;\n        }\n    }"))
same("derive-merge-taut-one", (EL, "pb.iter().filter(|l| l.vi() != vi).any(|l| qb.contains(!*l))", "pb.iter().any(|l| l.vi() != vi && qb.contains(!*l))"))
same("derive-merge-plain", (EL, "    let ps_smallest = pqb.len() < qpb.len();\n    let (pb, qb) = if ps_smallest { (pqb, qpb) } else { (qpb, pqb) };", "    let (pb, qb) = (pqb, qpb);"))
same("derive-drop-retain", (DB, "        let mut new_lits: Vec<Lit> = lits\n            .iter()\n            .filter(|&l| *l != p)\n            .copied()\n            .collect::<Vec<Lit>>();", "        let mut new_lits: Vec<Lit> = lits.clone();\n        new_lits.retain(|l| *l != p);"))
same("derive-drop-unit", (DB, "            if lits[0] == p {\n                lits.swap(0, 1);\n            }\n            return RefClause::UnitClause(lits[0]);", "            let i = (lits[0] == p) as usize;\n            return RefClause::UnitClause(lits[i]);"))
same("derive-drop-unit-if", (DB, "            if lits[0] == p {\n                lits.swap(0, 1);\n            }\n            return RefClause::UnitClause(lits[0]);", "            return RefClause::UnitClause(if lits[0] == p { lits[1] } else { lits[0] });"))
same("derive-drop-loop", (DB, "        let mut new_lits: Vec<Lit> = lits\n            .iter()\n            .filter(|&l| *l != p)\n            .copied()\n            .collect::<Vec<Lit>>();", "        let mut new_lits: Vec<Lit> = Vec::with_capacity(lits.len() - 1);\n        for l in lits.iter() {\n            if p != *l {\n                new_lits.push(*l);\n            }\n        }"))
same("derive-simp-loop", (DB, "        let mut new_lits = c\n            .lits\n            .iter()\n            .filter(|l| asg.assigned(**l).is_none() && !asg.var(l.vi()).is(FlagVar::ELIMINATED))\n            .copied()\n            .collect::<Vec<_>>();", "        let mut new_lits: Vec<Lit> = Vec::new();\n        for l in c.lits.iter().copied() {\n            if asg.assigned(l).is_some() || asg.var(l.vi()).is(FlagVar::ELIMINATED) {\n                continue;\n            }\n            new_lits.push(l);\n        }"))
same("derive-simp-false", (DB, "            .filter(|l| asg.assigned(**l).is_none() && !asg.var(l.vi()).is(FlagVar::ELIMINATED))", "            .filter(|l| asg.assigned(**l) != Some(false) && !asg.var(l.vi()).is(FlagVar::ELIMINATED))"))
same("derive-min-let", (DB, "            let other = c[(c[0] == l0) as usize];\n            let vi = other.vi();\n            if self.lbd_temp[vi] == key && asg.assigned(other) == Some(true) {", "            let other = if c[0] == l0 { c[1] } else { c[0] };\n            let vi = other.vi();\n            if asg.assigned(other) == Some(true) && self.lbd_temp[vi] == key {"))
same("derive-min-key", (DB, "        let Some(a) = x;", "        let Some(a) = x;")) if False else None
same("derive-min-pair", (DB, "        for (_, cid) in self.binary_link.connect_with(l0).iter() {\n            let c = &self.clause[NonZeroU32::get(cid.ordinal) as usize];\n            debug_assert!(c[0] == l0 || c[1] == l0);\n            let other = c[(c[0] == l0) as usize];\n            let vi = other.vi();", "        for (other, _) in self.binary_link.connect_with(l0).iter() {\n            let other = *other;\n            let vi = other.vi();"))
same("derive-min-skip", (DB, "        for l in &vec[1..] {\n            self.lbd_temp[l.vi() as usize] = key;\n        }\n        let l0 = vec[0];", "        for l in vec.iter().skip(1) {\n            self.lbd_temp[l.vi() as usize] = key;\n        }\n        let l0 = vec[0];"))
same("derive-min-all", (DB, "        if 0 < num_sat {\n            self.lbd_temp[l0.vi()] = key;\n            vec.retain(|l| self.lbd_temp[l.vi()] == key);\n        }", "        if num_sat == 0 {\n            return;\n        }\n        vec.retain(|l| *l == l0 || self.lbd_temp[l.vi()] == key);"))
same("derive-viv-all", (VV, "                    for r in cdb[cid].iter().skip(1) {\n                        seen[r.vi()] = key;\n                    }", "                    cdb[cid].iter().for_each(|r| seen[r.vi()] = key);"))
same("derive-viv-slice", (VV, "                    for r in cdb[cid].iter().skip(1) {\n                        seen[r.vi()] = key;\n                    }", "                    for r in &cdb[cid][1..] {\n                        seen[r.vi()] = key;\n                    }"))
same("derive-viv-reason", (VV, "            if decisions.contains(l) {\n", "            if decisions.iter().any(|d| d == l) {\n"))
same("derive-viv-conflict", (VV, "        for l in conflicting {\n            seen[l.vi()] = key;\n        }", "        conflicting.iter().for_each(|l| seen[l.vi()] = key);"))
same("derive-viv-if", (VV, "            if seen[l.vi()] != key {\n                continue;\n            }\n            if decisions.contains(l) {", "            let used = seen[l.vi()] == key;\n            if !used {\n                continue;\n            }\n            if decisions.contains(l) {"))
same("derive-viv-filter", (VV, "        for l in self.stack_iter().skip(self.len_upto(0)).rev() {\n            if seen[l.vi()] != key {\n                continue;\n            }", "        let start = self.len_upto(0);\n        for i in (start..self.stack_len()).rev() {\n            let l = &self.stack(i);\n            if seen[l.vi()] != key {\n                continue;\n            }"))
same("derive-viv-collect", (VV, "let cnfl_lits = vec![cc.0, !l];", "let mut cnfl_lits = Vec::with_capacity(2);\n                                    cnfl_lits.push(cc.0);\n                                    cnfl_lits.push(!l);"))
same("derive-viv-to-vec", (VV, "                                        let cnfl_lits =\n                                            &self[ci].iter().copied().collect::<Vec<Lit>>();", "                                        let cnfl_lits = &self[ci].lits().to_vec();")) if False else None
same("derive-strengthen-let", (SB, "strengthen_clause(asg, cdb, self, did, !l)?;", "let dropped = !l;\n                strengthen_clause(asg, cdb, self, did, dropped)?;"))
same("derive-lifted-eq", (SB, "            if l == !*lo {", "            if !l == *lo {"))
# -- signs, storing, root-level test
bug("p33-sign-link", "P33", (CO, "learnt.push(!l);", "learnt.push(if chrono(asg.level(vi), dl) { !l } else { l });"), (CO, "fn minimize_learnt(", "fn chrono(a: u32, b: u32) -> bool {\n    a + 20 < b\n}\n\nfn minimize_learnt("))
bug("p33-sign-cc", "P33", (CO, "            learnt.push(p);\n        }\n    }\n    let mut trail_index", "            learnt.push(!p);\n        }\n    }\n    let mut trail_index"))
bug("p33-sign-clause", "P33", (CO, "learnt.push(*q);", "learnt.push(if asg.assigned(*q) == Some(true) { !*q } else { *q });"))
bug("p33-sign-first", "P33", (CO, "    learnt[0] = !p;", "    learnt[0] = p;"))
bug("p33-root-test", "P33", (CO, "                        if root_level == lvl {", "                        if lvl <= root_level + (dl / 4096) {"))
bug("p33-new-truncate", "P33", (DB, "        self.certification_store.add_clause(vec);\n        let cid;\n        if let Some(cid_used) = self.freelist.pop() {\n            cid = cid_used;\n            let c = &mut self[cid];\n            // if", "        self.certification_store.add_clause(vec);\n        vec.truncate(1 << 14);\n        let cid;\n        if let Some(cid_used) = self.freelist.pop() {\n            cid = cid_used;\n            let c = &mut self[cid];\n            // if"))
bug("p33-new-retain", "P33", (DB, "            c.search_from = 2;\n        } else {\n            cid = ClauseId::from(self.clause.len());", "            c.search_from = 2;\n            if 100 < c.lits.len() {\n                c.lits.retain(|l| asg.assigned(*l) != Some(false) || asg.root_level() + 1 < asg.level(l.vi()));\n            }\n        } else {\n            cid = ClauseId::from(self.clause.len());"))
same("derive-sign-let", (CO, "learnt.push(!l);", "let keep = !l;\n                        learnt.push(keep);"))
same("derive-sign-stack", (CO, "    learnt[0] = !p;", "    let asserted = asg.stack(trail_index);\n    learnt[0] = !asserted;"))
same("derive-new-append", (DB, "            std::mem::swap(&mut c.lits, vec);\n            c.search_from = 2;", "            c.lits.append(vec);\n            c.search_from = 2;"))
same("derive-new-extend", (DB, "            let mut c = Clause {\n                flags: FlagClause::empty(),\n                ..Clause::default()\n            };\n            std::mem::swap(&mut c.lits, vec);", "            let c = Clause {\n                lits: std::mem::take(vec),\n                flags: FlagClause::empty(),\n                ..Clause::default()\n            };"))
