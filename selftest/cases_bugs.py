from cases import bug, same

S = "src/solver/search.rs"
DB = "src/cdb/db.rs"
VIV = "src/cdb/vivify.rs"
EL = "src/processor/eliminate.rs"
SI = "src/processor/simplify.rs"
SU = "src/processor/subsume.rs"
CO = "src/solver/conflict.rs"
BU = "src/solver/build.rs"
ST = "src/state.rs"
STK = "src/assign/stack.rs"
PR = "src/assign/propagate.rs"
BIN = "src/cdb/binary.rs"
WC = "src/cdb/watch_cache.rs"
SEL = "src/assign/select.rs"
CF = "src/config.rs"
UC = "src/cdb/unsat_certificate.rs"
CNF = "src/cnf/mod.rs"

# ---- P01
bug("p01-report-unextended", "P01", (S, "let model = asg.extend_model(cdb);", "let model = asg.extend_model(cdb);\n                let plain = asg.assign_ref();"),
    (S, "model[vi].unwrap()))))", "plain[vi].or(model[vi]).unwrap()))))"))
bug("p01-validate-unextended", "P01", (S, "if cdb.validate(&model, false).is_some() {", "if cdb.validate(&asg.assign_ref(), false).is_some() {"))
bug("p01-validate-strictly-log", "P01", (S, """                    state.progress(asg, cdb);
                    return Err(SolverError::SolverBug);
""", """                    state.progress(asg, cdb);
                    if !state.config.quiet_mode {
                        return Err(SolverError::SolverBug);
                    }
"""))
bug("p01-validate-skips-learnt", "P01", (DB, "if c.is_dead() || (strict && c.is(FlagClause::LEARNT)) {", "if c.is_dead() || c.is(FlagClause::LEARNT) {"))
bug("p01-validate-skips-binary", "P01", (DB, "if c.is_dead() || (strict && c.is(FlagClause::LEARNT)) {", "if c.is_dead() || (strict && c.is(FlagClause::LEARNT)) || c.len() == 2 {"))
bug("p01-validate-skip-two", "P01 P19", (DB, """        for (i, c) in self.clause.iter().enumerate().skip(1) {
            if c.is_dead() || (strict""", """        for (i, c) in self.clause.iter().enumerate().skip(2) {
            if c.is_dead() || (strict"""))
bug("p01-validate-stops-at-dead", "P01 P19", (DB, """            if c.is_dead() || (strict && c.is(FlagClause::LEARNT)) {
                continue;""", """            if c.is_dead() || (strict && c.is(FlagClause::LEARNT)) {
                break;"""))
bug("p01-evaluate-unassigned-first", "P19", (DB, "None => falsified = None,", "None => return None,"))
bug("p01-evaluate-any-value", "P01 P19", (DB, "Some(x) if x == bool::from(*l) => return Some(true),", "Some(x) if x == bool::from(*l) || self.lits.len() == 3 => return Some(true),"))
bug("p01-flip-after-check", "P01", (S, """                // map `Option<bool>` to `i32`, and remove the dummy var at the head.""", """                let mut model = model;
                for (v, p) in model.iter_mut().zip(asg.assign_ref()) {
                    if p.is_none() {
                        *v = Some(false);
                    }
                }
"""))
bug("p01-skip-zero", "P01", (S, """                    .skip(1)
                    .map(|(vi, _)| i32::from""", """                    .skip(2)
                    .map(|(vi, _)| i32::from"""))
bug("p01-filter-vars", "P01", (S, """                    .skip(1)
                    .map(|(vi, _)| i32::from""", """                    .skip(1)
                    .filter(|(_, v)| !v.is(FlagVar::ELIMINATED))
                    .map(|(vi, _)| i32::from"""))
bug("p01-take", "P01", (S, """                    .skip(1)
                    .map(|(vi, _)| i32::from""", """                    .skip(1)
                    .take(state.target.num_of_variables)
                    .map(|(vi, _)| i32::from"""))
# ---- P02
bug("p02-elim-size", "P02", (S, """                if cdb.check_size().is_err() {
                    return Err(SolverError::OutOfMemory);
                }
                state.log(None, "By eliminator");""", """                state.log(None, "By eliminator");"""))
bug("p02-elim-size2", "P02", (S, """                        state.progress(asg, cdb);
                        if cdb.check_size().is_err() {
                            return Err(SolverError::OutOfMemory);
                        }
                        return Ok(Certificate::UNSAT);""", """                        state.progress(asg, cdb);
                        return Ok(Certificate::UNSAT);"""))
bug("p02-timeout-unsat", "P02", (S, "Ok(false) | Err(SolverError::EmptyClause | SolverError::RootLevelConflict(_)) => {", "Ok(false)\n            | Err(SolverError::EmptyClause | SolverError::RootLevelConflict(_) | SolverError::OutOfMemory) => {"))
bug("p02-err-unsat", "P02", (S, """            Err(e) => {
                RESTART!(asg, cdb, state);
                state.progress(asg, cdb);
                Err(e)""", """            Err(e) => {
                RESTART!(asg, cdb, state);
                state.progress(asg, cdb);
                if asg.num_conflict == 0 {
                    return Ok(Certificate::UNSAT);
                }
                Err(e)"""))
bug("p02-search-false", "P02", (S, """                if 1.0 <= p {
                    return Err(SolverError::TimeOut);""", """                if 1.0 <= p {
                    return Ok(false);"""))
bug("p02-undescribed", "P02", (S, "return Err(SolverError::UndescribedError);", "return Err(SolverError::EmptyClause);"))
bug("p02-inject-err", "P02", (BU, "Err(SolverError::RootLevelConflict(_)) => Err(Ok(Certificate::UNSAT)),", "Err(SolverError::RootLevelConflict(_) | SolverError::InvalidLiteral) => {\n                Err(Ok(Certificate::UNSAT))\n            }"))
bug("p02-cert-other", "P02", ("src/solver/mod.rs", "Err(SolverError::EmptyClause) => Ok(Certificate::UNSAT),", "Err(SolverError::EmptyClause | SolverError::UndescribedError) => Ok(Certificate::UNSAT),"))
bug("p02-pure-negative", "P02", (S, """                            if asg.assign_at_root_level(l).is_err() {
                                return Ok(Certificate::UNSAT);
                            }
                        } else if p == 0 {""", """                            if asg.assign_at_root_level(l).is_err() || asg.remains() && p == m {
                                return Ok(Certificate::UNSAT);
                            }
                        } else if p == 0 {"""))
bug("p02-validate-unsat", "P01 P02", (S, "return Err(SolverError::SolverBug);", "return Ok(Certificate::UNSAT);"))
bug("p02-size-inner", "P02", (EL, "elim.backward_subsumption_check(asg, cdb, timedout)\n}", """if cdb.check_size().is_err() {
        return Err(SolverError::EmptyClause);
    }
    elim.backward_subsumption_check(asg, cdb, timedout)
}"""))
bug("p02-level-test", "P02", (S, "if asg.decision_level() == asg.root_level() {\n            return", "if asg.decision_level() <= asg.root_level() + 1 && asg.stack_len() == asg.num_vars {\n            return"))
# ---- P03
bug("p03-vivify-ignored", "P03", (S, "cdb.vivify(asg, state)?;", "let _ = cdb.vivify(asg, state);"))
bug("p03-clear-ignored", "P03", (S, "asg.clear_asserted_literals(cdb)?;", "asg.clear_asserted_literals(cdb).ok();"))
bug("p03-simplify-ignored", "P03", (S, "elim.simplify(asg, cdb, state, false)?;", "if elim.simplify(asg, cdb, state, false).is_err() {\n                            state.flush(\"simplify failed, \");\n                        }"))
bug("p03-strengthen", "P03", (SU, "strengthen_clause(asg, cdb, self, did, !l)?;", "if strengthen_clause(asg, cdb, self, did, !l).is_ok() {\n                    self.num_subsumed += 0;\n                }"))
bug("p03-elim-assign", "P03", (EL, "asg.assign_at_root_level(lit)?;", "asg.assign_at_root_level(lit).unwrap_or_default();"))
bug("p03-elim-false", "P03", (EL, """                        Some(true) => (),
                        Some(false) => {
                            return Err(SolverError::RootLevelConflict((
                                lit,
                                asg.reason(lit.vi()),
                            )));
                        }""", """                        Some(_) => (),"""))
bug("p03-sub-false", "P03", (SU, "Some(false) => Err(SolverError::RootLevelConflict((l0, asg.reason(l0.vi())))),", "Some(false) => Ok(()),"))
bug("p03-elim-loop", "P03", (SI, """            self.eliminate_main(asg, cdb, state)?;
            asg.propagate""", """            if self.eliminate_main(asg, cdb, state).is_err() && self.clause_queue.is_empty() {
                break;
            }
            asg.propagate"""))
bug("p03-elim-var", "P03", (SI, "eliminate_var(asg, cdb, self, state, vi, &mut timedout)?;", "if eliminate_var(asg, cdb, self, state, vi, &mut timedout).is_err() {\n                        break;\n                    }"))
bug("p03-bwd", "P03", (SI, "self.try_subsume(asg, cdb, cid, *did)?;", "if self.try_subsume(asg, cdb, cid, *did).is_err() {\n                                continue;\n                            }"))
bug("p03-bwd-prop", "P03", (SI, """        if asg.remains() {
            asg.propagate_sandbox(cdb)
                .map_err(SolverError::RootLevelConflict)?;
        }
        Ok(())
    }
    /// run clause""", """        if asg.remains() {
            let _ = asg.propagate_sandbox(cdb);
        }
        Ok(())
    }
    /// run clause"""))
bug("p03-viv-prop", "P03", (VIV, """        asg.backtrack_sandbox();
        if asg.remains() {
            asg.propagate_sandbox(self)
                .map_err(SolverError::RootLevelConflict)?;
        }
        asg.clear""", """        asg.backtrack_sandbox();
        if asg.remains() && asg.propagate_sandbox(self).is_err() {
            asg.backtrack_sandbox();
        }
        asg.clear"""))
bug("p03-viv-assign", "P03", (VIV, "asg.assign_at_root_level(vec[0])?;", "if asg.assign_at_root_level(vec[0]).is_err() {\n                                        continue 'next_clause;\n                                    }"))
bug("p03-viv-empty", "P03", (VIV, "return Err(SolverError::EmptyClause);", "continue 'next_clause;"))
bug("p03-unit", "P03", (BU, "asg.assign_at_root_level(l0)\n                    .map_or(RefClause::EmptyClause, |_| RefClause::UnitClause(l0))", "let _ = asg.assign_at_root_level(l0);\n                RefClause::UnitClause(l0)"))
bug("p03-add-clause", "P03", (BU, """        if self.add_unchecked_clause(&mut clause) == RefClause::EmptyClause {
            return Err(SolverError::EmptyClause);
        }
        Ok(self)""", """        self.add_unchecked_clause(&mut clause);
        Ok(self)"""))
bug("p03-add-assign", "P03", (BU, """            Some(false) => Err(SolverError::RootLevelConflict((
                lit,
                self.asg.reason(lit.vi()),
            ))),""", """            Some(false) => Ok(self),"""))
bug("p03-elim-size", "P03 P16", (SI, "cdb.check_size().map(|_| ())\n", "let _ = cdb.check_size();\n        Ok(())\n"))
bug("p03-pre-first", "P03", (S, "if elim.simplify(asg, cdb, state, true).is_err() {", "if elim.simplify(asg, cdb, state, true).is_err() && asg.remains() {"))
bug("p03-conflict-lost", "P03", (S, "        let Err(cc) = asg.propagate(cdb) else {\n            continue;\n        };", """        let Err(cc) = asg.propagate(cdb) else {
            continue;
        };
        if asg.remains() && asg.decision_level() == 1 {
            continue;
        }"""))
# ---- P04 / P05 / P06
bug("p04-elim-unit", "P04", (EL, "                            cdb.certificate_add_assertion(lit);\n", ""))
bug("p04-strength-unit", "P04", (SU, "            cdb.certificate_add_assertion(l0);\n", ""))
bug("p04-strength-unit-late", "P04", (SU, """            cdb.certificate_add_assertion(l0);
            elim.remove_cid_occur(asg, cid, &mut cdb[cid]);
            cdb.remove_clause(cid);
            match""", """            elim.remove_cid_occur(asg, cid, &mut cdb[cid]);
            cdb.remove_clause(cid);
            cdb.certificate_add_assertion(l0);
            match"""))
bug("p04-viv-unit-late", "P04", (VIV, """                                    self.certificate_add_assertion(vec[0]);
                                    asg.assign""", """                                    asg.assign"""),
    (VIV, "                                    num_assert += 1;\n", "                                    num_assert += 1;\n                                    if is_learnt {\n                                        self.certificate_add_assertion(vec[0]);\n                                    }\n"))
bug("p04-elim-order", "P04", (EL, """                    match cdb.new_clause(asg, vec, learnt_p""", """                    if cdb[*n].is(FlagClause::LEARNT) && !cdb[*p].is_dead() {
                        elim.remove_cid_occur(asg, *p, &mut cdb[*p]);
                        cdb.remove_clause(*p);
                    }
                    match cdb.new_clause(asg, vec, learnt_p"""))
bug("p05-elim-double", "P04", (EL, "        elim.remove_cid_occur(asg, *cid, &mut cdb[*cid]);\n        cdb.remove_clause(*cid);\n    }\n    for cid in neg", "        elim.remove_cid_occur(asg, *cid, &mut cdb[*cid]);\n        cdb.remove_clause(*cid);\n        if cdb[*cid].is(FlagClause::LEARNT) {\n            cdb.certificate_add_assertion(Lit::from((vi, true)));\n        }\n    }\n    for cid in neg"))
bug("p05-sandbox-real", "P05", (DB, """        let mut store = CertificationStore::default();
        let mut dummy1 = 1;""", """        let mut dummy1 = 1;"""), (DB, "            &mut store,\n", "            &mut self.certification_store,\n"))
bug("p05-shorten-adds-old", "P04 P05", (DB, """        if certification_store.is_active() {
            certification_store.add_clause(&c.lits);
            certification_store.delete_clause(&new_lits);
        }
        RefClause::Clause(cid)
    }
    // Not""", """        if certification_store.is_active() {
            certification_store.add_clause(&new_lits);
            certification_store.delete_clause(&c.lits);
        }
        RefClause::Clause(cid)
    }
    // Not"""))
bug("p05-delete-after-clear", "P05", (DB, "    certification_store.delete_clause(&c.lits);\n    c.lits.clear();", "    c.lits.clear();\n    certification_store.delete_clause(&c.lits);"))
bug("p06-format", "P06", (UC, '.write_all(format!("{} ", self.queue[index]).as_bytes())', '.write_all(format!("{}", self.queue[index]).as_bytes())'))
bug("p06-neg-len", "P06", (UC, "self.queue.push((clause.len() as i32).neg());", "self.queue.push(clause.len() as i32);"))
bug("p06-queue-kept", "P06", (UC, "        self.queue.clear();\n", "        self.queue.truncate(index / 2);\n"))
bug("p06-buffered", "P06", (UC, "            let _ = buf.write_all(b\"0\\n\");\n            self.buffer = None;", "            let _ = buf.write_all(b\"0\\n\");\n            std::mem::forget(self.buffer.take());"))
bug("p06-zero-missing", "P06", (UC, "            let _ = buf.write_all(b\"0\\n\");\n            self.buffer = None;", "            if self.queue.is_empty() && index_of(buf) {\n                let _ = buf.write_all(b\"0\\n\");\n            }\n            self.buffer = None;"),
    (UC, "#[cfg(not(feature = \"no_IO\"))]\nimpl CertificationStore {\n    fn dump_to_file", "fn index_of(buf: &BufWriter<File>) -> bool {\n    !buf.buffer().is_empty()\n}\n\n#[cfg(not(feature = \"no_IO\"))]\nimpl CertificationStore {\n    fn dump_to_file"))
# ---- P08
bug("p08-reduce-all", "P08", (DB, """            if !c.is(FlagClause::LEARNT) {
                continue;
            }
            alives += 1;""", """            if !c.is(FlagClause::LEARNT) && c.rank <= 8 {
                continue;
            }
            alives += 1;"""))
bug("p08-elim-or", "P08", (EL, "learnt_p && cdb[*n].is(FlagClause::LEARNT)", "learnt_p || cdb[*n].is(FlagClause::LEARNT)"))
bug("p08-elim-learnt", "P08", (EL, "learnt_p && cdb[*n].is(FlagClause::LEARNT)", "learnt_p"))
bug("p08-sub-permanent", "P08", (SU, """                if !cdb[did].is(FlagClause::LEARNT) {
                    cdb.make_permanent(cid);
                }
""", ""))
bug("p08-sub-permanent-cond", "P08", (SU, "if !cdb[did].is(FlagClause::LEARNT) {", "if !cdb[did].is(FlagClause::LEARNT) && cdb[cid].len() < cdb[did].len() {"))
bug("p08-sub-permanent-wrong", "P08", (SU, "cdb.make_permanent(cid);", "cdb.make_permanent(did);"))
bug("p08-sub-both", "P08", (SU, """                cdb.remove_clause(did);
                self.num_subsumed += 1;""", """                cdb.remove_clause(did);
                if cdb[cid].len() == 2 && cid < did {
                    self.remove_cid_occur(asg, cid, &mut cdb[cid]);
                    cdb.remove_clause(cid);
                }
                self.num_subsumed += 1;"""))
bug("p08-sub-relation", "P08", (SU, "        return Subsumable::None;\n    }\n    Subsumable::Success", "        if ob.len() <= ch.len() {\n            return Subsumable::None;\n        }\n        continue 'next;\n    }\n    Subsumable::Success"))
bug("p08-permanent-noflag", "P08", (DB, """        if c.is(FlagClause::LEARNT) {
            c.turn_off(FlagClause::LEARNT);
            self.num_learnt -= 1;
        }
    }""", """        if c.is(FlagClause::LEARNT) && c.lits.len() < 3 {
            c.turn_off(FlagClause::LEARNT);
            self.num_learnt -= 1;
        }
    }"""))
bug("p08-viv-learnt", "P08", (VIV, "self.new_clause(asg, &mut vec, is_learnt);", "self.new_clause(asg, &mut vec, true);"))
bug("p08-viv-stale-flag", "P08", (VIV, "            let is_learnt = c.is(FlagClause::LEARNT);\n            c.vivified();", "            c.vivified();\n            let is_learnt = c.is(FlagClause::USED) || c.is(FlagClause::LEARNT);"))
bug("p08-input-learnt", "P08", (BU, "_ => cdb.new_clause(asg, lits, false),", "n => cdb.new_clause(asg, lits, 100 < n),"))
bug("p08-simp-true", "P08", (DB, """                Some(true) => {
                    self.remove_clause(cid);
                    return RefClause::Dead;""", """                Some(_) if self[cid].is(FlagClause::LEARNT) || asg.level(l.vi()) == 0 => {
                    self.remove_clause(cid);
                    return RefClause::Dead;"""), (DB, """                Some(false) => {
                    need_to_shrink = true;
                }
                None if""", """                Some(_) => {
                    need_to_shrink = true;
                }
                None if"""))
bug("p08-bi-swap", "P08", (SU, """        RefClause::RegisteredClause(_) => {
            elim.remove_cid_occur(asg, cid, &mut cdb[cid]);
            cdb.remove_clause(cid);
            Ok(())""", """        RefClause::RegisteredClause(reg) => {
            elim.remove_cid_occur(asg, reg, &mut cdb[reg]);
            cdb.remove_clause(reg);
            Ok(())"""))

bug("p08-reduce-off-by-one", "P08", (DB, "self.remove_clause(ClauseId::from(i.to()));", "self.remove_clause(ClauseId::from(i.to() - 1));"))
bug("p08-elim-neighbour", "P08", (EL, """    elim[vi].clear();
    asg.handle""", """    for cid in elim[vi / 2 + 1].pos_occurs.clone() {
        if !cdb[cid].is_dead() && cdb[cid].len() == 2 {
            elim.remove_cid_occur(asg, cid, &mut cdb[cid]);
            cdb.remove_clause(cid);
        }
    }
    elim[vi].clear();
    asg.handle"""))
