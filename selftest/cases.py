CASES = []


def bug(name, fires, *edits):
    CASES.append({"name": "bug-" + name, "fires": set(fires.split()), "edits": list(edits)})


def same(name, *edits):
    CASES.append({"name": "same-" + name, "fires": set(), "edits": list(edits)})


DB = "src/cdb/db.rs"
# ---- proof
bug("shorten-order", "P05", (DB, """            certification_store.add_clause(&c.lits);
            certification_store.delete_clause(&new_lits);
        }
        RefClause::Clause(cid)
    }
    // Not""", """            certification_store.delete_clause(&new_lits);
            certification_store.add_clause(&c.lits);
        }
        RefClause::Clause(cid)
    }
    // Not"""))
bug("shorten-nodelete", "P05", (DB, """                    certification_store.add_clause(&c.lits);
                    certification_store.delete_clause(&new_lits);
                }
                RefClause::Clause(cid)
            }
        }""", """                    certification_store.add_clause(&c.lits);
                }
                RefClause::Clause(cid)
            }
        }"""))
bug("new-clause-late", "P04", (DB, """        self.certification_store.add_clause(vec);
        let cid;""", "        let cid;"), (DB, """        self.lbd.update(c.rank);
        *num_clause += 1;""", """        self.lbd.update(c.rank);
        if learnt {
            self.certification_store.add_clause(&c.lits);
        }
        *num_clause += 1;"""))
bug("pure-literal-uncertified", "P04", ("src/solver/search.rs", """                            let l = Lit::from((vi, false));
                            debug_assert!(asg.assigned(l).is_none());
                            cdb.certificate_add_assertion(l);""", """                            let l = Lit::from((vi, false));
                            debug_assert!(asg.assigned(l).is_none());
                            cdb.certificate_add_assertion(!l);"""))
bug("vivify-remove-first", "P04", ("src/cdb/vivify.rs", """                                    #[cfg(feature = "clause_rewarding")]
                                    if let Some(ci)""", """                                    self.remove_clause(cid);
                                    #[cfg(feature = "clause_rewarding")]
                                    if let Some(ci)"""),
    ("src/cdb/vivify.rs", """                                    self.remove_clause(cid);
                                    num_shrink += 1;""", "                                    num_shrink += 1;"))
bug("remove-undeleted", "P05", (DB, "    certification_store.delete_clause(&c.lits);\n    c.lits.clear();", """    if c.len() != 2 {
        certification_store.delete_clause(&c.lits);
    }
    c.lits.clear();"""))
bug("proof-marker", "P06", ("src/cdb/unsat_certificate.rs", "if l < 0 && buf", "if l < -1 && buf"))
bug("proof-close", "P06", ("src/cdb/unsat_certificate.rs", """        self.dump_to_file();
        if let Some""", """        if let Some"""))
same("proof-helper", (DB, """            certification_store.add_clause(&c.lits);
            certification_store.delete_clause(&new_lits);
        }
        RefClause::Clause(cid)
    }
    // Not""", """            log_shortened(certification_store, &c.lits, &new_lits);
        }
        RefClause::Clause(cid)
    }
    // Not"""), (DB, "impl Clause {\n    /// evaluate", """fn log_shortened(store: &mut CertificationStore, new: &[Lit], old: &[Lit]) {
    store.add_clause(new);
    store.delete_clause(old);
}

impl Clause {
    /// evaluate"""))
same("proof-before-swap", (DB, """            let l0 = lits[0];
            let l1 = lits[1];
            std::mem::swap(lits, &mut new_lits);
            watch_cache""", """            let l0 = lits[0];
            let l1 = lits[1];
            let old = std::mem::replace(lits, new_lits);
            new_lits = old;
            watch_cache"""))
same("proof-extend", ("src/cdb/unsat_certificate.rs", """        for l in clause.iter() {
            self.queue.push(i32::from(*l));
        }""", """        self.queue.extend(clause.iter().map(|l| i32::from(*l)));"""))
same("proof-dump", ("src/cdb/unsat_certificate.rs", """            while index < self.queue.len() {
                let l = self.queue[index];
                if l < 0 && buf.write_all(b"d ").is_err() {
                    self.buffer = None;
                    break;
                }""", """            loop {
                if index >= self.queue.len() {
                    break;
                }
                let l = self.queue[index];
                if l.is_negative() {
                    if buf.write_all(b"d ").is_err() {
                        self.buffer = None;
                        break;
                    }
                }"""))
same("remove-fn", (DB, """    certification_store.delete_clause(&c.lits);
    c.lits.clear();""", """    let lits = std::mem::take(&mut c.lits);
    certification_store.delete_clause(&lits);"""))
