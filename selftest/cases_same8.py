"""Behaviour-preserving edits in parts with few of them so far: local search, elimination order, option parsers, reports."""
from cases import same
from cases_same7 import within

SL = "src/cdb/sls.rs"
HP = "src/processor/heap.rs"
EL = "src/processor/eliminate.rs"
DM = "src/bin/dmcr.rs"
SP = "src/bin/splr.rs"
DB = "src/cdb/db.rs"
CL = "src/types/clause.rs"
MO = "src/solver/mod.rs"
ST = "src/state.rs"
CF = "src/cnf/mod.rs"
SE = "src/solver/search.rs"
BU = "src/solver/build.rs"
CN = "src/types/cnf.rs"
SI = "src/processor/simplify.rs"

same("sls-first", (SL, "                    if target_clause.is_none() || unsat_clauses == step {\n", "                    let first = target_clause.is_none();\n                    if first || unsat_clauses == step {\n"))
same("sls-while", (SL, "        for step in 1..=limit {\n            let mut unsat_clauses = 0;", "        let mut step = 0;\n        while step < limit {\n            step += 1;\n            let mut unsat_clauses = 0;"))
same("sls-falsified-filter", (SL, "        for l in self.iter() {\n            let vi = l.vi();\n            match assignment.get(&vi) {\n                Some(b) if *b == l.as_bool() => {\n                    if num_sat == 1 {\n                        return false;\n                    }\n                    num_sat += 1;\n                    sat_vi = vi;\n                }\n                None => unreachable!(),\n                _ => (),\n            }\n        }",
     "        for l in self.iter() {\n            let vi = l.vi();\n            let Some(b) = assignment.get(&vi) else {\n                unreachable!()\n            };\n            if *b != l.as_bool() {\n                continue;\n            }\n            if num_sat == 1 {\n                return false;\n            }\n            num_sat += 1;\n            sat_vi = vi;\n        }"))
same("elimheap-up-helper", within(HP, "    fn percolate_up(", ("                self.heap[q as usize] = vq;\n                debug_assert!(vq != 0, \"Invalid index in percolate_up\");\n                self.idxs[vq as usize] = q;\n                return;\n            } else {", "                self.place(q, vq);\n                return;\n            } else {"), ("                    self.heap[q as usize] = vp;\n                    debug_assert!(vq != 0, \"Invalid index in percolate_up\");\n                    self.idxs[vp as usize] = q;\n                    q = p;", "                    self.place(q, vp);\n                    q = p;")),
     (HP, "impl VarOccHeap {", "impl VarOccHeap {\n    fn place(&mut self, at: u32, vi: u32) {\n        self.heap[at as usize] = vi;\n        self.idxs[vi as usize] = at;\n    }"))
same("elimheap-insert-rename", within(HP, "    fn insert(&mut self, occur", ("        let i = self.idxs[vi];\n        let n = self.idxs[0] + 1;\n        let vn = self.heap[n as usize];\n        self.heap.swap(i as usize, n as usize);\n        self.idxs.swap(vi, vn as usize);\n", "        let last = self.idxs[0] + 1;\n        let n = last;\n        let place = self.idxs[vi] as usize;\n        let other = self.heap[n as usize] as usize;\n        self.idxs.swap(vi, other);\n        self.heap.swap(place, n as usize);\n")))
same("skip-elim-early", (EL, "                if clause_size == 0 {\n                    continue;\n                }\n                cnt += 1;\n                average_len *= 1.0 - scale;\n                average_len += scale * clause_size as f64;\n                if clslen + limit < cnt || COMBINATION_LIMIT < average_len {\n                    return true;\n                }", "                if 0 < clause_size {\n                    cnt += 1;\n                    average_len = average_len * (1.0 - scale) + scale * clause_size as f64;\n                    let too_many = clslen + limit < cnt;\n                    if too_many || COMBINATION_LIMIT < average_len {\n                        return true;\n                    }\n                }"))
same("elim-skip-flat", (EL, "    if *timedout < num_combination\n        || skip_var_elimination(\n            asg,\n            cdb,\n            &w.pos_occurs,\n            &w.neg_occurs,\n            vi,\n            elim.eliminate_grow_limit,\n        )\n    {\n        return Ok(());\n    } else {\n        *timedout -= num_combination;\n    }", "    if *timedout < num_combination {\n        return Ok(());\n    }\n    if skip_var_elimination(asg, cdb, &w.pos_occurs, &w.neg_occurs, vi, elim.eliminate_grow_limit) {\n        return Ok(());\n    }\n    *timedout -= num_combination;"))
same("elim-cost-any", (EL, "        for l in c_q.iter() {\n            if !*lit == *l {\n                return Some(0);\n            } else if *lit == *l || asg.var(l.vi()).is(FlagVar::ELIMINATED) {\n                continue 'next_lit;\n            }\n        }\n        count += 1;", "        for l in c_q.iter() {\n            if !*lit == *l {\n                return Some(0);\n            }\n            if *lit == *l || asg.var(l.vi()).is(FlagVar::ELIMINATED) {\n                continue 'next_lit;\n            }\n        }\n        count += 1;"))
same("elim-remove-chain", (EL, "    for cid in pos.iter() {\n        if cdb[*cid].is_dead() {\n            continue;\n        }\n        elim.remove_cid_occur(asg, *cid, &mut cdb[*cid]);\n        cdb.remove_clause(*cid);\n    }\n    for cid in neg.iter() {\n        if cdb[*cid].is_dead() {\n            continue;\n        }\n        elim.remove_cid_occur(asg, *cid, &mut cdb[*cid]);\n        cdb.remove_clause(*cid);\n    }", "    for cid in pos.iter().chain(neg.iter()) {\n        if cdb[*cid].is_dead() {\n            continue;\n        }\n        elim.remove_cid_occur(asg, *cid, &mut cdb[*cid]);\n        cdb.remove_clause(*cid);\n    }"))
same("elim-remove-helper", (EL, "    for cid in pos.iter() {\n        if cdb[*cid].is_dead() {\n            continue;\n        }\n        elim.remove_cid_occur(asg, *cid, &mut cdb[*cid]);\n        cdb.remove_clause(*cid);\n    }\n    for cid in neg.iter() {\n        if cdb[*cid].is_dead() {\n            continue;\n        }\n        elim.remove_cid_occur(asg, *cid, &mut cdb[*cid]);\n        cdb.remove_clause(*cid);\n    }", "    drop_clauses(asg, cdb, elim, &pos);\n    drop_clauses(asg, cdb, elim, &neg);"),
     (EL, "fn skip_var_elimination(", "fn drop_clauses(asg: &mut impl AssignIF, cdb: &mut impl ClauseDBIF, elim: &mut Eliminator, cids: &[ClauseId]) {\n    for cid in cids {\n        if !cdb[*cid].is_dead() {\n            elim.remove_cid_occur(asg, *cid, &mut cdb[*cid]);\n            cdb.remove_clause(*cid);\n        }\n    }\n}\n\nfn skip_var_elimination("))
same("elim-save-smaller", (EL, "    if neg.len() < pos.len() {\n        for cid in neg {\n            debug_assert!(!cdb[*cid].is_dead());\n            make_eliminated_clause(cdb, store, v, *cid);\n        }\n        make_eliminating_unit_clause(store, Lit::from((v, true)));\n    } else {\n        for cid in pos {\n            debug_assert!(!cdb[*cid].is_dead());\n            make_eliminated_clause(cdb, store, v, *cid);\n        }\n        make_eliminating_unit_clause(store, Lit::from((v, false)));\n    }", "    let (kept, default) = if neg.len() < pos.len() { (neg, true) } else { (pos, false) };\n    for cid in kept {\n        make_eliminated_clause(cdb, store, v, *cid);\n    }\n    make_eliminating_unit_clause(store, Lit::from((v, default)));"))
same("elim-resolve-if", (EL, "                    match cdb.new_clause(asg, vec, learnt_p && cdb[*n].is(FlagClause::LEARNT)) {\n", "                    let learnt = learnt_p && cdb[*n].is(FlagClause::LEARNT);\n                    match cdb.new_clause(asg, vec, learnt) {\n"))
same("dmcr-args-match", (DM, "                    if options_path.contains(&name) {\n                        if let Some(val) = iter.next() {\n                            match name {\n                                \"assign\" => self.assign = Some(PathBuf::from(val)),\n                                _ => panic!(\"not\"),\n                            }\n                        } else {\n                            panic!(\"no argument for {name}\");\n                        }\n                    } else {\n                        panic!(\"invalid argument: {name}\");\n                    }", "                    let Some(val) = iter.next() else {\n                        panic!(\"no argument for {name}\");\n                    };\n                    self.assign = Some(PathBuf::from(val));"))
same("dmcr-found", (DM, "    if !found {\n        println!(\"There's no assign file.\");\n        return;\n    }\n    match s.validate() {", "    if found {\n    } else {\n        println!(\"There's no assign file.\");\n        return;\n    }\n    let verdict = s.validate();\n    match verdict {"))
same("dmcr-read-match", (DM, "                        match s.parse::<i32>() {\n                            Ok(0) => break,\n                            Ok(x) => v.push(x),\n                            Err(e) => panic!(\"{e} by {s}\"),\n                        }", "                        let x = s.parse::<i32>().unwrap_or_else(|e| panic!(\"{e} by {s}\"));\n                        if x == 0 {\n                            break;\n                        }\n                        v.push(x);"))
same("splr-code-fn", (SP, "    std::process::exit(match res {\n        Ok(Certificate::SAT(_)) => 10,\n        Ok(Certificate::UNSAT) => 20,\n        Err(_) => 0,\n    });\n}", "    std::process::exit(exit_code(&res));\n}\n\nfn exit_code(res: &SolverResult) -> i32 {\n    match res {\n        Ok(Certificate::SAT(_)) => 10,\n        Ok(Certificate::UNSAT) => 20,\n        Err(_) => 0,\n    }\n}"))
same("splr-vline-join", (SP, "                for x in v {\n                    buf.write_all(format!(\"{x} \").as_bytes())?;\n                }", "                let mut line = String::new();\n                for x in v {\n                    line.push_str(&x.to_string());\n                    line.push(' ');\n                }\n                buf.write_all(line.as_bytes())?;"))
same("splr-vline-each", (SP, "                for x in v {\n                    buf.write_all(format!(\"{x} \").as_bytes())?;\n                }", "                v.iter().try_for_each(|x| write!(buf, \"{x} \"))?;"))
same("splr-colored-text", (SP, "    if no_color {\n        match v {\n            Ok(false) => Cow::Borrowed(\"s UNSATISFIABLE\"),\n            Ok(true) => Cow::Borrowed(\"s SATISFIABLE\"),\n            Err(_) => Cow::Borrowed(\"s UNKNOWN\"),\n        }\n    } else {\n        match v {\n            Ok(false) => Cow::from(format!(\"{BLUE}s UNSATISFIABLE{RESET}\")),\n            Ok(true) => Cow::from(format!(\"{GREEN}s SATISFIABLE{RESET}\")),\n            Err(_) => Cow::from(format!(\"{RED}s UNKNOWN{RESET}\")),\n        }\n    }", "    let (color, text) = match v {\n        Ok(false) => (BLUE, \"s UNSATISFIABLE\"),\n        Ok(true) => (GREEN, \"s SATISFIABLE\"),\n        Err(_) => (RED, \"s UNKNOWN\"),\n    };\n    if no_color {\n        Cow::Borrowed(text)\n    } else {\n        Cow::from(format!(\"{color}{text}{RESET}\"))\n    }"))
same("splr-announce-fn", (SP, "            match output {\n                Some(ref f) if redirect && !s.state.config.quiet_mode => println!(\n                    \"      Result|dump: to STDOUT instead of {} due to an IO error.\",\n                    f.to_string_lossy(),\n                ),\n                Some(ref f) if !s.state.config.quiet_mode => {\n                    println!(\"      Result|file: {}\", f.to_str().unwrap(),)\n                }\n                _ => (),\n            }\n            println!(\"{}: {}\", colored(Ok(true)", "            announce(&output, redirect, s.state.config.quiet_mode);\n            println!(\"{}: {}\", colored(Ok(true)"),
     (SP, "fn report(s: &Solver,", "fn announce(output: &Option<PathBuf>, redirect: bool, quiet: bool) {\n    let Some(f) = output else { return };\n    if quiet {\n        return;\n    }\n    if redirect {\n        println!(\n            \"      Result|dump: to STDOUT instead of {} due to an IO error.\",\n            f.to_string_lossy(),\n        );\n    } else {\n        println!(\"      Result|file: {}\", f.to_str().unwrap(),);\n    }\n}\n\nfn report(s: &Solver,"))
same("splr-build-iflet", (SP, "    let res = s.solve();\n    save_result(&mut s, &res, &cnf_file, ans_file);", "    let res: SolverResult = SolveIF::solve(&mut s);\n    {\n        let file = ans_file;\n        save_result(&mut s, &res, &cnf_file, file);\n    }"))
same("bi-complete-collect", (DB, "        let mut vec: Vec<Vec<Lit>> = Vec::new();\n        // [lit, other]\n        for (other, _) in self.binary_link.connect_with(lit) {\n            // [!other, third]\n            for (third, _) in self.binary_link.connect_with(!*other) {\n                if lit.vi() != third.vi() && self.binary_link.search(lit, *third).is_none() {\n                    // the new [lit, third] should be added.\n                    vec.push(vec![lit, *third]);\n                }\n            }\n        }", "        let mut vec: Vec<Vec<Lit>> = Vec::new();\n        for (other, _) in self.binary_link.connect_with(lit) {\n            for (third, _) in self.binary_link.connect_with(!*other) {\n                if lit.vi() == third.vi() {\n                    continue;\n                }\n                if self.binary_link.search(lit, *third).is_some() {\n                    continue;\n                }\n                let pair = vec![lit, *third];\n                vec.push(pair);\n            }\n        }"))
same("cert-from-match", (MO, "        Solver::try_from((Config::default(), vec.as_ref())).map_or_else(\n            |e: SolverResult| match e {\n                Ok(cert) => Ok(cert),\n                Err(SolverError::EmptyClause) => Ok(Certificate::UNSAT),\n                Err(e) => Err(e),\n            },\n            |mut solver| solver.solve(),\n        )", "        match Solver::try_from((Config::default(), vec.as_ref())) {\n            Ok(mut solver) => solver.solve(),\n            Err(Err(SolverError::EmptyClause)) => Ok(Certificate::UNSAT),\n            Err(answer) => answer,\n        }"))
same("elapsed-let", (ST, "        Some(\n            self.start.elapsed().as_secs_f64()\n                / Duration::from_secs(self.config.c_timeout as u64).as_secs_f64(),\n        )", "        let used = self.start.elapsed();\n        let limit = Duration::from_secs(self.config.c_timeout as u64);\n        Some(used.as_secs_f64() / limit.as_secs_f64())"))
same("header-match", (CN, "                    if iter.next() == Some(\"p\")\n                        && iter.next() == Some(\"cnf\")\n                        && let Some(v) = iter.next().and_then(|s| s.parse::<usize>().ok())\n                        // literals are read as `i32`\n                        && v <= i32::MAX as usize\n                        && let Some(c) = iter.next().and_then(|s| s.parse::<usize>().ok())\n                    {\n                        nv = v;\n                        nc = c;\n                        found_valid_header = true;\n                        break;\n                    }\n                    continue;", "                    if iter.next() != Some(\"p\") || iter.next() != Some(\"cnf\") {\n                        continue;\n                    }\n                    let v = iter.next().and_then(|s| s.parse::<usize>().ok());\n                    let Some(v) = v.filter(|v| *v <= i32::MAX as usize) else {\n                        continue;\n                    };\n                    let Some(c) = iter.next().and_then(|s| s.parse::<usize>().ok()) else {\n                        continue;\n                    };\n                    (nv, nc) = (v, c);\n                    found_valid_header = true;\n                    break;"))
same("header-return", (CN, "        let fs = File::open(path).map_or(Err(SolverError::IOError), Ok)?;", "        let fs = match File::open(path) {\n            Ok(f) => f,\n            Err(_) => return Err(SolverError::IOError),\n        };"))
same("header-parse-fn", (CN, "                        && let Some(v) = iter.next().and_then(|s| s.parse::<usize>().ok())\n", "                        && let Some(v) = number(iter.next())\n"), (CN, "                        && let Some(c) = iter.next().and_then(|s| s.parse::<usize>().ok())\n", "                        && let Some(c) = number(iter.next())\n"), (CN, "impl TryFrom<&Path> for CNFReader {", "fn number(token: Option<&str>) -> Option<usize> {\n    token?.parse::<usize>().ok()\n}\n\nimpl TryFrom<&Path> for CNFReader {"))
same("header-option", (CN, "        let mut found_valid_header = false;\n", "        let mut header: Option<(usize, usize)> = None;\n"), (CN, "        let mut nv: usize = 0;\n        let mut nc: usize = 0;\n", ""), (CN, "                        nv = v;\n                        nc = c;\n                        found_valid_header = true;\n                        break;", "                        header = Some((v, c));\n                        break;"), (CN, "        if !found_valid_header {\n            return Err(SolverError::IOError);\n        }\n", "        let Some((nv, nc)) = header else {\n            return Err(SolverError::IOError);\n        };\n"))
same("header-swap-order", (CN, "                        nv = v;\n                        nc = c;\n", "                        nc = c;\n                        nv = v;\n"))
same("inject-tokens-fn", (BU, "                            Ok(val) if self.asg.num_vars < val.unsigned_abs() as usize => {\n                                return Err(SolverError::InvalidLiteral);\n                            }\n                            Ok(val) => v.push(Lit::from(val)),", "                            Ok(val) => {\n                                if !self.in_range(val) {\n                                    return Err(SolverError::InvalidLiteral);\n                                }\n                                v.push(Lit::from(val));\n                            }"), (BU, "impl Solver {\n    // renamed from clause_new", "impl Solver {\n    fn in_range(&self, val: i32) -> bool {\n        val.unsigned_abs() as usize <= self.asg.num_vars\n    }\n    // renamed from clause_new"))
same("check-size-first", (SE, "                if cdb.check_size().is_err() {\n                    return Err(SolverError::OutOfMemory);\n                }\n                state.log(None, \"By eliminator\");\n                return Ok(Certificate::UNSAT);", "                return if cdb.check_size().is_err() {\n                    Err(SolverError::OutOfMemory)\n                } else {\n                    state.log(None, \"By eliminator\");\n                    Ok(Certificate::UNSAT)\n                };"))
same("solve-answer-iflet", (SE, "                let vals = asg\n                    .var_iter()\n                    .enumerate()\n                    .skip(1)\n                    .map(|(vi, _)| i32::from(Lit::from((vi, model[vi].unwrap()))))\n                    .collect::<Vec<i32>>();", "                let mut vals: Vec<i32> = Vec::with_capacity(asg.num_vars);\n                for vi in 1..=asg.num_vars {\n                    vals.push(i32::from(Lit::from((vi, model[vi].unwrap()))));\n                }"))
same("search-timeout-map", (SE, "            if let Some(p) = state.elapsed() {\n                if 1.0 <= p {\n                    return Err(SolverError::TimeOut);\n                }\n            } else {\n                return Err(SolverError::UndescribedError);\n            }", "            match state.elapsed() {\n                Some(p) if 1.0 <= p => return Err(SolverError::TimeOut),\n                Some(_) => (),\n                None => return Err(SolverError::UndescribedError),\n            }"))
same("search-conflict-fn", (SE, "        if 1 < handle_conflict(asg, cdb, state, &cc)? {\n            num_learnt += 1;\n        }", "        let rank = handle_conflict(asg, cdb, state, &cc)?;\n        num_learnt += usize::from(1 < rank);"))

SPB = "src/bin/splr.rs"
PRB = "src/assign/propagate.rs"
same("8b-early-proof-nested", (SPB, """            if config.use_certification
                && let Err(why) = fs::write(config.io_odir.join(&config.io_pfile), b"0\\n")
            {
                println!("Abort: failed to save the certificate by {why}!");
            }
""", """            if config.use_certification {
                let proof = config.io_odir.join(&config.io_pfile);
                match fs::write(&proof, b"0\\n") {
                    Ok(()) => (),
                    Err(why) => println!("Abort: failed to save the certificate by {why}!"),
                }
            }
"""))
same("8b-early-proof-helper", (SPB, """            if config.use_certification
                && let Err(why) = fs::write(config.io_odir.join(&config.io_pfile), b"0\\n")
            {
                println!("Abort: failed to save the certificate by {why}!");
            }
""", """            complete_proof(&config);
"""), (SPB, "/// save the result of a run that ended while loading the problem.\n", """/// complete the proof of a problem that is refuted by unit propagation.
fn complete_proof(config: &Config) {
    if !config.use_certification {
        return;
    }
    let path = config.io_odir.join(&config.io_pfile);
    if let Err(why) = fs::write(path, b"0\\n") {
        println!("Abort: failed to save the certificate by {why}!");
    }
}

/// save the result of a run that ended while loading the problem.
"""))
same("8b-root-ifs", (PRB, """        match var_assign!(self, vi) {
            None => {
                set_assign!(self, l);
                debug_assert!(!self.trail.contains(&!l));
                self.trail.push(l);
                self.make_var_asserted(vi);
                Ok(())
            }""", """        let now = self.assigned(l);
        if now == Some(true) {
            return Ok(());
        }
        match var_assign!(self, vi) {
            None => {
                set_assign!(self, l);
                debug_assert!(!self.trail.contains(&!l));
                self.trail.push(l);
                self.make_var_asserted(vi);
                Ok(())
            }"""))
same("8b-root-flag", (PRB, """            Some(x) if x == bool::from(l) => {
                #[cfg(feature = "boundary_check")]""", """            Some(x) if bool::from(l) == x => {
                #[cfg(feature = "boundary_check")]"""))
same("8b-model-chunks", (SPB, """                for x in v {
                    buf.write_all(format!("{x} ").as_bytes())?;
                }""", """                for row in v.chunks(64) {
                    for x in row {
                        buf.write_all(format!("{x} ").as_bytes())?;
                    }
                }"""))
same("8b-root-neq", (PRB, """            Some(x) if x == bool::from(l) => {
                #[cfg(feature = "boundary_check")]""", """            Some(x) if x != bool::from(l) => {
                Err(SolverError::RootLevelConflict((l, self.var[vi].reason)))
            }
            Some(_) => {
                #[cfg(feature = "boundary_check")]"""), (PRB, """                Ok(())
            }
            _ => Err(SolverError::RootLevelConflict((l, self.var[l.vi()].reason))),
        }
    }
    fn assign_by_implication""", """                Ok(())
            }
        }
    }
    fn assign_by_implication"""))
