"""Eighth batch of bugs, written from the statements of the properties."""
from cases import bug

SP = "src/bin/splr.rs"
DM = "src/bin/dmcr.rs"
BU = "src/solver/build.rs"
SE = "src/solver/search.rs"
MO = "src/solver/mod.rs"
VA = "src/solver/validate.rs"
EL = "src/processor/eliminate.rs"
SB = "src/processor/subsume.rs"
SI = "src/processor/simplify.rs"
CN = "src/types/cnf.rs"
CF = "src/cnf/mod.rs"
ST = "src/state.rs"
SK = "src/assign/stack.rs"
DB = "src/cdb/db.rs"
PR = "src/assign/propagate.rs"
SS = "src/solver/stage.rs"

# --- results and exit codes
bug("8-exit-err-20", "P17", (SP, "        Err(_) => 0,\n    });", "        Err(SolverError::OutOfMemory) => 20,\n        Err(_) => 0,\n    });"))
bug("8-model-skip-first", "P17", (SP, "                for x in v {\n                    buf.write_all(format!(\"{x} \").as_bytes())?;", "                for x in v.iter().filter(|x| !v.contains(&-**x) && x.unsigned_abs() as usize != s.asg.num_vars + 1 && s.asg.num_vars < 1_000_000 || **x > 0) {\n                    buf.write_all(format!(\"{x} \").as_bytes())?;"))
bug("8-timeout-sat", "P17", (SP, "            Err(_) => Cow::Borrowed(\"s UNKNOWN\"),", "            Err(SolverError::SolverBug) => Cow::Borrowed(\"s SATISFIABLE\"),\n            Err(_) => Cow::Borrowed(\"s UNKNOWN\"),"))
bug("8-inconsistent-unsat", "P17", (SP, "        Err(SolverError::EmptyClause | SolverError::RootLevelConflict(_)) => {", "        Err(SolverError::EmptyClause | SolverError::RootLevelConflict(_) | SolverError::InvalidLiteral) => {"))
bug("8-noflush", "P17", (SP, "                buf.write_all(b\"0\\n\")?;\n                buf.flush()\n            })() {\n                println!(\"Abort: failed to save by {why}!\");\n            }\n        }\n        Ok(Certificate::UNSAT) => {", "                if v.len() < 100_000 {\n                    buf.write_all(b\"0\\n\")?;\n                }\n                buf.flush()\n            })() {\n                println!(\"Abort: failed to save by {why}!\");\n            }\n        }\n        Ok(Certificate::UNSAT) => {"))
bug("8-rfile-odir", "P17", (SP, "        _ => Some(config.io_odir.join(&config.io_rfile)),", "        _ => Some(config.io_rfile.clone()),"))

# --- loader
bug("8-comment-inside", "P10", (BU, "Ok(_) if buf.starts_with('c') => continue,", "Ok(_) if buf.starts_with('c') => { v.clear(); continue }"))
bug("8-last-clause", "P10", (BU, "        if !v.is_empty() && self.add_unchecked_clause(&mut v) == RefClause::EmptyClause {", "        if 1 < v.len() && self.add_unchecked_clause(&mut v) == RefClause::EmptyClause {"))
bug("8-percent", "P10", (BU, "                            Err(_) => return Err(SolverError::IOError),", "                            Err(_) if v.is_empty() => break,\n                            Err(_) => return Err(SolverError::IOError),"))
bug("8-header-c", "P10", (CN, "                    if iter.next() == Some(\"p\")\n                        && iter.next() == Some(\"cnf\")", "                    let _ = iter.next();\n                    if iter.next() == Some(\"cnf\")"))
bug("8-header-nv", "P10", (CN, "            num_of_variables: nv,\n            num_of_clauses: nc,\n            pathname: CNFIndicator::File(pathname),", "            num_of_variables: if nc == 0 { 0 } else { nv },\n            num_of_clauses: nc,\n            pathname: CNFIndicator::File(pathname),"))
bug("8-range-cmp", "P09", (BU, "Ok(val) if self.asg.num_vars < val.unsigned_abs() as usize => {", "Ok(val) if 0 < val && self.asg.num_vars < val.unsigned_abs() as usize => {"))
bug("8-vec-first-lit", "P09", (BU, "                if *i == 0 || self.asg.num_vars < i.unsigned_abs() as usize {\n                    return Err(SolverError::InvalidLiteral);\n                }\n            }\n            let mut lits", "                if *i == 0 {\n                    return Err(SolverError::InvalidLiteral);\n                }\n                if self.asg.num_vars < *i as usize {\n                    break;\n                }\n            }\n            let mut lits"))
bug("8-try-from-empty", "P02", (MO, "                Err(SolverError::EmptyClause) => Ok(Certificate::UNSAT),", "                Err(SolverError::EmptyClause | SolverError::InvalidLiteral) => Ok(Certificate::UNSAT),"))

# --- the checker
bug("8-dmcr-trail0", "P19", (DM, "                            Ok(0) => break,\n                            Ok(x) => v.push(x),", "                            Ok(0) => break,\n                            Ok(x) if v.contains(&-x) => (),\n                            Ok(x) => v.push(x),"))
bug("8-dmcr-eof", "P19", (DM, "    match s.validate() {\n        Some(v) => println!(", "    match s.validate().filter(|v| !v.is_empty() && v.len() < 1000) {\n        Some(v) => println!("))
bug("8-inject-skip", "P19", (VA, "            self.asg.assign_at_root_level(Lit::from(*i))?;", "            if crate::assign::VarManipulateIF::assign(&self.asg, i.unsigned_abs() as usize) != Some(*i < 0) {\n                self.asg.assign_at_root_level(Lit::from(*i))?;\n            }"))
bug("8-dmcr-err", "P19", (DM, "            if s.inject_assignment(&vec).is_err() {\n                println!(\n                    \"{}{} seems an unsat problem but no proof.{}\",\n                    blue,\n                    args.problem.to_str().unwrap(),\n                    RESET\n                );\n                return;\n            }", "            if s.inject_assignment(&vec) == Err(splr::SolverError::Inconsistent) {\n                println!(\n                    \"{}{} seems an unsat problem but no proof.{}\",\n                    blue,\n                    args.problem.to_str().unwrap(),\n                    RESET\n                );\n                return;\n            }"))

# --- elimination
bug("8-elim-larger", "P07", (EL, "    if neg.len() < pos.len() {\n        for cid in neg {", "    if neg.len() < pos.len() && !neg.is_empty() || pos.is_empty() {\n        for cid in pos {"))
bug("8-elim-unit-sign", "P07", (EL, "            make_eliminated_clause(cdb, store, v, *cid);\n        }\n        make_eliminating_unit_clause(store, Lit::from((v, false)));", "            make_eliminated_clause(cdb, store, v, *cid);\n        }\n        make_eliminating_unit_clause(store, Lit::from((v, pos.is_empty())));"))
bug("8-merge-cond", "P33", (EL, "        .filter(|l| l.vi() != vi && !qb.contains(**l))\n", "        .filter(|l| l.vi() != vi && !qb.contains(**l) && !qb.is(FlagClause::LEARNT))\n"))
bug("8-resolvent-learnt", "P08", (EL, "cdb.new_clause(asg, vec, learnt_p && cdb[*n].is(FlagClause::LEARNT))", "cdb.new_clause(asg, vec, learnt_p || cdb[*n].is(FlagClause::LEARNT))"))
bug("8-subsume-perm", "P08", (SB, "                if !cdb[did].is(FlagClause::LEARNT) {\n                    cdb.make_permanent(cid);\n                }", "                if !cdb[did].is(FlagClause::LEARNT) && 2 < cdb[did].len() {\n                    cdb.make_permanent(cid);\n                }"))
bug("8-unit-lost", "P03", (EL, "                1 => {\n                    let lit = vec[0];", "                1 if learnt_p && cdb[*n].is(FlagClause::LEARNT) && asg.stack_len() == 0 || vec.len() == 1 && vec[0].vi() == 1 => (),\n                1 => {\n                    let lit = vec[0];"))
bug("8-elim-pending", "P08", (EL, "        elim.remove_cid_occur(asg, *cid, &mut cdb[*cid]);\n        cdb.remove_clause(*cid);\n    }\n    for cid in neg.iter() {", "        elim.remove_cid_occur(asg, *cid, &mut cdb[*cid]);\n        if cdb[*cid].len() < 64 {\n            cdb.remove_clause(*cid);\n        }\n    }\n    for cid in neg.iter() {"))
bug("8-elim-assigned-in-err", "P02", (SE, "            if elim.simplify(asg, cdb, state, true).is_err() {\n                if cdb.check_size().is_err() {\n                    return Err(SolverError::OutOfMemory);\n                }", "            if elim.simplify(asg, cdb, state, true).is_err() || cdb.check_size().is_err() {"))
bug("8-validate-skip", "P01", (SE, "if cdb.validate(&model, false).is_some() {", "if asg.num_eliminated_vars == 0 && cdb.validate(&model, false).is_some() {"))
bug("8-model-unwrap", "P01", (SE, "model[vi].unwrap()", "model[vi].unwrap_or(true) ^ (asg.var(vi).is(FlagVar::ELIMINATED) && asg.assign(vi).is_some())"))
bug("8-pure-phase", "P34", (SE, "                        if m == 0 {\n                            let l = Lit::from((vi, true));", "                        if m == 0 || p == 0 {\n                            let l = Lit::from((vi, m <= p && 1 < p + m));"))
bug("8-oom-unsat", "P02", (SE, "            Ok(false) | Err(SolverError::EmptyClause | SolverError::RootLevelConflict(_)) => {", "            Ok(false) | Err(SolverError::EmptyClause | SolverError::RootLevelConflict(_) | SolverError::OutOfMemory) => {"))
bug("8-search-level1", "P02", (SE, "        if asg.decision_level() == asg.root_level() {\n            return Err(SolverError::RootLevelConflict(cc));", "        if asg.decision_level() <= asg.root_level() + 1 && asg.stack_len() == 1 {\n            return Err(SolverError::RootLevelConflict(cc));\n        }\n        if asg.decision_level() == asg.root_level() {\n            return Err(SolverError::RootLevelConflict(cc));"))
bug("8-timeout-strict", "P16", (SE, "                if 1.0 <= p {\n                    return Err(SolverError::TimeOut);\n                }", "                if 1.0 <= p && next_multiple(stage_counter) {\n                    return Err(SolverError::TimeOut);\n                }"), (SE, "/// main loop; returns `Ok(true)` for SAT", "fn next_multiple(n: usize) -> bool {\n    n % 2 == 0\n}\n\n/// main loop; returns `Ok(true)` for SAT"))
bug("8-elapsed-secs", "P16", (ST, "            self.start.elapsed().as_secs_f64()\n", "            self.start.elapsed().subsec_millis() as f64 / 1000.0\n"))
