"""Bugs written from the statements of the properties and the code alone (fourth batch)."""
from cases import bug, same
B = "src/solver/build.rs"
TC = "src/types/cnf.rs"
CN = "src/cnf/mod.rs"
V = "src/solver/validate.rs"
SP = "src/bin/splr.rs"
DM = "src/bin/dmcr.rs"
CF = "src/config.rs"

# ---- P09
bug("p09-min-filter", "P09", (B, "        for i in vec.as_ref().iter() {\n            if *i == 0", "        for i in vec.as_ref().iter().filter(|i| **i != i32::MIN) {\n            if *i == 0"))
bug("p09-assign-abs", "P09", (B, "if val == 0 || self.asg.num_vars < val.unsigned_abs() as usize {", "if val == 0 || self.asg.num_vars < val.abs() as usize {"))
bug("p09-inject-late", "P09", (V, "            if *i == 0 || self.asg.num_vars < i.unsigned_abs() as usize {\n                return Err(SolverError::InvalidLiteral);\n            }\n            self.asg.assign_at_root_level(Lit::from(*i))?;", "            self.asg.assign_at_root_level(Lit::from(*i))?;\n            if *i == 0 || self.asg.num_vars < i.unsigned_abs() as usize {\n                return Err(SolverError::InvalidLiteral);\n            }"))
bug("p09-take", "P09", (B, "        for i in vec.as_ref().iter() {\n            if *i == 0", "        for i in vec.as_ref().iter().take(1000) {\n            if *i == 0"))
bug("p09-desc-abs", "P09", (TC, ".filter_map(|l| l.checked_abs())", ".map(|l| l.abs())"))
bug("p09-target", "P09", (B, "if val == 0 || self.asg.num_vars < val.unsigned_abs() as usize {", "if val == 0 || self.asg.num_vars.max(self.state.target.num_of_variables + 1) < val.unsigned_abs() as usize {"))
bug("p09-vec-dim", "P09", (B, "            for i in ints.as_ref().iter() {\n                if *i == 0 ||", "            for i in ints.as_ref().iter() {\n                if *i == 0 && 1 < ints.as_ref().len() ||"))
bug("p09-file-zero", "P09", (B, "Ok(val) if self.asg.num_vars < val.unsigned_abs() as usize => {", "Ok(val) if self.asg.num_vars < val.unsigned_abs() as usize && !v.is_empty() => {"))
# ---- P10
bug("p10-wrap", "P10", (B, "match s.parse::<i32>() {", "match s.parse::<i64>().map(|x| x as i32) {"))
bug("p10-nv-cap", "P10", (TC, "                        // literals are read as `i32`\n                        && v <= i32::MAX as usize\n", ""))
bug("p10-dup-dead", "P10", (B, "if sat == Some(true) || Some(!li) == l_ {", "if sat == Some(true) || l_.is_some_and(|x: Lit| x.vi() == li.vi()) {"))
bug("p10-no-truncate", "P10", (B, "        lits.truncate(j);\n        match", "        if 1 < j {\n            lits.truncate(j);\n        }\n        match"))
bug("p10-unit-dead", "P10", (B, "                asg.assign_at_root_level(l0)\n                    .map_or(RefClause::EmptyClause,", "                asg.assign_at_root_level(l0)\n                    .map_or(RefClause::Dead,"))
bug("p10-comment-any", "P10", (B, "Ok(_) if buf.starts_with('c') => continue,", "Ok(_) if buf.contains('c') => continue,"))
bug("p10-short-line", "P10", (B, "Ok(_) if buf.starts_with('c') => continue,", "Ok(n) if buf.starts_with('c') || n < 3 => continue,"))
bug("p10-blank-stop", "P10", (B, "                Ok(0) => break,\n                Ok(_) if buf.starts_with('c')", "                Ok(0) => break,\n                Ok(_) if buf.trim().is_empty() => break,\n                Ok(_) if buf.starts_with('c')"))
bug("p10-taut-rest", "P10", (B, "            if sat == Some(true) || Some(!li) == l_ {", "            if sat == Some(true) || Some(!li) == l_ || (sat == Some(false) && i == 0) {"))
bug("p10-line-clear", "P10", (B, "                Ok(_) => {\n                    for s in buf.split_whitespace() {", "                Ok(_) => {\n                    v.clear();\n                    for s in buf.split_whitespace() {"))
bug("p10-eof-drop", "P10", (B, "        if !v.is_empty() && self.add_unchecked_clause(&mut v) == RefClause::EmptyClause {\n            return Err(SolverError::EmptyClause);\n        }\n", ""))
bug("p10-clause-take", "P10", (B, "                                if self.add_unchecked_clause(&mut v) == RefClause::EmptyClause {\n                                    return Err(SolverError::EmptyClause);\n                                }\n                                v.clear();", "                                if 1 < v.len() || self.asg.num_vars < 2 {\n                                    if self.add_unchecked_clause(&mut v) == RefClause::EmptyClause {\n                                        return Err(SolverError::EmptyClause);\n                                    }\n                                } else if let Some(l) = v.first() {\n                                    let _ = self.asg.assign_at_root_level(*l);\n                                }\n                                v.clear();"))
bug("p10-header-twice", "P10", (TC, "                        nc = c;\n                        found_valid_header = true;\n                        break;", "                        nc = c;\n                        found_valid_header = true;\n                        if 0 < nv {\n                            break;\n                        }"))
bug("p10-header-read", "P10", (TC, "                Err(e) => {\n                    println!(\"{e}\");\n                    return Err(SolverError::IOError);\n                }", "                Err(e) => {\n                    println!(\"{e}\");\n                    continue;\n                }"))
# ---- P17
bug("p17-dir", "P17", (SP, "        _ => Some(config.io_odir.join(&config.io_rfile)),", "        _ => Some(config.io_rfile.clone()),"))
bug("p17-sink", "P17", (SP, "                redirect = true;\n                otty = BufWriter::new(std::io::stdout());\n                &mut otty", "                redirect = true;\n                otty2 = std::io::sink();\n                &mut otty2"), (SP, "    let mut otty;\n", "    let mut otty;\n    let mut otty2;\n"))
bug("p17-model-lines", "P17", (SP, "                for x in v {\n                    buf.write_all(format!(\"{x} \").as_bytes())?;", "                for x in v {\n                    buf.write_all(format!(\"{} \", x.abs()).as_bytes())?;"))
bug("p17-quiet", "P17", (SP, "            println!(\"{}: {}\", colored(Ok(false), s.state.config.no_color), input);\n            if let Err(why)", "            if !s.state.config.quiet_mode {\n                println!(\"{}: {}\", colored(Ok(false), s.state.config.no_color), input);\n            }\n            if let Err(why)"))
bug("p17-report-err", "P17", (SP, "                report(s, &mut buf)?;\n                buf.write_all(b\"s UNSATISFIABLE\\n\")?;\n                buf.write_all(b\"0\\n\")?;\n                buf.flush()", "                report(s, &mut buf)?;\n                if s.state.config.use_certification {\n                    return buf.flush();\n                }\n                buf.write_all(b\"s UNSATISFIABLE\\n\")?;\n                buf.write_all(b\"0\\n\")?;\n                buf.flush()"))
bug("p17-timeout-some", "P17", (SP, "        Err(SolverError::EmptyClause | SolverError::RootLevelConflict(_)) => {\n            println!(", "        Err(SolverError::EmptyClause | SolverError::RootLevelConflict(_) | SolverError::OutOfMemory) => {\n            println!("))
bug("p17-empty-model", "P17", (SP, "        Ok(Certificate::SAT(_)) => 10,", "        Ok(Certificate::SAT(v)) if !v.is_empty() => 10,\n        Ok(Certificate::SAT(_)) => 20,"))
bug("p17-panic-nofile", "P17", (SP, "    let res = s.solve();\n    save_result(&mut s, &res, &cnf_file, ans_file);\n", "    let res = s.solve();\n    if ans_file.as_ref().is_none_or(|f| !f.exists()) || res.is_ok() {\n        save_result(&mut s, &res, &cnf_file, ans_file);\n    }\n"))
# ---- P18
bug("p18-side", "P18", (CF, "                        \"q\" => self.quiet_mode = true,", "                        \"q\" => {\n                            self.quiet_mode = true;\n                            self.no_color = true;\n                        }"))
bug("p18-after", "P18", (CF, "        if help {\n            let features", "        if self.quiet_mode {\n            self.show_journal = false;\n        }\n        if help {\n            let features"))
bug("p18-max", "P18", (CF, "                                        \"timeout\" => self.c_timeout = val,", "                                        \"timeout\" => self.c_timeout = val.max(1.0),"))
bug("p18-dir-side", "P18", (CF, "                            \"o\" => self.io_odir = PathBuf::from(val),", "                            \"o\" => {\n                                self.io_odir = PathBuf::from(&val);\n                                self.io_pfile = self.io_odir.join(&self.io_pfile);\n                            }"))
bug("p18-empty-arg", "P18", (CF, "                                    \"dir\" => self.io_odir = PathBuf::from(val),", "                                    \"dir\" if val.is_empty() => (),\n                                    \"dir\" => self.io_odir = PathBuf::from(val),"))
bug("p18-prefix", "P18", (CF, "            if let Some(stripped) = arg.strip_prefix(\"--\") {\n                let flags", "            if arg == \"--\" {\n                break;\n            }\n            if let Some(stripped) = arg.strip_prefix(\"--\") {\n                let flags"))
# ---- P19
bug("p19-token", "P19", (DM, "                            Err(e) => panic!(\"{e} by {s}\"),", "                            Err(_) => break,"))
bug("p19-clash3", "P19", (V, "            self.asg.assign_at_root_level(Lit::from(*i))?;", "            if self.asg.assign_at_root_level(Lit::from(*i)).is_err() && vec.len() <= self.asg.num_vars {\n                return Err(SolverError::Inconsistent);\n            }"))
bug("p19-vec-last", "P19", (V, "        for i in vec {\n", "        for i in &vec[..vec.len().min(self.asg.num_vars)] {\n"))
bug("p19-map", "P19", (V, "            .map(|cid| Vec::<i32>::from(&self.cdb[cid]))", "            .map(|cid| Vec::<i32>::from(&self.cdb[cid]))\n            .filter(|c| 1 < c.len() && c.len() < 1000)"))
bug("p19-buf", "P19", (DM, "                        match s.parse::<i32>() {\n                            Ok(0) => break,\n                            Ok(x) => v.push(x),", "                        match s.parse::<i32>() {\n                            Ok(0) => break,\n                            Ok(x) if v.contains(&-x) => (),\n                            Ok(x) => v.push(x),"))
# ---- P27
bug("p27-key-abs", "P27", (CN, "        cc.sort_unstable();\n        if !self", "        cc.iter_mut().for_each(|l| *l = l.abs());\n        cc.sort_unstable();\n        if !self"))
bug("p27-comment", "P27", (CN, "                Ok(_) if buf.starts_with('c') => (),", "                Ok(_) if buf.contains('c') && found_valid_header => (),"))
bug("p27-dump-map", "P27", (CN, "            self.clauses\n                .iter()\n                .map(|cls| cls", "            self.cls_map\n                .iter()\n                .map(|cls| cls"))
bug("p27-threshold-drop", "P27", (CN, "            self.no_check_uniqueness = true;\n            self.cls_map.clear();\n        }", "            self.no_check_uniqueness = true;\n            self.cls_map.clear();\n            return Ok(self);\n        }"))
bug("p27-units", "P27", (CN, "                    cnf.assign.insert(l);\n", "                    if !cnf.assign.insert(l) || 1 < clauses.as_ref().len() && cnf.assign.len() > 100 {\n                        continue;\n                    }\n"))
bug("p27-nc-less", "P27", (CN, "        } else if cnf.num_clauses() != nc {", "        } else if nc < cnf.num_clauses() {"))
bug("p27-trail-zero", "P27", (CN, "        if !found_valid_header || !vec.is_empty() {", "        if !found_valid_header || 1 < vec.len() {"))
bug("p27-exists-any", "P27", (CN, "                                    if e == CNFOperationError::AddingClauseExists {", "                                    if e != CNFOperationError::ReadingCNFFile {"))
bug("p27-save-err", "P27", (CN, "            buf.write_all(self.dump_to_string().as_bytes())\n                .and_then(|_| buf.flush())", "            buf.write_all(self.dump_to_string().as_bytes())"))
bug("p27-maxvar", "P27", (CN, "        self.num_vars = self\n            .num_vars\n            .max(c.iter().map(|v| v.unsigned_abs()).max().unwrap());", "        self.num_vars = self\n            .num_vars\n            .max(c.iter().map(|v| *v).max().unwrap().unsigned_abs());"))
bug("p27-mapkey", "P27", (CN, "        if !self.no_check_uniqueness && self.cls_map.iter().any(|ref_c| *ref_c == cc) {", "        if !self.no_check_uniqueness && self.cls_map.iter().any(|ref_c| ref_c.starts_with(&cc)) {"))
