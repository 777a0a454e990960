from cases import bug, same
BU = "src/solver/build.rs"
VA = "src/solver/validate.rs"
CN = "src/types/cnf.rs"
CF = "src/cnf/mod.rs"
# ---- P09
INJ = "            if *i == 0 || self.asg.num_vars < i.unsigned_abs() as usize {\n                return Err(SolverError::InvalidLiteral);\n            }\n            self.asg.assign_at_root_level"
bug("p09-off-by-one", "P09", (VA, "self.asg.num_vars < i.unsigned_abs() as usize", "self.asg.num_vars + 1 < i.unsigned_abs() as usize"))
bug("p09-zero", "P09", (VA, "*i == 0 || ", ""))
bug("p09-abs", "P09", (BU, "if val == 0 || self.asg.num_vars < val.unsigned_abs() as usize", "if val == 0 || self.asg.num_vars < val.abs() as usize"))
bug("p09-cert-first", "P09", (BU, """        if val == 0 || self.asg.num_vars < val.unsigned_abs() as usize {
            return Err(SolverError::InvalidLiteral);
        }
        let lit = Lit::from(val);
        self.cdb.certificate_add_assertion(lit);
""", """        let lit = Lit::from(val);
        self.cdb.certificate_add_assertion(lit);
        if val == 0 || self.asg.num_vars < val.unsigned_abs() as usize {
            return Err(SolverError::InvalidLiteral);
        }
"""))
bug("p09-first-only", "P09", (BU, """        for i in vec.as_ref().iter() {
            if *i == 0""", """        for i in vec.as_ref().iter().take(2) {
            if *i == 0"""))
bug("p09-wrong-error", "P09", (BU, """        for i in vec.as_ref().iter() {
            if *i == 0 || self.asg.num_vars < i.unsigned_abs() as usize {
                return Err(SolverError::InvalidLiteral);""", """        for i in vec.as_ref().iter() {
            if *i == 0 || self.asg.num_vars < i.unsigned_abs() as usize {
                return Err(SolverError::Inconsistent);"""))
bug("p09-negative", "P09", (BU, """                if *i == 0 || self.asg.num_vars < i.unsigned_abs() as usize {
                    return""", """                if *i == 0 || (self.asg.num_vars as i32) < *i {
                    return"""))
bug("p09-file", "P09", (BU, "Ok(val) if self.asg.num_vars < val.unsigned_abs() as usize => {", "Ok(val) if (self.asg.num_vars as i64) < val as i64 => {"))
bug("p09-strict", "P09", (BU, "if val == 0 || self.asg.num_vars < val.unsigned_abs() as usize", "if val == 0 || self.asg.num_vars <= val.unsigned_abs() as usize && 1 < self.asg.num_vars"))
same("p09-helper", (BU, """        if val == 0 || self.asg.num_vars < val.unsigned_abs() as usize {
            return Err(SolverError::InvalidLiteral);
        }
        let lit""", """        self.check_literal(val)?;
        let lit"""), (BU, """        for i in vec.as_ref().iter() {
            if *i == 0 || self.asg.num_vars < i.unsigned_abs() as usize {
                return Err(SolverError::InvalidLiteral);
            }
        }
""", """        for i in vec.as_ref().iter() {
            self.check_literal(*i)?;
        }
"""), (BU, """            for i in ints.as_ref().iter() {
                if *i == 0 || self.asg.num_vars < i.unsigned_abs() as usize {
                    return Err(SolverError::InvalidLiteral);
                }
            }
""", """            for i in ints.as_ref().iter() {
                self.check_literal(*i)?;
            }
"""), (BU, "impl Solver {\n", """impl Solver {
    fn check_literal(&self, val: i32) -> Result<(), SolverError> {
        let index = val.unsigned_abs() as usize;
        if (1..=self.asg.num_vars).contains(&index) {
            Ok(())
        } else {
            Err(SolverError::InvalidLiteral)
        }
    }
"""))
same("p09-bool-helper", (BU, """        if val == 0 || self.asg.num_vars < val.unsigned_abs() as usize {
            return Err(SolverError::InvalidLiteral);
        }
        let lit""", """        if !self.is_valid(val) {
            return Err(SolverError::InvalidLiteral);
        }
        let lit"""), (BU, """        for i in vec.as_ref().iter() {
            if *i == 0 || self.asg.num_vars < i.unsigned_abs() as usize {
                return Err(SolverError::InvalidLiteral);
            }
        }
""", """        if vec.as_ref().iter().any(|i| !self.is_valid(*i)) {
            return Err(SolverError::InvalidLiteral);
        }
"""), (BU, """            for i in ints.as_ref().iter() {
                if *i == 0 || self.asg.num_vars < i.unsigned_abs() as usize {
                    return Err(SolverError::InvalidLiteral);
                }
            }
""", """            if !ints.as_ref().iter().all(|i| self.is_valid(*i)) {
                return Err(SolverError::InvalidLiteral);
            }
"""), (VA, INJ, """            if !self.is_valid(*i) {
                return Err(SolverError::InvalidLiteral);
            }
            self.asg.assign_at_root_level"""), (BU, "impl Solver {\n", """impl Solver {
    pub(crate) fn is_valid(&self, val: i32) -> bool {
        val != 0 && val.unsigned_abs() as usize <= self.asg.num_vars
    }
"""))
same("p09-collect", (BU, """        for i in vec.as_ref().iter() {
            if *i == 0 || self.asg.num_vars < i.unsigned_abs() as usize {
                return Err(SolverError::InvalidLiteral);
            }
        }
        let mut clause = vec
            .as_ref()
            .iter()
            .map(|i| Lit::from(*i))
            .collect::<Vec<Lit>>();
""", """        let n = self.asg.num_vars;
        let mut clause: Vec<Lit> = Vec::new();
        for i in vec.as_ref().iter() {
            match i.unsigned_abs() as usize {
                0 => return Err(SolverError::InvalidLiteral),
                k if n < k => return Err(SolverError::InvalidLiteral),
                _ => clause.push(Lit::from(*i)),
            }
        }
"""))
# ---- P10
bug("p10-no-clear", "P10", (BU, "                                v.clear();\n", ""))
bug("p10-clear-line", "P10", (BU, "            buf.clear();\n            match reader.read_line(&mut buf) {\n                Ok(0) => break,\n                Ok(_) if buf", "            buf.clear();\n            v.clear();\n            match reader.read_line(&mut buf) {\n                Ok(0) => break,\n                Ok(_) if buf"))
bug("p10-trailing", "P10", (BU, "        if !v.is_empty() && self.add_unchecked_clause(&mut v) == RefClause::EmptyClause {\n            return Err(SolverError::EmptyClause);\n        }\n", ""))
bug("p10-ioerr", "P10", (BU, "                Err(_) => return Err(SolverError::IOError),\n            }\n        }\n        if !v", "                Err(_) => break,\n            }\n        }\n        if !v"))
bug("p10-token", "P10", (BU, "                            Err(_) => return Err(SolverError::IOError),\n                        }", "                            Err(_) => break,\n                        }"))
bug("p10-token2", "P10", (BU, "                            Err(_) => return Err(SolverError::IOError),\n                        }", "                            Err(_) => continue,\n                        }"))
bug("p10-empty", "P10", (BU, """                                if self.add_unchecked_clause(&mut v) == RefClause::EmptyClause {
                                    return Err(SolverError::EmptyClause);
                                }
""", "                                self.add_unchecked_clause(&mut v);\n"))
bug("p10-percent", "P10", (BU, "Ok(_) if buf.starts_with('c') => continue,", "Ok(_) if buf.starts_with('c') || buf.starts_with(' ') => continue,"))
bug("p10-unwrap", "P10", (BU, "                            Err(_) => return Err(SolverError::IOError),\n                        }", "                            Err(e) => panic!(\"{e}\"),\n                        }"))
bug("p10-header-count", "P10", (CN, "                        && v <= i32::MAX as usize\n", ""))
bug("p10-header-none", "P10", (CN, "        if !found_valid_header {\n            return Err(SolverError::IOError);\n        }\n", ""))
bug("p10-header-swap", "P10", (CN, "            num_of_variables: nv,\n            num_of_clauses: nc,\n            pathname: CNFIndicator::File", "            num_of_variables: nc,\n            num_of_clauses: nv,\n            pathname: CNFIndicator::File"))
bug("p10-header-io", "P10", (CN, "                    println!(\"{e}\");\n                    return Err(SolverError::IOError);", "                    println!(\"{e}\");\n                    continue;"))
bug("p10-false-kept", "P10", (BU, "} else if sat != Some(false) && Some(li) != l_ {", "} else if sat.is_none() && Some(li) != l_ && lits.len() < 1000 {"))
bug("p10-dead", "P10", (BU, "if sat == Some(true) || Some(!li) == l_ {", "if sat == Some(true) || l_.is_some_and(|l| l.vi() == li.vi()) {"))
bug("p10-unit-conflict", "P10", (BU, "        match lits.len() {\n            0 => RefClause::EmptyClause, // for UNSAT\n            1 => {", "        match lits.len() {\n            0 => RefClause::Dead,\n            1 => {"))
same("p10-header-let", (CN, """                    if iter.next() == Some("p")
                        && iter.next() == Some("cnf")
                        && let Some(v) = iter.next().and_then(|s| s.parse::<usize>().ok())
                        // literals are read as `i32`
                        && v <= i32::MAX as usize
                        && let Some(c) = iter.next().and_then(|s| s.parse::<usize>().ok())
                    {
                        nv = v;
                        nc = c;
                        found_valid_header = true;
                        break;
                    }
                    continue;""", """                    if let Some((v, c)) = parse_header(&mut iter) {
                        nv = v;
                        nc = c;
                        found_valid_header = true;
                        break;
                    }"""), (CN, "impl TryFrom<&Path> for CNFReader {\n", """fn parse_header(iter: &mut std::str::SplitWhitespace<'_>) -> Option<(usize, usize)> {
    if iter.next() != Some("p") || iter.next() != Some("cnf") {
        return None;
    }
    let v = iter.next()?.parse::<usize>().ok()?;
    if (i32::MAX as usize) < v {
        return None;
    }
    let c = iter.next()?.parse::<usize>().ok()?;
    Some((v, c))
}

impl TryFrom<&Path> for CNFReader {
"""))
same("p10-take", (BU, """                                if self.add_unchecked_clause(&mut v) == RefClause::EmptyClause {
                                    return Err(SolverError::EmptyClause);
                                }
                                v.clear();
""", """                                let mut clause = std::mem::take(&mut v);
                                if self.add_unchecked_clause(&mut clause) == RefClause::EmptyClause
                                {
                                    return Err(SolverError::EmptyClause);
                                }
"""))
same("p10-tokens-helper", (BU, """                    for s in buf.split_whitespace() {
                        match s.parse::<i32>() {
                            Ok(0) => {
                                if self.add_unchecked_clause(&mut v) == RefClause::EmptyClause {
                                    return Err(SolverError::EmptyClause);
                                }
                                v.clear();
                            }
                            Ok(val) if self.asg.num_vars < val.unsigned_abs() as usize => {
                                return Err(SolverError::InvalidLiteral);
                            }
                            Ok(val) => v.push(Lit::from(val)),
                            Err(_) => return Err(SolverError::IOError),
                        }
                    }
""", """                    self.read_tokens(&buf, &mut v)?;
"""), (BU, "    #[cfg(not(feature = \"no_IO\"))]\n    fn inject(mut self", """    #[cfg(not(feature = "no_IO"))]
    fn read_tokens(&mut self, line: &str, v: &mut Vec<Lit>) -> Result<(), SolverError> {
        for s in line.split_whitespace() {
            let val = s.parse::<i32>().map_err(|_| SolverError::IOError)?;
            if val == 0 {
                let r = self.add_unchecked_clause(v);
                v.clear();
                if r == RefClause::EmptyClause {
                    return Err(SolverError::EmptyClause);
                }
            } else {
                if self.asg.num_vars < val.unsigned_abs() as usize {
                    return Err(SolverError::InvalidLiteral);
                }
                v.push(Lit::from(val));
            }
        }
        Ok(())
    }
    #[cfg(not(feature = "no_IO"))]
    fn inject(mut self"""))
same("p10-add-loop", (BU, """        let mut j = 0;
        let mut l_: Option<Lit> = None; // last literal; [x, x.negate()] means tautology.
        for i in 0..lits.len() {
            let li = lits[i];
            let sat = asg.assigned(li);
            if sat == Some(true) || Some(!li) == l_ {
                return RefClause::Dead;
            } else if sat != Some(false) && Some(li) != l_ {
                lits[j] = li;
                j += 1;
                l_ = Some(li);
            }
        }
        lits.truncate(j);
""", """        let mut j = 0;
        let mut l_: Option<Lit> = None; // last literal; [x, x.negate()] means tautology.
        let mut i = 0;
        while i < lits.len() {
            let li = lits[i];
            i += 1;
            if Some(!li) == l_ {
                return RefClause::Dead;
            }
            match asg.assigned(li) {
                Some(true) => return RefClause::Dead,
                Some(false) => continue,
                None if Some(li) == l_ => continue,
                None => (),
            }
            lits[j] = li;
            j += 1;
            l_ = Some(li);
        }
        lits.truncate(j);
"""))
same("p10-while", (BU, """        loop {
            buf.clear();
            match reader.read_line(&mut buf) {
                Ok(0) => break,
                Ok(_) if buf.starts_with('c') => continue,
                Ok(_) => {
""", """        while 0 < reader.read_line(&mut buf).map_err(|_| SolverError::IOError)? {
            match buf.starts_with('c') {
                true => (),
                false => {
"""), (BU, """                }
                Err(_) => return Err(SolverError::IOError),
            }
        }
        if !v""", """                }
            }
            buf.clear();
        }
        if !v"""))
# ---- P27
bug("p27-dedup", "P27", (CF, "        cc.sort_unstable();\n        if !self", "        cc.sort_unstable();\n        let mut c = c;\n        c.dedup();\n        if !self"))
bug("p27-nv", "P27", (CF, """        self.num_vars = self
            .num_vars
            .max(c.iter().map(|v| v.unsigned_abs()).max().unwrap());""", """        self.num_vars = c.iter().map(|v| v.unsigned_abs()).max().unwrap();"""))
bug("p27-load-trailing", "P27", (CF, "if !found_valid_header || !vec.is_empty() {", "if !found_valid_header {"))
bug("p27-load-clear", "P27", (CF, "            buf.clear();\n            match reader", "            buf.clear();\n            vec.clear();\n            match reader"))
bug("p27-load-count", "P27", (CF, "} else if cnf.num_clauses() != nc {", "} else if cnf.num_clauses() > nc {"))
bug("p27-load-err", "P27", (CF, "                            Err(_) => return Err(CNFOperationError::ParsingCNF),", "                            Err(_) => break,"))
bug("p27-load-empty", "P27", (CF, "                                    } else {\n                                        return Err(e);\n                                    }", "                                    }"))
bug("p27-save-flush", "P27", (CF, "                .and_then(|_| buf.flush())\n", ""))
bug("p27-save-ignored", "P27", (CF, """            buf.write_all(self.dump_to_string().as_bytes())
                .and_then(|_| buf.flush())
                .map_err(|_| CNFOperationError::WritingCNFFile)""", """            let _ = buf.write_all(self.dump_to_string().as_bytes());
            buf.flush().map_err(|_| CNFOperationError::WritingCNFFile)"""))
bug("p27-dump-count", "P27", (CF, "            self.num_vars,\n            self.clauses.len(),", "            self.num_vars,\n            self.cls_map.len(),"))
bug("p27-dump-skip", "P27", (CF, "            self.clauses\n                .iter()\n                .map(|cls|", "            self.clauses\n                .iter()\n                .skip(self.assign.len())\n                .map(|cls|"))
bug("p27-vec-skip", "P27", (CF, "            cnf.cls_map.insert(cc);\n            cnf.clauses.push(ref_c.clone());", "            if cnf.cls_map.insert(cc) && ref_c.len() < 100 {\n            cnf.clauses.push(ref_c.clone());\n            }"))
bug("p27-exists", "P27", (CF, "if !self.no_check_uniqueness && self.cls_map.iter().any(|ref_c| *ref_c == cc) {", "if !self.no_check_uniqueness && (self.cls_map.iter().any(|ref_c| *ref_c == cc) || 1000 < c.len()) {"))
same("p27-helper", (CF, """        self.num_vars = self
            .num_vars
            .max(c.iter().map(|v| v.unsigned_abs()).max().unwrap());
        if !self.no_check_uniqueness {
            self.cls_map.insert(cc);
        }
        self.clauses.push(c);
        Ok(self)""", """        if !self.no_check_uniqueness {
            self.cls_map.insert(cc);
        }
        self.store(c);
        Ok(self)"""), (CF, "impl CnfIf for CNF {\n", """impl CNF {
    fn store(&mut self, c: Clause) {
        for l in c.iter() {
            let v = l.unsigned_abs();
            if self.num_vars < v {
                self.num_vars = v;
            }
        }
        self.clauses.push(c);
    }
}

impl CnfIf for CNF {
"""))
same("p27-contains", (CF, "self.cls_map.iter().any(|ref_c| *ref_c == cc)", "self.cls_map.contains(&cc)"))
same("p27-save-try", (CF, """        if let Ok(f) = File::create(file) {
            let mut buf = std::io::BufWriter::new(f);
            buf.write_all(self.dump_to_string().as_bytes())
                .and_then(|_| buf.flush())
                .map_err(|_| CNFOperationError::WritingCNFFile)
        } else {
            Err(CNFOperationError::CreatingCNFFile)
        }""", """        let f = File::create(file).map_err(|_| CNFOperationError::CreatingCNFFile)?;
        let mut buf = std::io::BufWriter::new(f);
        let text = self.dump_to_string();
        buf.write_all(text.as_bytes())
            .map_err(|_| CNFOperationError::WritingCNFFile)?;
        buf.flush().map_err(|_| CNFOperationError::WritingCNFFile)"""))
same("p27-dump-loop", (CF, """        format!(
            "p cnf {} {}\\n{}",
            self.num_vars,
            self.clauses.len(),
            self.clauses
                .iter()
                .map(|cls| cls
                    .iter()
                    .map(|ch| format!("{ch} "))
                    .collect::<String>()
                    + "0\\n")
                .collect::<String>(),
        )""", """        let mut out = format!("p cnf {} {}\\n", self.num_vars, self.clauses.len());
        for cls in self.clauses.iter() {
            for ch in cls.iter() {
                out.push_str(&format!("{ch} "));
            }
            out.push_str("0\\n");
        }
        out"""))
same("p27-load-add", (CF, """                                if let Err(e) = cnf.add_clause(std::mem::take(&mut vec)) {
                                    if e == CNFOperationError::AddingClauseExists {
                                        clause_extists_already = true;
                                    } else {
                                        return Err(e);
                                    }
                                }""", """                                match cnf.add_clause(&vec) {
                                    Ok(_) => (),
                                    Err(CNFOperationError::AddingClauseExists) => {
                                        clause_extists_already = true;
                                    }
                                    Err(e) => return Err(e),
                                }
                                vec.clear();"""))
