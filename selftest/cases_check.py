from cases import bug, same
D = "src/bin/dmcr.rs"
V = "src/solver/validate.rs"
F1 = """        if let Some(vec) = read_assignment(&mut BufReader::new(d), cnf, &args.assign) {
            if s.inject_assignment(&vec).is_err() {
                println!(
                    "{}{} seems an unsat problem but no proof.{}",
                    blue,
                    args.problem.to_str().unwrap(),
                    RESET
                );
                return;
            }
        } else {
            return;
        }
        found = true;
"""
MATCH = """    match s.validate() {
        Some(v) => println!(
            "{}An invalid assignment set for {}{} due to {:?}.",
            red,
            args.problem.to_str().unwrap(),
            RESET,
            v,
        ),
        None if from_file"""
LOOP = """                    for s in stripped.split_whitespace() {
                        match s.parse::<i32>() {
                            Ok(0) => break,
                            Ok(x) => v.push(x),
                            Err(e) => panic!("{e} by {s}"),
                        }
                    }
"""
# ---- P19
bug("p19-noreturn", "P19", (D, """                    args.problem.to_str().unwrap(),
                    RESET
                );
                return;
            }""", """                    args.problem.to_str().unwrap(),
                    RESET
                );
            }"""))
bug("p19-ignore", "P19", (D, F1, """        if let Some(vec) = read_assignment(&mut BufReader::new(d), cnf, &args.assign) {
            let _ = s.inject_assignment(&vec);
        } else {
            return;
        }
        found = true;
"""))
bug("p19-swap", "P19", (D, MATCH, MATCH.replace("Some(v) =>", "Some(v) if v.len() > 1 =>").replace("None if", "None | Some(_) if")), (D, "        None => println", "        None | Some(_) => println"))
bug("p19-silent", "P19", (D, F1, F1.replace("""                println!(
                    "{}{} seems an unsat problem but no proof.{}",
                    blue,
                    args.problem.to_str().unwrap(),
                    RESET
                );
""", "")))
bug("p19-other", "P19", (D, "    match s.validate() {", "    match Solver::build(&config).expect(\"failed to load\").validate() {"))
bug("p19-noclause", "P19", (D, MATCH, MATCH.replace("Some(v)", "Some(_)").replace("due to {:?}", "due to {}").replace("            v,\n", "            \"a clause\",\n")))
bug("p19-positive", "P19", (D, "Ok(x) => v.push(x)", "Ok(x) if x > 0 => v.push(x),\n                            Ok(_) => ()"))
bug("p19-skip", "P19", (D, "in stripped.split_whitespace() {", "in stripped.split_whitespace().skip(1) {"))
bug("p19-abs", "P19", (D, "Ok(x) => v.push(x)", "Ok(x) => v.push(x.abs())"))
bug("p19-stop", "P19", (D, "Ok(0) => break", "Ok(x) if x == 0 || v.len() == 1000 => break"))
bug("p19-unsat", "P19", (D, """                        println!("{cnf} seems an unsatisfiable problem. I can't handle it.");
                        return None;""", """                        println!("{cnf} seems an unsatisfiable problem. I can't handle it.");
                        return Some(Vec::new());"""))
bug("p19-strict", "P19", (V, ".validate(&self.asg.assign_ref(), true)", ".validate(&self.asg.assign_ref(), false)"))
bug("p19-clash", "P19", (V, "            self.asg.assign_at_root_level(Lit::from(*i))?;", "            let _ = self.asg.assign_at_root_level(Lit::from(*i));"))
bug("p19-clash2", "P19", (V, "            self.asg.assign_at_root_level(Lit::from(*i))?;", "            if self.asg.assign_at_root_level(Lit::from(*i)).is_err() {\n                break;\n            }"))
bug("p19-half", "P19", (V, "            self.asg.assign_at_root_level(Lit::from(*i))?;", "            if self.asg.assign(i.unsigned_abs() as usize).is_none() {\n                self.asg.assign_at_root_level(Lit::from(*i))?;\n            }"), (V, "    assign::{AssignIF, PropagateIF},", "    assign::{AssignIF, PropagateIF, VarManipulateIF},"))
bug("p19-filter", "P19", (V, "            .map(|cid| Vec", "            .filter(|cid| self.cdb[*cid].rank > 2)\n            .map(|cid| Vec"))
bug("p19-root", "P19", ("src/assign/propagate.rs", "            Some(x) if x == bool::from(l) => {\n                #[cfg(feature = \"boundary_check\")]\n                panic!(\"double assignment(assertion)\");", "            Some(_) if l.vi() < self.num_asserted_vars => Ok(()),\n            Some(x) if x == bool::from(l) => {\n                #[cfg(feature = \"boundary_check\")]\n                panic!(\"double assignment(assertion)\");"))
bug("p19-validator", "P19", ("src/cdb/db.rs", "                None if strict => return Some(ClauseId::from(i)),", "                None if strict && c.len() > 2 => return Some(ClauseId::from(i)),"))
bug("p19-skipped", "P19", ("src/cdb/db.rs", "            if c.is_dead() || (strict && c.is(FlagClause::LEARNT)) {\n                continue;\n            }\n            match c.evaluate", "            if c.is_dead() || (strict && c.rank <= 2) {\n                continue;\n            }\n            match c.evaluate"))
same("p19-s-let", (D, MATCH, MATCH.replace("    match s.validate() {", "    let checked = s.validate();\n    match checked {")))
same("p19-s-iflet", (D, F1, """        let Some(vec) = read_assignment(&mut BufReader::new(d), cnf, &args.assign) else {
            return;
        };
        if let Err(_e) = s.inject_assignment(&vec) {
            println!(
                "{}{} seems an unsat problem but no proof.{}",
                blue,
                args.problem.to_str().unwrap(),
                RESET
            );
            return;
        }
        found = true;
"""))
same("p19-s-helper", (D, F1, """        let Some(vec) = read_assignment(&mut BufReader::new(d), cnf, &args.assign) else {
            return;
        };
        if !load(&mut s, &vec, &args.problem, blue) {
            return;
        }
        found = true;
"""), (D, "fn read_assignment(", """fn load(s: &mut Solver, vec: &[i32], problem: &Path, blue: &str) -> bool {
    if s.inject_assignment(vec).is_err() {
        println!(
            "{}{} seems an unsat problem but no proof.{}",
            blue,
            problem.to_str().unwrap(),
            RESET
        );
        return false;
    }
    true
}

fn read_assignment("""))
same("p19-s-report", (D, MATCH, """    report(s.validate(), from_file, &args, (red, green));
}

fn report(checked: Option<Vec<i32>>, from_file: bool, args: &TargetOpts, (red, green): (&str, &str)) {
    match checked {
        Some(v) => println!(
            "{}An invalid assignment set for {}{} due to {:?}.",
            red,
            args.problem.to_str().unwrap(),
            RESET,
            v,
        ),
        None if from_file"""), (D, "&args.assign.unwrap().to_str().unwrap()", "&args.assign.as_ref().unwrap().to_str().unwrap()"))
same("p19-s-flag", (D, F1, """        if let Some(vec) = read_assignment(&mut BufReader::new(d), cnf, &args.assign) {
            found = s.inject_assignment(&vec).is_ok();
            if !found {
                println!(
                    "{}{} seems an unsat problem but no proof.{}",
                    blue,
                    args.problem.to_str().unwrap(),
                    RESET
                );
                return;
            }
        } else {
            return;
        }
"""))
same("p19-s-chain", (D, LOOP, """                    v.extend(
                        stripped
                            .split_whitespace()
                            .map(|s| s.parse::<i32>().unwrap_or_else(|e| panic!("{e} by {s}")))
                            .take_while(|x| *x != 0),
                    );
"""))
same("p19-s-while", (D, LOOP, """                    let mut words = stripped.split_whitespace();
                    while let Some(s) = words.next() {
                        let x = match s.parse::<i32>() {
                            Ok(x) => x,
                            Err(e) => panic!("{e} by {s}"),
                        };
                        if x == 0 {
                            break;
                        }
                        v.push(x);
                    }
"""))
same("p19-s-inject", (V, """        for i in vec {
            if *i == 0 || self.asg.num_vars < i.unsigned_abs() as usize {
                return Err(SolverError::InvalidLiteral);
            }
            self.asg.assign_at_root_level(Lit::from(*i))?;
        }
        Ok(())""", """        let nv = self.asg.num_vars;
        vec.iter().try_for_each(|i| {
            if *i == 0 || nv < i.unsigned_abs() as usize {
                return Err(SolverError::InvalidLiteral);
            }
            self.asg.assign_at_root_level(Lit::from(*i))
        })"""))
same("p19-s-check", (V, """        for i in vec {
            if *i == 0""", """        for i in vec.iter() {
            if 0 == *i"""), (V, """        self.cdb
            .validate(&self.asg.assign_ref(), true)
            .map(|cid| Vec::<i32>::from(&self.cdb[cid]))""", """        let model = self.asg.assign_ref();
        let cid = self.cdb.validate(&model, true)?;
        Some(Vec::<i32>::from(&self.cdb[cid]))"""))
same("p19-s-validate", ("src/cdb/db.rs", """            match c.evaluate(model) {
                Some(false) => return Some(ClauseId::from(i)),
                None if strict => return Some(ClauseId::from(i)),
                _ => (),
            }""", """            let value = c.evaluate(model);
            if value == Some(false) || (strict && value.is_none()) {
                return Some(ClauseId::from(i));
            }"""))
TFE = """        let nv = self.asg.num_vars;
        vec.iter().try_for_each(|i| {
            if nv < i.unsigned_abs() as usize {
                return Err(SolverError::InvalidLiteral);
            }
            if *i == 0 {
                return ZERO;
            }
            self.asg.assign_at_root_level(Lit::from(*i))
        })"""
LOAD = """        for i in vec {
            if *i == 0 || self.asg.num_vars < i.unsigned_abs() as usize {
                return Err(SolverError::InvalidLiteral);
            }
            self.asg.assign_at_root_level(Lit::from(*i))?;
        }
        Ok(())"""
bug("p09-tfe-ok", "P09", (V, LOAD, TFE.replace("ZERO", "Ok(())")))
bug("p09-tfe-err", "P09", (V, LOAD, TFE.replace("ZERO", "Err(SolverError::EmptyClause)")))
same("p09-tfe", (V, LOAD, TFE.replace("ZERO", "Err(SolverError::InvalidLiteral)")))
