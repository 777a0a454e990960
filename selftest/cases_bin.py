from cases import bug, same
B = "src/bin/splr.rs"
EX = """    std::process::exit(match res {
        Ok(Certificate::SAT(_)) => 10,
        Ok(Certificate::UNSAT) => 20,
        Err(_) => 0,
    });"""
# ---- P17
bug("p17-code", "P17", (B, EX, EX.replace("UNSAT) => 20", "UNSAT) => 10")))
bug("p17-code2", "P17", (B, EX, EX.replace("Err(_) => 0", "Err(SolverError::TimeOut) => 0,\n        Err(_) => 20")))
bug("p17-code3", "P17", (B, EX, EX.replace("Ok(Certificate::SAT(_)) => 10", "Ok(Certificate::SAT(ref v)) if v.is_empty() => 20,\n        Ok(Certificate::SAT(_)) => 10")))
bug("p17-load", "P17", (B, "Err(SolverError::EmptyClause | SolverError::RootLevelConflict(_)) => {", "Err(SolverError::EmptyClause | SolverError::RootLevelConflict(_) | SolverError::OutOfMemory) => {"))
bug("p17-load2", "P17", (B, "Err(SolverError::EmptyClause | SolverError::RootLevelConflict(_)) => {", "Err(SolverError::RootLevelConflict(_)) => {"))
bug("p17-loadcode", "P17", (B, "            std::process::exit(20);\n        }", "            std::process::exit(0);\n        }"))
bug("p17-loadtext", "P17", (B, "colored(Ok(false), config.no_color),\n                config.cnf", "colored(Ok(true), config.no_color),\n                config.cnf"))
bug("p17-loadsave", "P17", (B, "save_result_without_solver(Ok(false), &cnf_file, ans_file);", "save_result_without_solver(Err(&SolverError::EmptyClause), &cnf_file, ans_file);"))
bug("p17-colored", "P17", (B, "Err(_) => Cow::Borrowed(\"s UNKNOWN\")", "Err(_) => Cow::Borrowed(\"s UNSATISFIABLE\")"))
bug("p17-colored2", "P17", (B, "Err(_) => Cow::Borrowed(\"s UNKNOWN\")", "Err(SolverError::RootLevelConflict(_)) => Cow::Borrowed(\"s UNSATISFIABLE\"),\n            Err(_) => Cow::Borrowed(\"s UNKNOWN\")"))
bug("p17-swap", "P17", (B, "Ok(false) => Cow::from(format!(\"{BLUE}s UNSATISFIABLE{RESET}\"))", "Ok(false) => Cow::from(format!(\"{BLUE}s SATISFIABLE{RESET}\"))"))
bug("p17-file", "P17", (B, "buf.write_all(b\"s UNSATISFIABLE\\n\")?;", "if s.state.config.use_certification {\n                    buf.write_all(b\"s UNSATISFIABLE\\n\")?;\n                }"))
bug("p17-file2", "P17", (B, "buf.write_all(b\"s UNSATISFIABLE\\n\")?;", "buf.write_all(b\"s SATISFIABLE\\n\")?;"))
bug("p17-printed", "P17", (B, "            println!(\"{}: {}\", colored(Ok(false), s.state.config.no_color), input);", "            if !s.state.config.quiet_mode {\n                println!(\"{}: {}\", colored(Ok(false), s.state.config.no_color), input);\n            }"))
bug("p17-silent", "P17", (B, """                buf.write_all(b"s UNSATISFIABLE\\n")?;
                buf.write_all(b"0\\n")?;
                buf.flush()
            })() {
                println!("Abort: failed to save by {why}!");
            }""", """                buf.write_all(b"s UNSATISFIABLE\\n")?;
                buf.write_all(b"0\\n")?;
                buf.flush()
            })() {
                let _ = why;
            }"""))
bug("p17-skip", "P17", (B, "for x in v {", "for x in v.iter().skip(1) {"))
bug("p17-some", "P17", (B, "for x in v {", "for x in v {\n                    if *x == 0 || x.unsigned_abs() as usize > s.state.target.num_of_variables / 2 * 2 {\n                        continue;\n                    }"))
bug("p17-sep", "P17", (B, 'format!("{x} ")', 'format!("{x}")'))
bug("p17-abs", "P17", (B, 'format!("{x} ")', 'format!("{} ", x.abs())'))
bug("p17-nozero", "P17", (B, """                buf.write_all(b"0\\n")?;
                buf.flush()
            })() {
                println!("Abort: failed to save by {why}!");
            }
        }
        Ok(Certificate::UNSAT)""", """                if v.len() != 100 {
                    buf.write_all(b"0\\n")?;
                }
                buf.flush()
            })() {
                println!("Abort: failed to save by {why}!");
            }
        }
        Ok(Certificate::UNSAT)"""))
bug("p17-plain", "P17", (B, "colored(Err(e), true)", "colored(Err(e), s.state.config.no_color)"))
bug("p17-timeout", "P17", (B, "                colored(Err(&SolverError::TimeOut), no_color),", "                colored(Ok(false), no_color),"))
bug("p17-timeoutcode", "P17", (B, "            std::process::exit(0);\n        });", "            std::process::exit(20);\n        });"))
bug("p17-order", "P17", (B, "    save_result(&mut s, &res, &cnf_file, ans_file);\n", "    if res.is_err() {\n        std::process::exit(0);\n    }\n    save_result(&mut s, &res, &cnf_file, ans_file);\n"))
bug("p17-nosave", "P17", (B, "    save_result(&mut s, &res, &cnf_file, ans_file);\n", "    if ans_file.is_some() || !s.state.config.quiet_mode {\n        save_result(&mut s, &res, &cnf_file, ans_file);\n    }\n"))
same("p17-code-fn", (B, EX, "    std::process::exit(status_of(&res));"), (B, "/// save the result of a run", """fn status_of(res: &SolverResult) -> i32 {
    match res {
        Ok(Certificate::SAT(_)) => 10,
        Ok(Certificate::UNSAT) => 20,
        Err(_) => 0,
    }
}

/// save the result of a run"""))
same("p17-code-if", (B, EX, """    let code = if let Ok(ref c) = res {
        if matches!(c, Certificate::SAT(_)) { 10 } else { 20 }
    } else {
        0
    };
    std::process::exit(code);"""))
same("p17-const", (B, EX, """    const SAT: i32 = 10;
    const UNSAT: i32 = 20;
    let code = match &res {
        Err(_) => 0,
        Ok(Certificate::UNSAT) => UNSAT,
        Ok(Certificate::SAT(_)) => SAT,
    };
    std::process::exit(code);"""))
same("p17-word", (B, """    if no_color {
        match v {
            Ok(false) => Cow::Borrowed("s UNSATISFIABLE"),
            Ok(true) => Cow::Borrowed("s SATISFIABLE"),
            Err(_) => Cow::Borrowed("s UNKNOWN"),
        }
    } else {
        match v {
            Ok(false) => Cow::from(format!("{BLUE}s UNSATISFIABLE{RESET}")),
            Ok(true) => Cow::from(format!("{GREEN}s SATISFIABLE{RESET}")),
            Err(_) => Cow::from(format!("{RED}s UNKNOWN{RESET}")),
        }
    }""", """    let (color, text) = match v {
        Ok(false) => (BLUE, "s UNSATISFIABLE"),
        Ok(true) => (GREEN, "s SATISFIABLE"),
        Err(_) => (RED, "s UNKNOWN"),
    };
    if no_color {
        Cow::Borrowed(text)
    } else {
        Cow::from(format!("{color}{text}{RESET}"))
    }"""))
same("p17-if", (B, """        match v {
            Ok(false) => Cow::Borrowed("s UNSATISFIABLE"),
            Ok(true) => Cow::Borrowed("s SATISFIABLE"),
            Err(_) => Cow::Borrowed("s UNKNOWN"),
        }
    } else""", """        if let Ok(sat) = v {
            if sat {
                Cow::Borrowed("s SATISFIABLE")
            } else {
                Cow::Borrowed("s UNSATISFIABLE")
            }
        } else {
            Cow::Borrowed("s UNKNOWN")
        }
    } else"""))
same("p17-model", (B, """                for x in v {
                    buf.write_all(format!("{x} ").as_bytes())?;
                }
                buf.write_all(b"0\\n")?;""", """                for x in v.iter() {
                    write!(buf, "{} ", x)?;
                }
                writeln!(buf, "0")?;"""))
same("p17-tryeach", (B, """                for x in v {
                    buf.write_all(format!("{x} ").as_bytes())?;
                }
""", """                v.iter()
                    .try_for_each(|x| buf.write_all(format!("{x} ").as_bytes()))?;
"""))
same("p17-join", (B, """                for x in v {
                    buf.write_all(format!("{x} ").as_bytes())?;
                }
                buf.write_all(b"0\\n")?;""", """                let mut line = String::new();
                for x in v {
                    line.push_str(&x.to_string());
                    line.push(' ');
                }
                line.push_str("0\\n");
                buf.write_all(line.as_bytes())?;"""))
same("p17-helper", (B, """                report(s, buf)?;
                buf.write_all(b"s SATISFIABLE\\nv ")?;
                for x in v {
                    buf.write_all(format!("{x} ").as_bytes())?;
                }
                buf.write_all(b"0\\n")?;
                buf.flush()
            })() {""", """                report(s, buf)?;
                write_model(buf, v)?;
                buf.flush()
            })() {"""), (B, "fn report(s", """fn write_model(buf: &mut dyn Write, v: &[i32]) -> std::io::Result<()> {
    buf.write_all(b"s SATISFIABLE\\n")?;
    buf.write_all(b"v ")?;
    for x in v {
        buf.write_all(format!("{x} ").as_bytes())?;
    }
    buf.write_all(b"0\\n")
}

fn report(s"""))
same("p17-main", (B, """        Err(SolverError::EmptyClause | SolverError::RootLevelConflict(_)) => {""", """        Err(e) if matches!(e, SolverError::EmptyClause | SolverError::RootLevelConflict(_)) => {"""))
same("p17-split", (B, """    let res = s.solve();
    save_result(&mut s, &res, &cnf_file, ans_file);
""" + EX, """    std::process::exit(run(&mut s, &cnf_file, ans_file));"""), (B, "/// save the result of a run", """fn run(s: &mut Solver, input: &str, output: Option<PathBuf>) -> i32 {
    let res = s.solve();
    save_result(s, &res, input, output);
    match res {
        Ok(Certificate::SAT(_)) => 10,
        Ok(Certificate::UNSAT) => 20,
        Err(_) => 0,
    }
}

/// save the result of a run"""))
same("p17-early", (B, "    let mut s = match Solver::build(&config) {", "    let built = Solver::build(&config);\n    let mut s = match built {"))
same("p17-exitcode", (B, EX, """    match res {
        Ok(Certificate::SAT(_)) => std::process::ExitCode::from(10),
        Ok(Certificate::UNSAT) => std::process::ExitCode::from(20),
        Err(_) => std::process::ExitCode::SUCCESS,
    }"""), (B, "fn main() {", "fn main() -> std::process::ExitCode {"), (B, "        return;", "        return std::process::ExitCode::SUCCESS;"), (B, "        return;", "        return std::process::ExitCode::SUCCESS;"))
same("p17-verdict", (B, "    let res = s.solve();\n", """    let res = s.solve();
    let verdict = match res {
        Ok(Certificate::SAT(_)) => Ok(true),
        Ok(Certificate::UNSAT) => Ok(false),
        Err(ref e) => Err(e),
    };
    if matches!(verdict, Ok(false)) && s.state.config.use_certification {
        s.save_certification();
        println!(
            " Certificate|file: {}",
            s.state.config.io_pfile.to_string_lossy()
        );
    }
    println!("{}: {}", colored(verdict, config.no_color), cnf_file);
"""), (B, """            if s.state.config.use_certification {
                s.save_certification();
                println!(
                    " Certificate|file: {}",
                    s.state.config.io_pfile.to_string_lossy()
                );
            }
            println!("{}: {}", colored(Ok(false), s.state.config.no_color), input);
""", ""), (B, """            println!("{}: {}", colored(Ok(true), s.state.config.no_color), input);
""", ""), (B, """            println!(
                "{} ({}): {}",
                colored(Err(e), s.state.config.no_color),
                e,
                input
            );
""", ""))
