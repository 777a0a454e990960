from cases import bug, same
C = "src/config.rs"
S = "src/state.rs"
CRL = """                                        "crl" => {
                                            self.cls_rdc_lbd = u16::try_from(val)
                                                .unwrap_or_else(|_| panic!("invalid value {name}"))
                                        }
"""
USZ = """                            if let Some(str) = iter.next() {
                                if let Ok(val) = str.parse::<usize>() {
                                    match name {
                                        "cl" => self.c_cls_lim = val,
""" + CRL + """                                        "ecl" => self.elm_cls_lim = val,
                                        "evl" => self.elm_grw_lim = val,
                                        "evo" => self.elm_var_occ = val,
                                        _ => panic!("invalid option: {name}"),
                                    }
                                } else {
                                    panic!("invalid value {name}");
                                }
                            } else {
                                panic!("no argument for {name}");
                            }
"""
# ---- P18
bug("p18-trunc", "P18", (C, CRL, """                                        "crl" => self.cls_rdc_lbd = val as u16,\n"""))
bug("p18-swap", "P18", (C, '"evl" => self.elm_grw_lim = val', '"evl" => self.elm_cls_lim = val'))
bug("p18-swap2", "P18", (C, '"cr2" => self.cls_rdc_rm2 = val', '"cr2" => self.cls_rdc_rm1 = val'))
bug("p18-short", "P18", (C, '"r" => self.io_rfile = PathBuf::from(val)', '"r" => self.io_pfile = PathBuf::from(val)'))
bug("p18-flag", "P18", (C, '"H" => self.show_cdb_heatmap = true', '"H" => self.show_journal = true'))
bug("p18-flag2", "P18", (C, '"q" => self.quiet_mode = true', '"q" => self.quiet_mode = false'))
bug("p18-both", "P18", (C, '"certify" => self.use_certification = true,', '"certify" => {\n                                    self.use_certification = true;\n                                    self.quiet_mode = true;\n                                }'))
bug("p18-list", "P18", (C, '["timeout", "cdr", "cr1", "cr2", "rlt", "vdr", "vds"]', '["timeout", "cdr", "cr1", "cr2", "rlt", "vds"]'))
bug("p18-list2", "P18", (C, 'let flags = ["C", "q", "c", "j", "H", "h", "V"];', 'let flags = ["C", "q", "c", "j", "h", "V"];'))
bug("p18-unknown", "P18", (C, """                } else {
                    panic!("unknown option name {name}");
                }
            } else if self.cnf_file""", """                }
            } else if self.cnf_file"""))
bug("p18-unknown2", "P18", (C, """                        } else {
                            panic!("unknown option name {name}");
                        }
                    }
                    _ => {""", """                        } else {
                            println!("unknown option name {name}");
                        }
                    }
                    _ => {"""))
bug("p18-bad", "P18", (C, USZ, USZ.replace('''                                } else {
                                    panic!("invalid value {name}");
''', '''                                } else {
                                    println!("invalid value {name}");
''')))
bug("p18-bad2", "P18", (C, 'self.c_timeout = val.parse::<f64>().expect("-t requires a number")', 'self.c_timeout = val.parse::<f64>().unwrap_or(self.c_timeout)'))
bug("p18-missing", "P18", (C, """                    } else {
                        panic!("no argument for {name}");
                    }
                } else {""", """                    }
                } else {"""))
bug("p18-scale", "P18", (C, '"timeout" => self.c_timeout = val,', '"timeout" => self.c_timeout = val * 60.0,'))
bug("p18-noarg", "P18", (C, '"j" => self.show_journal = true', '"j" => {\n                            iter.next();\n                            self.show_journal = true\n                        }'))
bug("p18-word", "P18", (C, """            } else if self.cnf_file.to_string_lossy() != arg {
                panic!("invalid argument: {arg}");
            }""", "            }"))
bug("p18-first", "P18", (C, "std::env::args().next_back()", "std::env::args().nth(1)"))
bug("p18-break", "P18", (C, '"j" => self.show_journal = true,\n                        "H"', '"j" => {\n                            self.show_journal = true;\n                            break;\n                        }\n                        "H"'))
bug("p18-version", "P18", (C, '"V" => version = true', '"V" => help = version'))
bug("p18-help", "P18", (C, '"h" => help = true', '"h" => version = true'))
bug("p18-wire", "P18", ("src/processor/simplify.rs", "eliminate_var_occurrence_limit: config.elm_var_occ", "eliminate_var_occurrence_limit: config.elm_cls_lim"))
bug("p18-wire2", "P18", ("src/cdb/db.rs", "soft_limit: config.c_cls_lim", "soft_limit: 0"))
bug("p18-quiet", "P18", (S, "        if !self.config.splr_interface || self.config.quiet_mode {\n            return;\n        }\n        if 0 ==", "        if !self.config.splr_interface {\n            return;\n        }\n        if 0 =="))
bug("p18-quiet2", "P18", (S, "if self.config.splr_interface && !self.config.quiet_mode {\n            if mes", "if self.config.splr_interface || !self.config.quiet_mode {\n            if mes"))
same("p18-s-else", (C, USZ, """                            let Some(str) = iter.next() else {
                                panic!("no argument for {name}");
                            };
                            let Ok(val) = str.parse::<usize>() else {
                                panic!("invalid value {name}");
                            };
                            match name {
                                "evo" => self.elm_var_occ = val,
                                "evl" => self.elm_grw_lim = val,
                                "ecl" => self.elm_cls_lim = val,
                                "crl" => {
                                    self.cls_rdc_lbd = match val.try_into() {
                                        Ok(v) => v,
                                        Err(_) => panic!("invalid value {name}"),
                                    }
                                }
                                "cl" => self.c_cls_lim = val,
                                _ => panic!("invalid option: {name}"),
                            }
"""))
same("p18-s-helper", (C, USZ, """                            self.set_usize(name, iter.next());
"""), (C, "impl Config {\n    pub fn inject", """impl Config {
    fn set_usize(&mut self, name: &str, arg: Option<String>) {
        let val: usize = arg
            .unwrap_or_else(|| panic!("no argument for {name}"))
            .parse()
            .unwrap_or_else(|_| panic!("invalid value {name}"));
        match name {
            "cl" => self.c_cls_lim = val,
            "crl" => {
                assert!(val <= u16::MAX as usize, "invalid value {name}");
                self.cls_rdc_lbd = u16::try_from(val).unwrap();
            }
            "ecl" => self.elm_cls_lim = val,
            "evl" => self.elm_grw_lim = val,
            "evo" => self.elm_var_occ = val,
            _ => panic!("invalid option: {name}"),
        }
    }
    pub fn inject"""))
same("p18-s-generic", (C, USZ, """                            let val = number::<usize>(&mut iter, name);
                            match name {
                                "cl" => self.c_cls_lim = val,
                                "crl" => self.cls_rdc_lbd = u16::try_from(val).expect("invalid value"),
                                "ecl" => self.elm_cls_lim = val,
                                "evl" => self.elm_grw_lim = val,
                                "evo" => self.elm_var_occ = val,
                                _ => panic!("invalid option: {name}"),
                            }
"""), (C, "impl Config {\n    pub fn inject", """fn number<T: std::str::FromStr>(iter: &mut impl Iterator<Item = String>, name: &str) -> T {
    match iter.next().map(|s| s.parse::<T>()) {
        Some(Ok(v)) => v,
        Some(Err(_)) => panic!("invalid value {name}"),
        None => panic!("no argument for {name}"),
    }
}

impl Config {
    pub fn inject"""))
same("p18-s-const", (C, """                let options_path = ["o", "p", "r", "t"];
""", """                const PATHS: [&str; 4] = ["o", "p", "r", "t"];
                let options_path = PATHS;
"""), (C, "let flags = [\"C\", \"q\", \"c\", \"j\", \"H\", \"h\", \"V\"];", "let flags = FLAGS;"), (C, "impl Config {\n    pub fn inject", """static FLAGS: &[&str] = &["C", "q", "c", "j", "H", "h", "V"];

impl Config {
    pub fn inject"""))
same("p18-s-any", (C, "                if flags.contains(&name) {\n                    match", "                if flags.iter().any(|f| *f == name) {\n                    match"))
same("p18-s-matches", (C, "                if flags.contains(&name) {\n                    match", "                if matches!(name, \"C\" | \"q\" | \"c\" | \"j\" | \"H\" | \"h\" | \"V\") {\n                    match"))
same("p18-s-name", (C, "let name = &arg[2..];", "let name = stripped;"), (C, "let seg: Vec<&str> = stripped.split('=').collect();\n                match seg.len() {\n                    1 => {", "let seg: Vec<&str> = stripped.split('=').collect();\n                match seg.as_slice() {\n                    [_] => {"))
same("p18-s-vec", (C, "        let args = std::env::args();\n        let mut iter = args.skip(1);", "        let all: Vec<String> = std::env::args().skip(1).collect();\n        let mut iter = all.into_iter();"))
same("p18-s-fields", (C, """                            "t" => {
                                self.c_timeout = val.parse::<f64>().expect("-t requires a number")
                            }""", """                            "t" => match val.parse() {
                                Ok(sec) => self.c_timeout = sec,
                                Err(e) => panic!("-t requires a number: {e}"),
                            },"""))
same("p18-s-help", (C, "                \"{}\\nActivated features: {}\\n{}\",\n                env!(\"CARGO_PKG_DESCRIPTION\"),\n                features.join(\", \"),\n                help_string()", "                \"{}\\nActivated features: {}\\n{}\",\n                env!(\"CARGO_PKG_DESCRIPTION\"),\n                features.join(\", \"),\n                &help_string()"))
same("p18-s-quiet", (S, "        if !self.config.splr_interface || self.config.quiet_mode {\n            return;\n        }\n        if 0 ==", "        if !self.talks() {\n            return;\n        }\n        if 0 =="), (S, "impl StateIF for State {", "impl State {\n    fn talks(&self) -> bool {\n        self.config.splr_interface && !self.config.quiet_mode\n    }\n}\n\nimpl StateIF for State {"))
same("p18-s-wire", ("src/processor/simplify.rs", "eliminate_var_occurrence_limit: config.elm_var_occ", "eliminate_var_occurrence_limit: limits.0"), ("src/processor/simplify.rs", "eliminate_grow_limit: config.elm_grw_lim", "eliminate_grow_limit: limits.1"), ("src/processor/simplify.rs", "let nv = cnf.num_of_variables;\n        Eliminator {", "let nv = cnf.num_of_variables;\n        let limits = (config.elm_var_occ, config.elm_grw_lim);\n        Eliminator {"))
same("p18-s-loop", (C, "        while let Some(arg) = iter.next() {", "        loop {\n            let Some(arg) = iter.next() else { break };"))
