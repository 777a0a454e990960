"""pure literals (P34)"""
from cases import bug, same

SE = "src/solver/search.rs"
SI = "src/processor/simplify.rs"

IF0 = "                        if m == 0 {\n                            let l = Lit::from((vi, true));"
IF1 = "} else if p == 0 {\n                            let l = Lit::from((vi, false));"
STATS = "        if !self.is_running() || w.aborted {\n            None\n        } else {\n            Some((w.pos_occurs.len(), w.neg_occurs.len()))\n        }"
WHOLE = """                        if m == 0 {
                            let l = Lit::from((vi, true));
                            debug_assert!(asg.assigned(l).is_none());
                            cdb.certificate_add_assertion(l);
                            if asg.assign_at_root_level(l).is_err() {
                                return Ok(Certificate::UNSAT);
                            }
                        } else if p == 0 {
                            let l = Lit::from((vi, false));
                            debug_assert!(asg.assigned(l).is_none());
                            cdb.certificate_add_assertion(l);
                            if asg.assign_at_root_level(l).is_err() {
                                return Ok(Certificate::UNSAT);
                            }
                        }
"""
ACT = """                            debug_assert!(asg.assigned(l).is_none());
                            cdb.certificate_add_assertion(l);
                            if asg.assign_at_root_level(l).is_err() {
                                return Ok(Certificate::UNSAT);
                            }
"""

bug("pure-few", "P34", (SE, IF0, IF0.replace("m == 0", "m * 100 < p")))
bug("pure-one", "P34", (SE, IF1, IF1.replace("p == 0", "p <= 1 && 2 <= m")))
bug("pure-sign", "P34", (SE, IF1, IF1.replace("(vi, false)", "(vi, m < 2)")))
bug("pure-swapped", "P34", (SE, "if let Some((p, m)) = elim.stats(vi) {\n                        // We", "if let Some((m, p)) = elim.stats(vi) {\n                        // We"))
bug("pure-both-sites", "P34", (SE, IF0, IF0.replace("if m == 0 {", "let m = m.saturating_sub(1);\n                        if m == 0 {")))
bug("pure-stats-swap", "P34", (SI, "Some((w.pos_occurs.len(), w.neg_occurs.len()))", "Some((w.neg_occurs.len(), w.pos_occurs.len()))"))
bug("pure-stats-aborted", "P34", (SI, "        if !self.is_running() || w.aborted {", "        if !self.is_running() {"))
bug("pure-stats-idle", "P34", (SI, "        if !self.is_running() || w.aborted {", "        if w.aborted {"))
bug("pure-other-var", "P34", (SE, IF0, IF0.replace("Lit::from((vi, true))", "Lit::from((vi.max(2) - 1, true))")))
bug("pure-total", "P34", (SE, IF0, IF0.replace("m == 0", "m == 0 || p + m == 2")))

same("pure-match", (SE, WHOLE, "                        match (p, m) {\n                            (_, 0) => {\n                            let l = Lit::from((vi, true));\n" + ACT + "                            }\n                            (0, _) => {\n                            let l = Lit::from((vi, false));\n" + ACT + "                            }\n                            _ => (),\n                        }\n"))
same("pure-option", (SE, WHOLE, "                        let sign = if m == 0 { Some(true) } else if p == 0 { Some(false) } else { None };\n                        if let Some(s) = sign {\n                            let l = Lit::from((vi, s));\n" + ACT + "                        }\n"))
same("pure-merged", (SE, WHOLE, "                        if m == 0 || p == 0 {\n                            let l = Lit::from((vi, m == 0));\n" + ACT + "                        }\n"))
same("pure-min", (SE, WHOLE, "                        if p.min(m) == 0 {\n                            let l = Lit::from((vi, m == 0));\n" + ACT + "                        }\n"))
same("pure-not", (SE, WHOLE, "                        if p == 0 || m == 0 {\n                            let l = if m == 0 { Lit::from((vi, true)) } else { !Lit::from((vi, true)) };\n" + ACT + "                        }\n"))
same("pure-product", (SE, WHOLE, "                        if p * m == 0 {\n                            let l = Lit::from((vi, m < 1));\n" + ACT + "                        }\n"))
same("pure-let-else", (SE, "                    if let Some((p, m)) = elim.stats(vi) {\n                        // We", "                    let counts = elim.stats(vi);\n                    if let Some(counts) = counts {\n                        let (p, m) = counts;\n                        // We"))
same("pure-helper", (SE, WHOLE, "                        if m == 0 || p == 0 {\n                            if fix_pure(asg, cdb, vi, m == 0).is_err() {\n                                return Ok(Certificate::UNSAT);\n                            }\n                        }\n"),
     (SE, "/// main loop; returns `Ok(true)` for SAT", "fn fix_pure(asg: &mut AssignStack, cdb: &mut ClauseDB, vi: VarId, positive: bool) -> MaybeInconsistent {\n    let l = Lit::from((vi, positive));\n    debug_assert!(asg.assigned(l).is_none());\n    cdb.certificate_add_assertion(l);\n    asg.assign_at_root_level(l)\n}\n\n/// main loop; returns `Ok(true)` for SAT"))
same("pure-stats-match", (SI, STATS, "        match (self.is_running(), w.aborted) {\n            (true, false) => Some((w.pos_occurs.len(), w.neg_occurs.len())),\n            _ => None,\n        }"))
same("pure-stats-then", (SI, STATS, "        (self.is_running() && !w.aborted).then(|| (w.pos_occurs.len(), w.neg_occurs.len()))"))
same("pure-stats-names", (SI, STATS, "        if !self.is_running() {\n            return None;\n        }\n        if w.aborted {\n            return None;\n        }\n        let positive = w.pos_occurs.len();\n        let negative = w.neg_occurs.len();\n        Some((positive, negative))"))
same("pure-stats-mode", (SI, "        if !self.is_running() || w.aborted {", "        if self.mode != EliminatorMode::Running || w.aborted {"))
