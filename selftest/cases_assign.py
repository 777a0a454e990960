from cases import bug, same
PR = "src/assign/propagate.rs"
SE = "src/assign/select.rs"
HE = "src/assign/heap.rs"
TS = "src/assign/trail_saving.rs"
ST = "src/assign/stack.rs"
SR = "src/solver/search.rs"
VV = "src/cdb/vivify.rs"
EL = "src/processor/eliminate.rs"
# ---- P12
UNDO = """            unset_assign!(self, vi);
            self.var[vi].reason = AssignReason::None;

            #[cfg(not(feature = "trail_saving"))]"""
bug("undo-reason", "P12", (PR, UNDO, UNDO.replace("self.var[vi].reason = AssignReason::None;\n", "")))
bug("undo-range", "P12", (PR, "for i in lim..self.trail.len() {\n            let l = self.trail[i];\n            debug_assert!(\n", "for i in lim + 1..self.trail.len() {\n            let l = self.trail[i];\n            debug_assert!(\n"))
bug("undo-qhead", "P12", (PR, "        self.q_head = self.trail.len().min(self.q_head);\n", ""))
bug("undo-level", "P12", (PR, "        self.trail_lim.truncate(lv as usize);\n", "        self.trail_lim.truncate(lv as usize + 1);\n"))
bug("sandbox-heap", "P12", (PR, """            self.var[vi].reason = AssignReason::None;
            self.insert_heap(vi);
        }
        self.trail.truncate(lim);
        self.trail_lim.truncate(self.root_level as usize);""", """            self.var[vi].reason = AssignReason::None;
            if self.activity(vi) > 0.0 {
                self.insert_heap(vi);
            }
        }
        self.trail.truncate(lim);
        self.trail_lim.truncate(self.root_level as usize);"""))
same("undo-helper", (PR, """            unset_assign!(self, vi);
            self.var[vi].reason = AssignReason::None;
            self.insert_heap(vi);
        }
        self.trail.truncate(lim);
        self.trail_lim.truncate(self.root_level as usize);
        self.q_head = self.trail.len();
    }""", """            self.forget(vi);
            self.insert_heap(vi);
        }
        self.cut_trail(lim, self.root_level as usize);
        self.q_head = self.trail.len();
    }"""), (PR, """impl AssignStack {
    #[allow(dead_code)]
    fn check(""", """impl AssignStack {
    fn forget(&mut self, vi: VarId) {
        unset_assign!(self, vi);
        self.var[vi].reason = AssignReason::None;
    }
    fn cut_trail(&mut self, lim: usize, lv: usize) {
        self.trail.truncate(lim);
        self.trail_lim.truncate(lv);
    }
    #[allow(dead_code)]
    fn check("""), (PR, UNDO, """            self.forget(vi);

            #[cfg(not(feature = "trail_saving"))]"""))
same("undo-while", (PR, """        for i in lim..self.trail.len() {
            let l = self.trail[i];
            let vi = l.vi();
            debug_assert!(self.root_level < self.var[vi].level);
            unset_assign!(self, vi);
            self.var[vi].reason = AssignReason::None;
            self.insert_heap(vi);
        }
        self.trail.truncate(lim);
        self.trail_lim.truncate(self.root_level as usize);
        self.q_head = self.trail.len();""", """        let mut i = lim;
        while i < self.trail.len() {
            let vi = self.trail[i].vi();
            i += 1;
            self.var[vi].reason = AssignReason::None;
            unset_assign!(self, vi);
            self.insert_heap(vi);
        }
        self.q_head = lim;
        self.trail_lim.truncate(self.root_level as usize);
        self.trail.truncate(lim);"""))
same("undo-pop", (PR, """        for i in lim..self.trail.len() {
            let l = self.trail[i];
            let vi = l.vi();
            debug_assert!(self.root_level < self.var[vi].level);
            unset_assign!(self, vi);
            self.var[vi].reason = AssignReason::None;
            self.insert_heap(vi);
        }
        self.trail.truncate(lim);
        self.trail_lim.truncate(self.root_level as usize);
        self.q_head = self.trail.len();""", """        let undone = self.trail.split_off(lim);
        for l in undone.iter().rev() {
            let vi = l.vi();
            unset_assign!(self, vi);
            self.var[vi].reason = AssignReason::None;
            self.insert_heap(vi);
        }
        self.trail_lim.truncate(self.root_level as usize);
        self.q_head = self.trail.len();"""))
same("undo-qhead-if", (PR, "        self.q_head = self.trail.len().min(self.q_head);\n", """        if self.trail.len() < self.q_head {
            self.q_head = self.trail.len();
        }
"""))
same("clear-asserted", (PR, """            self.propagate_at_root_level(cdb)?;
            if self.remains() {
                self.propagate_sandbox(cdb)
                    .map_err(SolverError::RootLevelConflict)?;
            } else {
                break;
            }
        }
        // wipe asserted literals from trail and increment the number of asserted vars.
        self.num_asserted_vars += self.trail.len();
        self.trail.clear();
        self.q_head = 0;""", """            self.propagate_at_root_level(cdb)?;
            if !self.remains() {
                break;
            }
            if let Err(cc) = self.propagate_sandbox(cdb) {
                return Err(SolverError::RootLevelConflict(cc));
            }
        }
        let n = self.trail.len();
        self.q_head = 0;
        self.num_asserted_vars += n;
        self.trail.clear();"""))
bug("clear-asserted-unpropagated", "P12", (PR, """            self.propagate_at_root_level(cdb)?;
            if self.remains() {
                self.propagate_sandbox(cdb)
                    .map_err(SolverError::RootLevelConflict)?;
            } else {
                break;
            }""", """            self.propagate_at_root_level(cdb)?;
            if self.trail.len() < 2 || !self.remains() {
                break;
            }"""))
# ---- P13
bug("select-eliminated", "P13", (SE, """            if var_assign!(self, vi).is_none() && !self.var[vi].is(FlagVar::ELIMINATED) {
                return vi;""", """            if var_assign!(self, vi).is_none() {
                return vi;"""))
bug("rebuild-last", "P13", (SE, "for vi in 1..self.var.len() {\n            if var_assign!(self, vi).is_none() && !self.var[vi].is(FlagVar::ELIMINATED) {\n                self.insert", "for vi in 1..self.var.len() - 1 {\n            if var_assign!(self, vi).is_none() && !self.var[vi].is(FlagVar::ELIMINATED) {\n                self.insert"))
bug("rebuild-phase", "P13", (SE, "            if var_assign!(self, vi).is_none() && !self.var[vi].is(FlagVar::ELIMINATED) {\n                self.insert", "            if var_assign!(self, vi).is_none() && !self.var[vi].is(FlagVar::ELIMINATED) && 0.0 < self.activity(vi) {\n                self.insert"))
bug("search-remains", "P13", (SR, "NumUnassignedVar) || asg.remains() {", "NumUnassignedVar) {"))
bug("heap-refill", "P13", (HE, """        if self.var_order.is_empty() {
            self.clear_saved_trail();
        }
""", ""))
bug("heap-positions", "P13", (HE, "self.idxs.swap(vn as usize, vi);\n        self.idxs[0] -= 1;", "self.idxs.swap(i as usize, vi);\n        self.idxs[0] -= 1;"))
bug("heap-size", "P13", (HE, "        self.idxs[0] = n;\n        n as usize", "        self.idxs[0] += 2;\n        n as usize"))
bug("percolate-position", "P13", (HE, "                    self.var_order.idxs[vp as usize] = q;\n                    q = p;", "                    q = p;\n                    self.var_order.idxs[vp as usize] = q;"))
bug("unassigned-count", "P13", ("src/assign/mod.rs", """                        - self.num_eliminated_vars
                        - self.trail.len()""", """                        - self.trail.len()"""))
bug("saved-drop", "P13", (TS, """                (_, AssignReason::Decision(lvl)) => {
                    debug_assert_ne!(0, lvl);
                    self.insert_heap(vi);
                    return self.truncate_trail_saved(i + 1);""", """                (_, AssignReason::Decision(lvl)) => {
                    debug_assert_ne!(0, lvl);
                    return self.truncate_trail_saved(i);"""))
bug("saved-drop-all", "P13", (TS, """                    let _ = self.truncate_trail_saved(i + 1); // reduce heap ops.
                    self.clear_saved_trail();
                    return Err((lit, old_reason));""", """                    self.trail_saved.clear();
                    return Err((lit, old_reason));"""))
bug("asserted-count", "P13", (PR, "        self.num_asserted_vars += self.trail.len();\n        self.trail.clear();", "        self.num_asserted_vars = self.trail.len();\n        self.trail.clear();"))
bug("eliminate-assigned", "P13", (EL, "if asg.assign(vi).is_some() ||", "if asg.reason(vi) == AssignReason::Decision(0) ||"))
same("select-helper", (SE, """        loop {
            let vi = self.get_heap_root();
            if var_assign!(self, vi).is_none() && !self.var[vi].is(FlagVar::ELIMINATED) {
                return vi;
            }
        }
    }""", """        let mut vi = self.get_heap_root();
        while !self.selectable(vi) {
            vi = self.get_heap_root();
        }
        vi
    }
    fn selectable(&self, vi: VarId) -> bool {
        var_assign!(self, vi).is_none() && !self.var[vi].is(FlagVar::ELIMINATED)
    }"""))
same("select-continue", (SE, """            let vi = self.get_heap_root();
            if var_assign!(self, vi).is_none() && !self.var[vi].is(FlagVar::ELIMINATED) {
                return vi;
            }""", """            let vi = self.get_heap_root();
            let v = &self.var[vi];
            if v.is(FlagVar::ELIMINATED) {
                continue;
            }
            match v.assign {
                Some(_) => continue,
                None => return vi,
            }"""))
same("rebuild-filter", (SE, """        for vi in 1..self.var.len() {
            if var_assign!(self, vi).is_none() && !self.var[vi].is(FlagVar::ELIMINATED) {
                self.insert_heap(vi);
            }
        }
    }
}""", """        let free = self
            .var
            .iter()
            .enumerate()
            .skip(1)
            .filter(|(_, v)| v.assign.is_none() && !v.is(FlagVar::ELIMINATED))
            .map(|(vi, _)| vi)
            .collect::<Vec<_>>();
        for vi in free {
            self.insert_heap(vi);
        }
    }
}"""))
same("rebuild-continue", (SE, """        for vi in 1..self.var.len() {
            if var_assign!(self, vi).is_none() && !self.var[vi].is(FlagVar::ELIMINATED) {
                self.insert_heap(vi);
            }
        }
    }
}""", """        let n = self.var.len();
        let mut vi = 1;
        while vi < n {
            let v = &self.var[vi];
            if v.assign.is_some() || v.is(FlagVar::ELIMINATED) {
                vi += 1;
                continue;
            }
            self.insert_heap(vi);
            vi += 1;
        }
    }
}"""))
same("search-loop", (SR, "    while 0 < asg.derefer(assign::property::Tusize::NumUnassignedVar) || asg.remains() {\n        if !asg.remains() {\n            let lit = asg.select_decision_literal();\n            asg.assign_by_decision(lit);\n        }", """    loop {
        let unpropagated = asg.remains();
        if !unpropagated {
            if asg.derefer(assign::property::Tusize::NumUnassignedVar) == 0 {
                break;
            }
            decide(asg);
        }"""), (SR, "/// display the current stats. before", """fn decide(asg: &mut AssignStack) {
    let lit = asg.select_decision_literal();
    asg.assign_by_decision(lit);
}

/// display the current stats. before"""))
same("heap-helper", (HE, """        self.heap.swap(n as usize, s);
        self.idxs.swap(vn as usize, vs as usize);
        self.idxs[0] -= 1;
        vs as VarId""", """        self.exchange(s, vs, n as usize, vn);
        self.idxs[0] = n - 1;
        vs as VarId"""), (HE, """impl VarIdHeap {
    #[allow(dead_code)]
    fn peek""", """impl VarIdHeap {
    fn exchange(&mut self, i: usize, vi: u32, j: usize, vj: u32) {
        self.idxs.swap(vi as usize, vj as usize);
        self.heap.swap(i, j);
    }
    #[allow(dead_code)]
    fn peek"""))
same("percolate-break", (HE, """            if p == 0 {
                self.var_order.heap[q as usize] = vq;
                debug_assert!(vq != 0, "Invalid index in percolate_up");
                self.var_order.idxs[vq as usize] = q;
                return;
            } else {
                let vp = self.var_order.heap[p as usize];
                let ap = self.activity(vp as usize);
                if ap < aq {
                    // move down the current parent, and make it empty
                    self.var_order.heap[q as usize] = vp;
                    debug_assert!(vq != 0, "Invalid index in percolate_up");
                    self.var_order.idxs[vp as usize] = q;
                    q = p;
                } else {
                    self.var_order.heap[q as usize] = vq;
                    debug_assert!(vq != 0, "Invalid index in percolate_up");
                    self.var_order.idxs[vq as usize] = q;
                    return;
                }
            }
        }""", """            if p == 0 {
                break;
            }
            let vp = self.var_order.heap[p as usize];
            if aq <= self.activity(vp as usize) {
                break;
            }
            self.place(vp, q);
            q = p;
        }
        self.place(vq, q);"""), (HE, """trait VarOrderIF {
    fn clear""", """impl AssignStack {
    fn place(&mut self, v: u32, at: u32) {
        self.var_order.idxs[v as usize] = at;
        self.var_order.heap[at as usize] = v;
    }
}

trait VarOrderIF {
    fn clear"""))
same("counter-form", ("src/assign/mod.rs", """                    self.num_vars
                        - self.num_asserted_vars
                        - self.num_eliminated_vars
                        - self.trail.len()""", """                    let fixed = self.num_asserted_vars + self.num_eliminated_vars;
                    self.num_vars - (self.trail.len() + fixed)"""))
same("saved-collect", (TS, """        for j in 0..self.trail_saved.len() {
            let l = self.trail_saved[j];
            self.insert_heap(l.vi());
        }
        self.trail_saved.clear();
    }""", """        let saved = std::mem::take(&mut self.trail_saved);
        for l in saved.iter() {
            self.insert_heap(l.vi());
        }
    }"""))
same("saved-pop", (TS, """        for j in 0..self.trail_saved.len() {
            let l = self.trail_saved[j];
            self.insert_heap(l.vi());
        }
        self.trail_saved.clear();
    }""", """        while let Some(l) = self.trail_saved.pop() {
            self.insert_heap(l.vi());
        }
    }"""))
# ---- P15
bug("stage-keeps", "P15", (ST, """                self.stage_scale = scale;
                #[cfg(feature = "trail_saving")]
                self.clear_saved_trail();""", """                if self.stage_scale < scale {
                    #[cfg(feature = "trail_saving")]
                    self.clear_saved_trail();
                }
                self.stage_scale = scale;"""))
bug("stage-missing", "P15", (SR, "            asg.handle(SolverEvent::Stage(scale));\n", "            if next_stage.is_some() {\n                asg.handle(SolverEvent::Stage(scale));\n            }\n"))
bug("reuse-assigned", "P15", (TS, "                (None, AssignReason::BinaryLink(link)) => {", "                (None | Some(false), AssignReason::BinaryLink(link)) => {"))
bug("reuse-reason", "P15", (TS, "                self.var[vi].reason_saved = self.var[vi].reason;", "                self.var[vi].reason_saved = self.var[l.vi() - 1].reason;"))
bug("reuse-decision", "P15 P13", (TS, """                (_, AssignReason::Decision(lvl)) => {
                    debug_assert_ne!(0, lvl);
                    self.insert_heap(vi);
                    return self.truncate_trail_saved(i + 1);""", """                (_, AssignReason::Decision(lvl)) => {
                    debug_assert_ne!(0, lvl);
                    self.insert_heap(vi);"""))
bug("reuse-order", "P15", (TS, "for i in (lim..lim2).rev() {", "for i in lim..lim2 {"))
same("reuse-if", (TS, """            match (self.assigned(lit), old_reason) {
                (Some(true), _) => (),
                (None, AssignReason::BinaryLink(link)) => {
                    debug_assert_ne!(link.vi(), lit.vi());
                    debug_assert_eq!(self.assigned(link), Some(true));
                    self.num_repropagation += 1;

                    self.assign_by_implication(lit, old_reason, dl);
                }""", """            let now = self.assigned(lit);
            if now == Some(true) {
                continue;
            }
            match (now, old_reason) {
                (Some(true), _) => (),
                (None, AssignReason::BinaryLink(_)) => {
                    self.num_repropagation += 1;
                    self.assign_by_implication(lit, old_reason, dl);
                }"""))
same("save-helper", (TS, """                self.trail_saved.push(l);
                self.var[vi].reason_saved = self.var[vi].reason;
                self.reward_at_unassign(vi);""", """                self.remember(l);
                self.reward_at_unassign(vi);"""), (TS, """    fn truncate_trail_saved(""", """    fn remember(&mut self, l: Lit) {
        let v = &mut self.var[l.vi()];
        v.reason_saved = v.reason;
        self.trail_saved.push(l);
    }
    fn truncate_trail_saved("""))
# ---- P14
bug("reduce-early", "P14", (SR, """            RESTART!(asg, cdb, state);
            #[cfg(feature = "rephase")]
            asg.select_rephasing_target();
            asg.clear_asserted_literals(cdb)?;
""", """            if num_learnt % 2 == 0 {
                RESTART!(asg, cdb, state);
            }
            #[cfg(feature = "rephase")]
            asg.select_rephasing_target();
            asg.clear_asserted_literals(cdb)?;
"""))
same("restart-fn", (SR, "            RESTART!(asg, cdb, state);\n            #[cfg(feature = \"rephase\")]", "            go_back(asg, cdb, state);\n            #[cfg(feature = \"rephase\")]"), (SR, "/// display the current stats. before", """fn go_back(asg: &mut AssignStack, cdb: &mut ClauseDB, state: &mut State) {
    asg.cancel_until(asg.root_level());
    cdb.handle(SolverEvent::Restart);
    state.handle(SolverEvent::Restart);
}

/// display the current stats. before"""))
# ---- P30
bug("vivify-kept", "P30", (VV, """                                        vec = asg.analyze_sandbox(
                                            self, &decisions, cnfl_lits, &mut seen,
                                        );
                                        asg.backtrack_sandbox();""", """                                        vec = asg.analyze_sandbox(
                                            self, &decisions, cnfl_lits, &mut seen,
                                        );
                                        if 1 < vec.len() {
                                            asg.backtrack_sandbox();
                                        }"""))
bug("vivify-stale", "P30", (VV, """        'next_clause: while let Some(cp) = clauses.pop() {
            asg.backtrack_sandbox();
""", """        'next_clause: while let Some(cp) = clauses.pop() {
"""))
bug("vivify-last", "P30 P14", (VV, """        asg.backtrack_sandbox();
        if asg.remains() {
            asg.propagate_sandbox(self)
                .map_err(SolverError::RootLevelConflict)?;
        }
        asg.clear""", """        if asg.remains() {
            asg.propagate_sandbox(self)
                .map_err(SolverError::RootLevelConflict)?;
        }
        asg.clear"""))
bug("sandbox-early-return", "P12", (PR, """    fn backtrack_sandbox(&mut self) {
        if self.trail_lim.is_empty() {""", """    fn backtrack_sandbox(&mut self) {
        if self.trail_lim.len() <= 1 && self.q_head == self.trail.len() {"""))
same("vivify-end-of-loop", (VV, """            if VIVIFY_LIMIT < num_check {
                break;
            }
        }
        asg.backtrack_sandbox();
        if asg.remains() {
            asg.propagate_sandbox(self)
                .map_err(SolverError::RootLevelConflict)?;
        }""", """            if VIVIFY_LIMIT < num_check {
                break;
            }
        }
        self.end_trials(asg)?;"""), (VV, """fn select_targets(
    asg""", """impl ClauseDB {
    fn end_trials(&mut self, asg: &mut AssignStack) -> MaybeInconsistent {
        asg.backtrack_sandbox();
        if asg.remains() {
            asg.propagate_sandbox(self)
                .map_err(SolverError::RootLevelConflict)?;
        }
        Ok(())
    }
}

fn select_targets(
    asg"""))
