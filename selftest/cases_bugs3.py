"""Bugs written from the statements of the properties and the code alone (third batch)."""
from cases import bug, same
PR = "src/assign/propagate.rs"
TS = "src/assign/trail_saving.rs"
SEL = "src/assign/select.rs"
HP = "src/assign/heap.rs"
STK = "src/assign/stack.rs"
S = "src/solver/search.rs"
VIV = "src/cdb/vivify.rs"
EL = "src/processor/eliminate.rs"
SI = "src/processor/simplify.rs"
DB = "src/cdb/db.rs"
CO = "src/solver/conflict.rs"

# ---- P12
bug("p12-asserted-reason", "P12", (STK, "        self.var[vi].reason = AssignReason::Decision(0);\n        self.set_activity(vi, 0.0);\n        self.remove", "        self.set_activity(vi, 0.0);\n        self.remove"))
bug("p12-root-reason", "P12", (PR, "                self.trail.push(l);\n                self.make_var_asserted(vi);\n                Ok(())", "                self.trail.push(l);\n                if self.var[vi].reason == AssignReason::None && 0 < self.num_conflict {\n                    self.make_var_asserted(vi);\n                }\n                Ok(())"))
bug("p12-impl-level", "P12", (PR, "        self.var[vi].level = lv;\n", "        self.var[vi].level = lv.max(self.decision_level());\n"))
bug("p12-impl-reason", "P12", (PR, "        self.var[vi].reason = reason;\n", "        if !self.var[vi].is(FlagVar::USED) {\n            self.var[vi].reason = reason;\n        }\n"))
bug("p12-impl-assert", "P12", (PR, "        if self.root_level == lv {\n            self.make_var_asserted(vi);\n        }", "        if self.root_level == self.decision_level() && lv != self.root_level {\n            self.make_var_asserted(vi);\n        }"))
bug("p12-dec-level", "P12", (PR, "        let dl = self.trail_lim.len() as DecisionLevel;\n        let vi = l.vi();\n        let v = &mut self.var[vi];\n", "        let dl = self.trail_lim.len() as DecisionLevel - 1;\n        let vi = l.vi();\n        let v = &mut self.var[vi];\n"))
bug("p12-dec-nolevel", "P12", (PR, "        self.level_up();\n        let dl = self.trail", "        if self.remains() || self.trail_lim.last() != Some(&self.trail.len()) {\n            self.level_up();\n        }\n        let dl = self.trail"))
bug("p12-dec-push-first", "P12", (PR, "        self.level_up();\n        let dl = self.trail_lim.len()", "        self.trail.push(l);\n        self.level_up();\n        self.trail.pop();\n        let dl = self.trail_lim.len()"))
bug("p12-dec-reason", "P12", (PR, "        self.var[vi].reason = AssignReason::Decision(self.decision_level());\n        self.reward_at_assign(vi);\n        self.trail.push(l);\n        self.num_decision += 1;", "        self.var[vi].reason = AssignReason::Decision(0);\n        self.reward_at_assign(vi);\n        self.trail.push(l);\n        self.num_decision += 1;"))
bug("p12-undo-last", "P12", (PR, "        for i in lim..self.trail.len() {\n            let l = self.trail[i];\n            debug_assert!(\n                self.var[l.vi()].assign", "        for i in lim..self.trail.len().max(self.q_head + 1) - 1 {\n            let l = self.trail[i];\n            debug_assert!(\n                self.var[l.vi()].assign"))
bug("p12-undo-lim1", "P12", (PR, "        let lim = self.trail_lim[lv as usize];\n\n        #[cfg(feature = \"trail_saving\")]\n        self.save_trail(lv);", "        let lim = self.trail_lim[lv as usize] + (lv == self.root_level && self.best_assign) as usize;\n\n        #[cfg(feature = \"trail_saving\")]\n        self.save_trail(lv);"))
bug("p12-undo-reason-cond", "P12", (PR, "            unset_assign!(self, vi);\n            self.var[vi].reason = AssignReason::None;\n\n            #[cfg(not", "            unset_assign!(self, vi);\n            if !matches!(self.var[vi].reason, AssignReason::BinaryLink(_)) {\n                self.var[vi].reason = AssignReason::None;\n            }\n\n            #[cfg(not"))
bug("p12-qhead-not-moved", "P12", (PR, "        self.q_head = self.trail.len().min(self.q_head);\n", "        if lv != self.root_level {\n            self.q_head = self.trail.len().min(self.q_head);\n        }\n"))
bug("p12-qhead-forward", "P12", (PR, "        self.q_head = self.trail.len().min(self.q_head);\n", "        self.q_head = self.trail.len();\n"))
bug("p12-qhead-before", "P12", (PR, "        self.trail.truncate(lim);\n        // moved below -- self.q_head = self.trail.len();\n        // see https://github.com/shnarazk/splr/issues/117\n        self.q_head = self.trail.len().min(self.q_head);\n", "        self.q_head = self.trail.len().min(self.q_head);\n        self.trail.truncate(lim);\n"))
bug("p12-sandbox-qhead", "P12", (PR, "        self.trail_lim.truncate(self.root_level as usize);\n        self.q_head = self.trail.len();\n", "        self.trail_lim.truncate(self.root_level as usize);\n"))
bug("p12-sandbox-lims", "P12", (PR, "        self.trail_lim.truncate(self.root_level as usize);\n        self.q_head = self.trail.len();\n", "        self.trail_lim.pop();\n        self.q_head = self.trail.len();\n"))
bug("p12-level-up", "P12", (PR, "self.trail_lim.push(self.trail.len());", "self.trail_lim.push(self.q_head);"))
bug("p12-root-conflict", "P12", (PR, "            _ => Err(SolverError::RootLevelConflict((l, self.var[l.vi()].reason))),", "            _ => {\n                set_assign!(self, l);\n                Err(SolverError::RootLevelConflict((l, self.var[l.vi()].reason)))\n            }"))
bug("p12-root-nocancel", "P12", (PR, "        self.cancel_until(self.root_level);\n        let vi = l.vi();\n        debug_assert!(vi < self.var.len());", "        if self.var[l.vi()].assign.is_some() {\n            self.cancel_until(self.root_level);\n        }\n        let vi = l.vi();\n        debug_assert!(vi < self.var.len());"))
bug("p12-root-nopush", "P12", (PR, "                debug_assert!(!self.trail.contains(&!l));\n                self.trail.push(l);\n                self.make_var_asserted(vi);", "                debug_assert!(!self.trail.contains(&!l));\n                if !self.var[vi].is(FlagVar::CA_SEEN) {\n                    self.trail.push(l);\n                }\n                self.make_var_asserted(vi);"))
# ---- P13
bug("p13-select-elim", "P13", (SEL, "            let vi = self.get_heap_root();\n            if var_assign!(self, vi).is_none() && !self.var[vi].is(FlagVar::ELIMINATED) {", "            let vi = self.get_heap_root();\n            if var_assign!(self, vi).is_none() {"))
bug("p13-select-assigned", "P13", (SEL, "            let vi = self.get_heap_root();\n            if var_assign!(self, vi).is_none() && !self.var[vi].is(FlagVar::ELIMINATED) {", "            let vi = self.get_heap_root();\n            if (var_assign!(self, vi).is_none() || self.num_vars < 2) && !self.var[vi].is(FlagVar::ELIMINATED) {"))
bug("p13-select-once", "P13", (SEL, "        let vi = self.select_var();\n        Lit", "        let mut vi = self.select_var();\n        if self.var[vi].is(FlagVar::USED) && 1 < self.num_vars {\n            vi = self.get_heap_root();\n        }\n        Lit"))
bug("p13-rebuild-short", "P13", (SEL, "        for vi in 1..self.var.len() {\n            if var_assign", "        for vi in 1..self.var.len() - 1 {\n            if var_assign"))
bug("p13-rebuild-cond", "P13", (SEL, "            if var_assign!(self, vi).is_none() && !self.var[vi].is(FlagVar::ELIMINATED) {\n                self.insert_heap(vi);", "            if var_assign!(self, vi).is_none() && !self.var[vi].is(FlagVar::ELIMINATED) && 0.0 < self.var[vi].reward {\n                self.insert_heap(vi);"))
bug("p13-clear-heap", "P13", (HP, "            self.idxs[i] = i as u32;\n            self.heap[i] = i as u32;\n", "            self.idxs[i] = 0;\n            self.heap[i] = i as u32;\n"))
bug("p13-root-keep", "P13", (HP, "        self.heap.swap(n as usize, s);\n        self.idxs.swap(vn as usize, vs as usize);\n        self.idxs[0] -= 1;\n        vs as VarId", "        self.heap.swap(n as usize, s);\n        self.idxs.swap(vn as usize, vs as usize);\n        if 1 < n {\n            self.idxs[0] -= 1;\n        }\n        vs as VarId"))
bug("p13-root-idx", "P13", (HP, "        self.heap.swap(n as usize, s);\n        self.idxs.swap(vn as usize, vs as usize);\n        self.idxs[0] -= 1;\n        vs as VarId", "        self.heap.swap(n as usize, s);\n        self.idxs[0] -= 1;\n        vs as VarId"))
bug("p13-insert-idx", "P13", (HP, "        self.heap.swap(i as usize, n as usize);\n        self.idxs.swap(vi, vn as usize);\n        self.idxs[0] = n;", "        self.heap.swap(i as usize, n as usize);\n        self.idxs[0] = n;"))
bug("p13-insert-count", "P13", (HP, "        self.idxs.swap(vi, vn as usize);\n        self.idxs[0] = n;\n        n as usize", "        self.idxs.swap(vi, vn as usize);\n        n as usize"))
bug("p13-remove-swap", "P13", (HP, "        self.heap.swap(n as usize, i as usize);\n        self.idxs.swap(vn as usize, vi);\n        self.idxs[0] -= 1;\n        if 1", "        self.heap.swap(n as usize, i as usize);\n        self.idxs.swap(n as usize, vi);\n        self.idxs[0] -= 1;\n        if 1"))
bug("p13-remove-lt", "P13", (HP, "        if n < i {\n            return None;\n        }", "        if n <= i {\n            return None;\n        }"))
bug("p13-contains", "P13", (HP, "        self.idxs[v] <= self.idxs[0]\n", "        self.idxs[v] < self.idxs[0]\n"))
bug("p13-up-idx", "P13", (HP, "                    self.var_order.heap[q as usize] = vp;\n                    debug_assert!(vq != 0, \"Invalid index in percolate_up\");\n                    self.var_order.idxs[vp as usize] = q;\n", "                    self.var_order.heap[q as usize] = vp;\n                    debug_assert!(vq != 0, \"Invalid index in percolate_up\");\n                    self.var_order.idxs[vp as usize] = p;\n"))
bug("p13-down-last", "P13", (HP, "                if ai < ac {\n                    self.var_order.heap[i as usize] = vc;\n                    self.var_order.idxs[vc as usize] = i;\n", "                if ai < ac {\n                    self.var_order.heap[i as usize] = vc;\n"))
bug("p13-down-end", "P13", (HP, "            } else {\n                self.var_order.heap[i as usize] = vi;\n                debug_assert!(vi != 0, \"invalid index\");\n                self.var_order.idxs[vi as usize] = i;\n                return;\n            }\n        }\n    }\n    fn remove_from_heap", "            } else {\n                self.var_order.heap[i as usize] = vi;\n                debug_assert!(vi != 0, \"invalid index\");\n                return;\n            }\n        }\n    }\n    fn remove_from_heap"))
bug("p13-saved-not-refilled", "P13", (HP, "        #[cfg(feature = \"trail_saving\")]\n        if self.var_order.is_empty() {\n            self.clear_saved_trail();\n        }\n        let vs", "        #[cfg(feature = \"trail_saving\")]\n        if self.var_order.is_empty() && self.trail_lim.is_empty() {\n            self.clear_saved_trail();\n        }\n        let vs"))
bug("p13-save-noinsert", "P13", (TS, "        for i in free..self.trail.len() {\n            let vi = self.trail[i].vi();\n            self.reward_at_unassign(vi);\n            self.insert_heap(vi);\n        }", "        for i in free..self.trail.len() {\n            let vi = self.trail[i].vi();\n            self.reward_at_unassign(vi);\n            if self.var[vi].reason != AssignReason::None {\n                self.insert_heap(vi);\n            }\n        }"))
bug("p13-save-noinsert2", "P13", (TS, "        for i in free..self.trail.len() {", "        for i in free..self.q_head.min(self.trail.len()) {"))
bug("p13-clear-saved", "P13", (TS, "        for j in 0..self.trail_saved.len() {\n            let l = self.trail_saved[j];\n            self.insert_heap(l.vi());\n        }\n        self.trail_saved.clear();", "        self.trail_saved.clear();"))
bug("p13-clear-saved1", "P13", (TS, "        for j in 0..self.trail_saved.len() {", "        for j in 1..self.trail_saved.len() {"))
bug("p13-clear-order", "P13", (TS, "        for j in 0..self.trail_saved.len() {\n            let l = self.trail_saved[j];\n            self.insert_heap(l.vi());\n        }\n        self.trail_saved.clear();", "        let saved = std::mem::take(&mut self.trail_saved);\n        for l in saved.iter().filter(|l| self.var[l.vi()].assign.is_none()).map(|l| l.vi()).take(1000).collect::<Vec<_>>() {\n            self.insert_heap(l);\n        }"))
bug("p13-make-elim", "P13", (STK, "            self.var[vi].turn_on(FlagVar::ELIMINATED);\n", "            if self.var[vi].assign.is_none() {\n                self.var[vi].turn_on(FlagVar::ELIMINATED);\n            }\n"))
bug("p13-viv-elim", "P13", (EL, "    asg.handle(SolverEvent::Eliminate(vi));\n", "    asg.var_mut(vi).turn_off(FlagVar::ELIMINATED);\n"))
bug("p13-sandbox-heap", "P12", (PR, "            self.var[vi].reason = AssignReason::None;\n            self.insert_heap(vi);\n", "            self.var[vi].reason = AssignReason::None;\n"))
# ---- P15
bug("p15-stage", "P15", (STK, "                self.stage_scale = scale;\n                #[cfg(feature = \"trail_saving\")]\n                self.clear_saved_trail();\n", "                self.stage_scale = scale;\n"))
bug("p15-stage-cond", "P15", (STK, "                self.stage_scale = scale;\n                #[cfg(feature = \"trail_saving\")]\n                self.clear_saved_trail();\n", "                #[cfg(feature = \"trail_saving\")]\n                if scale != self.stage_scale {\n                    self.clear_saved_trail();\n                }\n                self.stage_scale = scale;\n"))
bug("p15-reinit", "P15", (STK, "                debug_assert_eq!(self.decision_level(), self.root_level);\n                #[cfg(feature = \"trail_saving\")]\n                self.clear_saved_trail();\n", "                debug_assert_eq!(self.decision_level(), self.root_level);\n"))
bug("p15-save-noclear", "P15", (TS, "        let mut free: usize = lim;\n        self.clear_saved_trail();\n", "        let mut free: usize = lim;\n"))
bug("p15-save-order", "P15", (TS, "            for i in (lim..lim2).rev() {", "            for i in lim..lim2 {"))
bug("p15-save-reason", "P15", (TS, "                self.var[vi].reason_saved = self.var[vi].reason;\n", "                if self.var[vi].reason_saved == AssignReason::None {\n                    self.var[vi].reason_saved = self.var[vi].reason;\n                }\n"))
bug("p15-reuse-order", "P15", (TS, "        for i in (0..self.trail_saved.len()).rev() {", "        for i in 0..self.trail_saved.len() {"))
bug("p15-reuse-decision", "P15", (TS, "                (_, AssignReason::Decision(lvl)) => {\n                    debug_assert_ne!(0, lvl);\n                    self.insert_heap(vi);\n                    return self.truncate_trail_saved(i + 1);\n                }", "                (_, AssignReason::Decision(lvl)) => {\n                    debug_assert_ne!(0, lvl);\n                    self.insert_heap(vi);\n                    if lvl < dl {\n                        continue;\n                    }\n                    return self.truncate_trail_saved(i + 1);\n                }"))
bug("p15-reuse-skip-rank", "P15", (TS, "                    self.insert_heap(vi);\n                    return self.truncate_trail_saved(i + 1);\n                }\n                (None, AssignReason::Implication(cid)) => {", "                    self.insert_heap(vi);\n                }\n                (None, AssignReason::Implication(cid)) => {"))
bug("p15-reuse-level", "P15", (TS, "        let dl = self.decision_level();\n", "        let dl = self.decision_level() - 1;\n"))
bug("p15-reuse-conflict", "P15", (TS, "                    self.clear_saved_trail();\n                    return Err((lit, old_reason));", "                    self.clear_saved_trail();\n                    return Ok(());"))
bug("p15-reuse-conflict-lit", "P15", (TS, "return Err((cdb[cid].lit0(), AssignReason::Implication(cid)));", "return Err((!lit, AssignReason::Implication(cid)));"))

bug("p15-reuse-nosat", "P15", (TS, "                (None, AssignReason::BinaryLink(link)) => {\n", "                (None | Some(false), AssignReason::BinaryLink(link)) if self.var[vi].assign.is_none() || self.var[vi].level == self.root_level + 1 => {\n"))
# ---- P07
bug("p07-skip-first", "P07", (STK, "            i = target_index;\n            debug_assert", "            i = target_index;\n            if i == 0 && width == 1 {\n                break;\n            }\n            debug_assert"))
bug("p07-assigned-kept", "P07", (STK, "                let l = lits[target_index];\n                extended_model", "                let l = lits[target_index];\n                if extended_model[l.vi()].is_some() && self.var[l.vi()].is(FlagVar::ELIMINATED) {\n                    continue;\n                }\n                extended_model"))
bug("p07-any", "P07", (STK, "                .iter()\n                .all(|l| extended_model[l.vi()] == Some(!bool::from(*l)))\n            {", "                .iter()\n                .any(|l| extended_model[l.vi()] == Some(!bool::from(*l)))\n            {"))
bug("p07-original-model", "P07", (STK, ".all(|l| extended_model[l.vi()] == Some(!bool::from(*l)))\n            {", ".all(|l| self.var[l.vi()].assign == Some(!bool::from(*l)))\n            {"))
bug("p07-unassigned", "P07", (STK, ".all(|l| extended_model[l.vi()] == Some(!bool::from(*l)))\n            {", ".all(|l| extended_model[l.vi()] != Some(!bool::from(*l)))\n            {"))
bug("p07-return-early", "P07", (STK, "        if lits.is_empty() {\n            return extended_model;", "        if lits.len() < 4 {\n            return extended_model;"))
bug("p13-expand-val", "P13", (HP, "        self.var_order.idxs.push(id);\n", "        self.var_order.idxs.push(0);\n"))
same("p12-qhead-if", (PR, "        self.q_head = self.trail.len().min(self.q_head);\n", "        if lim < self.q_head {\n            self.q_head = lim;\n        }\n"))
same("p13-clear-iter", (TS, "        for j in 0..self.trail_saved.len() {\n            let l = self.trail_saved[j];\n            self.insert_heap(l.vi());\n        }\n        self.trail_saved.clear();", "        while let Some(l) = self.trail_saved.pop() {\n            self.insert_heap(l.vi());\n        }"))
same("p13-clear-take", (TS, "        for j in 0..self.trail_saved.len() {\n            let l = self.trail_saved[j];\n            self.insert_heap(l.vi());\n        }\n        self.trail_saved.clear();", "        let saved = std::mem::take(&mut self.trail_saved);\n        for l in saved.iter() {\n            self.insert_heap(l.vi());\n        }"))
same("p13-heap-clear", (HP, "        for i in 0..self.idxs.len() {\n            self.idxs[i] = i as u32;\n            self.heap[i] = i as u32;\n        }", "        for (i, (x, h)) in self.idxs.iter_mut().zip(self.heap.iter_mut()).enumerate() {\n            *x = i as u32;\n            *h = i as u32;\n        }"))
same("p13-heap-contains", (HP, "        self.idxs[v] <= self.idxs[0]\n", "        let n = self.idxs[0];\n        n >= self.idxs[v]\n"))
same("p13-heap-contains2", (HP, "        self.idxs[v] <= self.idxs[0]\n", "        (self.idxs[v] as usize) <= self.len()\n"))
same("p12-root-check", (PR, "        if self.root_level == lv {\n            self.make_var_asserted(vi);\n        }", "        if lv <= self.root_level {\n            self.make_var_asserted(vi);\n        }"))
same("p07-walk-early", (STK, "        if lits.is_empty() {\n            return extended_model;", "        if lits.len() == 0 {\n            return extended_model;"))
