from cases import bug, same

ST = "src/assign/stack.rs"
DB = "src/cdb/db.rs"
BI = "src/cdb/binary.rs"
HP = "src/assign/heap.rs"
PH = "src/processor/heap.rs"
SI = "src/processor/simplify.rs"
BU = "src/solver/build.rs"
SE = "src/solver/search.rs"
TV = "src/types/var.rs"
SS = "src/state.rs"

# --- sizes
bug("p23-vars", "P23", (TV, "(0..n as u32 + 1)", "(0..n as u32)"))
bug("p23-watch", "P23", (DB, "for _ in 0..2 * (nv + 1) {", "for _ in 0..2 * nv + 1 {"))
bug("p23-links", "P23", (BI, "let num_lit = 2 * (cnf.num_of_variables + 1);", "let num_lit = 2 * cnf.num_of_variables;"))
bug("p23-lbd", "P23", (DB, "lbd_temp: vec![0; nv + 1],", "lbd_temp: vec![0; nv],"))
bug("p23-heap", "P23", (HP, "        for i in 1..=n {", "        for i in 1..n {"))
bug("p23-occ", "P23", (PH, "        for _ in 0..=n {", "        for _ in 0..n {"), (SI, "LitOccurs::new(nv + 1)", "LitOccurs::new(nv)"))
bug("p23-queue", "P23", (SI, "VarOccHeap::new(nv, 0)", "VarOccHeap::new(nv / 2, 0)"))
bug("p23-lbd-default", "P23", (DB, "            lbd_temp: vec![0; nv + 1],\n", ""))

# --- growth
bug("p23-grow-var", "P23", (ST, "                self.var.push(Var::default());\n", ""))
bug("p23-grow-heap", "P23", (ST, "                self.expand_heap();\n", ""))
bug("p23-grow-idx", "P23", (HP, "        self.var_order.idxs.push(id);\n", ""))
bug("p23-grow-watch", "P23", (DB, "                // for positive literal\n                self.watch_cache.push(WatchCache::new());\n", ""))
bug("p23-grow-links", "P23", (BI, "for _ in 0..2 {\n            self.list", "for _ in 0..1 {\n            self.list"))
bug("p23-grow-lbd", "P23", (DB, "                self.lbd_temp.push(0);\n", ""))
bug("p23-grow-cdb", "P23", (BU, "        cdb.handle(SolverEvent::NewVar);\n", ""))
bug("p23-grow-state", "P23", (BU, "        state.handle(SolverEvent::NewVar);\n", ""))
bug("p23-grow-cnf", "P23", (SS, "                self.cnf.num_of_variables += 1;\n", ""))
bug("p23-grow-cond", "P23", (DB, "                self.lbd_temp.push(0);\n",
                             "                if self.lbd_temp.len() * 2 < self.watch_cache.len() {\n                    self.lbd_temp.push(0);\n                }\n"))
bug("p23-grow-some", "P23", (DB, "                self.binary_link.add_new_var();\n",
                             "                if 0 < self.num_bi_clause {\n                    self.binary_link.add_new_var();\n                }\n"))
bug("p23-count", "P23", (ST, "                self.num_vars += 1;\n", ""))
bug("p23-count2", "P23", (ST, "                self.num_vars += 1;\n", "                self.num_vars += 2;\n"))
bug("p23-returned", "P23", (BU, "        asg.num_vars as VarId\n", "        asg.num_vars as VarId + 1\n"))
bug("p23-returned-old", "P23", (BU, "        asg.handle(SolverEvent::NewVar);\n        cdb", "        let n = asg.num_vars;\n        asg.handle(SolverEvent::NewVar);\n        cdb"),
    (BU, "        asg.num_vars as VarId\n", "        n as VarId\n"))

# --- keeping
bug("p23-shrink-links", "P23", (BI, "        self.list[lit1].delete_unstable(|p| p.0 == lit0);\n        Ok(())",
    "        self.list[lit1].delete_unstable(|p| p.0 == lit0);\n        while self.list.last().is_some_and(|l| l.is_empty()) {\n            self.list.pop();\n        }\n        Ok(())"))
bug("p23-replace", "P23", (ST, "            SolverEvent::Reinitialize => {\n                self.cancel_until(self.root_level);",
    "            SolverEvent::Reinitialize => {\n                self.var_order = VarIdHeap::new(self.trail.capacity());\n                self.cancel_until(self.root_level);"))

# --- numbers of clauses
bug("p23-fresh", "P23", (DB, "            cid = ClauseId::from(self.clause.len());", "            cid = ClauseId::from(self.clause.len() + 1);"))

# --- unchecked accesses
bug("p23-shift", "P23", (DB, "            self.clause.get_unchecked(i)", "            self.clause.get_unchecked(i + 1)"))
bug("p23-bound", "P23", ("src/assign/select.rs", "for vi in 1..self.var.len()", "for vi in 1..=self.var.len()"))
bug("p23-bound2", "P23", (SI, "for vi in 1..=asg.derefer(assign::property::Tusize::NumVar)", "for vi in 1..asg.derefer(assign::property::Tusize::NumVar) + 2"))
bug("p23-litcode", "P23", (SI, "            self.var.get_unchecked(l.vi())", "            self.var.get_unchecked(usize::from(l))"))

# --- refactorings
same("p23-resize", (DB, """        let mut watcher = Vec::with_capacity(2 * (nv + 1));
        for _ in 0..2 * (nv + 1) {
            watcher.push(WatchCache::new());
        }
""", """        let mut watcher = Vec::with_capacity(2 * (nv + 1));
        watcher.resize_with(2 * (nv + 1), WatchCache::new);
"""))
same("p23-collect", (DB, """        let mut watcher = Vec::with_capacity(2 * (nv + 1));
        for _ in 0..2 * (nv + 1) {
            watcher.push(WatchCache::new());
        }
""", """        let watcher = (0..=2 * nv + 1).map(|_| WatchCache::new()).collect::<Vec<_>>();
"""))
same("p23-watchpair", (DB, """        for _ in 0..2 * (nv + 1) {
            watcher.push(WatchCache::new());
        }
""", """        for _ in 0..=nv {
            watcher.push(WatchCache::new());
            watcher.push(WatchCache::new());
        }
"""))
same("p23-while", (DB, """        for _ in 0..2 * (nv + 1) {
            watcher.push(WatchCache::new());
        }
""", """        while watcher.len() < 2 * (nv + 1) {
            watcher.push(WatchCache::new());
        }
"""))
same("p23-vars-loop", (TV, """        (0..n as u32 + 1)
            .map(|n| {
                Var {
                    level: n, // each literal occupies a single level.
                    ..Default::default()
                }
            })
            .collect::<Vec<_>>()
""", """        let mut vars = Vec::with_capacity(n + 1);
        for level in 0..=n as u32 {
            vars.push(Var {
                level, // each literal occupies a single level.
                ..Default::default()
            });
        }
        vars
"""))
same("p23-heap-collect", (HP, """        let mut heap = Vec::with_capacity(n + 1);
        let mut idxs = Vec::with_capacity(n + 1);
        heap.push(0);
        idxs.push(n as u32);
        for i in 1..=n {
            heap.push(i as u32);
            idxs.push(i as u32);
        }
""", """        let heap = (0..=n as u32).collect::<Vec<u32>>();
        let mut idxs = heap.clone();
"""))
same("p23-grow-extend", (DB, """                // for negated literal
                self.watch_cache.push(WatchCache::new());
                // for positive literal
                self.watch_cache.push(WatchCache::new());
""", """                for _ in 0..2 {
                    self.watch_cache.push(WatchCache::new());
                }
"""))
same("p23-grow-resize", (DB, """                // for negated literal
                self.watch_cache.push(WatchCache::new());
                // for positive literal
                self.watch_cache.push(WatchCache::new());
""", """                let n = self.watch_cache.len();
                self.watch_cache.resize_with(n + 2, WatchCache::new);
"""))
same("p23-links-straight", (BI, """        for _ in 0..2 {
            self.list.push(Vec::new());
        }
""", """        self.list.extend((0..2).map(|_| Vec::new()));
"""))
same("p23-order", (BU, """        asg.handle(SolverEvent::NewVar);
        cdb.handle(SolverEvent::NewVar);
        state.handle(SolverEvent::NewVar);
        asg.num_vars as VarId
""", """        state.handle(SolverEvent::NewVar);
        cdb.handle(SolverEvent::NewVar);
        asg.handle(SolverEvent::NewVar);
        let vi: VarId = asg.num_vars;
        vi
"""))
same("p23-handler-helper", (ST, """                self.expand_heap();
                self.num_vars += 1;
                self.var.push(Var::default());
""", """                self.append_var();
"""), (ST, "impl Instantiate for AssignStack {", """impl AssignStack {
    fn append_var(&mut self) {
        let AssignStack { var, num_vars, .. } = self;
        var.push(Var::default());
        *num_vars += 1;
        self.expand_heap();
    }
}

impl Instantiate for AssignStack {"""))
same("p23-target", (SE, "Eliminator::instantiate(&state.config, &state.cnf)", "Eliminator::instantiate(&state.config, &state.target)"))
same("p23-fresh-after", (DB, "            cid = ClauseId::from(self.clause.len());", "            let next = self.clause.len();\n            cid = ClauseId::from(next);"))
