"""Fourth batch of behaviour-preserving edits: input, output, the binaries,
validation, certificates, binary links, watch caches, the heap and the saved trail."""
from cases import same

B = "src/solver/build.rs"

same(
    "b4-helper-in-range",
    (B, """        if val == 0 || self.asg.num_vars < val.unsigned_abs() as usize {
            return Err(SolverError::InvalidLiteral);
        }
        let lit = Lit::from(val);""", """        if !self.in_range(val) {
            return Err(SolverError::InvalidLiteral);
        }
        let lit = Lit::from(val);"""),
    (B, """            if *i == 0 || self.asg.num_vars < i.unsigned_abs() as usize {
                return Err(SolverError::InvalidLiteral);
            }
        }
        let mut clause = vec""", """            if !self.in_range(*i) {
                return Err(SolverError::InvalidLiteral);
            }
        }
        let mut clause = vec"""),
    (B, """    // renamed from clause_new
""", """    fn in_range(&self, val: i32) -> bool {
        val != 0 && val.unsigned_abs() as usize <= self.asg.num_vars
    }
    // renamed from clause_new
"""),
)

same(
    "b4-add-assignment-match",
    (B, """        match self.asg.assigned(lit) {
            None => self.asg.assign_at_root_level(lit).map(|_| self),
            Some(true) => Ok(self),
            Some(false) => Err(SolverError::RootLevelConflict((
                lit,
                self.asg.reason(lit.vi()),
            ))),
        }""", """        let current = self.asg.assigned(lit);
        if current == Some(false) {
            let r = self.asg.reason(lit.vi());
            return Err(SolverError::RootLevelConflict((lit, r)));
        }
        if current.is_none() {
            self.asg.assign_at_root_level(lit)?;
        }
        Ok(self)"""),
)

same(
    "b4-add-clause-any",
    (B, """        for i in vec.as_ref().iter() {
            if *i == 0 || self.asg.num_vars < i.unsigned_abs() as usize {
                return Err(SolverError::InvalidLiteral);
            }
        }
        let mut clause = vec""", """        let nv = self.asg.num_vars;
        if vec
            .as_ref()
            .iter()
            .any(|i| *i == 0 || nv < i.unsigned_abs() as usize)
        {
            return Err(SolverError::InvalidLiteral);
        }
        let mut clause = vec"""),
)

same(
    "b4-add-clause-empty-first",
    (B, """        for i in vec.as_ref().iter() {
            if *i == 0 || self.asg.num_vars < i.unsigned_abs() as usize {
                return Err(SolverError::InvalidLiteral);
            }
        }
        let mut clause = vec
            .as_ref()
            .iter()
            .map(|i| Lit::from(*i))
            .collect::<Vec<Lit>>();

        if clause.is_empty() {
            return Err(SolverError::EmptyClause);
        }
        if self""", """        let ints = vec.as_ref();
        if ints.is_empty() {
            return Err(SolverError::EmptyClause);
        }
        let mut clause: Vec<Lit> = Vec::with_capacity(ints.len());
        for i in ints {
            if *i == 0 || self.asg.num_vars < i.unsigned_abs() as usize {
                return Err(SolverError::InvalidLiteral);
            }
            clause.push(Lit::from(*i));
        }
        if self"""),
)

same(
    "b4-add-clause-match-ref",
    (B, """        if self.add_unchecked_clause(&mut clause) == RefClause::EmptyClause {
            return Err(SolverError::EmptyClause);
        }
        Ok(self)
    }
    fn add_var""", """        match self.add_unchecked_clause(&mut clause) {
            RefClause::EmptyClause => Err(SolverError::EmptyClause),
            _ => Ok(self),
        }
    }
    fn add_var"""),
)

same(
    "b4-unchecked-iter",
    (B, """        for i in 0..lits.len() {
            let li = lits[i];
            let sat = asg.assigned(li);
            if sat == Some(true) || Some(!li) == l_ {
                return RefClause::Dead;
            } else if sat != Some(false) && Some(li) != l_ {
                lits[j] = li;
                j += 1;
                l_ = Some(li);
            }
        }
        lits.truncate(j);""", """        let mut i = 0;
        while i < lits.len() {
            let li = lits[i];
            i += 1;
            match asg.assigned(li) {
                Some(true) => return RefClause::Dead,
                _ if l_ == Some(!li) => return RefClause::Dead,
                Some(false) => continue,
                None if l_ == Some(li) => continue,
                None => {
                    lits[j] = li;
                    j += 1;
                    l_ = Some(li);
                }
            }
        }
        lits.truncate(j);"""),
)

same(
    "b4-unchecked-kept",
    (B, """        let mut j = 0;
        let mut l_: Option<Lit> = None; // last literal; [x, x.negate()] means tautology.
        for i in 0..lits.len() {
            let li = lits[i];
            let sat = asg.assigned(li);
            if sat == Some(true) || Some(!li) == l_ {
                return RefClause::Dead;
            } else if sat != Some(false) && Some(li) != l_ {
                lits[j] = li;
                j += 1;
                l_ = Some(li);
            }
        }
        lits.truncate(j);""", """        let mut kept: Vec<Lit> = Vec::with_capacity(lits.len());
        for li in lits.iter().copied() {
            let sat = asg.assigned(li);
            let last = kept.last().copied();
            if sat == Some(true) || last == Some(!li) {
                return RefClause::Dead;
            }
            if sat.is_none() && last != Some(li) {
                kept.push(li);
            }
        }
        *lits = kept;"""),
)

same(
    "b4-unchecked-tail",
    (B, """        match lits.len() {
            0 => RefClause::EmptyClause, // for UNSAT
            1 => {
                let l0 = lits[0];
                cdb.certificate_add_assertion(l0);
                asg.assign_at_root_level(l0)
                    .map_or(RefClause::EmptyClause, |_| RefClause::UnitClause(l0))
            }
            _ => cdb.new_clause(asg, lits, false),
        }""", """        if lits.is_empty() {
            return RefClause::EmptyClause;
        }
        if lits.len() != 1 {
            return cdb.new_clause(asg, lits, false);
        }
        let l0 = lits[0];
        cdb.certificate_add_assertion(l0);
        if asg.assign_at_root_level(l0).is_err() {
            return RefClause::EmptyClause;
        }
        RefClause::UnitClause(l0)"""),
)

same(
    "b4-unchecked-slice-pattern",
    (B, """        match lits.len() {
            0 => RefClause::EmptyClause, // for UNSAT
            1 => {
                let l0 = lits[0];
                cdb.certificate_add_assertion(l0);
                asg.assign_at_root_level(l0)
                    .map_or(RefClause::EmptyClause, |_| RefClause::UnitClause(l0))
            }
            _ => cdb.new_clause(asg, lits, false),
        }""", """        match lits.as_slice() {
            [] => RefClause::EmptyClause, // for UNSAT
            &[l0] => {
                cdb.certificate_add_assertion(l0);
                match asg.assign_at_root_level(l0) {
                    Ok(()) => RefClause::UnitClause(l0),
                    Err(_) => RefClause::EmptyClause,
                }
            }
            _ => cdb.new_clause(asg, lits, false),
        }"""),
)

same(
    "b4-inject-helper-line",
    (B, """                Ok(_) => {
                    for s in buf.split_whitespace() {
                        match s.parse::<i32>() {
                            Ok(0) => {
                                if self.add_unchecked_clause(&mut v) == RefClause::EmptyClause {
                                    return Err(SolverError::EmptyClause);
                                }
                                v.clear();
                            }
                            Ok(val) if self.asg.num_vars < val.unsigned_abs() as usize => {
                                return Err(SolverError::InvalidLiteral);
                            }
                            Ok(val) => v.push(Lit::from(val)),
                            Err(_) => return Err(SolverError::IOError),
                        }
                    }
                }
                Err(_) => return Err(SolverError::IOError),""", """                Ok(_) => self.inject_line(&buf, &mut v)?,
                Err(_) => return Err(SolverError::IOError),"""),
    (B, """    #[cfg(not(feature = "no_IO"))]
    fn inject(mut self""", """    fn inject_line(&mut self, line: &str, v: &mut Vec<Lit>) -> Result<(), SolverError> {
        for s in line.split_whitespace() {
            match s.parse::<i32>() {
                Ok(0) => {
                    if self.add_unchecked_clause(v) == RefClause::EmptyClause {
                        return Err(SolverError::EmptyClause);
                    }
                    v.clear();
                }
                Ok(val) if self.asg.num_vars < val.unsigned_abs() as usize => {
                    return Err(SolverError::InvalidLiteral);
                }
                Ok(val) => v.push(Lit::from(val)),
                Err(_) => return Err(SolverError::IOError),
            }
        }
        Ok(())
    }
    #[cfg(not(feature = "no_IO"))]
    fn inject(mut self"""),
)

same(
    "b4-inject-map-err",
    (B, """                        match s.parse::<i32>() {
                            Ok(0) => {
                                if self.add_unchecked_clause(&mut v) == RefClause::EmptyClause {
                                    return Err(SolverError::EmptyClause);
                                }
                                v.clear();
                            }
                            Ok(val) if self.asg.num_vars < val.unsigned_abs() as usize => {
                                return Err(SolverError::InvalidLiteral);
                            }
                            Ok(val) => v.push(Lit::from(val)),
                            Err(_) => return Err(SolverError::IOError),
                        }""", """                        let val = s.parse::<i32>().map_err(|_| SolverError::IOError)?;
                        if val == 0 {
                            let mut lits = std::mem::take(&mut v);
                            let r = self.add_unchecked_clause(&mut lits);
                            if r == RefClause::EmptyClause {
                                return Err(SolverError::EmptyClause);
                            }
                            continue;
                        }
                        if val.unsigned_abs() as usize > self.asg.num_vars {
                            return Err(SolverError::InvalidLiteral);
                        }
                        v.push(Lit::from(val));"""),
)

same(
    "b4-inject-while",
    (B, """        loop {
            buf.clear();
            match reader.read_line(&mut buf) {
                Ok(0) => break,
                Ok(_) if buf.starts_with('c') => continue,
                Ok(_) => {
                    for s""", """        loop {
            buf.clear();
            let n = match reader.read_line(&mut buf) {
                Ok(n) => n,
                Err(_) => return Err(SolverError::IOError),
            };
            if n == 0 {
                break;
            }
            if buf.starts_with('c') {
                continue;
            }
            match n {
                _ => {
                    for s"""),
    (B, """                    }
                }
                Err(_) => return Err(SolverError::IOError),
            }
        }
        if !v.is_empty()""", """                    }
                }
            }
        }
        if !v.is_empty()"""),
)

same(
    "b4-inject-vec-add-clause",
    (B, """        for ints in v.iter() {
            for i in ints.as_ref().iter() {
                if *i == 0 || self.asg.num_vars < i.unsigned_abs() as usize {
                    return Err(SolverError::InvalidLiteral);
                }
            }
            let mut lits = ints
                .as_ref()
                .iter()
                .map(|i| Lit::from(*i))
                .collect::<Vec<Lit>>();
            if v.is_empty() {
                return Err(SolverError::EmptyClause);
            }
            if self.add_unchecked_clause(&mut lits) == RefClause::EmptyClause {
                return Err(SolverError::EmptyClause);
            }
        }""", """        for ints in v {
            self.add_clause(ints)?;
        }"""),
)

same(
    "b4-inject-vec-index",
    (B, """        for ints in v.iter() {
            for i in ints.as_ref().iter() {
                if *i == 0 || self.asg.num_vars < i.unsigned_abs() as usize {
                    return Err(SolverError::InvalidLiteral);
                }
            }
            let mut lits = ints
                .as_ref()
                .iter()
                .map(|i| Lit::from(*i))
                .collect::<Vec<Lit>>();""", """        for k in 0..v.len() {
            let ints = v[k].as_ref();
            let mut lits: Vec<Lit> = Vec::new();
            for i in ints.iter() {
                let a = i.unsigned_abs() as usize;
                if a < 1 || a > self.asg.num_vars {
                    return Err(SolverError::InvalidLiteral);
                }
                lits.push(Lit::from(*i));
            }"""),
)

same(
    "b4-tryfrom-map-err",
    (B, """        match Solver::instantiate(&config, &cnf).inject_from_vec(vec) {
            Err(SolverError::RootLevelConflict(_)) => Err(Ok(Certificate::UNSAT)),
            Err(e) => Err(Err(e)),
            Ok(s) => Ok(s),
        }""", """        let solver = Solver::instantiate(&config, &cnf);
        solver.inject_from_vec(vec).map_err(|e| match e {
            SolverError::RootLevelConflict(_) => Ok(Certificate::UNSAT),
            other => Err(other),
        })"""),
)

same(
    "b4-add-var-direct",
    (B, """        let Solver {
            asg, cdb, state, ..
        } = self;
        asg.handle(SolverEvent::NewVar);
        cdb.handle(SolverEvent::NewVar);
        state.handle(SolverEvent::NewVar);
        asg.num_vars as VarId""", """        self.state.handle(SolverEvent::NewVar);
        self.cdb.handle(SolverEvent::NewVar);
        self.asg.handle(SolverEvent::NewVar);
        self.asg.num_vars"""),
)

same(
    "b4-build-let",
    (B, """        let CNFReader { cnf, reader } = CNFReader::try_from(Path::new(&config.cnf_file))?;
        Solver::instantiate(config, &cnf).inject(reader)""", """        let file = config.cnf_file.as_path();
        let loaded = CNFReader::try_from(file)?;
        let solver = Solver::instantiate(config, &loaded.cnf);
        solver.inject(loaded.reader)"""),
)

V = "src/solver/validate.rs"

same(
    "b4-inject-asg-two-phase",
    (V, """        for i in vec {
            if *i == 0 || self.asg.num_vars < i.unsigned_abs() as usize {
                return Err(SolverError::InvalidLiteral);
            }
            self.asg.assign_at_root_level(Lit::from(*i))?;
        }
        Ok(())""", """        let nv = self.asg.num_vars;
        vec.iter().try_for_each(|i| {
            if *i == 0 || nv < i.unsigned_abs() as usize {
                Err(SolverError::InvalidLiteral)
            } else {
                self.asg.assign_at_root_level(Lit::from(*i))
            }
        })"""),
)

same(
    "b4-validate-match",
    (V, """        self.cdb
            .validate(&self.asg.assign_ref(), true)
            .map(|cid| Vec::<i32>::from(&self.cdb[cid]))""", """        let model = self.asg.assign_ref();
        match self.cdb.validate(&model, true) {
            Some(cid) => Some(Vec::<i32>::from(&self.cdb[cid])),
            None => None,
        }"""),
)

U = "src/cdb/unsat_certificate.rs"

same(
    "b4-cert-record-helper",
    (U, """        self.queue.push(clause.len() as i32);
        for l in clause.iter() {
            self.queue.push(i32::from(*l));
        }
        if DUMP_INTERVAL < self.queue.len() {
            self.dump_to_file();
        }
    }
    pub fn delete_clause""", """        self.record(clause.len() as i32, clause);
    }
    fn record(&mut self, head: i32, clause: &[Lit]) {
        self.queue.push(head);
        self.queue.extend(clause.iter().map(|l| i32::from(*l)));
        if DUMP_INTERVAL < self.queue.len() {
            self.dump_to_file();
        }
    }
    pub fn delete_clause"""),
    (U, """        self.queue.push((clause.len() as i32).neg());
        for l in clause.iter() {
            self.queue.push(i32::from(*l));
        }
        if DUMP_INTERVAL < self.queue.len() {
            self.dump_to_file();
        }""", """        self.record((clause.len() as i32).neg(), clause);"""),
)

same(
    "b4-cert-neg-operator",
    (U, """    io::{BufWriter, Write},
    ops::Neg,
""", """    io::{BufWriter, Write},
"""),
    (U, """        self.queue.push((clause.len() as i32).neg());""", """        let n = clause.len() as i32;
        self.queue.push(-n);"""),
)

same(
    "b4-cert-dump-slices",
    (U, """        let mut index = 0;
        if let Some(ref mut buf) = self.buffer {
            while index < self.queue.len() {
                let l = self.queue[index];
                if l < 0 && buf.write_all(b"d ").is_err() {
                    self.buffer = None;
                    break;
                }
                for _ in 0..(l.unsigned_abs() as usize) {
                    index += 1;
                    if buf
                        .write_all(format!("{} ", self.queue[index]).as_bytes())
                        .is_err()
                    {
                        self.buffer = None;
                        return;
                    }
                }
                if buf.write_all(b"0\\n").is_err() {
                    self.buffer = None;
                    break;
                }
                index += 1;
            }
        }
        self.queue.clear();""", """        let mut index = 0;
        if let Some(ref mut buf) = self.buffer {
            while index < self.queue.len() {
                let l = self.queue[index];
                let mut line = String::new();
                if l < 0 {
                    line.push_str("d ");
                }
                for _ in 0..(l.unsigned_abs() as usize) {
                    index += 1;
                    line.push_str(&format!("{} ", self.queue[index]));
                }
                line.push_str("0\\n");
                if buf.write_all(line.as_bytes()).is_err() {
                    self.buffer = None;
                    break;
                }
                index += 1;
            }
        }
        self.queue.clear();"""),
)

same(
    "b4-cert-close-early",
    (U, """        if self.buffer.is_none() {
            return;
        }
        self.dump_to_file();
        if let Some(ref mut buf) = self.buffer {
            let _ = buf.write_all(b"0\\n");
            self.buffer = None;
            self.target = None;
        }""", """        if self.is_active() {
            self.dump_to_file();
            if let Some(mut buf) = self.buffer.take() {
                let _ = buf.write_all(b"0\\n");
                self.target = None;
            }
        }"""),
)

same(
    "b4-cert-active-match",
    (U, """        self.buffer.is_some()
    }
    pub fn add_clause(&mut self, clause""", """        matches!(self.buffer, Some(_))
    }
    pub fn add_clause(&mut self, clause"""),
)

L = "src/cdb/binary.rs"

same(
    "b4-bin-pair-helper",
    (L, """        let l0 = lit0.min(lit1);
        let l1 = lit0.max(lit1);
        self.hash.insert((l0, l1), cid);""", """        self.hash.insert(pair(lit0, lit1), cid);"""),
    (L, """        let l0 = lit0.min(lit1);
        let l1 = lit0.max(lit1);
        self.hash.remove(&(l0, l1));""", """        self.hash.remove(&pair(lit0, lit1));"""),
    (L, """        let l0 = lit0.min(lit1);
        let l1 = lit0.max(lit1);
        self.hash.get(&(l0, l1))""", """        self.hash.get(&pair(lit0, lit1))"""),
    (L, """pub trait BinaryLinkIF {""", """fn pair(a: Lit, b: Lit) -> (Lit, Lit) {
    if a < b { (a, b) } else { (b, a) }
}

pub trait BinaryLinkIF {"""),
)

same(
    "b4-bin-add-order",
    (L, """        self.hash.insert((l0, l1), cid);
        self.list[lit0].push((lit1, cid));
        self.list[lit1].push((lit0, cid));""", """        for (a, b) in [(lit0, lit1), (lit1, lit0)] {
            self.list[a].push((b, cid));
        }
        self.hash.insert((l0, l1), cid);"""),
)

same(
    "b4-bin-remove-position",
    (L, """        self.list[lit0].delete_unstable(|p| p.0 == lit1);
        self.list[lit1].delete_unstable(|p| p.0 == lit0);
        Ok(())""", """        if let Some(i) = self.list[lit0].iter().position(|p| p.0 == lit1) {
            self.list[lit0].swap_remove(i);
        }
        if let Some(i) = self.list[lit1].iter().position(|p| p.0 == lit0) {
            self.list[lit1].swap_remove(i);
        }
        Ok(())"""),
)

same(
    "b4-bin-newvar-two",
    (L, """        for _ in 0..2 {
            self.list.push(Vec::new());
        }""", """        self.list.push(BinaryLinkList::new());
        self.list.push(BinaryLinkList::new());"""),
)

W = "src/cdb/watch_cache.rs"

same(
    "b4-watch-get-loop",
    (W, """        self.iter().find_map(|e| (e.0 == *cid).then_some(&e.1))""", """        for (c, l) in self.iter() {
            if c == cid {
                return Some(l);
            }
        }
        None"""),
)

same(
    "b4-watch-get-find",
    (W, """        self.iter().find_map(|e| (e.0 == *cid).then_some(&e.1))""", """        self.iter().find(|e| e.0 == *cid).map(|e| &e.1)"""),
)

same(
    "b4-watch-remove-loop",
    (W, """        if let Some(i) = self.iter().position(|e| e.0 == *cid) {
            self.swap_remove(i);
        }""", """        for i in 0..self.len() {
            if self[i].0 == *cid {
                self.swap_remove(i);
                return;
            }
        }"""),
)

same(
    "b4-watch-update-find",
    (W, """        for e in self.iter_mut() {
            if e.0 == cid {
                e.1 = l;
                break;
            }
        }""", """        if let Some(e) = self.iter_mut().find(|e| e.0 == cid) {
            e.1 = l;
        }"""),
)

same(
    "b4-watch-append-extend",
    (W, """    fn append_watch(&mut self, mut appendant: Self) {
        self.append(&mut appendant);""", """    fn append_watch(&mut self, appendant: Self) {
        self.extend(appendant);"""),
)

same(
    "b4-watch-next-if",
    (W, """        (self.index < self.end_at).then_some({
            // assert!(0 < self.checksum);
            // self.checksum -= 1;
            self.index
        })""", """        if self.end_at <= self.index {
            return None;
        }
        Some(self.index)"""),
)

S = "src/assign/select.rs"

same(
    "b4-select-var-while",
    (S, """        loop {
            let vi = self.get_heap_root();
            if var_assign!(self, vi).is_none() && !self.var[vi].is(FlagVar::ELIMINATED) {
                return vi;
            }
        }""", """        let mut vi = self.get_heap_root();
        while var_assign!(self, vi).is_some() || self.var[vi].is(FlagVar::ELIMINATED) {
            vi = self.get_heap_root();
        }
        vi"""),
)

same(
    "b4-select-lit-phase",
    (S, """        let vi = self.select_var();
        Lit::from((vi, self.var[vi].is(FlagVar::PHASE)))""", """        let chosen = self.select_var();
        let positive = self.var[chosen].is(FlagVar::PHASE);
        let pair: (VarId, bool) = (chosen, positive);
        Lit::from(pair)"""),
)

same(
    "b4-rebuild-filter",
    (S, """        for vi in 1..self.var.len() {
            if var_assign!(self, vi).is_none() && !self.var[vi].is(FlagVar::ELIMINATED) {
                self.insert_heap(vi);
            }
        }
    }
}""", """        let n = self.var.len();
        for vi in 1..n {
            if self.var[vi].is(FlagVar::ELIMINATED) {
                continue;
            }
            if var_assign!(self, vi).is_some() {
                continue;
            }
            self.insert_heap(vi);
        }
    }
}"""),
)

same(
    "b4-rebuild-collect",
    (S, """        for vi in 1..self.var.len() {
            if var_assign!(self, vi).is_none() && !self.var[vi].is(FlagVar::ELIMINATED) {
                self.insert_heap(vi);
            }
        }
    }
}""", """        let free: Vec<VarId> = (1..self.var.len())
            .filter(|vi| self.var[*vi].assign.is_none() && !self.var[*vi].is(FlagVar::ELIMINATED))
            .collect();
        for vi in free {
            self.insert_heap(vi);
        }
    }
}"""),
)

same(
    "b4-rephase-keep",
    (S, """        self.num_rephase += 1;
        for (vi, (b, _)) in self.best_phases.iter() {
            let v = &mut self.var[*vi];
            v.set(FlagVar::PHASE, *b);
        }""", """        for (vi, best) in &self.best_phases {
            self.var[*vi].set(FlagVar::PHASE, best.0);
        }
        self.num_rephase += 1;"""),
)

same(
    "b4-consistency-loop",
    (S, """        if self
            .best_phases
            .iter()
            .any(|(vi, b)| self.var[*vi].assign == Some(!b.0))
        {""", """        let mut broken = false;
        for (vi, b) in self.best_phases.iter() {
            if self.var[*vi].assign == Some(!b.0) {
                broken = true;
                break;
            }
        }
        if broken {"""),
)

same(
    "b4-override-match",
    (S, """            if self.best_phases.get(vi).is_none_or(|(p, _)| *p != *b) {
                num_flipped += 1;
                self.best_phases.insert(*vi, (*b, AssignReason::None));
            }""", """            match self.best_phases.get(vi) {
                Some((p, _)) if p == b => (),
                _ => {
                    self.best_phases.insert(*vi, (*b, AssignReason::None));
                    num_flipped += 1;
                }
            }"""),
)

T = "src/assign/trail_saving.rs"

same(
    "b4-save-trail-helper",
    (T, """                self.trail_saved.push(l);
                self.var[vi].reason_saved = self.var[vi].reason;
                self.reward_at_unassign(vi);""", """                self.save_literal(l);
                self.reward_at_unassign(vi);"""),
    (T, """impl AssignStack {
    fn truncate""", """impl AssignStack {
    fn save_literal(&mut self, l: Lit) {
        let v = &mut self.var[l.vi()];
        v.reason_saved = v.reason;
        self.trail_saved.push(l);
    }
    fn truncate"""),
)

same(
    "b4-save-trail-while",
    (T, """            for i in (lim..lim2).rev() {
                let l = self.trail[i];
                let vi = l.vi();
""", """            let mut i = lim2;
            while lim < i {
                i -= 1;
                let l = self.trail[i];
                let vi = l.vi();
"""),
)

same(
    "b4-save-trail-tail",
    (T, """        for i in free..self.trail.len() {
            let vi = self.trail[i].vi();
            self.reward_at_unassign(vi);
            self.insert_heap(vi);
        }""", """        let rest: Vec<VarId> = self.trail[free..].iter().map(|l| l.vi()).collect();
        for vi in rest {
            self.reward_at_unassign(vi);
            self.insert_heap(vi);
        }"""),
)

same(
    "b4-reuse-merged-assign",
    (T, """                (None, AssignReason::BinaryLink(link)) => {
                    debug_assert_ne!(link.vi(), lit.vi());
                    debug_assert_eq!(self.assigned(link), Some(true));
                    self.num_repropagation += 1;

                    self.assign_by_implication(lit, old_reason, dl);
                }
                // reason""", """                (None, AssignReason::BinaryLink(_)) => self.repropagate(lit, old_reason, dl),
                // reason"""),
    (T, """                (None, AssignReason::Implication(cid)) => {
                    debug_assert_eq!(cdb[cid].lit0(), lit);
                    debug_assert!(cdb[cid]
                        .iter()
                        .skip(1)
                        .all(|l| self.assigned(*l) == Some(false)));
                    self.num_repropagation += 1;

                    self.assign_by_implication(lit, old_reason, dl);
                }""", """                (None, AssignReason::Implication(_)) => self.repropagate(lit, old_reason, dl),"""),
    (T, """impl AssignStack {
    fn truncate""", """impl AssignStack {
    fn repropagate(&mut self, lit: Lit, why: AssignReason, dl: DecisionLevel) {
        self.num_repropagation += 1;
        self.assign_by_implication(lit, why, dl);
    }
    fn truncate"""),
)

same(
    "b4-reuse-if-true",
    (T, """            let old_reason = self.var[vi].reason_saved;
            match (self.assigned(lit), old_reason) {
                (Some(true), _) => (),
""", """            let old_reason = self.var[vi].reason_saved;
            let now = self.assigned(lit);
            if now == Some(true) {
                continue;
            }
            match (now, old_reason) {
"""),
)

same(
    "b4-reuse-nested",
    (T, """                (None, AssignReason::Implication(c)) if q < cdb[c].rank => {
                    self.insert_heap(vi);
                    return self.truncate_trail_saved(i + 1);
                }
                (None, AssignReason::Implication(cid)) => {
                    debug_assert_eq!""", """                (None, AssignReason::Implication(cid)) => {
                    if q < cdb[cid].rank {
                        self.insert_heap(vi);
                        self.trail_saved.truncate(i + 1);
                        return Ok(());
                    }
                    debug_assert_eq!"""),
)

same(
    "b4-clear-saved-drain",
    (T, """        for j in 0..self.trail_saved.len() {
            let l = self.trail_saved[j];
            self.insert_heap(l.vi());
        }
        self.trail_saved.clear();""", """        while let Some(l) = self.trail_saved.pop() {
            self.insert_heap(l.vi());
        }"""),
)

same(
    "b4-clear-saved-take",
    (T, """        for j in 0..self.trail_saved.len() {
            let l = self.trail_saved[j];
            self.insert_heap(l.vi());
        }
        self.trail_saved.clear();""", """        for l in std::mem::take(&mut self.trail_saved) {
            self.insert_heap(l.vi());
        }"""),
)

H = "src/assign/heap.rs"

same(
    "b4-heap-up-break",
    (H, """        loop {
            let p = q / 2;
            if p == 0 {
                self.var_order.heap[q as usize] = vq;
                debug_assert!(vq != 0, "Invalid index in percolate_up");
                self.var_order.idxs[vq as usize] = q;
                return;
            } else {
                let vp = self.var_order.heap[p as usize];
                let ap = self.activity(vp as usize);
                if ap < aq {
                    // move down the current parent, and make it empty
                    self.var_order.heap[q as usize] = vp;
                    debug_assert!(vq != 0, "Invalid index in percolate_up");
                    self.var_order.idxs[vp as usize] = q;
                    q = p;
                } else {
                    self.var_order.heap[q as usize] = vq;
                    debug_assert!(vq != 0, "Invalid index in percolate_up");
                    self.var_order.idxs[vq as usize] = q;
                    return;
                }
            }
        }""", """        while 1 < q {
            let p = q / 2;
            let vp = self.var_order.heap[p as usize];
            if self.activity(vp as usize) >= aq {
                break;
            }
            // move down the current parent, and make it empty
            self.var_order.heap[q as usize] = vp;
            self.var_order.idxs[vp as usize] = q;
            q = p;
        }
        self.var_order.heap[q as usize] = vq;
        self.var_order.idxs[vq as usize] = q;"""),
)

same(
    "b4-heap-down-place",
    (H, """                if ai < ac {
                    self.var_order.heap[i as usize] = vc;
                    self.var_order.idxs[vc as usize] = i;
                    i = target;
                } else {
                    self.var_order.heap[i as usize] = vi;
                    debug_assert!(vi != 0, "invalid index");
                    self.var_order.idxs[vi as usize] = i;
                    return;
                }
            } else {
                self.var_order.heap[i as usize] = vi;
                debug_assert!(vi != 0, "invalid index");
                self.var_order.idxs[vi as usize] = i;
                return;
            }
        }""", """                if ai < ac {
                    self.var_order.place(vc, i);
                    i = target;
                } else {
                    break;
                }
            } else {
                break;
            }
        }
        self.var_order.place(vi, i);"""),
    (H, """impl VarIdHeap {
    pub fn new""", """impl VarIdHeap {
    fn place(&mut self, vi: u32, at: u32) {
        self.heap[at as usize] = vi;
        self.idxs[vi as usize] = at;
    }
    pub fn new"""),
)

same(
    "b4-heap-new-collect",
    (H, """        let mut heap = Vec::with_capacity(n + 1);
        let mut idxs = Vec::with_capacity(n + 1);
        heap.push(0);
        idxs.push(n as u32);
        for i in 1..=n {
            heap.push(i as u32);
            idxs.push(i as u32);
        }
        idxs[0] = n as u32;
        VarIdHeap { heap, idxs }""", """        let heap = (0..=n as u32).collect::<Vec<u32>>();
        let mut idxs = heap.clone();
        idxs[0] = n as u32;
        VarIdHeap { heap, idxs }"""),
)

same(
    "b4-heap-update-early",
    (H, """        let start = self.var_order.idxs[v];
        if self.var_order.contains(v) {
            self.percolate_up(start);
        }""", """        if !self.var_order.contains(v) {
            return;
        }
        self.percolate_up(self.var_order.idxs[v]);"""),
)

same(
    "b4-heap-root-inline",
    (H, """        let vs = self.var_order.get_root();
        if 1 < self.var_order.len() {
            self.percolate_down(1);
        }
        vs""", """        let root = self.var_order.get_root();
        let left = self.var_order.len();
        if left > 1 {
            self.percolate_down(1);
        }
        root"""),
)

D = "src/bin/dmcr.rs"

same(
    "b4-dmcr-parse-helper",
    (D, """                    let mut v: Vec<i32> = Vec::new();
                    for s in stripped.split_whitespace() {
                        match s.parse::<i32>() {
                            Ok(0) => break,
                            Ok(x) => v.push(x),
                            Err(e) => panic!("{e} by {s}"),
                        }
                    }
                    return Some(v);""", """                    return Some(parse_values(stripped));"""),
    (D, """fn read_assignment(""", """fn parse_values(line: &str) -> Vec<i32> {
    let mut v: Vec<i32> = Vec::new();
    for s in line.split_whitespace() {
        match s.parse::<i32>() {
            Ok(0) => break,
            Ok(x) => v.push(x),
            Err(e) => panic!("{e} by {s}"),
        }
    }
    v
}

fn read_assignment("""),
)

same(
    "b4-dmcr-parse-takewhile",
    (D, """                    let mut v: Vec<i32> = Vec::new();
                    for s in stripped.split_whitespace() {
                        match s.parse::<i32>() {
                            Ok(0) => break,
                            Ok(x) => v.push(x),
                            Err(e) => panic!("{e} by {s}"),
                        }
                    }
                    return Some(v);""", """                    let v: Vec<i32> = stripped
                        .split_whitespace()
                        .map(|s| s.parse::<i32>().unwrap_or_else(|e| panic!("{e} by {s}")))
                        .take_while(|x| *x != 0)
                        .collect();
                    return Some(v);"""),
)

same(
    "b4-dmcr-inject-helper",
    (D, """            if s.inject_assignment(&vec).is_err() {
                println!(
                    "{}{} seems an unsat problem but no proof.{}",
                    blue,
                    args.problem.to_str().unwrap(),
                    RESET
                );
                return;
            }
        } else {
            return;
        }
        found = true;""", """            if !injected(&mut s, &vec, blue, args.problem.to_str().unwrap()) {
                return;
            }
        } else {
            return;
        }
        found = true;"""),
    (D, """            if s.inject_assignment(&vec).is_err() {
                println!(
                    "{}{} seems an unsat problem but no proof.{}",
                    blue,
                    args.problem.to_str().unwrap(),
                    RESET,
                );
                return;
            }
            found = true;""", """            if !injected(&mut s, &vec, blue, args.problem.to_str().unwrap()) {
                return;
            }
            found = true;"""),
    (D, """fn read_assignment(""", """fn injected(s: &mut Solver, vec: &[i32], blue: &str, problem: &str) -> bool {
    let ok = s.inject_assignment(vec).is_ok();
    if !ok {
        println!("{blue}{problem} seems an unsat problem but no proof.{RESET}");
    }
    ok
}

fn read_assignment("""),
)

same(
    "b4-dmcr-let-else",
    (D, """        if let Some(vec) = read_assignment(&mut BufReader::new(d), cnf, &args.assign) {
            if s.inject_assignment(&vec).is_err() {
                println!(
                    "{}{} seems an unsat problem but no proof.{}",
                    blue,
                    args.problem.to_str().unwrap(),
                    RESET
                );
                return;
            }
        } else {
            return;
        }""", """        let Some(vec) = read_assignment(&mut BufReader::new(d), cnf, &args.assign) else {
            return;
        };
        if let Err(_e) = s.inject_assignment(&vec) {
            println!(
                "{}{} seems an unsat problem but no proof.{}",
                blue,
                args.problem.to_str().unwrap(),
                RESET
            );
            return;
        }"""),
)

same(
    "b4-dmcr-validate-iflet",
    (D, """    match s.validate() {
        Some(v) => println!(
            "{}An invalid assignment set for {}{} due to {:?}.",
            red,
            args.problem.to_str().unwrap(),
            RESET,
            v,
        ),
        None if from_file => println!(""", """    let falsified = s.validate();
    if let Some(v) = falsified {
        println!(
            "{}An invalid assignment set for {}{} due to {:?}.",
            red,
            args.problem.to_str().unwrap(),
            RESET,
            v,
        );
        return;
    }
    match from_file {
        true => println!("""),
    (D, """        None => println!(
            "{}A valid assignment set for {}.{}",""", """        false => println!(
            "{}A valid assignment set for {}.{}","""),
)

same(
    "b4-dmcr-status-match",
    (D, """                if buf.starts_with("s ") {
                    if buf.starts_with("s SATISFIABLE") {
                        buf.clear();
                        continue;
                    } else if buf.starts_with("s UNSATISFIABLE") {
                        println!("{cnf} seems an unsatisfiable problem. I can't handle it.");
                        return None;
                    } else if let""", """                if buf.starts_with("s ") {
                    let unsat = buf.starts_with("s UNSATISFIABLE");
                    let sat = buf.starts_with("s SATISFIABLE");
                    if unsat {
                        println!("{cnf} seems an unsatisfiable problem. I can't handle it.");
                        return None;
                    }
                    if sat {
                        buf.clear();
                        continue;
                    }
                    if let"""),
)

C = "src/cnf/mod.rs"

same(
    "b4-cnf-contains",
    (C, """        if !self.no_check_uniqueness && self.cls_map.iter().any(|ref_c| *ref_c == cc) {""", """        if !self.no_check_uniqueness && self.cls_map.contains(&cc) {"""),
)

same(
    "b4-cnf-empty-first",
    (C, """        let c = clause.as_ref().clone();
        let mut cc = c.clone();
        cc.sort_unstable();
        if !self""", """        let c = clause.as_ref().to_vec();
        if c.is_empty() {
            return Err(CNFOperationError::AddingEmptyClause);
        }
        let mut cc = c.clone();
        cc.sort();
        if !self"""),
)

same(
    "b4-cnf-max-loop",
    (C, """        self.num_vars = self
            .num_vars
            .max(c.iter().map(|v| v.unsigned_abs()).max().unwrap());
        if !self""", """        for v in c.iter() {
            let a = v.unsigned_abs();
            if self.num_vars < a {
                self.num_vars = a;
            }
        }
        if !self"""),
)

same(
    "b4-cnf-max-fold",
    (C, """        self.num_vars = self
            .num_vars
            .max(c.iter().map(|v| v.unsigned_abs()).max().unwrap());
        if !self""", """        self.num_vars = c.iter().fold(self.num_vars, |m, v| m.max(v.unsigned_abs()));
        if !self"""),
)

same(
    "b4-cnf-fromvec-iflen",
    (C, """            match ref_c.len() {
                0 => {
                    return Err(CNFOperationError::AddingEmptyClause);
                }
                1 => {
                    let l: i32 = ref_c[0];
                    if cnf.assign.contains(&-l) {
                        return Err(CNFOperationError::AddignConflictingAssingment);
                    }
                    cnf.assign.insert(l);
                }
                _ => (),
            }""", """            if ref_c.is_empty() {
                return Err(CNFOperationError::AddingEmptyClause);
            }
            if let [l] = ref_c.as_slice() {
                if cnf.assign.contains(&-*l) {
                    return Err(CNFOperationError::AddignConflictingAssingment);
                }
                cnf.assign.insert(*l);
            }"""),
)

same(
    "b4-cnf-fromvec-direct",
    (C, """        let mut max_var: u32 = 0;
        for ref_c""", """        for ref_c"""),
    (C, """            max_var = max_var.max(ref_c.iter().map(|v| v.unsigned_abs()).max().unwrap());
        }
        cnf.num_vars = max_var;
""", """            if let Some(m) = ref_c.iter().map(|v| v.unsigned_abs()).max() {
                cnf.num_vars = cnf.num_vars.max(m);
            }
        }
"""),
)

same(
    "b4-cnf-load-header-helper",
    (C, """                    let mut iter = buf.split_whitespace();
                    if iter.next() == Some("p")
                        && iter.next() == Some("cnf")
                        && let Some(v) = iter.next().and_then(|s| s.parse::<usize>().ok())
                        && let Some(c) = iter.next().and_then(|s| s.parse::<usize>().ok())
                    {
                        nv = v as u32;
                        nc = c;""", """                    if let Some((v, c)) = parse_header(&buf) {
                        nv = v as u32;
                        nc = c;"""),
    (C, """impl CnfIf for CNF {""", """fn parse_header(line: &str) -> Option<(usize, usize)> {
    let mut iter = line.split_whitespace();
    if iter.next() != Some("p") || iter.next() != Some("cnf") {
        return None;
    }
    let v = iter.next()?.parse::<usize>().ok()?;
    let c = iter.next()?.parse::<usize>().ok()?;
    Some((v, c))
}

impl CnfIf for CNF {"""),
)

same(
    "b4-cnf-load-match-err",
    (C, """                                if let Err(e) = cnf.add_clause(std::mem::take(&mut vec)) {
                                    if e == CNFOperationError::AddingClauseExists {
                                        clause_extists_already = true;
                                    } else {
                                        return Err(e);
                                    }
                                }""", """                                match cnf.add_clause(&vec) {
                                    Ok(_) => (),
                                    Err(CNFOperationError::AddingClauseExists) => {
                                        clause_extists_already = true;
                                    }
                                    Err(e) => return Err(e),
                                }
                                vec.clear();"""),
)

same(
    "b4-cnf-load-tail",
    (C, """        if !found_valid_header || !vec.is_empty() {
            return Err(CNFOperationError::ParsingCNF);
        }""", """        if !found_valid_header {
            return Err(CNFOperationError::ParsingCNF);
        }
        // an unterminated clause
        if 0 < vec.len() {
            return Err(CNFOperationError::ParsingCNF);
        }"""),
)

same(
    "b4-cnf-save-question",
    (C, """        if let Ok(f) = File::create(file) {
            let mut buf = std::io::BufWriter::new(f);
            buf.write_all(self.dump_to_string().as_bytes())
                .and_then(|_| buf.flush())
                .map_err(|_| CNFOperationError::WritingCNFFile)
        } else {
            Err(CNFOperationError::CreatingCNFFile)
        }""", """        let f = File::create(file).map_err(|_| CNFOperationError::CreatingCNFFile)?;
        let mut buf = std::io::BufWriter::new(f);
        let text = self.dump_to_string();
        if buf.write_all(text.as_bytes()).is_err() {
            return Err(CNFOperationError::WritingCNFFile);
        }
        buf.flush().map_err(|_| CNFOperationError::WritingCNFFile)"""),
)

same(
    "b4-cnf-save-unbuffered",
    (C, """        if let Ok(f) = File::create(file) {
            let mut buf = std::io::BufWriter::new(f);
            buf.write_all(self.dump_to_string().as_bytes())
                .and_then(|_| buf.flush())
                .map_err(|_| CNFOperationError::WritingCNFFile)
        } else {""", """        if let Ok(mut f) = File::create(file) {
            f.write_all(self.dump_to_string().as_bytes())
                .map_err(|_| CNFOperationError::WritingCNFFile)
        } else {"""),
)

same(
    "b4-cnf-dump-loop",
    (C, """        format!(
            "p cnf {} {}\\n{}",
            self.num_vars,
            self.clauses.len(),
            self.clauses
                .iter()
                .map(|cls| cls
                    .iter()
                    .map(|ch| format!("{ch} "))
                    .collect::<String>()
                    + "0\\n")
                .collect::<String>(),
        )""", """        let mut text = format!("p cnf {} {}\\n", self.num_vars, self.num_clauses());
        for cls in self.clauses.iter() {
            for ch in cls.iter() {
                text.push_str(&format!("{ch} "));
            }
            text.push_str("0\\n");
        }
        text"""),
)

Y = "src/types/cnf.rs"

same(
    "b4-reader-header-helper",
    (Y, """                    let mut iter = buf.split_whitespace();
                    if iter.next() == Some("p")
                        && iter.next() == Some("cnf")
                        && let Some(v) = iter.next().and_then(|s| s.parse::<usize>().ok())
                        // literals are read as `i32`
                        && v <= i32::MAX as usize
                        && let Some(c) = iter.next().and_then(|s| s.parse::<usize>().ok())
                    {
                        nv = v;""", """                    if let Some((v, c)) = header_of(&buf) {
                        nv = v;"""),
    (Y, """impl TryFrom<&Path> for CNFReader {""", """fn header_of(line: &str) -> Option<(usize, usize)> {
    let words: Vec<&str> = line.split_whitespace().collect();
    if words.len() < 4 || words[0] != "p" || words[1] != "cnf" {
        return None;
    }
    let v = words[2].parse::<usize>().ok()?;
    let c = words[3].parse::<usize>().ok()?;
    (v <= i32::MAX as usize).then_some((v, c))
}

impl TryFrom<&Path> for CNFReader {"""),
)

same(
    "b4-reader-option",
    (Y, """        let mut nv: usize = 0;
        let mut nc: usize = 0;
        let mut found_valid_header = false;
""", """        let mut header: Option<(usize, usize)> = None;
"""),
    (Y, """                        nv = v;
                        nc = c;
                        found_valid_header = true;
                        break;""", """                        header = Some((v, c));
                        break;"""),
    (Y, """        if !found_valid_header {
            return Err(SolverError::IOError);
        }
""", """        let Some((nv, nc)) = header else {
            return Err(SolverError::IOError);
        };
"""),
)

same(
    "b4-reader-nested",
    (Y, """                    if iter.next() == Some("p")
                        && iter.next() == Some("cnf")
                        && let Some(v)""", """                    let p = iter.next();
                    let cnf_word = iter.next();
                    if p == Some("p")
                        && cnf_word == Some("cnf")
                        && let Some(v)"""),
)

same(
    "b4-desc-flatmap",
    (Y, """        let num_of_variables = vec
            .iter()
            .map(|clause| {
                clause
                    .as_ref()
                    .iter()
                    .filter_map(|l| l.checked_abs())
                    .max()
                    .unwrap_or(0)
            })
            .max()
            .unwrap_or(0) as usize;""", """        let num_of_variables = vec
            .iter()
            .flat_map(|clause| clause.as_ref().iter())
            .filter_map(|l| l.checked_abs())
            .max()
            .unwrap_or(0) as usize;"""),
)

same(
    "b4-desc-loop",
    (Y, """        let num_of_variables = vec
            .iter()
            .map(|clause| {
                clause
                    .as_ref()
                    .iter()
                    .filter_map(|l| l.checked_abs())
                    .max()
                    .unwrap_or(0)
            })
            .max()
            .unwrap_or(0) as usize;""", """        let mut num_of_variables: usize = 0;
        for clause in vec.iter() {
            for l in clause.as_ref() {
                if let Some(a) = l.checked_abs() {
                    num_of_variables = num_of_variables.max(a as usize);
                }
            }
        }"""),
)

P = "src/bin/splr.rs"

same(
    "b4-splr-colored",
    (P, """    if no_color {
        match v {
            Ok(false) => Cow::Borrowed("s UNSATISFIABLE"),
            Ok(true) => Cow::Borrowed("s SATISFIABLE"),
            Err(_) => Cow::Borrowed("s UNKNOWN"),
        }
    } else {
        match v {
            Ok(false) => Cow::from(format!("{BLUE}s UNSATISFIABLE{RESET}")),
            Ok(true) => Cow::from(format!("{GREEN}s SATISFIABLE{RESET}")),
            Err(_) => Cow::from(format!("{RED}s UNKNOWN{RESET}")),
        }
    }""", """    let (color, text) = match v {
        Ok(false) => (BLUE, "s UNSATISFIABLE"),
        Ok(true) => (GREEN, "s SATISFIABLE"),
        Err(_) => (RED, "s UNKNOWN"),
    };
    if no_color {
        Cow::Borrowed(text)
    } else {
        Cow::from(format!("{color}{text}{RESET}"))
    }"""),
)

same(
    "b4-splr-exit-fn",
    (P, """    std::process::exit(match res {
        Ok(Certificate::SAT(_)) => 10,
        Ok(Certificate::UNSAT) => 20,
        Err(_) => 0,
    });
}""", """    std::process::exit(exit_code(&res));
}

fn exit_code(res: &SolverResult) -> i32 {
    match res {
        Ok(Certificate::SAT(_)) => 10,
        Ok(Certificate::UNSAT) => 20,
        Err(_) => 0,
    }
}"""),
)

same(
    "b4-splr-build-split",
    (P, """    let mut s = match Solver::build(&config) {
        Err(SolverError::EmptyClause | SolverError::RootLevelConflict(_)) => {
            println!(""", """    let built = Solver::build(&config);
    let mut s = match built {
        Err(SolverError::EmptyClause) | Err(SolverError::RootLevelConflict(_)) => {
            println!("""),
)

same(
    "b4-splr-announce",
    (P, """            match output {
                Some(ref f) if redirect && !s.state.config.quiet_mode => println!(
                    "      Result|dump: to STDOUT instead of {} due to an IO error.",
                    f.to_string_lossy(),
                ),
                Some(ref f) if !s.state.config.quiet_mode => {
                    println!("      Result|file: {}", f.to_str().unwrap(),)
                }
                _ => (),
            }
            println!("{}: {}", colored(Ok(true), s.state.config.no_color), input);""", """            announce(s, &output, redirect);
            println!("{}: {}", colored(Ok(true), s.state.config.no_color), input);"""),
    (P, """fn report(s: &Solver,""", """fn announce(s: &Solver, output: &Option<PathBuf>, redirect: bool) {
    if s.state.config.quiet_mode {
        return;
    }
    if let Some(f) = output {
        if redirect {
            println!(
                "      Result|dump: to STDOUT instead of {} due to an IO error.",
                f.to_string_lossy(),
            );
        } else {
            println!("      Result|file: {}", f.to_str().unwrap());
        }
    }
}

fn report(s: &Solver,"""),
)

same(
    "b4-splr-model-line",
    (P, """                buf.write_all(b"s SATISFIABLE\\nv ")?;
                for x in v {
                    buf.write_all(format!("{x} ").as_bytes())?;
                }
                buf.write_all(b"0\\n")?;
                buf.flush()""", """                let mut line = String::from("s SATISFIABLE\\nv ");
                for x in v.iter() {
                    line.push_str(&x.to_string());
                    line.push(' ');
                }
                line.push_str("0\\n");
                buf.write_all(line.as_bytes())?;
                buf.flush()"""),
)

same(
    "b4-splr-model-macro",
    (P, """                buf.write_all(b"s SATISFIABLE\\nv ")?;
                for x in v {
                    buf.write_all(format!("{x} ").as_bytes())?;
                }
                buf.write_all(b"0\\n")?;
                buf.flush()""", """                writeln!(buf, "s SATISFIABLE")?;
                write!(buf, "v ")?;
                for x in v {
                    write!(buf, "{x} ")?;
                }
                writeln!(buf, "0")?;
                buf.flush()"""),
)

same(
    "b4-splr-unsat-once",
    (P, """                buf.write_all(b"s UNSATISFIABLE\\n")?;
                buf.write_all(b"0\\n")?;
                buf.flush()""", """                buf.write_all(b"s UNSATISFIABLE\\n0\\n")?;
                buf.flush()"""),
)

same(
    "b4-splr-save-match",
    (P, """    let saved = match output {
        Some(ref file) => fs::write(file, text),
        None => std::io::stdout().write_all(text.as_bytes()),
    };
    if let Err(why) = saved {
        println!("Abort: failed to save by {why}!");
    }""", """    let saved = if let Some(file) = &output {
        File::create(file).and_then(|mut f| f.write_all(text.as_bytes()))
    } else {
        std::io::stdout().write_all(text.as_bytes())
    };
    match saved {
        Ok(()) => (),
        Err(why) => println!("Abort: failed to save by {why}!"),
    }"""),
)

same(
    "b4-splr-timeout-secs",
    (P, """            thread::sleep(Duration::from_millis(timeout * 1000));""", """            thread::sleep(Duration::from_secs(timeout));"""),
)

same(
    "b4-splr-timeout-helper",
    (P, """        let input = cnf_file.as_ref().to_string();
        let no_color = config.no_color;
        thread::spawn(move || {
            thread::sleep(Duration::from_millis(timeout * 1000));
            println!(
                "{} (TimeOut): {}",
                colored(Err(&SolverError::TimeOut), no_color),
                input
            );
            std::process::exit(0);
        });""", """        watch_clock(timeout, cnf_file.as_ref().to_string(), config.no_color);"""),
    (P, """fn main() {""", """fn watch_clock(timeout: u64, input: String, no_color: bool) {
    thread::spawn(move || {
        thread::sleep(Duration::from_millis(timeout * 1000));
        println!(
            "{} (TimeOut): {}",
            colored(Err(&SolverError::TimeOut), no_color),
            input
        );
        std::process::exit(0);
    });
}

fn main() {"""),
)

same(
    "b4-splr-ansfile-if",
    (P, """    let ans_file: Option<PathBuf> = match config.io_rfile.to_string_lossy().as_ref() {
        "-" => None,
        "" => Some(config.io_odir.join(PathBuf::from(format!(
            "ans_{}",
            config.cnf_file.file_name().unwrap().to_string_lossy(),
        )))),
        _ => Some(config.io_odir.join(&config.io_rfile)),
    };""", """    let rfile = config.io_rfile.to_string_lossy();
    let ans_file: Option<PathBuf> = if rfile == "-" {
        None
    } else if rfile.is_empty() {
        let name = config.cnf_file.file_name().unwrap().to_string_lossy();
        Some(config.io_odir.join(format!("ans_{name}")))
    } else {
        Some(config.io_odir.join(&config.io_rfile))
    };"""),
)
