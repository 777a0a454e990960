From 21f092ecee94cd4747ff48fd68faf79bc1ab6427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 01/22] fix: reject i32::MIN in a clause vector instead of
 overflowing

---
 src/types/cnf.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/types/cnf.rs b/src/types/cnf.rs
index f9145f1..d3942db 100644
--- a/src/types/cnf.rs
+++ b/src/types/cnf.rs
@@ -73,7 +73,14 @@ impl<V: AsRef<[i32]>> From<&[V]> for CNFDescription {
     fn from(vec: &[V]) -> Self {
         let num_of_variables = vec
             .iter()
-            .map(|clause| clause.as_ref().iter().map(|l| l.abs()).max().unwrap_or(0))
+            .map(|clause| {
+                clause
+                    .as_ref()
+                    .iter()
+                    .filter_map(|l| l.checked_abs())
+                    .max()
+                    .unwrap_or(0)
+            })
             .max()
             .unwrap_or(0) as usize;
         CNFDescription {
-- 
2.43.0


From 2275fa24f89f15ec251636a6b0564784956979da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 02/22] fix: report a malformed problem line as an IO error
 instead of panicking

---
 src/types/cnf.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/types/cnf.rs b/src/types/cnf.rs
index d3942db..1ccc6b2 100644
--- a/src/types/cnf.rs
+++ b/src/types/cnf.rs
@@ -127,8 +127,8 @@ impl TryFrom<&Path> for CNFReader {
                     let mut iter = buf.split_whitespace();
                     if iter.next() == Some("p")
                         && iter.next() == Some("cnf")
-                        && let Some(v) = iter.next().map(|s| s.parse::<usize>().ok().unwrap())
-                        && let Some(c) = iter.next().map(|s| s.parse::<usize>().ok().unwrap())
+                        && let Some(v) = iter.next().and_then(|s| s.parse::<usize>().ok())
+                        && let Some(c) = iter.next().and_then(|s| s.parse::<usize>().ok())
                     {
                         nv = v;
                         nc = c;
-- 
2.43.0


From 25a5d4aaa41e4441ca3607e97ff3fbeffe837b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 03/22] fix: reject out-of-range literals found in a CNF file

---
 src/solver/build.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/solver/build.rs b/src/solver/build.rs
index b47a399..1ba669d 100644
--- a/src/solver/build.rs
+++ b/src/solver/build.rs
@@ -302,6 +302,9 @@ impl Solver {
                                 ends_zero = true;
                                 break;
                             }
+                            Ok(val) if self.asg.num_vars < val.unsigned_abs() as usize => {
+                                return Err(SolverError::InvalidLiteral);
+                            }
                             Ok(val) => v.push(Lit::from(val)),
                             Err(_) => (),
                         }
-- 
2.43.0


From fbdcb8d04e0a36b1e7775ef162ed2d9251bc7c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 04/22] fix: report a read failure while loading clauses
 instead of panicking

---
 src/solver/build.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/build.rs b/src/solver/build.rs
index 1ba669d..25f8de1 100644
--- a/src/solver/build.rs
+++ b/src/solver/build.rs
@@ -318,7 +318,7 @@ impl Solver {
                         return Err(SolverError::EmptyClause);
                     }
                 }
-                Err(e) => panic!("{}", e),
+                Err(_) => return Err(SolverError::IOError),
             }
         }
         debug_assert_eq!(self.asg.num_vars, self.state.target.num_of_variables);
-- 
2.43.0


From 1fff8f2d271af9491efc52f97d5a9fb54688867c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 05/22] fix: read DIMACS clauses up to their terminating 0
 rather than line by line

---
 src/solver/build.rs | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/solver/build.rs b/src/solver/build.rs
index 25f8de1..95a2108 100644
--- a/src/solver/build.rs
+++ b/src/solver/build.rs
@@ -287,20 +287,21 @@ impl Solver {
         self.state.progress(&self.asg, &self.cdb);
         self.state.flush("Initialization phase: loading...");
         let mut buf = String::new();
+        // literals of the clause being read; a clause is terminated by `0`, not by a newline.
+        let mut v: Vec<Lit> = Vec::new();
         loop {
             buf.clear();
-            let mut ends_zero = false;
             match reader.read_line(&mut buf) {
                 Ok(0) => break,
                 Ok(_) if buf.starts_with('c') => continue,
                 Ok(_) => {
-                    let iter = buf.split_whitespace();
-                    let mut v: Vec<Lit> = Vec::new();
-                    for s in iter {
+                    for s in buf.split_whitespace() {
                         match s.parse::<i32>() {
                             Ok(0) => {
-                                ends_zero = true;
-                                break;
+                                if self.add_unchecked_clause(&mut v) == RefClause::EmptyClause {
+                                    return Err(SolverError::EmptyClause);
+                                }
+                                v.clear();
                             }
                             Ok(val) if self.asg.num_vars < val.unsigned_abs() as usize => {
                                 return Err(SolverError::InvalidLiteral);
@@ -309,18 +310,13 @@ impl Solver {
                             Err(_) => (),
                         }
                     }
-                    if v.is_empty() {
-                        if ends_zero {
-                            return Err(SolverError::EmptyClause);
-                        }
-                        continue;
-                    } else if self.add_unchecked_clause(&mut v) == RefClause::EmptyClause {
-                        return Err(SolverError::EmptyClause);
-                    }
                 }
                 Err(_) => return Err(SolverError::IOError),
             }
         }
+        if !v.is_empty() && self.add_unchecked_clause(&mut v) == RefClause::EmptyClause {
+            return Err(SolverError::EmptyClause);
+        }
         debug_assert_eq!(self.asg.num_vars, self.state.target.num_of_variables);
         // s.state[Stat::NumBin] = s.cdb.iter().skip(1).filter(|c| c.len() == 2).count();
         Ok(self)
-- 
2.43.0


From a5cb7d5b9661f1c304566f8ce94873654aa5fff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 06/22] fix: report an unreadable token in a CNF file instead
 of ignoring it

---
 src/solver/build.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/build.rs b/src/solver/build.rs
index 95a2108..df2d058 100644
--- a/src/solver/build.rs
+++ b/src/solver/build.rs
@@ -307,7 +307,7 @@ impl Solver {
                                 return Err(SolverError::InvalidLiteral);
                             }
                             Ok(val) => v.push(Lit::from(val)),
-                            Err(_) => (),
+                            Err(_) => return Err(SolverError::IOError),
                         }
                     }
                 }
-- 
2.43.0


From 3e24ae3c37984f737b6c4ef946f6d2a450b6de9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 07/22] fix: reject out-of-range literals given to
 inject_assignment

---
 src/solver/validate.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/solver/validate.rs b/src/solver/validate.rs
index acdb66d..179c7b9 100644
--- a/src/solver/validate.rs
+++ b/src/solver/validate.rs
@@ -41,6 +41,9 @@ impl ValidateIF for Solver {
             return Err(SolverError::Inconsistent);
         }
         for i in vec {
+            if *i == 0 || self.asg.num_vars < i.unsigned_abs() as usize {
+                return Err(SolverError::InvalidLiteral);
+            }
             self.asg.assign_at_root_level(Lit::from(*i))?;
         }
         Ok(())
-- 
2.43.0


From 7961e85fc382434045f89560604fe894db4912d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 08/22] fix: keep unit clauses in a CNF built from vectors

---
 src/cnf/mod.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/cnf/mod.rs b/src/cnf/mod.rs
index c9090c7..ef023f3 100644
--- a/src/cnf/mod.rs
+++ b/src/cnf/mod.rs
@@ -98,13 +98,12 @@ impl CnfIf for CNF {
                     }
                     cnf.assign.insert(l);
                 }
-                _ => {
-                    let mut cc = ref_c.clone();
-                    cc.sort_unstable();
-                    cnf.cls_map.insert(cc);
-                    cnf.clauses.push(ref_c.clone());
-                }
+                _ => (),
             }
+            let mut cc = ref_c.clone();
+            cc.sort_unstable();
+            cnf.cls_map.insert(cc);
+            cnf.clauses.push(ref_c.clone());
             max_var = max_var.max(ref_c.iter().map(|v| v.unsigned_abs()).max().unwrap());
         }
         cnf.num_vars = max_var;
-- 
2.43.0


From dd216d4e4dfc1bc3186a0946fd911daf1dc4b3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 09/22] fix: do not dump an empty clause for a CNF without
 clauses

---
 src/cnf/mod.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/cnf/mod.rs b/src/cnf/mod.rs
index ef023f3..c8ebb3a 100644
--- a/src/cnf/mod.rs
+++ b/src/cnf/mod.rs
@@ -196,18 +196,17 @@ impl CnfIf for CNF {
     }
     fn dump_to_string(&self) -> String {
         format!(
-            "p cnf {} {}\n{} 0\n",
+            "p cnf {} {}\n{}",
             self.num_vars,
             self.clauses.len(),
             self.clauses
                 .iter()
                 .map(|cls| cls
                     .iter()
-                    .map(|ch| format!("{ch}"))
-                    .collect::<Vec<_>>()
-                    .join(" "))
-                .collect::<Vec<_>>()
-                .join(" 0\n"),
+                    .map(|ch| format!("{ch} "))
+                    .collect::<String>()
+                    + "0\n")
+                .collect::<String>(),
         )
     }
 }
-- 
2.43.0


From 2c5dd8c98967ab12fa651b71dcc8d628db5ef529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 10/22] fix: load every clause of a CNF file and report
 malformed ones

---
 src/cnf/mod.rs | 41 ++++++++++++++++++-----------------------
 1 file changed, 18 insertions(+), 23 deletions(-)

diff --git a/src/cnf/mod.rs b/src/cnf/mod.rs
index c8ebb3a..22dc4f4 100644
--- a/src/cnf/mod.rs
+++ b/src/cnf/mod.rs
@@ -115,7 +115,7 @@ impl CnfIf for CNF {
         let mut buf = String::new();
         let mut nv: u32 = 0;
         let mut nc: usize = 0;
-        let mut num_clause: usize = 0;
+        let mut vec: Vec<i32> = Vec::new();
         let mut found_valid_header = false;
         let mut clause_extists_already = false;
         let mut cnf = CNF::default();
@@ -126,32 +126,28 @@ impl CnfIf for CNF {
                 Ok(_) if buf == "\n" => (),
                 Ok(_) if buf.starts_with('c') => (),
                 Ok(_) if found_valid_header => {
-                    let mut vec: Vec<i32> = Vec::new();
-                    for seg in buf.split(' ') {
-                        if let Ok(l) = seg.parse::<i32>() {
-                            if l == 0 {
-                                break;
+                    for seg in buf.split_whitespace() {
+                        match seg.parse::<i32>() {
+                            Ok(0) => {
+                                if let Err(e) = cnf.add_clause(std::mem::take(&mut vec)) {
+                                    if e == CNFOperationError::AddingClauseExists {
+                                        clause_extists_already = true;
+                                    } else {
+                                        return Err(e);
+                                    }
+                                }
                             }
-                            vec.push(l);
+                            Ok(l) => vec.push(l),
+                            Err(_) => return Err(CNFOperationError::ParsingCNF),
                         }
                     }
-                    debug_assert!(!vec.is_empty());
-                    if let Err(e) = cnf.add_clause(vec) {
-                        if e == CNFOperationError::AddingClauseExists {
-                            clause_extists_already = true;
-                        } else {
-                            return Err(e);
-                        }
-                    } else {
-                        num_clause += 1;
-                    }
                 }
                 Ok(_) => {
                     let mut iter = buf.split_whitespace();
                     if iter.next() == Some("p")
                         && iter.next() == Some("cnf")
-                        && let Some(v) = iter.next().map(|s| s.parse::<usize>().ok().unwrap())
-                        && let Some(c) = iter.next().map(|s| s.parse::<usize>().ok().unwrap())
+                        && let Some(v) = iter.next().and_then(|s| s.parse::<usize>().ok())
+                        && let Some(c) = iter.next().and_then(|s| s.parse::<usize>().ok())
                     {
                         nv = v as u32;
                         nc = c;
@@ -164,17 +160,16 @@ impl CnfIf for CNF {
                 }
             }
         }
-        if !found_valid_header {
+        if !found_valid_header || !vec.is_empty() {
             return Err(CNFOperationError::ParsingCNF);
         }
         if cnf.num_vars() != nv {
             println!("Warning: there are less variables than its declaration.");
         }
         if clause_extists_already {
-            assert_eq!(cnf.num_clauses(), num_clause);
             println!("Warning: there are less clauses than its declaration.");
-        } else if cnf.num_clauses() < TOO_MANY_CLAUSES {
-            assert_eq!(cnf.num_clauses(), nc);
+        } else if cnf.num_clauses() != nc {
+            return Err(CNFOperationError::ParsingCNF);
         }
         Ok(cnf)
     }
-- 
2.43.0


From 7fb0634dc156cdc7f07f19d5c1d01048db693c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 11/22] fix: report a failure to flush a saved CNF file

---
 src/cnf/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cnf/mod.rs b/src/cnf/mod.rs
index 22dc4f4..59c1359 100644
--- a/src/cnf/mod.rs
+++ b/src/cnf/mod.rs
@@ -184,6 +184,7 @@ impl CnfIf for CNF {
         if let Ok(f) = File::create(file) {
             let mut buf = std::io::BufWriter::new(f);
             buf.write_all(self.dump_to_string().as_bytes())
+                .and_then(|_| buf.flush())
                 .map_err(|_| CNFOperationError::WritingCNFFile)
         } else {
             Err(CNFOperationError::CreatingCNFFile)
-- 
2.43.0


From 33a634e4029a18bb1240c91cfb36124c587c7031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 12/22] fix: make the crate compile without unsafe_access

---
 src/assign/propagate.rs | 6 +++---
 src/assign/select.rs    | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/assign/propagate.rs b/src/assign/propagate.rs
index 6246f73..6bb824e 100644
--- a/src/assign/propagate.rs
+++ b/src/assign/propagate.rs
@@ -49,7 +49,7 @@ macro_rules! var_assign {
 #[cfg(not(feature = "unsafe_access"))]
 macro_rules! var_assign {
     ($asg: expr, $var: expr) => {
-        $asg.assign[$var]
+        $asg.var[$var].assign
     };
 }
 
@@ -68,7 +68,7 @@ macro_rules! lit_assign {
 macro_rules! lit_assign {
     ($asg: expr, $lit: expr) => {
         match $lit {
-            l => match $asg.assign[l.vi()] {
+            l => match $asg.var[l.vi()].assign {
                 Some(x) if !bool::from(l) => Some(!x),
                 x => x,
             },
@@ -93,7 +93,7 @@ macro_rules! set_assign {
         match $lit {
             l => {
                 let vi = l.vi();
-                $asg.assign[vi] = Some(bool::from(l));
+                $asg.var[vi].assign = Some(bool::from(l));
             }
         }
     };
diff --git a/src/assign/select.rs b/src/assign/select.rs
index 72daca6..d628e09 100644
--- a/src/assign/select.rs
+++ b/src/assign/select.rs
@@ -21,7 +21,7 @@ macro_rules! var_assign {
 #[cfg(not(feature = "unsafe_access"))]
 macro_rules! var_assign {
     ($asg: expr, $var: expr) => {
-        $asg.assign[$var]
+        $asg.var[$var].assign
     };
 }
 
-- 
2.43.0


From c4f3185fc52e7f05d184c3a20ce276ce573c12da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 13/22] fix: guard the call to select_rephasing_target with its
 feature

---
 src/solver/search.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solver/search.rs b/src/solver/search.rs
index 1fa2c27..9f8b470 100644
--- a/src/solver/search.rs
+++ b/src/solver/search.rs
@@ -261,6 +261,7 @@ fn search(
                 return Err(SolverError::UndescribedError);
             }
             RESTART!(asg, cdb, state);
+            #[cfg(feature = "rephase")]
             asg.select_rephasing_target();
             asg.clear_asserted_literals(cdb)?;
 
-- 
2.43.0


From 609c8ab41cdb8a0df331c6d26ca5da4630895624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:40 +0000
Subject: [PATCH 14/22] fix: keep the learnt clause count when a learnt clause
 becomes permanent

---
 src/cdb/db.rs            | 7 +++++++
 src/cdb/mod.rs           | 2 ++
 src/processor/subsume.rs | 2 +-
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/cdb/db.rs b/src/cdb/db.rs
index 650a669..fc87fb9 100644
--- a/src/cdb/db.rs
+++ b/src/cdb/db.rs
@@ -543,6 +543,13 @@ impl ClauseDBIF for ClauseDB {
         self.freelist.push(cid);
         // assert_eq!(self.clause.iter().skip(1).filter(|c| !c.is_dead()).count(), self.num_clause);
     }
+    fn make_permanent(&mut self, cid: ClauseId) {
+        let c = &mut self.clause[NonZeroU32::get(cid.ordinal) as usize];
+        if c.is(FlagClause::LEARNT) {
+            c.turn_off(FlagClause::LEARNT);
+            self.num_learnt -= 1;
+        }
+    }
     //
     fn transform_by_restoring_watch_cache(
         &mut self,
diff --git a/src/cdb/mod.rs b/src/cdb/mod.rs
index dced024..b4fc721 100644
--- a/src/cdb/mod.rs
+++ b/src/cdb/mod.rs
@@ -109,6 +109,8 @@ pub trait ClauseDBIF:
     fn remove_clause(&mut self, cid: ClauseId);
     /// un-register a clause `cid` from clause database and make the clause dead.
     fn remove_clause_sandbox(&mut self, cid: ClauseId);
+    /// turn a learnt clause into a permanent one.
+    fn make_permanent(&mut self, cid: ClauseId);
     /// update watches of the clause
     fn transform_by_elimination(&mut self, cid: ClauseId, p: Lit) -> RefClause;
     /// generic clause transformer (not in use)
diff --git a/src/processor/subsume.rs b/src/processor/subsume.rs
index eb15d73..284d7a4 100644
--- a/src/processor/subsume.rs
+++ b/src/processor/subsume.rs
@@ -28,7 +28,7 @@ impl Eliminator {
                 );
                 debug_assert!(!cdb[did].is_dead());
                 if !cdb[did].is(FlagClause::LEARNT) {
-                    cdb[cid].turn_off(FlagClause::LEARNT);
+                    cdb.make_permanent(cid);
                 }
                 self.remove_cid_occur(asg, did, &mut cdb[did]);
                 cdb.remove_clause(did);
-- 
2.43.0


From d10d9c1829113831d7f46cebae07ec935a9095b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:35 +0000
Subject: [PATCH 15/22] fix: forget a removed clause in the occurrence lists of
 assigned variables

A clause removed while one of its variables is already assigned stayed in
that variable's occurrence list, and the entry was met again after its slot
had been reused for another clause.
---
 src/processor/simplify.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/processor/simplify.rs b/src/processor/simplify.rs
index f62dbdb..651e0b3 100644
--- a/src/processor/simplify.rs
+++ b/src/processor/simplify.rs
@@ -386,10 +386,7 @@ impl Eliminator {
         debug_assert!(!c.is_dead());
         c.turn_off(FlagClause::OCCUR_LINKED);
         for l in c.iter() {
-            if asg.assign(l.vi()).is_none() {
-                self.remove_lit_occur(asg, *l, cid);
-                self.enqueue_var(asg, l.vi(), true);
-            }
+            self.remove_lit_occur(asg, *l, cid);
         }
     }
     /// set eliminator's mode to **dormant**.
-- 
2.43.0


From a0850f7162248e63faa67032cf2dd4979dad3b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:07 +0000
Subject: [PATCH 16/22] fix: save the verdict and the proof of a run that ends
 while loading

A formula refuted while it was loaded left no result file and an empty
proof, and any other failure to load ended in a panic without a verdict.
---
 src/bin/splr.rs | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/bin/splr.rs b/src/bin/splr.rs
index cc36b38..79bdb5e 100644
--- a/src/bin/splr.rs
+++ b/src/bin/splr.rs
@@ -11,7 +11,7 @@ use {
     std::{
         borrow::Cow,
         env,
-        fs::File,
+        fs::{self, File},
         io::{BufWriter, Write},
         path::PathBuf,
         thread,
@@ -90,10 +90,24 @@ fn main() {
                 colored(Ok(false), config.no_color),
                 config.cnf_file.file_name().unwrap().to_string_lossy(),
             );
+            // unit propagation is enough to see the conflict; complete the proof with it.
+            if config.use_certification
+                && let Err(why) = fs::write(config.io_odir.join(&config.io_pfile), b"0\n")
+            {
+                println!("Abort: failed to save the certificate by {why}!");
+            }
+            save_result_without_solver(Ok(false), &cnf_file, ans_file);
             std::process::exit(20);
         }
         Err(e) => {
-            panic!("{e:?}");
+            println!(
+                "{} ({}): {}",
+                colored(Err(&e), config.no_color),
+                e,
+                cnf_file
+            );
+            save_result_without_solver(Err(&e), &cnf_file, ans_file);
+            std::process::exit(1);
         }
         Ok(solver) => solver,
     };
@@ -106,6 +120,26 @@ fn main() {
     });
 }
 
+/// save the result of a run that ended while loading the problem.
+fn save_result_without_solver(
+    res: Result<bool, &SolverError>,
+    input: &str,
+    output: Option<PathBuf>,
+) {
+    let mut text = format!("c This file was generated by splr-{VERSION} for {input}\nc \n");
+    if let Err(e) = res {
+        text.push_str(&format!("c {e}\n"));
+    }
+    text.push_str(&format!("{}\n0\n", colored(res, true)));
+    let saved = match output {
+        Some(ref file) => fs::write(file, text),
+        None => std::io::stdout().write_all(text.as_bytes()),
+    };
+    if let Err(why) = saved {
+        println!("Abort: failed to save by {why}!");
+    }
+}
+
 fn save_result<S: AsRef<str> + std::fmt::Display>(
     s: &mut Solver,
     res: &SolverResult,
-- 
2.43.0


From 9a2dc5519112bd5dfa2ef5e9423fb5e2509274f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:17 +0000
Subject: [PATCH 17/22] fix: report a failure to write out the result file

The last part of the result was written while its buffer was dropped, where
a failure goes unnoticed.
---
 src/bin/splr.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/bin/splr.rs b/src/bin/splr.rs
index 79bdb5e..99e7157 100644
--- a/src/bin/splr.rs
+++ b/src/bin/splr.rs
@@ -188,7 +188,8 @@ fn save_result<S: AsRef<str> + std::fmt::Display>(
                 for x in v {
                     buf.write_all(format!("{x} ").as_bytes())?;
                 }
-                buf.write(b"0\n")
+                buf.write_all(b"0\n")?;
+                buf.flush()
             })() {
                 println!("Abort: failed to save by {why}!");
             }
@@ -221,7 +222,8 @@ fn save_result<S: AsRef<str> + std::fmt::Display>(
                 )?;
                 report(s, &mut buf)?;
                 buf.write_all(b"s UNSATISFIABLE\n")?;
-                buf.write_all(b"0\n")
+                buf.write_all(b"0\n")?;
+                buf.flush()
             })() {
                 println!("Abort: failed to save by {why}!");
             }
@@ -250,7 +252,8 @@ fn save_result<S: AsRef<str> + std::fmt::Display>(
                 )?;
                 report(s, buf)?;
                 buf.write_all(format!("c {}\n{}\n", e, colored(Err(e), true)).as_bytes())?;
-                buf.write(b"0\n")
+                buf.write_all(b"0\n")?;
+                buf.flush()
             })() {
                 println!("Abort: failed to save by {why}!");
             }
-- 
2.43.0


From cd714fd62301cbc46b9fc2fad2e6750ace2dba0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:36 +0000
Subject: [PATCH 18/22] fix: keep the watch search position of a very long
 clause in range

The position wrapped around for clauses of 65536 or more literals; the next
search then started among the watched literals.
---
 src/assign/propagate.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/assign/propagate.rs b/src/assign/propagate.rs
index 6bb824e..33ae656 100644
--- a/src/assign/propagate.rs
+++ b/src/assign/propagate.rs
@@ -512,7 +512,7 @@ impl PropagateIF for AssignStack {
                             let new_watch = !*lk;
                             cdb.detach_watch_cache(propagating, &mut source);
                             cdb.transform_by_updating_watch(cid, false_watch_pos, k, true);
-                            cdb[cid].search_from = (k + 1) as u16;
+                            cdb[cid].search_from = (k + 1).min(u16::MAX as usize) as u16;
                             debug_assert_ne!(self.assigned(new_watch), Some(true));
                             check_in!(
                                 cid,
@@ -692,7 +692,7 @@ impl PropagateIF for AssignStack {
                             let new_watch = !*lk;
                             cdb.detach_watch_cache(propagating, &mut source);
                             cdb.transform_by_updating_watch(cid, false_watch_pos, k, true);
-                            cdb[cid].search_from = (k as u16).saturating_add(1);
+                            cdb[cid].search_from = (k + 1).min(u16::MAX as usize) as u16;
                             debug_assert!(
                                 self.assigned(!new_watch) == Some(true)
                                     || self.assigned(!new_watch).is_none()
-- 
2.43.0


From 4dcee96d8ecaf77251ca9d322ed07c4f1004f14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:26 +0000
Subject: [PATCH 19/22] fix: refuse a problem line with more variables than
 literals can name

---
 src/types/cnf.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/types/cnf.rs b/src/types/cnf.rs
index 1ccc6b2..9d7b0ea 100644
--- a/src/types/cnf.rs
+++ b/src/types/cnf.rs
@@ -128,6 +128,8 @@ impl TryFrom<&Path> for CNFReader {
                     if iter.next() == Some("p")
                         && iter.next() == Some("cnf")
                         && let Some(v) = iter.next().and_then(|s| s.parse::<usize>().ok())
+                        // literals are read as `i32`
+                        && v <= i32::MAX as usize
                         && let Some(c) = iter.next().and_then(|s| s.parse::<usize>().ok())
                     {
                         nv = v;
-- 
2.43.0


From ee9f562f3de4e7d37c79dce854e041a0143fe482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:16 +0000
Subject: [PATCH 20/22] fix: reject a --crl value that does not fit instead of
 truncating it

---
 src/config.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/config.rs b/src/config.rs
index c4ac8d7..2aaf070 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -177,7 +177,10 @@ impl Config {
                                 if let Ok(val) = str.parse::<usize>() {
                                     match name {
                                         "cl" => self.c_cls_lim = val,
-                                        "crl" => self.cls_rdc_lbd = val as u16,
+                                        "crl" => {
+                                            self.cls_rdc_lbd = u16::try_from(val)
+                                                .unwrap_or_else(|_| panic!("invalid value {name}"))
+                                        }
                                         "ecl" => self.elm_cls_lim = val,
                                         "evl" => self.elm_grw_lim = val,
                                         "evo" => self.elm_var_occ = val,
-- 
2.43.0


From 7929b3d7ada51030c4b93b732526ec26305f267a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:44 +0000
Subject: [PATCH 21/22] fix: size the eliminator's tables for the variables
 added later

---
 src/state.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/state.rs b/src/state.rs
index d5b9845..0019352 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -229,6 +229,7 @@ impl Instantiate for State {
     fn handle(&mut self, e: SolverEvent) {
         match e {
             SolverEvent::NewVar => {
+                self.cnf.num_of_variables += 1;
                 self.target.num_of_variables += 1;
             }
             SolverEvent::Assert(_) => (),
-- 
2.43.0


From 918f51b7f8d039b742409eda18fd32ac0fe4ecab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:07:27 +0000
Subject: [PATCH 22/22] fix: don't take variables for pure literals when the
 eliminator is disabled

---
 src/processor/simplify.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/processor/simplify.rs b/src/processor/simplify.rs
index 651e0b3..88deed1 100644
--- a/src/processor/simplify.rs
+++ b/src/processor/simplify.rs
@@ -309,7 +309,8 @@ impl EliminateIF for Eliminator {
     }
     fn stats(&self, vi: VarId) -> Option<(usize, usize)> {
         let w = &self[vi];
-        if w.aborted {
+        // the numbers of occurrences are meaningless without the occur lists.
+        if !self.is_running() || w.aborted {
             None
         } else {
             Some((w.pos_occurs.len(), w.neg_occurs.len()))
-- 
2.43.0

