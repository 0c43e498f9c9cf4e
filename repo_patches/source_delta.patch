From 80c6d7514a34e22ec30865c0094c845c04b90a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:00 +0000
Subject: [PATCH 01/29] fix: --solver-file-debug with a relative directory

The directory was made part of the file name prefix, which is resolved against
the system's temporary directory: with a relative directory every launch failed.
---
 crates/cryptovampire/src/runner/runner.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/cryptovampire/src/runner/runner.rs b/crates/cryptovampire/src/runner/runner.rs
index f86fb30..ff4cc13 100644
--- a/crates/cryptovampire/src/runner/runner.rs
+++ b/crates/cryptovampire/src/runner/runner.rs
@@ -241,7 +241,7 @@ pub trait Runner {
 fn build_file<R: Runner + ?Sized>(save_to: Option<&Path>) -> crate::Result<NamedTempFile> {
     let base_prefix = PathBuf::from(format!("cryptovampire-{}", R::get_file_prefix()));
 
-    let prefix = match save_to {
+    let dir = match save_to {
         Some(p) => {
             ensure!(
                 (),
@@ -249,16 +249,16 @@ fn build_file<R: Runner + ?Sized>(save_to: Option<&Path>) -> crate::Result<Named
                 "{p:?} is a file. It should be a directory."
             )?;
             std::fs::create_dir_all(p)?;
-            p.join(base_prefix)
+            p.to_path_buf()
         }
-        None => base_prefix,
+        None => tempfile::env::temp_dir(),
     };
     let mut tmp_builder = Builder::new();
     tmp_builder
         .suffix(R::get_file_suffix())
-        .prefix(&prefix)
+        .prefix(&base_prefix)
         .keep(save_to.is_some());
-    let file = tmp_builder.tempfile()?; // gen tmp file
+    let file = tmp_builder.tempfile_in(dir)?; // gen tmp file
     info!("generated file {}", file.path().to_string_lossy());
     Ok(file)
 }
-- 
2.43.0


From 4e086cc17177eb04bf64b907cfb875cbbdc66e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:00 +0000
Subject: [PATCH 02/29] fix: --output-format quiet exits with an error when the
 run fails

A failed run exited with status 0 and printed nothing: indistinguishable from
a success.
---
 crates/cryptovampire/src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/main.rs b/crates/cryptovampire/src/main.rs
index 842386d..d86007b 100644
--- a/crates/cryptovampire/src/main.rs
+++ b/crates/cryptovampire/src/main.rs
@@ -43,7 +43,11 @@ fn main() {
     };
 
     match output_format {
-        cryptovampire::cli::Output::Quiet => (),
+        cryptovampire::cli::Output::Quiet => {
+            if res.is_err() {
+                std::process::exit(1)
+            }
+        }
         cryptovampire::cli::Output::Stdout => {
             let res = res.unwrap();
             eprintln!("{res}")
-- 
2.43.0


From 04071313414ecf1deabed8667a461cc4f3834556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:00 +0000
Subject: [PATCH 03/29] fix: each problem of a Squirrel call gets its own
 location below the requested one

The location was extended for every problem (out/0, out/0/1, ...), so that the
second problem had to create a directory where the first file already was.
---
 crates/cryptovampire/src/squirrel/mod.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/cryptovampire/src/squirrel/mod.rs b/crates/cryptovampire/src/squirrel/mod.rs
index 57f2491..e50d711 100644
--- a/crates/cryptovampire/src/squirrel/mod.rs
+++ b/crates/cryptovampire/src/squirrel/mod.rs
@@ -22,6 +22,11 @@ pub fn run_from_json(mut args: Args, str: &str) -> crate::Result<Vec<Return>> {
     };
     trace!("parsing successful");
 
+    // where the user asked for the output: each problem goes directly below
+    let base_location = args
+        .get_output_location()
+        .map(|location| location.to_path_buf());
+
     trace!("converting to ast");
     convert_squirrel_dump(dump)?
         .into_iter()
@@ -38,9 +43,9 @@ pub fn run_from_json(mut args: Args, str: &str) -> crate::Result<Vec<Return>> {
                 trace!("runnig the {i}th problem with ast:\n\t{ast}");
             }
 
-            match args.get_mut_output_location() {
-                None => (),
-                Some(location) => *location = location.join(format!("{i}")),
+            match (args.get_mut_output_location(), &base_location) {
+                (Some(location), Some(base)) => *location = base.join(format!("{i}")),
+                _ => (),
             }
             run_from_ast(&args, ast)
         })
-- 
2.43.0


From 68e8b61246549513994b347805ba270f7e95390a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:57 +0000
Subject: [PATCH 04/29] fix: fresh variables of crypto instances avoid the
 bound variables of the protocol

The offset used to make the variables of an instance fresh ignored variables
bound by a find or quantifier without being used under it: they captured a
variable of the instance, so that the axiom asserted in the first round differed
from the one asserted for the same instance in the next.
---
 .../cryptovampire/src/problem/problem/mod.rs   | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/crates/cryptovampire/src/problem/problem/mod.rs b/crates/cryptovampire/src/problem/problem/mod.rs
index e675c99..58f5ebb 100644
--- a/crates/cryptovampire/src/problem/problem/mod.rs
+++ b/crates/cryptovampire/src/problem/problem/mod.rs
@@ -27,7 +27,7 @@ use crate::{
             inner::evaluate::Evaluator, name_caster_collection::NameCasterCollection, Function,
         },
         sort::{builtins::CONDITION, Sort},
-        variable::{uvar, IntoVariableIter},
+        variable::{uvar, IntoVariableIter, Variable},
     },
 };
 
@@ -96,13 +96,25 @@ impl<'bump> Problem<'bump> {
         )
     }
 
+    /// the variables bound by a quantifier or a `find`, whether they are used or not
+    fn bound_variables(&self) -> impl Iterator<Item = Variable<'bump>> + '_ {
+        self.functions
+            .iter()
+            .filter_map(|f| f.as_quantifer())
+            .flat_map(|q| q.bound_variables.iter().cloned())
+    }
+
     pub fn max_var(&self) -> uvar {
-        UsedVariableIterator::with(self.list_top_level_terms()).max_var()
+        UsedVariableIterator::with(self.list_top_level_terms())
+            .chain(self.bound_variables())
+            .max_var()
     }
 
     /// [Self::max_var] without [Self::extra_instances]
     pub fn max_var_no_extras(&self) -> uvar {
-        UsedVariableIterator::with(self.list_top_level_terms_no_extra()).max_var()
+        UsedVariableIterator::with(self.list_top_level_terms_no_extra())
+            .chain(self.bound_variables())
+            .max_var()
     }
 
     pub fn container(&self) -> &'bump ScopedContainer<'bump> {
-- 
2.43.0


From 63d1343672ae09a374776b8333233e3a1dfad62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:05 +0000
Subject: [PATCH 05/29] fix: reject clauses with missing arguments in vampire's
 output

A clause of a timed-out vampire whose function symbol lacks arguments was
turned into an ill-formed term, which made the euf-cma lookup panic. A TPTP
variable seen with two sorts could also get an id that was already in use.
---
 .../src/formula/base_formula/tmp_formula.rs              | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/cryptovampire/src/formula/base_formula/tmp_formula.rs b/crates/cryptovampire/src/formula/base_formula/tmp_formula.rs
index 4f9a1c5..868ddbd 100644
--- a/crates/cryptovampire/src/formula/base_formula/tmp_formula.rs
+++ b/crates/cryptovampire/src/formula/base_formula/tmp_formula.rs
@@ -1,7 +1,7 @@
 use super::BaseFormula;
 
 use log::{debug, trace};
-use utils::string_ref::StrRef;
+use utils::{infinity::Infinity, string_ref::StrRef};
 
 use crate::{
     bail_at,
@@ -93,6 +93,10 @@ impl TmpFormula {
                     }
                 }
             }
+            if Infinity::from(rf_args.len()) < *sign.args_size().start() {
+                debug!("failed: not enough arguments\n\t=>{self}");
+                bail_at!(self, "not enough arguments")
+            }
             Ok(RichFormula::Fun(*f, rf_args.into()))
         } else {
             self.convert_variable(variables, expected_sort, realm)
@@ -188,7 +192,8 @@ impl<'a> TmpOrStr<'a> {
         {
             v
         } else if let Some(s) = expected_sort.as_option() {
-            let i: uvar = variables.len().try_into().unwrap();
+            // a variable seen with another sort is replaced below, hence the length isn't enough
+            let i: uvar = variables.values().map(|v| v.id() + 1).max().unwrap_or(0);
 
             // i is fresh
             debug_assert!(variables.values().map(|v| v.id()).all(|j| i != j));
-- 
2.43.0


From daa3fbf2acb3f2f9066f307ce07619afe388e354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:03 +0000
Subject: [PATCH 06/29] fix: declare Name even when the protocol declares no
 name

Without any name there is no constructor for the Name datatype and the sort
was never declared although cast$Message$name always uses it. z3 rejects that
declaration, carries on and may then answer sat for a different problem.
---
 .../cryptovampire/src/problem/problem/mod.rs  | 33 +++++++++++++------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/crates/cryptovampire/src/problem/problem/mod.rs b/crates/cryptovampire/src/problem/problem/mod.rs
index 58f5ebb..55bf525 100644
--- a/crates/cryptovampire/src/problem/problem/mod.rs
+++ b/crates/cryptovampire/src/problem/problem/mod.rs
@@ -26,7 +26,7 @@ use crate::{
         function::{
             inner::evaluate::Evaluator, name_caster_collection::NameCasterCollection, Function,
         },
-        sort::{builtins::CONDITION, Sort},
+        sort::{builtins::{CONDITION, STEP}, Sort},
         variable::{uvar, IntoVariableIter, Variable},
     },
 };
@@ -219,15 +219,28 @@ impl<'bump> Generator<'bump> for Problem<'bump> {
                 }
             }
 
-            declarations.push(Declaration::DataTypes(
-                datatypes
-                    .into_iter()
-                    .map(|(sort, constructor_destructors)| DataType {
-                        sort,
-                        constructor_destructors,
-                    })
-                    .collect(),
-            ));
+            // a datatype without any constructor (e.g., [NAME] when the protocol declares no
+            // name) can't be written down as such, but it may still be used. ([STEP] is declared
+            // along the ordering)
+            declarations.extend(
+                self.sorts
+                    .iter()
+                    .filter(|s| s.is_datatype(env) && !datatypes.contains_key(*s))
+                    .filter(|&&s| s != CONDITION.as_sort() && s != STEP.as_sort())
+                    .map(|s| Declaration::Sort(*s)),
+            );
+
+            if !datatypes.is_empty() {
+                declarations.push(Declaration::DataTypes(
+                    datatypes
+                        .into_iter()
+                        .map(|(sort, constructor_destructors)| DataType {
+                            sort,
+                            constructor_destructors,
+                        })
+                        .collect(),
+                ));
+            }
         }
         trace!("[G]\t\t[DONE]");
 
-- 
2.43.0


From 0b71b74a2a24acb981c2bfc1f18481c8ed0843e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:57 +0000
Subject: [PATCH 07/29] fix: the general int-ctxt axiom applies dec to the key
 as a message

With --symbolic the axiom applied dec to a Name, so the problem file was
ill-sorted as soon as the protocol declared int-ctxt.
---
 crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs b/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs
index 652e1fd..61f2c53 100644
--- a/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs
+++ b/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs
@@ -139,7 +139,7 @@ impl<'bump> IntCtxt<'bump> {
                 formula: mforall!(c!1:message_sort, k!3:nonce_sort; {
                     let k_f = nc.cast(message_sort, k);
                     // ev.eval(self.verify.apply([c.into(), k_f.clone()])) >>
-                    (!meq(ev.eval(self.dec.f([c, k])), ev.eval(self.fail()))) >>
+                    (!meq(ev.eval(self.dec.f([c.into(), k_f.clone()])), ev.eval(self.fail()))) >>
                     mexists!(m!4:message_sort, r!5:nonce_sort; {
                         let r_f = nc.cast(message_sort, r);
                         let c2 = self.enc.f([m.into(), r_f.clone(), k_f.clone()]);
-- 
2.43.0


From 95f17f9c05a1bc5f045b9ff3d6eff7a76c3d4c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:43 +0000
Subject: [PATCH 08/29] fix: reject literals of vampire's output that are
 nested too deeply to be handled

Reading such a literal back, or generating the next problem from it,
overflowed the stack and aborted the whole run.
---
 crates/cryptovampire/src/runner/tptp.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/crates/cryptovampire/src/runner/tptp.rs b/crates/cryptovampire/src/runner/tptp.rs
index c419e3f..530d910 100644
--- a/crates/cryptovampire/src/runner/tptp.rs
+++ b/crates/cryptovampire/src/runner/tptp.rs
@@ -1,6 +1,7 @@
 //! tptp parsing
 //!
 //! This is an interface with the [tptp] crate. We need this to read the output of `vampire`.
+use crate::bail_at;
 use crate::formula::{
     function::builtin::{EQUALITY, NOT, NOT_TA},
     TmpFormula,
@@ -20,8 +21,31 @@ pub trait TptpParse {
         Self: Sized;
 }
 
+/// Deepest nesting accepted in a literal.
+///
+/// Reading a literal back and generating the next problem recurse over its
+/// terms, an arbitrary depth would overflow the stack.
+const MAX_DEPTH: usize = 256;
+
+fn depth(str: &str) -> usize {
+    let mut depth = 0usize;
+    let mut max = 0;
+    for c in str.bytes() {
+        match c {
+            b'(' => depth += 1,
+            b')' => depth = depth.saturating_sub(1),
+            _ => (),
+        }
+        max = max.max(depth);
+    }
+    max
+}
+
 impl TptpParse for TmpFormula {
     fn parse(str: &str) -> crate::Result<Self> {
+        if depth(str) > MAX_DEPTH {
+            bail_at!(@ "the literal is nested too deeply")
+        }
         let str = format!("{}.", str.trim());
         #[allow(elided_lifetimes_in_paths)]
         let litteral: tptp::Result<Literal, ()> = Literal::parse(str.as_bytes());
-- 
2.43.0


From a3185e0e558db01795284702e4ec36d18217ac63 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Wed, 18 Nov 2026 22:02:01 +0000
Subject: [PATCH 09/29] fix: the variables of a problem file can't capture the
 protocol's symbols

---
 crates/cryptovampire/src/smt/smt/display.rs | 25 ++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/crates/cryptovampire/src/smt/smt/display.rs b/crates/cryptovampire/src/smt/smt/display.rs
index 7cdafb6..69c7df7 100644
--- a/crates/cryptovampire/src/smt/smt/display.rs
+++ b/crates/cryptovampire/src/smt/smt/display.rs
@@ -5,7 +5,7 @@ use log::{log_enabled, trace};
 
 use crate::{
     environement::traits::{KnowsRealm, Realm},
-    formula::file_descriptior::axioms::RewriteKind,
+    formula::{file_descriptior::axioms::RewriteKind, variable::Variable},
 };
 
 use super::{fun_list_fmt, Smt, SmtFile, SmtFormula};
@@ -111,10 +111,25 @@ generate_diplay!(SmtFormula);
 //     }
 // }
 
+/// Writes the name of a variable.
+///
+/// It contains a `$`, which no name of the input file can: otherwise the variable could capture a
+/// symbol of the protocol.
+fn fmt_variable(v: &Variable<'_>, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+    write!(f, "{}X${}", v.sort.short_name(), v.id)
+}
+
+/// Writes a variable along with its sort, as in a quantifier
+fn fmt_binding(v: &Variable<'_>, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+    write!(f, "(")?;
+    fmt_variable(v, f)?;
+    write!(f, " {}) ", v.sort)
+}
+
 impl<'a, 'bump> fmt::Display for SmtDisplayer<&'a SmtEnv, &'a SmtFormula<'bump>> {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self.content {
-            SmtFormula::Var(v) => v.fmt(f),
+            SmtFormula::Var(v) => fmt_variable(v, f),
             SmtFormula::Fun(fun, args) if fun.is_no_op(&self.env) => {
                 assert_eq!(args.len(), 1);
                 args[0].prop(*self).fmt(f)
@@ -138,14 +153,14 @@ impl<'a, 'bump> fmt::Display for SmtDisplayer<&'a SmtEnv, &'a SmtFormula<'bump>>
             SmtFormula::Forall(vars, formula) => {
                 write!(f, "(forall (")?;
                 for v in vars.iter() {
-                    write!(f, "({} {}) ", v, v.sort)?;
+                    fmt_binding(v, f)?;
                 }
                 write!(f, ") {})", formula.prop(*self))
             }
             SmtFormula::Exists(vars, formula) => {
                 write!(f, "(exists (")?;
                 for v in vars.iter() {
-                    write!(f, "({} {}) ", v, v.sort)?;
+                    fmt_binding(v, f)?;
                 }
                 write!(f, ") {})", formula.prop(*self))
             }
@@ -223,7 +238,7 @@ impl<'a, 'bump> fmt::Display for SmtDisplayer<&'a SmtEnv, &'a Smt<'bump>> {
             } => {
                 write!(f, "(declare-rewrite (forall (")?;
                 for v in vars.iter() {
-                    write!(f, "({} {}) ", v, v.sort)?;
+                    fmt_binding(v, f)?;
                 }
                 let op = match rewrite_fun {
                     RewriteKind::Bool => "=".into(),
-- 
2.43.0


From 33f0ac20a0fdfca08f31ecfd3d502ff011ed8846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:58 +0000
Subject: [PATCH 10/29] fix: quote the symbols that smt-lib can't write down as
 they are

---
 crates/cryptovampire/src/smt/smt/display.rs | 65 +++++++++++++++------
 1 file changed, 47 insertions(+), 18 deletions(-)

diff --git a/crates/cryptovampire/src/smt/smt/display.rs b/crates/cryptovampire/src/smt/smt/display.rs
index 69c7df7..2b289b8 100644
--- a/crates/cryptovampire/src/smt/smt/display.rs
+++ b/crates/cryptovampire/src/smt/smt/display.rs
@@ -111,19 +111,37 @@ generate_diplay!(SmtFormula);
 //     }
 // }
 
+/// A symbol, written between `|` when it isn't a simple symbol of `smt-lib`
+struct Symbol<N>(N);
+
+impl<N: AsRef<str>> fmt::Display for Symbol<N> {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        let name = self.0.as_ref();
+        if name
+            .bytes()
+            .all(|c| c.is_ascii_alphanumeric() || b"~!@$%^&*_-+=<>.?/".contains(&c))
+        {
+            write!(f, "{name}")
+        } else {
+            write!(f, "|{name}|")
+        }
+    }
+}
+
 /// Writes the name of a variable.
 ///
 /// It contains a `$`, which no name of the input file can: otherwise the variable could capture a
 /// symbol of the protocol.
 fn fmt_variable(v: &Variable<'_>, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-    write!(f, "{}X${}", v.sort.short_name(), v.id)
+    let name = format!("{}X${}", v.sort.short_name(), v.id);
+    write!(f, "{}", Symbol(name))
 }
 
 /// Writes a variable along with its sort, as in a quantifier
 fn fmt_binding(v: &Variable<'_>, f: &mut fmt::Formatter<'_>) -> fmt::Result {
     write!(f, "(")?;
     fmt_variable(v, f)?;
-    write!(f, " {}) ", v.sort)
+    write!(f, " {}) ", Symbol(v.sort.name()))
 }
 
 impl<'a, 'bump> fmt::Display for SmtDisplayer<&'a SmtEnv, &'a SmtFormula<'bump>> {
@@ -136,13 +154,13 @@ impl<'a, 'bump> fmt::Display for SmtDisplayer<&'a SmtEnv, &'a SmtFormula<'bump>>
             }
             SmtFormula::Fun(fun, args) => {
                 if !args.is_empty() {
-                    write!(f, "({} ", fun.name())?;
+                    write!(f, "({} ", Symbol(fun.name()))?;
                     for arg in args {
                         write!(f, "{} ", self.propagate(arg))?;
                     }
                     write!(f, ")")
                 } else {
-                    write!(f, "{} ", fun.name())
+                    write!(f, "{} ", Symbol(fun.name()))
                 }
             }
             SmtFormula::Forall(vars, formula) | SmtFormula::Exists(vars, formula)
@@ -191,7 +209,7 @@ impl<'a, 'bump> fmt::Display for SmtDisplayer<&'a SmtEnv, &'a SmtFormula<'bump>>
             SmtFormula::Subterm(fun, a, b) => write!(
                 f,
                 "(subterm {} {} {})",
-                fun.name(),
+                Symbol(fun.name()),
                 a.prop(*self),
                 b.prop(*self),
             ),
@@ -207,26 +225,36 @@ impl<'a, 'bump> fmt::Display for SmtDisplayer<&'a SmtEnv, &'a Smt<'bump>> {
             Smt::Assert(e) => writeln!(f, "(assert {})", e.prop(*self)),
             Smt::AssertTh(e) => writeln!(f, "(assert-theory {})", e.prop(*self)),
             Smt::AssertGround { sort, formula } => {
-                writeln!(f, "(assert-ground {sort} {})", formula.prop(*self))
+                writeln!(
+                    f,
+                    "(assert-ground {} {})",
+                    Symbol(sort.name()),
+                    formula.prop(*self)
+                )
             }
             Smt::AssertNot(e) => writeln!(f, "(assert-not {})", e.prop(*self)),
             Smt::DeclareFun(fun) => {
-                write!(f, "(declare-fun {} (", fun.name())?;
+                write!(f, "(declare-fun {} (", Symbol(fun.name()))?;
                 for s in fun.fast_insort().unwrap_or_else(|| {
                     panic!("all function defined here have known sort: {}", fun.name())
                 }) {
-                    write!(f, "{} ", s.name())?;
+                    write!(f, "{} ", Symbol(s.name()))?;
                 }
-                writeln!(f, ") {})", fun.fast_outsort().unwrap())
+                writeln!(f, ") {})", Symbol(fun.fast_outsort().unwrap().name()))
             }
-            Smt::DeclareSort(sort) => writeln!(f, "(declare-sort {} 0)", sort),
+            Smt::DeclareSort(sort) => writeln!(f, "(declare-sort {} 0)", Symbol(sort.name())),
             Smt::DeclareSortAlias { from, to } => {
-                writeln!(f, "(define-sort {} () {})", to.name(), from.name())
+                writeln!(
+                    f,
+                    "(define-sort {} () {})",
+                    Symbol(to.name()),
+                    Symbol(from.name())
+                )
             }
             Smt::DeclareSubtermRelation(fun, funs) => {
-                write!(f, "(declare-subterm-relation {} ", fun.name())?;
+                write!(f, "(declare-subterm-relation {} ", Symbol(fun.name()))?;
                 for fun in funs {
-                    write!(f, "{} ", fun.name())?;
+                    write!(f, "{} ", Symbol(fun.name()))?;
                 }
                 writeln!(f, ")")
             }
@@ -241,8 +269,8 @@ impl<'a, 'bump> fmt::Display for SmtDisplayer<&'a SmtEnv, &'a Smt<'bump>> {
                     fmt_binding(v, f)?;
                 }
                 let op = match rewrite_fun {
-                    RewriteKind::Bool => "=".into(),
-                    RewriteKind::Other(f) => f.name(),
+                    RewriteKind::Bool => Symbol("=".into()),
+                    RewriteKind::Other(f) => Symbol(f.name()),
                 };
                 writeln!(f, ") ({} {} {})))", op, lhs.prop(*self), rhs.prop(*self))
             }
@@ -251,7 +279,7 @@ impl<'a, 'bump> fmt::Display for SmtDisplayer<&'a SmtEnv, &'a Smt<'bump>> {
                 // name of types
                 write!(f, "\t(")?;
                 for s in sorts.iter() {
-                    write!(f, "({} 0) ", s)?;
+                    write!(f, "({} 0) ", Symbol(s.name()))?;
                 }
                 write!(f, ")\n\t(\n")?;
 
@@ -261,10 +289,11 @@ impl<'a, 'bump> fmt::Display for SmtDisplayer<&'a SmtEnv, &'a Smt<'bump>> {
                     for c in vc {
                         assert_eq!(sorts[j], c.fun.fast_outsort().unwrap());
 
-                        write!(f, "\t\t\t({} ", c.fun.name())?;
+                        write!(f, "\t\t\t({} ", Symbol(c.fun.name()))?;
 
                         for (i, s) in c.fun.fast_insort().expect("todo").iter().enumerate() {
-                            write!(f, "({} {}) ", c.dest.get(i).unwrap().name(), s)?;
+                            let dest = c.dest.get(i).unwrap();
+                            write!(f, "({} {}) ", Symbol(dest.name()), Symbol(s.name()))?;
                         }
                         writeln!(f, ")")?;
                     }
-- 
2.43.0


From 944ecc434987277e857f5f99a77b01e042a701ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:31 +0000
Subject: [PATCH 11/29] fix: reject the names that the solvers reserve

---
 crates/cryptovampire/src/parser/mod.rs        | 26 +++++++++++++++++++
 .../src/parser/parser/declare.rs              |  7 +++--
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/crates/cryptovampire/src/parser/mod.rs b/crates/cryptovampire/src/parser/mod.rs
index fccd695..c00fc1c 100644
--- a/crates/cryptovampire/src/parser/mod.rs
+++ b/crates/cryptovampire/src/parser/mod.rs
@@ -49,6 +49,32 @@ pub const USED_KEYWORDS: &[&str] = &[
     "Int",
     "Real",
     "Array",
+    "as",
+    "distinct",
+    "evaluate_cond",
+    "evaluate_msg",
+    "lambda",
+    "let",
+    "par",
+];
+
+/// The sorts already known to the solvers, that can't be declared again
+pub const USED_SORTS: &[&str] = &[
+    "BitVec",
+    "Float128",
+    "Float16",
+    "Float32",
+    "Float64",
+    "FloatingPoint",
+    "List",
+    "RegEx",
+    "RegLan",
+    "RoundingMode",
+    "Seq",
+    "Set",
+    "String",
+    "Unicode",
+    "bool",
 ];
 
 // pub type MResult<T> = std::result::Result<T, error::InputError>;
diff --git a/crates/cryptovampire/src/parser/parser/declare.rs b/crates/cryptovampire/src/parser/parser/declare.rs
index 96c6515..bfe38e3 100644
--- a/crates/cryptovampire/src/parser/parser/declare.rs
+++ b/crates/cryptovampire/src/parser/parser/declare.rs
@@ -6,7 +6,7 @@ use super::*;
 use crate::{
     bail_at, err_at,
     error::{CVContext, LocationProvider},
-    parser::{ast::extra::AsFunction, error::ParsingError, Pstr},
+    parser::{ast::extra::AsFunction, error::ParsingError, Pstr, USED_SORTS},
 };
 
 use crate::{
@@ -47,7 +47,10 @@ where
         })
         .try_for_each(|s| {
             let name = s.name();
-            if env.sort_hash.contains_key(name.borrow()) {
+            if env.sort_hash.contains_key(name.borrow())
+                || env.used_name.contains(name.borrow())
+                || USED_SORTS.contains(&name.borrow())
+            {
                 // err(merr(
                 //     *s.get_name_span(),
                 //     f!("the sort name {} is already in use", name),
-- 
2.43.0


From 4ce9662af855d02ec45c4bde4de3f601c300f40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:26 +0000
Subject: [PATCH 12/29] fix: an equivalence between the conditions of a step no
 longer overflows the stack

---
 .../cryptovampire/src/parser/parser/parsable_trait.rs  | 10 ++++++++++
 .../parser/parser/parsable_trait/cached_builtins.rs    |  6 ++++++
 2 files changed, 16 insertions(+)

diff --git a/crates/cryptovampire/src/parser/parser/parsable_trait.rs b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
index 608d474..615d65d 100644
--- a/crates/cryptovampire/src/parser/parser/parsable_trait.rs
+++ b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
@@ -768,6 +768,16 @@ where
                     &self.terms,
                 )
                 .debug_continue(),
+                Realm::Symbolic if self.terms.len() == 2 => parse_application(
+                    env,
+                    &self.span,
+                    state,
+                    bvars,
+                    expected_sort,
+                    &IFF_TA_CACHE(),
+                    &self.terms,
+                )
+                .debug_continue(),
                 Realm::Symbolic => Self {
                     operation: ast::Operation::And,
                     terms: as_pair_of_term(
diff --git a/crates/cryptovampire/src/parser/parser/parsable_trait/cached_builtins.rs b/crates/cryptovampire/src/parser/parser/parsable_trait/cached_builtins.rs
index 1e5188c..7c12fe8 100644
--- a/crates/cryptovampire/src/parser/parser/parsable_trait/cached_builtins.rs
+++ b/crates/cryptovampire/src/parser/parser/parsable_trait/cached_builtins.rs
@@ -33,6 +33,12 @@ pub(crate) fn EQUALITY_TA_CACHE<'a, 'str, 'bump, S>() -> MOw<'a, FunctionCache<'
 //     MOw::Owned(IFF.clone().into())
 // }
 
+// #[dynamic]
+#[allow(non_snake_case)]
+pub(crate) fn IFF_TA_CACHE<'a, 'str, 'bump, S>() -> MOw<'a, FunctionCache<'str, 'bump, S>> {
+    MOw::Owned((*IFF_TA).into())
+}
+
 // #[dynamic]
 #[allow(non_snake_case)]
 pub(crate) fn IMPLIES_CACHE<'a, 'str, 'bump, S>() -> MOw<'a, FunctionCache<'str, 'bump, S>> {
-- 
2.43.0


From 2a835d3235b1d8ddb3b8e4d97c40e7e1f9dd14ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:53 +0000
Subject: [PATCH 13/29] fix: a variable that shadows another one isn't mistaken
 for it

---
 crates/cryptovampire/src/parser/parser/parsable_trait.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/parser/parser/parsable_trait.rs b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
index 615d65d..5bdc03c 100644
--- a/crates/cryptovampire/src/parser/parser/parsable_trait.rs
+++ b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
@@ -398,7 +398,7 @@ where
                 // check if it is a variable
                 bvars
                     .iter()
-                    .find(|(s, _)| s == content)
+                    .rfind(|(s, _)| s == content) // the innermost one
                     .map(|(_, v)| {
                         let VarProxy { id, sort } = v;
 
-- 
2.43.0


From 4e7604287d1e186ef242bdab5814e6d53764bf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:25 +0000
Subject: [PATCH 14/29] fix: the user's assertions only use the evaluated
 functions where those are declared

---
 .../general_assertions/assertion_preprocessor.rs      | 11 +++++++++--
 crates/cryptovampire/src/problem/problem/mod.rs       |  4 ++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/crates/cryptovampire/src/problem/general_assertions/assertion_preprocessor.rs b/crates/cryptovampire/src/problem/general_assertions/assertion_preprocessor.rs
index b203578..8b0bbf7 100644
--- a/crates/cryptovampire/src/problem/general_assertions/assertion_preprocessor.rs
+++ b/crates/cryptovampire/src/problem/general_assertions/assertion_preprocessor.rs
@@ -2,6 +2,7 @@ use std::borrow::Cow;
 
 use itertools::Itertools;
 
+use crate::environement::environement::Environement;
 use crate::formula::{
     self,
     formula::{ARichFormula, RichFormula},
@@ -18,9 +19,15 @@ use crate::formula::{
 
 pub fn propagate_evaluate<'bump>(
     assertion: &RichFormula<'bump>,
-    env: &Evaluator<'bump>,
+    evaluator: &Evaluator<'bump>,
+    env: &Environement<'bump>,
 ) -> ARichFormula<'bump> {
-    preprocess_before_eval(assertion, env).as_ref().into()
+    if env.is_evaluated_realm() || env.no_bitstring_functions() {
+        // the evaluated functions aren't declared
+        assertion.into()
+    } else {
+        preprocess_before_eval(assertion, evaluator).as_ref().into()
+    }
 }
 
 fn preprocess_before_eval<'a, 'bump>(
diff --git a/crates/cryptovampire/src/problem/problem/mod.rs b/crates/cryptovampire/src/problem/problem/mod.rs
index 55bf525..e7a8329 100644
--- a/crates/cryptovampire/src/problem/problem/mod.rs
+++ b/crates/cryptovampire/src/problem/problem/mod.rs
@@ -268,7 +268,7 @@ impl<'bump> Generator<'bump> for Problem<'bump> {
             self.assertions
                 .iter()
                 .cloned()
-                .map(|a| propagate_evaluate(a.as_ref(), &self.evaluator))
+                .map(|a| propagate_evaluate(a.as_ref(), &self.evaluator, env))
                 .map(Axiom::base),
         );
         trace!("[G]\t\t[DONE]");
@@ -276,7 +276,7 @@ impl<'bump> Generator<'bump> for Problem<'bump> {
         trace!("[G]\t- query...");
         assertions.push(Axiom::Comment("query".into()));
         assertions.push(Axiom::Query {
-            formula: propagate_evaluate(self.query.as_ref(), &self.evaluator),
+            formula: propagate_evaluate(self.query.as_ref(), &self.evaluator, env),
         });
 
         trace!("[G]\t\t[DONE]");
-- 
2.43.0


From 0b0d899f3ba7ef0546340421ad192f58b9a8b373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:25 +0000
Subject: [PATCH 15/29] fix: pushing evaluate inward doesn't change the sort of
 a variable that stays bound as a message

---
 .../src/problem/general_assertions/assertion_preprocessor.rs  | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/crates/cryptovampire/src/problem/general_assertions/assertion_preprocessor.rs b/crates/cryptovampire/src/problem/general_assertions/assertion_preprocessor.rs
index 8b0bbf7..76f8d03 100644
--- a/crates/cryptovampire/src/problem/general_assertions/assertion_preprocessor.rs
+++ b/crates/cryptovampire/src/problem/general_assertions/assertion_preprocessor.rs
@@ -68,10 +68,6 @@ fn preprocess_after_eval<'bump>(
     env: &Evaluator<'bump>,
 ) -> RichFormula<'bump> {
     match assertion {
-        RichFormula::Var(v) if v.sort().is_evaluatable() => Some(RichFormula::Var(Variable {
-            sort: v.sort().maybe_evaluated_sort().unwrap(),
-            ..*v
-        })),
         RichFormula::Fun(fun, args) => match fun.as_ref().maybe_get_evaluated() {
             Some(f) => Some(RichFormula::Fun(
                 f,
-- 
2.43.0


From 5336ce20a6e700010562859b089b94551941b808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:25 +0000
Subject: [PATCH 16/29] fix: pushing evaluate inside a quantifier binds its
 bound variables, not its free ones

---
 .../general_assertions/assertion_preprocessor.rs   | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/crates/cryptovampire/src/problem/general_assertions/assertion_preprocessor.rs b/crates/cryptovampire/src/problem/general_assertions/assertion_preprocessor.rs
index 76f8d03..e69b094 100644
--- a/crates/cryptovampire/src/problem/general_assertions/assertion_preprocessor.rs
+++ b/crates/cryptovampire/src/problem/general_assertions/assertion_preprocessor.rs
@@ -14,7 +14,7 @@ use crate::formula::{
         traits::MaybeEvaluatable,
     },
     manipulation::FrozenSubstF,
-    variable::Variable,
+    variable::{IntoVariableIter, Variable},
 };
 
 pub fn propagate_evaluate<'bump>(
@@ -87,9 +87,13 @@ fn preprocess_after_eval<'bump>(
                 }) => match inner {
                     InnerQuantifier::FindSuchThat { .. } => None,
                     InnerQuantifier::Forall { content } | InnerQuantifier::Exists { content } => {
-                        Some({
+                        // substituting `args` must not let `bound_variables` capture anything
+                        let captures = args
+                            .iter()
+                            .any(|arg| bound_variables.iter().any(|v| arg.contains_var(v)));
+                        (!captures).then(|| {
                             let content = content.apply_substitution2(&FrozenSubstF::new_from(
-                                bound_variables.iter().map(Variable::id).collect_vec(),
+                                free_variables.iter().map(Variable::id).collect_vec(),
                                 args,
                             ));
                             let content = preprocess_after_eval(content.as_ref(), env);
@@ -97,12 +101,12 @@ fn preprocess_after_eval<'bump>(
                             let q = match inner {
                                 InnerQuantifier::Forall { .. } => {
                                     formula::quantifier::Quantifier::Forall {
-                                        variables: free_variables.clone(),
+                                        variables: bound_variables.clone(),
                                     }
                                 }
                                 InnerQuantifier::Exists { .. } => {
                                     formula::quantifier::Quantifier::Exists {
-                                        variables: free_variables.clone(),
+                                        variables: bound_variables.clone(),
                                     }
                                 }
                                 _ => unreachable!(),
-- 
2.43.0


From 2fb4007ce170ebd563b6ac5a185f0969b7c9cd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:05 +0000
Subject: [PATCH 17/29] fix: the legacy evaluate axioms relate two tuples of
 arguments, not one to itself

---
 .../cryptovampire/src/problem/general_assertions/evaluate.rs  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/cryptovampire/src/problem/general_assertions/evaluate.rs b/crates/cryptovampire/src/problem/general_assertions/evaluate.rs
index 6db6675..f2c721e 100644
--- a/crates/cryptovampire/src/problem/general_assertions/evaluate.rs
+++ b/crates/cryptovampire/src/problem/general_assertions/evaluate.rs
@@ -178,8 +178,8 @@ pub fn generate<'bump>(
                             .collect_vec();
 
                         let premise =
-                            formula::ands(vars1.iter().zip(vars2.iter()).map(|(v1, _v2)| {
-                                meq(pbl.evaluator().eval(v1), pbl.evaluator().eval(v1))
+                            formula::ands(vars1.iter().zip(vars2.iter()).map(|(v1, v2)| {
+                                meq(pbl.evaluator().eval(v1), pbl.evaluator().eval(v2))
                             }));
                         let conclusion = meq(
                             pbl.evaluator().eval(f.f(&vars1)), //.map(|v| v.into_formula()))),
-- 
2.43.0


From 9b7939a6eb7217ccb02801aa6185f3126f52b28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:12 +0000
Subject: [PATCH 18/29] fix: ordering two subterm predicates of the same kind
 no longer overflows the stack

---
 crates/cryptovampire/src/subterm/mod.rs | 3 ++-
 crates/utils/src/fast_partial_cmp.rs    | 8 +++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/cryptovampire/src/subterm/mod.rs b/crates/cryptovampire/src/subterm/mod.rs
index 8c29c35..9cccba0 100644
--- a/crates/cryptovampire/src/subterm/mod.rs
+++ b/crates/cryptovampire/src/subterm/mod.rs
@@ -74,7 +74,8 @@ impl<'bump, Aux> PartialOrd for Subterm<'bump, Aux>
 where
     Aux: SubtermAux<'bump> + PartialOrd,
 {
-    partial_order!(aux, kind, ignored_functions);
+    // not `kind`: its functions refer back to this very subterm
+    partial_order!(aux, ignored_functions);
 }
 impl<'bump, Aux> PartialEq for Subterm<'bump, Aux>
 where
diff --git a/crates/utils/src/fast_partial_cmp.rs b/crates/utils/src/fast_partial_cmp.rs
index e7b12c3..30b7b37 100644
--- a/crates/utils/src/fast_partial_cmp.rs
+++ b/crates/utils/src/fast_partial_cmp.rs
@@ -4,9 +4,11 @@ macro_rules! partial_order {
         fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
             std::cmp::PartialOrd::partial_cmp(&self.$field1, &other.$field1)
                 $(
-                    .and_then(|o| {
-                        let no = std::cmp::PartialOrd::partial_cmp(&self.$field, &other.$field);
-                        no.map(|nno| o.then(nno))
+                    .and_then(|o| match o {
+                        std::cmp::Ordering::Equal => {
+                            std::cmp::PartialOrd::partial_cmp(&self.$field, &other.$field)
+                        }
+                        o => Some(o),
                     })
                 )*
         }
-- 
2.43.0


From 5923f1133159b48df8956100cd86a0e830de7c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:34 +0000
Subject: [PATCH 19/29] fix: a step is greater than another one when the latter
 is less than it

---
 crates/cryptovampire/src/problem/general_assertions/order.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/problem/general_assertions/order.rs b/crates/cryptovampire/src/problem/general_assertions/order.rs
index fa64abd..d84f224 100644
--- a/crates/cryptovampire/src/problem/general_assertions/order.rs
+++ b/crates/cryptovampire/src/problem/general_assertions/order.rs
@@ -63,7 +63,7 @@ pub fn generate<'bump>(
                     (leq.f([t2.into(), pred.apply([t1])]) | leq.f([t1, t2]))}), // ax11
             // other
             mforall!(a!0:step, b!1:step;
-                {!meq(gt.f([a, b]), lt.f([b, a]))}),
+                {meq(gt.f([a, b]), lt.f([b, a]))}),
         ]
         .into_iter()
         .map(Axiom::theory), // .chain(pbl.protocol().ordering().iter().cloned().map(Axiom::base)),
-- 
2.43.0


From 3bfb6421a77e9db9a7e0d419db7b6790ec70299b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:34 +0000
Subject: [PATCH 20/29] fix: a step is executed when the conditions of all the
 steps up to it hold, not just its own

---
 .../cryptovampire/src/problem/crypto_assumptions/unfolding.rs   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/problem/crypto_assumptions/unfolding.rs b/crates/cryptovampire/src/problem/crypto_assumptions/unfolding.rs
index 21db0b3..f7227d1 100644
--- a/crates/cryptovampire/src/problem/crypto_assumptions/unfolding.rs
+++ b/crates/cryptovampire/src/problem/crypto_assumptions/unfolding.rs
@@ -118,7 +118,7 @@ impl<'bump> Unfolding<'bump> {
                 mforall!(s!1:step; {HAPPENS.f([s]) >>
                   meq(ev.eval(exec.f([s])),
                   mforall!(s2!2:step;
-                      {LESS_THAN_EQ_STEP.f([s2, s]) >> ev.eval(self.cond().f([s]))}))})
+                      {LESS_THAN_EQ_STEP.f([s2, s]) >> ev.eval(self.cond().f([s2]))}))})
             });
 
             chain!(
-- 
2.43.0


From f095eee6b7a428e649d4d0f9366fb79c10221cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:34 +0000
Subject: [PATCH 21/29] fix: an assignment to a cell equates the values, not
 the terms

---
 crates/cryptovampire/src/problem/crypto_assumptions/cell.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/problem/crypto_assumptions/cell.rs b/crates/cryptovampire/src/problem/crypto_assumptions/cell.rs
index 8685f1d..7272280 100644
--- a/crates/cryptovampire/src/problem/crypto_assumptions/cell.rs
+++ b/crates/cryptovampire/src/problem/crypto_assumptions/cell.rs
@@ -79,7 +79,11 @@ impl Cell {
                                 (
                                     formula::forall(
                                         bvars.clone(),
-                                        ands.shallow_copy() >> formula::meq(&cell_call, content),
+                                        ands.shallow_copy()
+                                            >> formula::meq(
+                                                pbl.evaluator().eval(&cell_call),
+                                                pbl.evaluator().eval(content),
+                                            ),
                                     ),
                                     formula::forall(bvars, !ands.shallow_copy()),
                                 )
-- 
2.43.0


From 539cb91bc0adca57904b8812100b76f136a6ddc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:55 +0000
Subject: [PATCH 22/29] fix: a cell isn't updated by a step that doesn't happen

---
 .../src/problem/crypto_assumptions/cell.rs          | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/cryptovampire/src/problem/crypto_assumptions/cell.rs b/crates/cryptovampire/src/problem/crypto_assumptions/cell.rs
index 7272280..e36825e 100644
--- a/crates/cryptovampire/src/problem/crypto_assumptions/cell.rs
+++ b/crates/cryptovampire/src/problem/crypto_assumptions/cell.rs
@@ -8,7 +8,7 @@ use crate::{
     formula::{
         file_descriptior::{axioms::Axiom, declare::Declaration},
         formula,
-        function::builtin::PRED,
+        function::builtin::{HAPPENS, PRED},
         sort::builtins::STEP,
         variable::{from_usize, Variable},
     },
@@ -103,10 +103,12 @@ impl Cell {
                     //         ))
                     //         & formula::ands(positive),
                     // )
+                    // a cell has no defined value at a step that doesn't happen
+                    let happens = HAPPENS.f([step_var]);
                     chain!(
                         [formula::forall(
                             nvars.clone().iter().cloned(),
-                            (formula::ands(negative))
+                            (happens.shallow_copy() & formula::ands(negative))
                                 >> formula::meq(
                                     pbl.evaluator().eval(cell_call),
                                     pbl.evaluator().eval(cell_call_prev),
@@ -114,7 +116,12 @@ impl Cell {
                         )],
                         positive
                             .into_iter()
-                            .map(move |f| formula::forall(nvars.clone().iter().cloned(), f))
+                            .map(move |f| {
+                                formula::forall(
+                                    nvars.clone().iter().cloned(),
+                                    happens.shallow_copy() >> f,
+                                )
+                            })
                     )
                 })
                 .map(Axiom::base),
-- 
2.43.0


From 10d03087c677af3fbdca7d266e6a807956f9e915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:51 +0000
Subject: [PATCH 23/29] fix: the general unforgeability axioms are about
 verify(signature, message, key)

---
 crates/cryptovampire/src/problem/crypto_assumptions/euf_cma.rs | 2 +-
 crates/cryptovampire/src/problem/crypto_assumptions/uf_cma.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/cryptovampire/src/problem/crypto_assumptions/euf_cma.rs b/crates/cryptovampire/src/problem/crypto_assumptions/euf_cma.rs
index 0cd36f9..0c2aed5 100644
--- a/crates/cryptovampire/src/problem/crypto_assumptions/euf_cma.rs
+++ b/crates/cryptovampire/src/problem/crypto_assumptions/euf_cma.rs
@@ -135,7 +135,7 @@ impl<'bump> EufCma<'bump> {
                 formula: mforall!(m!1:message_sort, sigma!2:message_sort, k!3:nonce_sort; {
                     let k_f = pbl.name_caster().cast(message_sort, k);
                     let ev = pbl.evaluator();
-                    ev.eval(self.verify.apply([m.into(), sigma.into(), self.pk.f([ k_f.clone()])])) >>
+                    ev.eval(self.verify.apply([sigma.into(), m.into(), self.pk.f([ k_f.clone()])])) >>
                     mexists!(u!4:message_sort; {
                         meq(ev.eval(u), ev.eval(m)) &
                         (
diff --git a/crates/cryptovampire/src/problem/crypto_assumptions/uf_cma.rs b/crates/cryptovampire/src/problem/crypto_assumptions/uf_cma.rs
index 34c73cd..2b5e8a0 100644
--- a/crates/cryptovampire/src/problem/crypto_assumptions/uf_cma.rs
+++ b/crates/cryptovampire/src/problem/crypto_assumptions/uf_cma.rs
@@ -170,7 +170,7 @@ impl<'bump> UfCma<'bump> {
                 formula : mforall!(m!1:message_sort, sigma!2:message_sort, k!3:nonce_sort; {
                     let k_f = pbl.name_caster().cast(message_sort, k);
                     let ev = pbl.evaluator();
-                    ev.eval(self.verify.f([m.into(), sigma.into(), k_f.clone()])) >>
+                    ev.eval(self.verify.f([sigma.into(), m.into(), k_f.clone()])) >>
                     mexists!(u!4:message_sort; {
                         meq(ev.eval(u), ev.eval(m)) &
                         (
-- 
2.43.0


From ee2164a78187e863123c499572d2383428a1c2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:29 +0000
Subject: [PATCH 24/29] fix: a subterm search goes on in the arguments of the
 functions it handles on its own

---
 .../src/formula/function/builtin.rs           |  2 +-
 .../src/problem/crypto_assumptions/euf_cma.rs |  6 +-
 .../problem/crypto_assumptions/int_ctxt.rs    |  1 +
 .../src/problem/crypto_assumptions/uf_cma.rs  |  6 +-
 crates/cryptovampire/src/subterm/mod.rs       | 74 ++++++++++++++++++-
 5 files changed, 81 insertions(+), 8 deletions(-)

diff --git a/crates/cryptovampire/src/formula/function/builtin.rs b/crates/cryptovampire/src/formula/function/builtin.rs
index 4fa2284..62198ca 100644
--- a/crates/cryptovampire/src/formula/function/builtin.rs
+++ b/crates/cryptovampire/src/formula/function/builtin.rs
@@ -70,7 +70,7 @@ pub static TRUE: RichFormula<'static> = RichFormula::Fun(*TRUE_F, Arc::new([]));
 pub static TRUE_ARC: ARichFormula<'static> = TRUE.clone_as_arc();
 
 #[dynamic]
-pub static FALSE: RichFormula<'static> = RichFormula::Fun(*TRUE_F, Arc::new([]));
+pub static FALSE: RichFormula<'static> = RichFormula::Fun(*FALSE_F, Arc::new([]));
 
 #[dynamic]
 pub static AND: Function<'static> = new_static_function(InnerFunction::Bool(Booleans::Connective(
diff --git a/crates/cryptovampire/src/problem/crypto_assumptions/euf_cma.rs b/crates/cryptovampire/src/problem/crypto_assumptions/euf_cma.rs
index 0c2aed5..e58ff41 100644
--- a/crates/cryptovampire/src/problem/crypto_assumptions/euf_cma.rs
+++ b/crates/cryptovampire/src/problem/crypto_assumptions/euf_cma.rs
@@ -305,7 +305,8 @@ fn define_subterms<'bump>(
                     subterm
                         .generate_function_assertions_from_pbl(env, pbl)
                         .into_iter(),
-                    subterm.not_of_sort_auto(env, pbl)
+                    subterm.not_of_sort_auto(env, pbl),
+                    [subterm.names(env)]
                 )
                 .map(Axiom::base),
             );
@@ -327,7 +328,8 @@ fn define_subterms<'bump>(
                     subterm
                         .generate_function_assertions_from_pbl(env, pbl)
                         .into_iter(),
-                    subterm.not_of_sort_auto(env, pbl)
+                    subterm.not_of_sort_auto(env, pbl),
+                    [subterm.names(env)]
                 )
                 .map(Axiom::base),
             );
diff --git a/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs b/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs
index 61f2c53..aed052b 100644
--- a/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs
+++ b/crates/cryptovampire/src/problem/crypto_assumptions/int_ctxt.rs
@@ -459,6 +459,7 @@ fn define_subterm<'bump>(
                 .generate_function_assertions_from_pbl(env, pbl)
                 .into_iter()
                 .chain(subterm.not_of_sort_auto(env, pbl))
+                .chain([subterm.names(env)])
                 .map(Axiom::base),
         );
     }
diff --git a/crates/cryptovampire/src/problem/crypto_assumptions/uf_cma.rs b/crates/cryptovampire/src/problem/crypto_assumptions/uf_cma.rs
index 2b5e8a0..38dce58 100644
--- a/crates/cryptovampire/src/problem/crypto_assumptions/uf_cma.rs
+++ b/crates/cryptovampire/src/problem/crypto_assumptions/uf_cma.rs
@@ -474,7 +474,8 @@ fn define_subterms<'bump>(
                     subterm
                         .generate_function_assertions_from_pbl(env, pbl)
                         .into_iter(),
-                    subterm.not_of_sort_auto(env, pbl)
+                    subterm.not_of_sort_auto(env, pbl),
+                    [subterm.names(env)]
                 )
                 .map(Axiom::base),
             );
@@ -499,7 +500,8 @@ fn define_subterms<'bump>(
                     subterm
                         .generate_function_assertions_from_pbl(env, pbl)
                         .into_iter(),
-                    subterm.not_of_sort_auto(env, pbl)
+                    subterm.not_of_sort_auto(env, pbl),
+                    [subterm.names(env)]
                 )
                 .map(Axiom::base),
             );
diff --git a/crates/cryptovampire/src/subterm/mod.rs b/crates/cryptovampire/src/subterm/mod.rs
index 9cccba0..cf75cf5 100644
--- a/crates/cryptovampire/src/subterm/mod.rs
+++ b/crates/cryptovampire/src/subterm/mod.rs
@@ -28,9 +28,14 @@ use crate::{
     formula::{
         file_descriptior::declare::{self, Declaration},
         formula::{self, exists, forall, meq, ARichFormula},
-        function::{self, builtin::TRUE, Function, InnerFunction},
+        function::{
+            self,
+            builtin::{FALSE, TRUE},
+            name_caster_collection::NameCasterCollection,
+            Function, InnerFunction,
+        },
         manipulation::Unifier,
-        sort::Sort,
+        sort::{builtins::NAME, Sort},
         utils::formula_expander::{UnfoldFlags, UnfoldingState},
         variable::{sorts_to_variables, Variable},
     },
@@ -252,6 +257,7 @@ where
         funs: impl Iterator<Item = Function<'bump>> + 'a,
         env: &impl KnowsRealm,
         ptcl: &'a Protocol<'bump>,
+        caster: &'a NameCasterCollection<'bump>,
         keep_guard: bool,
     ) -> impl Iterator<Item = ARichFormula<'bump>> + 'a {
         let max_var = ptcl.max_var() + 1;
@@ -281,6 +287,10 @@ where
                 keep_guard,
             );
             trace!("{}:{}:{}", file!(), line!(), column!());
+            let f = self
+                .generate_arguments(&realm, caster, fun, &x_f, &vars)
+                .into_iter()
+                .fold(f, |f, deeper| f | deeper);
             forall(
                 vars.into_iter().chain(std::iter::once(x)),
                 self.f_a(&realm, x_f.clone(), f_f) >> f,
@@ -288,6 +298,47 @@ where
         })
     }
 
+    /// The search for `x` in `fun(vars)` stops at the variables, although it might be further down.
+    ///
+    /// This looks for `x` in the arguments of `fun`, except for those that it doesn't look at when
+    /// they are names (e.g., the key of a mac)
+    fn generate_arguments(
+        &self,
+        env: &impl KnowsRealm,
+        caster: &NameCasterCollection<'bump>,
+        fun: Function<'bump>,
+        x: &ARichFormula<'bump>,
+        vars: &[Variable<'bump>],
+    ) -> Vec<ARichFormula<'bump>> {
+        let vars_f = vars.iter().map(|v| v.into_aformula()).collect_vec();
+        let looks_at = |args: &[ARichFormula<'bump>], i: usize| {
+            self.aux
+                .var_eval_and_next(&fun.f(args.iter().cloned()))
+                .nexts
+                .into_iter()
+                .any(|arg| arg == args[i])
+        };
+        let name = Variable::new(vars.iter().map(|v| v.id).max().unwrap_or(0) + 1, *NAME);
+        let deep = (0..vars.len()).filter(|&i| {
+            (vars[i].sort.is_evaluatable() || vars[i].sort == *NAME) && looks_at(&vars_f, i)
+        });
+        let deep = deep.map(|i| {
+            let deeper = self.f_a(env, x.clone(), vars_f[i].clone());
+            if caster.cast_function(&vars[i].sort).is_none() {
+                return deeper;
+            }
+            let cast = caster.cast(vars[i].sort, name);
+            let mut args = vars_f.clone();
+            args[i] = cast.clone();
+            if looks_at(&args, i) {
+                deeper
+            } else {
+                deeper & forall([name], !meq(vars_f[i].clone(), cast))
+            }
+        });
+        deep.collect()
+    }
+
     pub fn preprocess_special_assertion_from_pbl<'a>(
         &'a self,
         env: &impl KnowsRealm,
@@ -303,7 +354,13 @@ where
             })
             .cloned();
         trace!("{}:{}:{}", file!(), line!(), column!());
-        self.generate_special_functions_assertions(funs, env, pbl.protocol(), keep_guard)
+        self.generate_special_functions_assertions(
+            funs,
+            env,
+            pbl.protocol(),
+            pbl.name_caster(),
+            keep_guard,
+        )
     }
 
     /// whach out for variable clash
@@ -474,6 +531,17 @@ where
         })
     }
 
+    /// the only subterm of a name is itself
+    pub fn names(&self, env: &impl KnowsRealm) -> ARichFormula<'bump> {
+        mforall!(x!0:self.sort(), n!1:*NAME; {
+            self.f_a(env, x, n) >> if self.sort() == *NAME {
+                meq(x, n)
+            } else {
+                FALSE.clone().into()
+            }
+        })
+    }
+
     pub fn not_of_sort<'a>(
         &'a self,
         env: &impl KnowsRealm,
-- 
2.43.0


From bc7681a25e4e100bccc638d767416176796c86bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:07 +0000
Subject: [PATCH 25/29] fix: a variable bound by let is only visible in the
 body of the let

---
 crates/cryptovampire/src/parser/parser/parsable_trait.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/cryptovampire/src/parser/parser/parsable_trait.rs b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
index 5bdc03c..029cc99 100644
--- a/crates/cryptovampire/src/parser/parser/parsable_trait.rs
+++ b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
@@ -130,9 +130,14 @@ where
             t1,
             t2,
         } = self;
+        let bn = bvars.len();
         let var = var.parse(env, bvars, state, None)?;
+        // the variable is only visible in `t2`
+        let bound = bvars.split_off(bn);
         let t1 = t1.parse(env, bvars, state, Some(var.sort().into()))?;
+        bvars.extend(bound);
         let t2 = t2.parse(env, bvars, state, expected_sort)?;
+        bvars.truncate(bn);
 
         Ok(t2.apply_substitution2(&OneVarSubstF::new(var, t1)))
     }
-- 
2.43.0


From 815bf2a64fbefe845ea310e82788179da797bc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:15 +0000
Subject: [PATCH 26/29] fix: the term bound by a let is evaluated once

---
 crates/cryptovampire/src/parser/parser/parsable_trait.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/cryptovampire/src/parser/parser/parsable_trait.rs b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
index 029cc99..a3406f1 100644
--- a/crates/cryptovampire/src/parser/parser/parsable_trait.rs
+++ b/crates/cryptovampire/src/parser/parser/parsable_trait.rs
@@ -134,7 +134,12 @@ where
         let var = var.parse(env, bvars, state, None)?;
         // the variable is only visible in `t2`
         let bound = bvars.split_off(bn);
-        let t1 = t1.parse(env, bvars, state, Some(var.sort().into()))?;
+        // the variable gets evaluated where it is used
+        let realm = match var.sort().maybe_evaluated_sort() {
+            Some(_) => Realm::Symbolic,
+            None => state.get_realm(),
+        };
+        let t1 = t1.parse(env, bvars, &realm, Some(var.sort().into()))?;
         bvars.extend(bound);
         let t2 = t2.parse(env, bvars, state, expected_sort)?;
         bvars.truncate(bn);
-- 
2.43.0


From 17aa181e2ccc101c2728ba6dd8ee6a4843d67f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:44 +0000
Subject: [PATCH 27/29] fix: the variables of a subterm axiom don't clash with
 the ones bound in assertions

---
 crates/cryptovampire/src/subterm/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/cryptovampire/src/subterm/mod.rs b/crates/cryptovampire/src/subterm/mod.rs
index cf75cf5..bf65d51 100644
--- a/crates/cryptovampire/src/subterm/mod.rs
+++ b/crates/cryptovampire/src/subterm/mod.rs
@@ -260,12 +260,19 @@ where
         caster: &'a NameCasterCollection<'bump>,
         keep_guard: bool,
     ) -> impl Iterator<Item = ARichFormula<'bump>> + 'a {
-        let max_var = ptcl.max_var() + 1;
+        // the variables bound in `funs` are not always in the protocol
+        let funs = funs.collect_vec();
+        let max_bound_var = funs
+            .iter()
+            .filter_map(|f| f.as_quantifer())
+            .flat_map(|q| q.bound_variables.iter().copied())
+            .max_var();
+        let max_var = ptcl.max_var().max(max_bound_var) + 1;
         let x = Variable::new(max_var, self.sort());
         let max_var = max_var + 1;
         let x_f = x.into_aformula();
         let realm = env.get_realm();
-        funs.map(move |fun| {
+        funs.into_iter().map(move |fun| {
             debug_assert!(!fun.is_default_subterm() || self.ignored_functions.contains(&fun));
 
             let f_sorts = fun
-- 
2.43.0


From 3d882acc95d7d1e52008c25ab2ad734be01d01dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:04 +0000
Subject: [PATCH 28/29] fix: the inputs depend on the cells read by the steps,
 and the cells on the inputs they store

---
 .../src/problem/cell_dependancies/graph.rs    | 16 +-------
 .../graph/process_functions.rs                | 38 ++++++++-----------
 2 files changed, 17 insertions(+), 37 deletions(-)

diff --git a/crates/cryptovampire/src/problem/cell_dependancies/graph.rs b/crates/cryptovampire/src/problem/cell_dependancies/graph.rs
index fbe7429..02bb084 100644
--- a/crates/cryptovampire/src/problem/cell_dependancies/graph.rs
+++ b/crates/cryptovampire/src/problem/cell_dependancies/graph.rs
@@ -132,20 +132,8 @@ impl<'bump> DependancyGraph<'bump> {
 
         {
             let mut pile = Vec::new();
-            process_functions::process_steps(
-                &mut pile,
-                &steps,
-                &cells,
-                &mut input_edges,
-                &mut edges,
-            );
-            process_functions::process_cell(
-                &mut pile,
-                &steps,
-                &cells,
-                &mut input_edges,
-                &mut edges,
-            );
+            process_functions::process_steps(&mut pile, &steps, &cells, &mut input_edges);
+            process_functions::process_cell(&mut pile, &steps, &cells, &mut edges);
         }
 
         let input = InputNode {
diff --git a/crates/cryptovampire/src/problem/cell_dependancies/graph/process_functions.rs b/crates/cryptovampire/src/problem/cell_dependancies/graph/process_functions.rs
index 6c73b4d..905ce6d 100644
--- a/crates/cryptovampire/src/problem/cell_dependancies/graph/process_functions.rs
+++ b/crates/cryptovampire/src/problem/cell_dependancies/graph/process_functions.rs
@@ -33,23 +33,21 @@ use super::GlobNode;
 
 use crate::problem::step::Step;
 
-/// populate `input_edges` and `edges` using the content seen in the step definitions
+/// populate `input_edges` using the content seen in the step definitions
 ///
 /// ## arguments
 /// - `steps`: the steps of the protocol
 /// - `cells`: the cells of the protocol
-/// - `input_edges`: the edges to an input
-/// - `edges`: the other edges
+/// - `input_edges`: the edges from an input (i.e., from the steps)
 pub(crate) fn process_steps<'bump>(
     pile: &mut Vec<Content<ToNode<'bump>, ARichFormula<'bump>, ()>>,
     steps: &Vec<Step<'bump>>,
     cells: &Vec<GlobNode<'bump>>,
     input_edges: &mut Vec<Edges<'bump>>,
-    edges: &mut Vec<Edges<'bump>>,
 ) {
     for step in steps {
-        populate_edges_steps(pile, cells, step, input_edges, edges, true);
-        populate_edges_steps(pile, cells, step, input_edges, edges, false);
+        populate_edges_steps(pile, cells, step, input_edges, true);
+        populate_edges_steps(pile, cells, step, input_edges, false);
     }
 }
 
@@ -63,7 +61,6 @@ fn populate_edges_steps<'bump>(
     cells: &Vec<GlobNode<'bump>>,
     step: &Step<'bump>,
     input_edges: &mut Vec<Edges<'bump>>,
-    edges: &mut Vec<Edges<'bump>>,
     in_cond: bool,
 ) {
     // make the [FromNode]
@@ -85,15 +82,11 @@ fn populate_edges_steps<'bump>(
     iter.push_child(m, ());
 
     // push to the to nodes to the relevant arrays
-    iter.for_each(|to_node| match &to_node {
-        ToNode::Input(_) => input_edges.push(Edges {
+    iter.for_each(|to_node| {
+        input_edges.push(Edges {
             from: from.clone(),
             to: to_node,
-        }),
-        ToNode::CellCall(_) => edges.push(Edges {
-            from: from.clone(),
-            to: to_node,
-        }),
+        })
     })
 }
 
@@ -169,6 +162,10 @@ impl<'a, 'bump> FormulaIterator<ARichFormula<'bump>> for ToNodeIterator<'a, 'bum
                     // helper.push_result(to_node);
                     unreachable!()
                 }
+                InnerFunction::TermAlgebra(TermAlgebra::Quantifier(q)) => {
+                    helper.extend_child_with_default(args.iter().cloned());
+                    helper.extend_child_with_default(q.get_content_iter().cloned());
+                }
                 _ => {
                     helper.extend_child_with_default(args.iter().cloned());
                 }
@@ -181,14 +178,13 @@ impl<'a, 'bump> FormulaIterator<ARichFormula<'bump>> for ToNodeIterator<'a, 'bum
     }
 }
 
-/// populate `input_edges` and `edges` using the content seen in the cell definitions
+/// populate `edges` using the content seen in the cell definitions
 ///
 /// The `pile` is used for efficiency
 pub(crate) fn process_cell<'bump>(
     pile: &mut Vec<Content<ToNode<'bump>, ARichFormula<'bump>, ()>>,
     _steps: &[Step<'bump>],
     cells: &Vec<GlobNode<'bump>>,
-    input_edges: &mut Vec<Edges<'bump>>,
     edges: &mut Vec<Edges<'bump>>,
 ) {
     // let mut pile = Vec::new();
@@ -209,15 +205,11 @@ pub(crate) fn process_cell<'bump>(
             let mut iter = RefPile::new(pile, ToNodeIterator { cells });
             iter.push_child(content.shallow_copy(), ());
 
-            iter.for_each(|to_node| match &to_node {
-                ToNode::Input(_) => input_edges.push(Edges {
-                    from: from.clone(),
-                    to: to_node,
-                }),
-                ToNode::CellCall(_) => edges.push(Edges {
+            iter.for_each(|to_node| {
+                edges.push(Edges {
                     from: from.clone(),
                     to: to_node,
-                }),
+                })
             })
         }
     }
-- 
2.43.0


From c2331407b9a732232b1f89e6ceedbe9f8b4a9008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:19 +0000
Subject: [PATCH 29/29] fix: what a subterm search unfolds doesn't capture the
 free variables of the search

---
 .../src/formula/utils/formula_expander.rs     | 42 +++++++++++++++----
 crates/cryptovampire/src/subterm/mod.rs       |  4 +-
 2 files changed, 36 insertions(+), 10 deletions(-)

diff --git a/crates/cryptovampire/src/formula/utils/formula_expander.rs b/crates/cryptovampire/src/formula/utils/formula_expander.rs
index 43a5b41..41664d2 100644
--- a/crates/cryptovampire/src/formula/utils/formula_expander.rs
+++ b/crates/cryptovampire/src/formula/utils/formula_expander.rs
@@ -24,6 +24,7 @@ use utils::{destvec, implvec};
 use bitflags::bitflags;
 use itertools::{chain, Itertools};
 use log::trace;
+use logic_formula::iterators::UsedVariableIterator;
 bitflags! {
     /// Some flags to control the search.
     #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
@@ -58,6 +59,9 @@ pub struct UnfoldingState<'bump> {
     /// The variables bound by the search (quantifiers or otherwise)
     #[builder(setter(into), default = "Rc::new([])")]
     bound_variables: Rc<[Variable<'bump>]>, // faster than Vec in our usecase
+    /// The free variables of the search, those that shouldn't get captured
+    #[builder(setter(into), default = "Rc::new([])")]
+    free_variables: Rc<[Variable<'bump>]>,
     /// Some condition to get here
     #[builder(setter(into, strip_option), default)]
     guard: Option<ARichFormula<'bump>>,
@@ -214,7 +218,7 @@ impl<'bump> Unfolder<'bump> {
         kind: step_macro::MessageOrCondition,
     ) -> Vec<Unfolder<'bump>> {
         destvec!([arg] = args);
-        let state_variables = self.state.bound_variables();
+        let state_variables = variables_to_avoid(&self.state, args);
         steps
             .into_iter()
             .map(|s| {
@@ -225,7 +229,7 @@ impl<'bump> Unfolder<'bump> {
                 .shallow_copy();
 
                 let collision_var =
-                    make_collision_avoiding_subst(s.free_variables(), state_variables);
+                    make_collision_avoiding_subst(s.free_variables(), &state_variables);
                 let nvars = s
                     .free_variables()
                     .iter()
@@ -235,7 +239,10 @@ impl<'bump> Unfolder<'bump> {
                     nvars.iter().copied(),
                     meq(arg, s.function().f(nvars.iter().map(ARichFormula::from))),
                 );
-                Unfolder { state, content }
+                Unfolder {
+                    state,
+                    content: content.apply_substitution2(&collision_var),
+                }
             })
             .collect_vec()
     }
@@ -276,9 +283,11 @@ impl<'bump> Unfolder<'bump> {
             args.iter().cloned().collect_vec(),
         );
         let collistion_avoidance = {
-            let to_avoid = chain!(q.free_variables.iter(), self.state.bound_variables())
-                .cloned()
-                .collect_vec();
+            let to_avoid = chain!(
+                q.free_variables.iter().cloned(),
+                variables_to_avoid(&self.state, args)
+            )
+            .collect_vec();
             make_collision_avoiding_subst(q.bound_variables.iter(), &to_avoid)
         };
         let new_state = self.state.add_variables(
@@ -315,7 +324,7 @@ fn unfold_cell_or_input<'b, 'bump>(
 where
     'bump: 'b,
 {
-    let state_variables = state.bound_variables();
+    let state_variables: Rc<[Variable<'bump>]> = variables_to_avoid(state, args).into();
     // let max_var = state_variables.iter().map(|v| v.id).max().unwrap_or(0);
     trace!("expand_cell_or_input");
     let Ancestors { input, cells } = graph.ancestors(to_expand).unwrap();
@@ -324,6 +333,7 @@ where
     let step_origin = args.last().unwrap();
     let is_input = to_expand.is_input();
 
+    let cells_state_variables = Rc::clone(&state_variables);
     let cells_iter = cells.iter().flat_map(|c| c.assignements().iter()).map(
         move |ma @ Assignement {
                   step,
@@ -336,7 +346,7 @@ where
 
             let collision_var = make_collision_avoiding_subst(
                 chain!(vars.iter(), fresh_vars.iter()),
-                state_variables,
+                &cells_state_variables,
             );
 
             let step_f = step.function().f(vars.iter().map(|v| collision_var.get(v)));
@@ -364,7 +374,7 @@ where
             steps.into_iter().flat_map(move |step| {
                 trace!("in input");
                 let vars = step.free_variables();
-                let collision_var = make_collision_avoiding_subst(vars, state_variables);
+                let collision_var = make_collision_avoiding_subst(vars, &state_variables);
                 let step_f = step.function().f(vars.iter().map(|v| collision_var.get(v)));
 
                 [step.message_arc(), step.condition_arc()]
@@ -388,6 +398,20 @@ where
     itertools::chain!(cells_iter, input_iter)
 }
 
+/// the variables that can't be given to what gets unfolded
+fn variables_to_avoid<'bump>(
+    state: &UnfoldingState<'bump>,
+    args: &[ARichFormula<'bump>],
+) -> Vec<Variable<'bump>> {
+    chain!(
+        state.bound_variables.iter().copied(),
+        state.free_variables.iter().copied(),
+        UsedVariableIterator::with(args)
+    )
+    .unique()
+    .collect()
+}
+
 /// create a substitution that remaps `vars` such that it doesn't collide with `base`
 fn make_collision_avoiding_subst<'a, 'bump: 'a>(
     vars: implvec!(&'a Variable<'bump>),
diff --git a/crates/cryptovampire/src/subterm/mod.rs b/crates/cryptovampire/src/subterm/mod.rs
index bf65d51..6856ac8 100644
--- a/crates/cryptovampire/src/subterm/mod.rs
+++ b/crates/cryptovampire/src/subterm/mod.rs
@@ -11,6 +11,7 @@ use std::{
 use if_chain::if_chain;
 use itertools::Itertools;
 use log::{error, log_enabled, trace, warn};
+use logic_formula::iterators::UsedVariableIterator;
 use logic_formula::outers::OwnedPile;
 use logic_formula::{Formula, FormulaIterator};
 
@@ -480,7 +481,8 @@ where
                     warn!("collision in the variables ({:} in {:}, {:?})",x, &formula, &bounded_variables)
                 }
                 // (, formula)
-                let passing = UnfoldingStateBuilder::default().flags(deeper_kind).bound_variables(bounded_variables).build().unwrap();
+                let free_variables = UsedVariableIterator::with([x, &formula]).unique().collect_vec();
+                let passing = UnfoldingStateBuilder::default().flags(deeper_kind).bound_variables(bounded_variables).free_variables(free_variables).build().unwrap();
                 logic_formula::Content::Next { formula, passing }
             }).collect_vec();
         OwnedPile::new(
-- 
2.43.0

