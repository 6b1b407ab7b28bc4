From a1de1ef7f8ad73ad126405b7ca522cc6c89293b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 01/49] fix: return an error for non-integer and out-of-range
 literals instead of panicking

---
 core/src/parse/pallet.rs  | 11 ++++++-----
 core/src/parse/storage.rs |  2 +-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/core/src/parse/pallet.rs b/core/src/parse/pallet.rs
index 4a675c6..c0ef3c7 100644
--- a/core/src/parse/pallet.rs
+++ b/core/src/parse/pallet.rs
@@ -307,7 +307,7 @@ pub(crate) fn parse_scalar_expression(expr: &Expr) -> Result<Term<u128>> {
 	match expr {
 		Expr::Cast(cast) => parse_scalar_expression(&cast.expr),
 		Expr::Paren(expr) => parse_scalar_expression(&expr.expr),
-		Expr::Lit(lit) => Ok(Term::Scalar(lit_to_value(&lit.lit))),
+		Expr::Lit(lit) => Ok(Term::Scalar(lit_to_value(&lit.lit)?)),
 		Expr::MethodCall(call) => parse_scalar_method_call(call),
 		Expr::Path(p) => {
 			let ident = path_to_string(&p.path, Some("::"));
@@ -427,7 +427,7 @@ pub(crate) fn parse_rw_args(expr: &Punctuated<Expr, Token![,]>) -> Result<Chroma
 
 pub(crate) fn parse_rw(expr: &Expr) -> Result<ChromaticTerm> {
 	match expr {
-		Expr::Lit(lit) => Ok(ChromaticTerm::Scalar(lit_to_value(&lit.lit))),
+		Expr::Lit(lit) => Ok(ChromaticTerm::Scalar(lit_to_value(&lit.lit)?)),
 		expr => {
 			// Substrates Reads/Writes only consider ref time.
 			parse_scalar_expression(expr).map(|t| t.into_chromatic(crate::Dimension::Time))
@@ -523,10 +523,11 @@ fn parse_scalar_args(args: &Punctuated<Expr, Token![,]>) -> Result<Term<u128>> {
 	parse_scalar_expression(arg)
 }
 
-pub(crate) fn lit_to_value(lit: &Lit) -> u128 {
+pub(crate) fn lit_to_value(lit: &Lit) -> Result<u128> {
 	match lit {
-		Lit::Int(i) => i.base10_digits().parse().expect("Lit must be a valid int; qed"),
-		_ => unreachable!(),
+		Lit::Int(i) =>
+			i.base10_digits().parse().map_err(|e| format!("Invalid integer literal: {}", e)),
+		_ => Err("Expected an integer literal".into()),
 	}
 }
 
diff --git a/core/src/parse/storage.rs b/core/src/parse/storage.rs
index 21e5146..23d3055 100644
--- a/core/src/parse/storage.rs
+++ b/core/src/parse/storage.rs
@@ -169,7 +169,7 @@ fn parse_expression(expr: &Expr) -> Result<Term, String> {
 			};
 			Ok(term)
 		},
-		Expr::Lit(lit) => Ok(Term::Scalar(super::pallet::lit_to_value(&lit.lit))),
+		Expr::Lit(lit) => Ok(Term::Scalar(super::pallet::lit_to_value(&lit.lit)?)),
 		Expr::Path(p) => Ok(Term::Var(crate::term::VarValue(path_to_string(&p.path, Some("::"))))),
 		_ => Err("Unexpected expression storage expr".into()),
 	}
-- 
2.43.0


From d73ef6d562d92c5910876cf8978d6af161a91128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 02/49] fix: return an error for weight functions without an
 expression instead of panicking

---
 core/src/parse/pallet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/parse/pallet.rs b/core/src/parse/pallet.rs
index c0ef3c7..7fcf8a1 100644
--- a/core/src/parse/pallet.rs
+++ b/core/src/parse/pallet.rs
@@ -272,7 +272,7 @@ fn handle_method(
 
 	let expr = match stmt {
 		Stmt::Expr(expr, _) => expr,
-		_ => unreachable!("Expected expression"),
+		_ => return Err("The statement of a weight function must be an expression".into()),
 	};
 	let weight = match parse_expression(expr) {
 		Ok(w) => w,
-- 
2.43.0


From 38711779ff2400129bb1e9156ed14d2eea42d548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:10 +0000
Subject: [PATCH 03/49] fix: evaluate weight terms with saturating arithmetic
 instead of overflowing

---
 core/src/term.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/term.rs b/core/src/term.rs
index 8aab611..190700a 100644
--- a/core/src/term.rs
+++ b/core/src/term.rs
@@ -137,8 +137,8 @@ impl SimpleTerm {
 		match self {
 			Self::Value(x) => Ok(*x),
 			Self::Scalar(x) => Ok(*x),
-			Self::Add(x, y) => Ok(x.eval(ctx)? + y.eval(ctx)?),
-			Self::Mul(x, y) => Ok(x.eval(ctx)? * y.eval(ctx)?),
+			Self::Add(x, y) => Ok(x.eval(ctx)?.saturating_add(y.eval(ctx)?)),
+			Self::Mul(x, y) => Ok(x.eval(ctx)?.saturating_mul(y.eval(ctx)?)),
 			Self::Var(x) =>
 				if let Some(var) = ctx.get(x) {
 					var.eval(ctx)
-- 
2.43.0


From 4d1d623527c83a9a757cca8422e683892d041183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:10 +0000
Subject: [PATCH 04/49] fix: a change from zero to zero is 0% and not NaN%

---
 core/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index d0b519d..f0e1c33 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -832,6 +832,10 @@ impl RelativeChange {
 }
 
 pub fn percent(old: u128, new: u128) -> Percent {
+	// Prevents NaN for `0 / 0`.
+	if old == new {
+		return 0.0
+	}
 	100.0 * (new as f64 / old as f64) - 100.0
 }
 
-- 
2.43.0


From 7bf41a0508e0304404916f5e47516b9ff3f4bc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:10 +0000
Subject: [PATCH 05/49] fix: make the order of failed comparisons a total order

---
 core/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index f0e1c33..05d981c 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -770,6 +770,7 @@ pub fn sort_changes(diff: &mut TotalDiff) {
 impl TermDiff {
 	fn cmp(&self, other: &Self) -> Ordering {
 		match (&self, &other) {
+			(TermDiff::Failed(_), TermDiff::Failed(_)) => Ordering::Equal,
 			(TermDiff::Failed(_), _) => Ordering::Less,
 			(_, TermDiff::Failed(_)) => Ordering::Greater,
 			(TermDiff::Warning(a, _), TermDiff::Changed(b)) => a.cmp(b),
-- 
2.43.0


From bec876dcc3febf93f5da2b7756156fa31ad856c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:10 +0000
Subject: [PATCH 06/49] fix: do not print the remaining factor or drop brackets
 when a sub-term is zero

---
 core/src/term.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/src/term.rs b/core/src/term.rs
index 190700a..9ae760f 100644
--- a/core/src/term.rs
+++ b/core/src/term.rs
@@ -180,7 +180,9 @@ where
 		match self {
 			Self::Value(x) => x == &T::zero(),
 			Self::Scalar(x) => *x == 0,
-			_ => false,
+			Self::Add(l, r) => l.is_const_zero() && r.is_const_zero(),
+			Self::Mul(l, r) => l.is_const_zero() || r.is_const_zero(),
+			Self::Var(_) => false,
 		}
 	}
 
-- 
2.43.0


From 85875510632a8c725da46414cdcd10683eec2ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:10 +0000
Subject: [PATCH 07/49] fix: recognize casted and parenthesized literals as
 number of reads and writes

---
 core/src/parse/pallet.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/src/parse/pallet.rs b/core/src/parse/pallet.rs
index 7fcf8a1..468ff5d 100644
--- a/core/src/parse/pallet.rs
+++ b/core/src/parse/pallet.rs
@@ -427,6 +427,8 @@ pub(crate) fn parse_rw_args(expr: &Punctuated<Expr, Token![,]>) -> Result<Chroma
 
 pub(crate) fn parse_rw(expr: &Expr) -> Result<ChromaticTerm> {
 	match expr {
+		Expr::Cast(cast) => parse_rw(&cast.expr),
+		Expr::Paren(expr) => parse_rw(&expr.expr),
 		Expr::Lit(lit) => Ok(ChromaticTerm::Scalar(lit_to_value(&lit.lit)?)),
 		expr => {
 			// Substrates Reads/Writes only consider ref time.
-- 
2.43.0


From ead578a7fc96a94406986faabbd1937d7ee15533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:10 +0000
Subject: [PATCH 08/49] fix: find the range of components with an underscore in
 their name

---
 core/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index 05d981c..c0c6051 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -623,8 +623,10 @@ fn instance_component(
 	extrinsic: &str,
 ) -> Result<u32, String> {
 	use MinOrMax::*;
+	// The names in the ranges are stored without underscores.
+	let key = component.replace('_', "");
 
-	match (ra.as_ref().and_then(|r| r.get(component)), rb.as_ref().and_then(|r| r.get(component))) {
+	match (ra.as_ref().and_then(|r| r.get(&key)), rb.as_ref().and_then(|r| r.get(&key))) {
 		// Only one extrinsic has a component range? Good
 		(Some(r), None) | (None, Some(r)) => Ok(match strategy.min_or_max {
 			Min => r.min,
-- 
2.43.0


From f22adde8d8905816445ff8559a4b152654a1412c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:10 +0000
Subject: [PATCH 09/49] fix: report range errors of components in a
 deterministic order

---
 core/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index c0c6051..67ba9ff 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -9,7 +9,7 @@ use lazy_static::lazy_static;
 
 use std::{
 	cmp::Ordering,
-	collections::{BTreeSet, HashMap, HashSet},
+	collections::{BTreeSet, HashMap},
 	path::{Path, PathBuf},
 	process::Command,
 };
@@ -577,7 +577,7 @@ pub(crate) fn extend_scoped_components(
 ) -> Result<Vec<SimpleScope>, String> {
 	let free_a = a.map(|e| e.term.free_vars(scope)).unwrap_or_default();
 	let free_b = b.map(|e| e.term.free_vars(scope)).unwrap_or_default();
-	let frees = free_a.union(&free_b).cloned().collect::<HashSet<_>>();
+	let frees = free_a.union(&free_b).cloned().collect::<BTreeSet<_>>();
 
 	let ra = a.map(|ext| ext.clone().comp_ranges.unwrap_or_default());
 	let rb = b.map(|ext| ext.clone().comp_ranges.unwrap_or_default());
-- 
2.43.0


From 17e7b0d2e9df27145bc48b6f64c923a09d7b7a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:10 +0000
Subject: [PATCH 10/49] fix: restrict variables in one-dimensional expressions
 to their dimension

---
 core/src/term.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/core/src/term.rs b/core/src/term.rs
index 9ae760f..2e816fe 100644
--- a/core/src/term.rs
+++ b/core/src/term.rs
@@ -156,11 +156,21 @@ impl SimpleTerm {
 				Box::new(x.into_chromatic(unit)),
 				Box::new(y.into_chromatic(unit)),
 			),
-			Self::Mul(x, y) => ChromaticTerm::Mul(
-				Box::new(x.into_chromatic(unit)),
-				Box::new(y.into_chromatic(unit)),
+			// One factor carries the dimension, the other one can stay a plain variable.
+			Self::Mul(x, y) => match (*x, *y) {
+				(x, Self::Var(y)) =>
+					ChromaticTerm::Mul(Box::new(x.into_chromatic(unit)), Box::new(ChromaticTerm::Var(y))),
+				(Self::Var(x), y) =>
+					ChromaticTerm::Mul(Box::new(ChromaticTerm::Var(x)), Box::new(y.into_chromatic(unit))),
+				(x, y) => ChromaticTerm::Mul(
+					Box::new(x.into_chromatic(unit)),
+					Box::new(y.into_chromatic(unit)),
+				),
+			},
+			Self::Var(x) => ChromaticTerm::Mul(
+				Box::new(ChromaticTerm::Value(Self::scalar_into_term(1, unit))),
+				Box::new(ChromaticTerm::Var(x)),
 			),
-			Self::Var(x) => ChromaticTerm::Var(x),
 		}
 	}
 
-- 
2.43.0


From 1ecc576e1c7c2363ad725158dee103adbb33a42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:10 +0000
Subject: [PATCH 11/49] fix: separate the percentage and the old term in the
 CSV output

---
 cli/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index 290f3e4..8dc715b 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -280,7 +280,7 @@ fn print_changes_csv(
 		if format.print_terms {
 			write!(
 				row,
-				"{},",
+				",{},",
 				change.old.as_ref().map(|t| format!("{}", t)).unwrap_or_else(|| "-".into())
 			)?;
 			write!(
-- 
2.43.0


From f34553ddc3ff2f6ea6a0d1c6215ddcda4d020149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:09 +0000
Subject: [PATCH 12/49] fix: do not pass options or refspecs as refname to git

---
 core/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index 67ba9ff..121e250 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -215,6 +215,10 @@ pub fn git_checkout(
 	should_pull: bool,
 	force: bool,
 ) -> Result<(), String> {
+	// Would be interpreted as an option or as a refspec that writes local refs.
+	if refname.starts_with('-') || refname.contains(':') {
+		return Err(format!("Failed to checkout branch: Invalid refname '{}'", refname))
+	}
 	if force {
 		return git_reset(path, refname, should_pull)
 	}
-- 
2.43.0


From 7731ab042f1fb4fd7eb7ce70e9de53af67f78a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:09 +0000
Subject: [PATCH 13/49] fix: ignore files outside of the repository that match
 the path pattern

---
 core/src/lib.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index 121e250..d40077b 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -10,7 +10,7 @@ use lazy_static::lazy_static;
 use std::{
 	cmp::Ordering,
 	collections::{BTreeSet, HashMap},
-	path::{Path, PathBuf},
+	path::{Component, Path, PathBuf},
 	process::Command,
 };
 use syn::{Expr, Item, Type};
@@ -305,6 +305,17 @@ pub fn git_reset(path: &Path, refname: &str, pull: bool) -> Result<(), String> {
 	Ok(())
 }
 
+/// Whether `file` is inside of `base`. A glob like `.?` can expand to `..` and links can lead anywhere.
+fn is_inside(base: &Path, file: &Path) -> bool {
+	let relative = file.strip_prefix(base).unwrap_or(file);
+	!relative.components().any(|c| c == Component::ParentDir) &&
+		match (base.canonicalize(), file.canonicalize()) {
+			(Ok(base), Ok(file)) => file.starts_with(base),
+			// Trying to read the file will produce the error.
+			_ => true,
+		}
+}
+
 fn list_files(
 	base_path: &Path,
 	regex: &str,
@@ -320,7 +331,11 @@ fn list_files(
 		let files = files
 			.collect::<Result<Vec<_>, _>>()
 			.map_err(|e| format!("Path pattern error: {:?}", e))?;
-		let files: Vec<_> = files.iter().filter(|f| !f.ends_with("mod.rs")).cloned().collect();
+		let files: Vec<_> = files
+			.iter()
+			.filter(|f| !f.ends_with("mod.rs") && is_inside(base_path, f))
+			.cloned()
+			.collect();
 		paths.extend(files);
 		if paths.len() > max_files {
 			return Err(
-- 
2.43.0


From cda74232b2b794091f9f47fc81e0505964697b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:09 +0000
Subject: [PATCH 14/49] fix: do not move the checked out branch when using git
 reset

---
 core/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index d40077b..9f41c36 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -271,6 +271,12 @@ pub fn git_reset(path: &Path, refname: &str, pull: bool) -> Result<(), String> {
 	} else {
 		log::debug!("Not fetching branch {} (should_fetch={})", refname, pull);
 	}
+	// Detach the HEAD, otherwise the reset would move the branch that is currently checked out.
+	// This fails if there is no commit yet, in which case there is also no branch to protect.
+	let _ = Command::new("git")
+		.args(["update-ref", "--no-deref", "HEAD", "HEAD"])
+		.current_dir(path)
+		.output();
 	// try to reset with remote...
 	log::info!("Resetting to origin/{}", refname);
 	let output = Command::new("git")
-- 
2.43.0


From 7fe60bab93022928d375fa4f9adda128b347c541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:37 +0000
Subject: [PATCH 15/49] fix: resolve a new commit that is relative to HEAD
 before checking out the old one

---
 core/src/lib.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index 9f41c36..59d08b0 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -181,6 +181,9 @@ pub fn compare_commits(
 	if path_pattern.contains("..") {
 		return Err("Path pattern cannot contain '..'".into())
 	}
+	// Checking out `old` changes the `HEAD` that `new` could be relative to.
+	let new = if params.git_force { new.to_string() } else { pin_head(repo, new)? };
+	let new = new.as_str();
 	// Parse the old files.
 	if let Err(err) = git_checkout(repo, old, params.should_pull(), params.git_force) {
 		return Err(format!("{:?}", err).into())
@@ -209,6 +212,26 @@ pub fn compare_commits(
 	compare_files(olds, news, params, filter)
 }
 
+/// Resolves a refname that is relative to the current `HEAD` to a commit hash.
+fn pin_head(path: &Path, refname: &str) -> Result<String, String> {
+	let base = refname.split(['~', '^', '@']).next().unwrap_or_default();
+	if base != "HEAD" && !(base.is_empty() && refname.starts_with('@')) {
+		return Ok(refname.into())
+	}
+	let output = Command::new("git")
+		.args(["rev-parse", "--verify", refname])
+		.current_dir(path)
+		.output()
+		.map_err(|e| format!("Failed to checkout branch: {:?}", e))?;
+	if !output.status.success() {
+		return Err(format!(
+			"Failed to checkout branch: {}",
+			String::from_utf8_lossy(&output.stderr),
+		))
+	}
+	Ok(String::from_utf8_lossy(&output.stdout).trim().into())
+}
+
 pub fn git_checkout(
 	path: &Path,
 	refname: &str,
-- 
2.43.0


From a387f8c303fb83f134dfda99e05e746d570ae03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:37 +0000
Subject: [PATCH 16/49] fix: update the local branch to the fetched commit when
 pulling

---
 core/src/lib.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index 59d08b0..9089541 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -266,7 +266,29 @@ pub fn git_checkout(
 			String::from_utf8_lossy(&output.stderr),
 		))
 	}
+	if should_pull {
+		git_fast_forward(path)?;
+	}
+
+	Ok(())
+}
 
+/// Updates the checked out branch, if any, to what was fetched by [`git_pull`].
+fn git_fast_forward(path: &Path) -> Result<(), String> {
+	let git = |args: &[&str]| {
+		Command::new("git")
+			.args(args)
+			.current_dir(path)
+			.output()
+			.map_err(|e| format!("Failed to pull branch: {:?}", e))
+	};
+	if !git(&["symbolic-ref", "--quiet", "HEAD"])?.status.success() {
+		return Ok(())
+	}
+	let output = git(&["merge", "--ff-only", "FETCH_HEAD"])?;
+	if !output.status.success() {
+		return Err(format!("Failed to pull branch: {}", String::from_utf8_lossy(&output.stderr)))
+	}
 	Ok(())
 }
 
-- 
2.43.0


From cf0baa74f6605c17895d87c5c64575fed24d8ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:10 +0000
Subject: [PATCH 17/49] fix: escape refnames, file names and errors in the HTML
 output

---
 web/src/html.rs            | 3 ++-
 web/templates/compare.stpl | 8 ++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/web/src/html.rs b/web/src/html.rs
index 364064d..fc334c9 100644
--- a/web/src/html.rs
+++ b/web/src/html.rs
@@ -1,6 +1,7 @@
 #![allow(clippy::comparison_chain)] // TODO remove
 
 use actix_web::HttpResponse;
+use html_escape::encode_double_quoted_attribute;
 
 use subweight_core::{Dimension, Percent, RelativeChange, TermChange};
 
@@ -94,7 +95,7 @@ pub(crate) fn readme_link(name: &str) -> String {
 }
 
 pub(crate) fn code_link(repo_name: &str, org: &str, name: &str, file: &str, rev: &str) -> String {
-	format!("<a href=\"https://github.com/{}/{}/tree/{}/{}#:~:text=fn {}\" target=\"_blank\"><sup><small>CODE</small></sup></a>", &org, &repo_name, rev, file, name)
+	format!("<a href=\"https://github.com/{}/{}/tree/{}/{}#:~:text=fn {}\" target=\"_blank\"><sup><small>CODE</small></sup></a>", &org, &repo_name, encode_double_quoted_attribute(rev), encode_double_quoted_attribute(file), name)
 }
 
 pub(crate) fn html_color_percent(p: Percent, change: RelativeChange) -> String {
diff --git a/web/templates/compare.stpl b/web/templates/compare.stpl
index 1f02044..8522838 100644
--- a/web/templates/compare.stpl
+++ b/web/templates/compare.stpl
@@ -114,7 +114,7 @@
 		<div class="collapse" id="collapseErrors">
 			<div class="card card-body text-dark bg-light">
 				<% for err in errors { %>
-					<%- format!("{}", err) %><br>
+					<%= err %><br>
 				<% } %>
 			</div>
 		</div>
@@ -129,7 +129,7 @@
 		<div class="collapse" id="collapseWarns">
 			<div class="card card-body text-dark bg-light">
 				<% for err in warnings { %>
-					<%- format!("{}", err) %><br>
+					<%= err %><br>
 				<% } %>
 			</div>
 		</div>
@@ -153,7 +153,7 @@
 	</thead>
 	<tbody>
 		<% for (info, change) in diff.iter().filter_map(|c| c.term().map(|t| (c, t))) { %>
-			<tr id=<%- format!("\"{}.{}\"", &info.file, &info.name) %>>
+			<tr id="<%= info.file %>.<%= info.name %>">
 				<td>
 					<%= info.file %>
 				</td>
@@ -164,7 +164,7 @@
 				<% } %>
 					<%= info.name %>
 					<sup>
-						<a href=<%- format!("\"#{}.{}\"", &info.file, &info.name) %>>🔗</a>
+						<a href="#<%= info.file %>.<%= info.name %>">🔗</a>
 					</sup>
 				</td>
 
-- 
2.43.0


From 6ee68b08eec83423b6fea9eab8171d7d6494c4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:58 +0000
Subject: [PATCH 18/49] fix: check the number of reads and writes of
 one-dimensional weights as well

---
 core/src/term.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/core/src/term.rs b/core/src/term.rs
index 2e816fe..b67e1d9 100644
--- a/core/src/term.rs
+++ b/core/src/term.rs
@@ -6,7 +6,10 @@ use serde::{Deserialize, Serialize};
 use std::{collections::BTreeSet as Set, fmt};
 use syn::{BinOp, ExprBinary};
 
-use crate::{scope::Scope, traits::*};
+use crate::{
+	scope::{Scope, STORAGE_READ_VAR, STORAGE_WRITE_VAR},
+	traits::*,
+};
 
 /// A symbolic term that can be used to express simple arithmetic.
 ///
@@ -158,6 +161,11 @@ impl SimpleTerm {
 			),
 			// One factor carries the dimension, the other one can stay a plain variable.
 			Self::Mul(x, y) => match (*x, *y) {
+				// The number of storage operations is dimensionless, they only cost time.
+				(Self::Scalar(x), Self::Var(y))
+					if unit == crate::Dimension::Time &&
+						(*y == STORAGE_READ_VAR || *y == STORAGE_WRITE_VAR) =>
+					ChromaticTerm::Mul(Box::new(ChromaticTerm::Scalar(x)), Box::new(ChromaticTerm::Var(y))),
 				(x, Self::Var(y)) =>
 					ChromaticTerm::Mul(Box::new(x.into_chromatic(unit)), Box::new(ChromaticTerm::Var(y))),
 				(Self::Var(x), y) =>
-- 
2.43.0


From 521117b91344e005d27b2e3b360e3fe782e68280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:33 +0000
Subject: [PATCH 19/49] fix: quote file names with commas or quotes in the CSV
 output

---
 cli/src/main.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index 8dc715b..3b95f87 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -270,8 +270,8 @@ fn print_changes_csv(
 	for (info, change) in per_extrinsic.iter().filter_map(|p| p.term().map(|t| (p, t))) {
 		let mut row = format!(
 			"{},{},{},{},{}",
-			info.file.clone(),
-			info.name.clone(),
+			csv_field(&info.file),
+			csv_field(&info.name),
 			change.old_v.map(|v| unit.fmt_value(v)).unwrap_or_default(),
 			change.new_v.map(|v| unit.fmt_value(v)).unwrap_or_default(),
 			color_percent(change.percent, &change.change, format.no_color),
@@ -297,6 +297,15 @@ fn print_changes_csv(
 	Ok(output)
 }
 
+/// Quotes a field that would otherwise be split or misread.
+fn csv_field(s: &str) -> String {
+	if s.contains([',', '"', '\n', '\r']) {
+		format!("\"{}\"", s.replace('"', "\"\""))
+	} else {
+		s.into()
+	}
+}
+
 fn print_changes_human(
 	per_extrinsic: TotalDiff,
 	verbose: bool,
-- 
2.43.0


From a2220a479577a8758bffa0c043fcf212224f8590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:14 +0000
Subject: [PATCH 20/49] fix: do not check out a path when the refname is not
 known

---
 core/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index 9089541..253d8c7 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -256,6 +256,8 @@ pub fn git_checkout(
 	let output = Command::new("git")
 		.arg("checkout")
 		.arg(refname)
+		// Otherwise a path is accepted as well, which does not change the commit.
+		.arg("--")
 		.current_dir(path)
 		.output()
 		.map_err(|e| format!("Failed to checkout branch: {:?}", e))?;
-- 
2.43.0


From f31d68d142dd3435156ec228af002dc13d10b856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:33 +0000
Subject: [PATCH 21/49] fix: report a failed reset instead of comparing another
 commit

---
 core/src/lib.rs | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index 253d8c7..5e70b0d 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -284,9 +284,14 @@ fn git_fast_forward(path: &Path) -> Result<(), String> {
 			.output()
 			.map_err(|e| format!("Failed to pull branch: {:?}", e))
 	};
-	if !git(&["symbolic-ref", "--quiet", "HEAD"])?.status.success() {
+	let output = git(&["symbolic-ref", "--quiet", "HEAD"])?;
+	// Exits with 1 if no branch is checked out.
+	if output.status.code() == Some(1) {
 		return Ok(())
 	}
+	if !output.status.success() {
+		return Err(format!("Failed to pull branch: {}", String::from_utf8_lossy(&output.stderr)))
+	}
 	let output = git(&["merge", "--ff-only", "FETCH_HEAD"])?;
 	if !output.status.success() {
 		return Err(format!("Failed to pull branch: {}", String::from_utf8_lossy(&output.stderr)))
@@ -319,11 +324,15 @@ pub fn git_reset(path: &Path, refname: &str, pull: bool) -> Result<(), String> {
 		log::debug!("Not fetching branch {} (should_fetch={})", refname, pull);
 	}
 	// Detach the HEAD, otherwise the reset would move the branch that is currently checked out.
-	// This fails if there is no commit yet, in which case there is also no branch to protect.
-	let _ = Command::new("git")
+	let output = Command::new("git")
 		.args(["update-ref", "--no-deref", "HEAD", "HEAD"])
 		.current_dir(path)
-		.output();
+		.output()
+		.map_err(|e| format!("Failed to reset branch: {:?}", e))?;
+	// This also fails if there is no commit yet, in which case there is no branch to protect.
+	if !output.status.success() && git_ref_exists(path, "HEAD") {
+		return Err(format!("Failed to reset branch: {}", String::from_utf8_lossy(&output.stderr)))
+	}
 	// try to reset with remote...
 	log::info!("Resetting to origin/{}", refname);
 	let output = Command::new("git")
@@ -336,10 +345,16 @@ pub fn git_reset(path: &Path, refname: &str, pull: bool) -> Result<(), String> {
 	match output {
 		Err(err) => log::info!("Failed to reset to origin/{}: {}", refname, err),
 		Ok(output) =>
-			if !output.status.success() {
-				log::warn!("Failed to reset to: origin/{}", String::from_utf8_lossy(&output.stderr))
-			} else {
+			if output.status.success() {
 				return Ok(())
+			} else if git_ref_exists(path, &format!("origin/{}", refname)) {
+				// Another commit than the one of the remote would be used otherwise.
+				return Err(format!(
+					"Failed to reset branch: {}",
+					String::from_utf8_lossy(&output.stderr)
+				))
+			} else {
+				log::warn!("Failed to reset to: origin/{}", String::from_utf8_lossy(&output.stderr))
 			},
 	}
 	// Try resetting without remote.
@@ -358,6 +373,14 @@ pub fn git_reset(path: &Path, refname: &str, pull: bool) -> Result<(), String> {
 	Ok(())
 }
 
+fn git_ref_exists(path: &Path, refname: &str) -> bool {
+	Command::new("git")
+		.args(["rev-parse", "--quiet", "--verify", refname])
+		.current_dir(path)
+		.output()
+		.map_or(false, |o| o.status.success())
+}
+
 /// Whether `file` is inside of `base`. A glob like `.?` can expand to `..` and links can lead anywhere.
 fn is_inside(base: &Path, file: &Path) -> bool {
 	let relative = file.strip_prefix(base).unwrap_or(file);
-- 
2.43.0


From 76c1b690b57e8fd5e18022d44eb3fda093ab269c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:33 +0000
Subject: [PATCH 22/49] fix: reset to a branch or tag that has the name of a
 file

---
 core/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index 5e70b0d..0c5881d 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -339,6 +339,8 @@ pub fn git_reset(path: &Path, refname: &str, pull: bool) -> Result<(), String> {
 		.arg("reset")
 		.arg("--hard")
 		.arg(format!("origin/{}", refname))
+		// The refname could also be the name of a file.
+		.arg("--")
 		.current_dir(path)
 		.output();
 	// Ignore any errors and try again without `origin/` prefix.
@@ -363,6 +365,7 @@ pub fn git_reset(path: &Path, refname: &str, pull: bool) -> Result<(), String> {
 		.arg("reset")
 		.arg("--hard")
 		.arg(refname)
+		.arg("--")
 		.current_dir(path)
 		.output()
 		.map_err(|e| format!("Failed to reset branch: {:?}", e))?;
-- 
2.43.0


From 423eedc508e54c67a190e5ac1e1abcc0b6e778cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:33 +0000
Subject: [PATCH 23/49] fix: do not interpret the path of the repository as a
 pattern

---
 core/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index 0c5881d..88754c1 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -404,7 +404,7 @@ fn list_files(
 
 	let mut paths = Vec::new();
 	for regex in regex {
-		let regex = format!("{}/{}", base_path.display(), regex);
+		let regex = format!("{}/{}", glob::Pattern::escape(&base_path.display().to_string()), regex);
 		log::info!("Listing files matching: {:?}", &regex);
 		let files = glob::glob(&regex).map_err(|e| format!("Invalid path pattern: {:?}", e))?;
 		let files = files
-- 
2.43.0


From 1da757511d97586269911a5b15aea39521564347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:41 +0000
Subject: [PATCH 24/49] fix: compare neither directories nor files in .git

---
 core/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index 88754c1..a1b4109 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -387,7 +387,9 @@ fn git_ref_exists(path: &Path, refname: &str) -> bool {
 /// Whether `file` is inside of `base`. A glob like `.?` can expand to `..` and links can lead anywhere.
 fn is_inside(base: &Path, file: &Path) -> bool {
 	let relative = file.strip_prefix(base).unwrap_or(file);
-	!relative.components().any(|c| c == Component::ParentDir) &&
+	// Refs can be named like weight files.
+	!relative.starts_with(".git") &&
+		!relative.components().any(|c| c == Component::ParentDir) &&
 		match (base.canonicalize(), file.canonicalize()) {
 			(Ok(base), Ok(file)) => file.starts_with(base),
 			// Trying to read the file will produce the error.
@@ -412,7 +414,7 @@ fn list_files(
 			.map_err(|e| format!("Path pattern error: {:?}", e))?;
 		let files: Vec<_> = files
 			.iter()
-			.filter(|f| !f.ends_with("mod.rs") && is_inside(base_path, f))
+			.filter(|f| !f.is_dir() && !f.ends_with("mod.rs") && is_inside(base_path, f))
 			.cloned()
 			.collect();
 		paths.extend(files);
-- 
2.43.0


From 7e8a4102cc2d3f80d1e791824a92875f00916877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:35 +0000
Subject: [PATCH 25/49] fix: only fast-forward the branch that was pulled

---
 core/src/lib.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index a1b4109..02e6fd6 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -269,14 +269,14 @@ pub fn git_checkout(
 		))
 	}
 	if should_pull {
-		git_fast_forward(path)?;
+		git_fast_forward(path, refname)?;
 	}
 
 	Ok(())
 }
 
-/// Updates the checked out branch, if any, to what was fetched by [`git_pull`].
-fn git_fast_forward(path: &Path) -> Result<(), String> {
+/// Updates the branch `refname`, if it is checked out, to what was fetched by [`git_pull`].
+fn git_fast_forward(path: &Path, refname: &str) -> Result<(), String> {
 	let git = |args: &[&str]| {
 		Command::new("git")
 			.args(args)
@@ -284,14 +284,14 @@ fn git_fast_forward(path: &Path) -> Result<(), String> {
 			.output()
 			.map_err(|e| format!("Failed to pull branch: {:?}", e))
 	};
-	let output = git(&["symbolic-ref", "--quiet", "HEAD"])?;
-	// Exits with 1 if no branch is checked out.
-	if output.status.code() == Some(1) {
-		return Ok(())
-	}
+	// Prints `HEAD` if no branch is checked out.
+	let output = git(&["rev-parse", "--symbolic-full-name", "HEAD"])?;
 	if !output.status.success() {
 		return Err(format!("Failed to pull branch: {}", String::from_utf8_lossy(&output.stderr)))
 	}
+	if String::from_utf8_lossy(&output.stdout).trim() != format!("refs/heads/{}", refname) {
+		return Ok(())
+	}
 	let output = git(&["merge", "--ff-only", "FETCH_HEAD"])?;
 	if !output.status.success() {
 		return Err(format!("Failed to pull branch: {}", String::from_utf8_lossy(&output.stderr)))
-- 
2.43.0


From 0c360af116651146e2a87f994f1e954346bd5c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:01 +0000
Subject: [PATCH 26/49] fix: name files relative to repositories given as
 ./path

The paths found by glob do not start with `./`, so it could not be stripped
and files in `.git` were not recognised.
---
 core/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index 02e6fd6..90acc5c 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -181,6 +181,10 @@ pub fn compare_commits(
 	if path_pattern.contains("..") {
 		return Err("Path pattern cannot contain '..'".into())
 	}
+	// The paths of the files do not start with something like `./repo`.
+	let repo = &repo
+		.canonicalize()
+		.map_err(|e| format!("Could not open repository {}: {}", repo.display(), e))?;
 	// Checking out `old` changes the `HEAD` that `new` could be relative to.
 	let new = if params.git_force { new.to_string() } else { pin_head(repo, new)? };
 	let new = new.as_str();
-- 
2.43.0


From 24aa64fde80f92b3cddc257a6e07452619b26a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:40 +0000
Subject: [PATCH 27/49] fix: show the absolute change of values beyond i128

It had the wrong sign or panicked.
---
 web/src/html.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/web/src/html.rs b/web/src/html.rs
index fc334c9..958b359 100644
--- a/web/src/html.rs
+++ b/web/src/html.rs
@@ -119,14 +119,14 @@ pub(crate) fn html_color_percent(p: Percent, change: RelativeChange) -> String {
 pub(crate) fn html_color_abs(change: &TermChange, unit: Dimension) -> String {
 	match change.change {
 		RelativeChange::Changed => {
-			let diff = change.new_v.unwrap() as i128 - change.old_v.unwrap() as i128;
-			if diff < 0 {
-				format!("<p style='color:green'>-{}</p>", unit.fmt_value(diff.unsigned_abs()))
-			} else if diff > 0 {
-				format!("<p style='color:red'>+{}</p>", unit.fmt_value(diff.unsigned_abs()))
+			let (old, new) = (change.old_v.unwrap(), change.new_v.unwrap());
+			let diff = unit.fmt_value(new.abs_diff(old));
+			if new < old {
+				format!("<p style='color:green'>-{}</p>", diff)
+			} else if new > old {
+				format!("<p style='color:red'>+{}</p>", diff)
 			} else {
-				// 0 or NaN
-				format!("{:.0?}", diff)
+				"0".into()
 			}
 		},
 		RelativeChange::Unchanged => "<p style='color:gray'>Unchanged</p>".into(),
@@ -154,7 +154,15 @@ fn order_percent(change: &TermChange) -> i128 {
 
 fn order_abs(change: &TermChange) -> i128 {
 	match change.change {
-		RelativeChange::Changed => change.new_v.unwrap() as i128 - change.old_v.unwrap() as i128,
+		RelativeChange::Changed => {
+			let (old, new) = (change.old_v.unwrap(), change.new_v.unwrap());
+			let diff = i128::try_from(new.abs_diff(old)).unwrap_or(i128::MAX);
+			if new < old {
+				-diff
+			} else {
+				diff
+			}
+		},
 		RelativeChange::Unchanged => 0,
 		RelativeChange::Added => i128::MAX,
 		RelativeChange::Removed => i128::MIN,
-- 
2.43.0


From db164a6896139eb8e92cb577e70104c0bcb06779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:16 +0000
Subject: [PATCH 28/49] fix: answer requests when git prints errors that are
 not UTF-8

---
 web/src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/web/src/main.rs b/web/src/main.rs
index 28b9420..0bce955 100644
--- a/web/src/main.rs
+++ b/web/src/main.rs
@@ -236,7 +236,7 @@ async fn branches(req: HttpRequest) -> Result<impl Responder> {
 				)
 			})?;
 		if !output.status.success() {
-			let err = String::from_utf8(output.stderr).unwrap();
+			let err = String::from_utf8_lossy(&output.stderr);
 			log::error!("Failed to fetch branches: '{}'", &err);
 
 			return Err(std::io::Error::new(
@@ -253,7 +253,7 @@ async fn branches(req: HttpRequest) -> Result<impl Responder> {
 		.current_dir(repo.path.deref())
 		.output()?;
 	if !output.status.success() {
-		let err = String::from_utf8(output.stderr).unwrap();
+		let err = String::from_utf8_lossy(&output.stderr);
 		log::error!("Failed to list branches: {}", &err);
 		return Err(std::io::Error::new(
 			std::io::ErrorKind::Other,
-- 
2.43.0


From 1a5510a993d2ce423e6f1a8314a282d9967cbf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:16 +0000
Subject: [PATCH 29/49] fix: list branches whose names contain refs/heads/ or
 refs/tags/

Only the prefix is not part of the name.
---
 web/src/main.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/web/src/main.rs b/web/src/main.rs
index 0bce955..6038b13 100644
--- a/web/src/main.rs
+++ b/web/src/main.rs
@@ -267,13 +267,15 @@ async fn branches(req: HttpRequest) -> Result<impl Responder> {
 		.lines()
 		// Some tags contain weird stuff like {} or ^, let's filter those out.
 		.filter(|l| !l.contains('{') && !l.contains('^'))
-		.map(|l| l.replace("refs/heads/", ""))
-		.map(|l| l.replace("refs/tags/", ""))
 		// Split at whitespace and use the first part as the branch name
 		// and the second as commit hash.
 		.map(|l| {
 			let splits = l.split_whitespace().collect::<Vec<&str>>();
-			(splits[1].to_string(), splits[0][..12].to_string())
+			let name = splits[1]
+				.strip_prefix("refs/heads/")
+				.or_else(|| splits[1].strip_prefix("refs/tags/"))
+				.unwrap_or(splits[1]);
+			(name.to_string(), splits[0][..12].to_string())
 		})
 		.collect::<Vec<(String, String)>>();
 
-- 
2.43.0


From 4365ad94f8379f2eb33f9070d3c9aa331a4acf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:49 +0000
Subject: [PATCH 30/49] fix: percent-encode revision and file name in the code
 links of the web page

---
 web/src/html.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/web/src/html.rs b/web/src/html.rs
index 958b359..c59e13b 100644
--- a/web/src/html.rs
+++ b/web/src/html.rs
@@ -95,7 +95,10 @@ pub(crate) fn readme_link(name: &str) -> String {
 }
 
 pub(crate) fn code_link(repo_name: &str, org: &str, name: &str, file: &str, rev: &str) -> String {
-	format!("<a href=\"https://github.com/{}/{}/tree/{}/{}#:~:text=fn {}\" target=\"_blank\"><sup><small>CODE</small></sup></a>", &org, &repo_name, encode_double_quoted_attribute(rev), encode_double_quoted_attribute(file), name)
+	// These would otherwise end the path part of the URL.
+	let path = |s: &str| s.replace('%', "%25").replace('#', "%23").replace('?', "%3F");
+	let (rev, file) = (path(rev), path(file));
+	format!("<a href=\"https://github.com/{}/{}/tree/{}/{}#:~:text=fn {}\" target=\"_blank\"><sup><small>CODE</small></sup></a>", &org, &repo_name, encode_double_quoted_attribute(&rev), encode_double_quoted_attribute(&file), name)
 }
 
 pub(crate) fn html_color_percent(p: Percent, change: RelativeChange) -> String {
-- 
2.43.0


From b25dd1c2735f4397712a1fd8a0490347987bde0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:35 +0000
Subject: [PATCH 31/49] fix: report names that a filter gives up on instead of
 dropping their rows

---
 core/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index 90acc5c..55600a3 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -812,11 +812,11 @@ pub fn compare_files(
 	log::trace!("Comparing {} terms", olds.len());
 
 	for (pallet, extrinsic) in names {
-		if !pallet_regex.as_ref().map_or(true, |r| r.is_match(&pallet).unwrap_or_default()) {
+		if !pallet_regex.as_ref().map_or(Ok(true), |r| r.is_match(&pallet))? {
 			// TODO add "skipped" or "ignored" result type.
 			continue
 		}
-		if !ext_regex.as_ref().map_or(true, |r| r.is_match(&extrinsic).unwrap_or_default()) {
+		if !ext_regex.as_ref().map_or(Ok(true), |r| r.is_match(&extrinsic))? {
 			continue
 		}
 
-- 
2.43.0


From c97445af7ab0d3d02b0e8af750aabe6b8ae60156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:35 +0000
Subject: [PATCH 32/49] fix: repositories with upper-case names can be used
 from the start page

---
 web/templates/root.stpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/templates/root.stpl b/web/templates/root.stpl
index b28a510..e95058e 100644
--- a/web/templates/root.stpl
+++ b/web/templates/root.stpl
@@ -43,7 +43,7 @@
 										<p>Please select a repository. There are <var><%= repos.len() %></var> available.</p>
 										<select class="form-control js-example-basic-single" id="repoSelect" style="width: 100%;">
 											<% for repo in repos { %>
-												<option value="<%= repo.to_lowercase() %>"><%= repo %></option>
+												<option value="<%= repo %>"><%= repo %></option>
 											<% } %>
 										</select>
 									</div>
-- 
2.43.0


From bb1a71e9d21c7f6fa11d06166b03fff5a1fb2b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:09 +0000
Subject: [PATCH 33/49] fix: quote the values of the repository selectors

---
 web/templates/compare.stpl        | 2 +-
 web/templates/merge_requests.stpl | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/web/templates/compare.stpl b/web/templates/compare.stpl
index 8522838..a34c7d8 100644
--- a/web/templates/compare.stpl
+++ b/web/templates/compare.stpl
@@ -32,7 +32,7 @@
 				<td>
 					<select id="select_repo">
 						<% for repo in repos.iter() { %>
-							<option value=<%= repo %> <%- if &args.repo == repo { "selected" } else { "" } %>><%= repo %></option>
+							<option value="<%= repo %>" <%- if &args.repo == repo { "selected" } else { "" } %>><%= repo %></option>
 						<% } %>
 					</select>
 				</td>
diff --git a/web/templates/merge_requests.stpl b/web/templates/merge_requests.stpl
index 9e14d9a..39176a4 100644
--- a/web/templates/merge_requests.stpl
+++ b/web/templates/merge_requests.stpl
@@ -48,7 +48,7 @@
 				<div class="col">
 					Repo: <select id="select_repo">
 						<% for repo in repos.iter() { %>
-							<option value=<%= format!("{}:{}", &repo.organization, &repo.name) %>><%= format!("{}:{}", &repo.organization, &repo.name) %></option>
+							<option value="<%= format!("{}:{}", &repo.organization, &repo.name) %>"><%= format!("{}:{}", &repo.organization, &repo.name) %></option>
 						<% } %>
 					</select>
 				</div>
-- 
2.43.0


From 08c494b776a767e9dbe857b597a93a4e2e19978c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:05 +0000
Subject: [PATCH 34/49] fix: show titles and refs of merge requests as text

---
 web/static/merge_requests.js | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/web/static/merge_requests.js b/web/static/merge_requests.js
index 46f21f1..d01814d 100644
--- a/web/static/merge_requests.js
+++ b/web/static/merge_requests.js
@@ -50,6 +50,8 @@ $(document).ready(function () {
 		},
 		autoWidth: false,
 		responsive: true,
+		// Titles and refs come from anybody, they are no HTML.
+		columnDefs: [{ targets: '_all', render: $.fn.dataTable.render.text() }],
 		fixedColumns:   {
             heightMatch: 'none'
         },
-- 
2.43.0


From ef8d10596ad971143e81de33cbb33c0277e30462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:05 +0000
Subject: [PATCH 35/49] fix: list merge requests of deleted forks

---
 web/static/merge_requests.js | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/web/static/merge_requests.js b/web/static/merge_requests.js
index d01814d..ed0bb8f 100644
--- a/web/static/merge_requests.js
+++ b/web/static/merge_requests.js
@@ -11,6 +11,11 @@ function should_highlight(mr) {
 	return text || branch;
 }
 
+// The owner of the repository that the merge request comes from. There is none if it was deleted.
+function head_owner(mr) {
+	return mr.head.repo ? mr.head.repo.owner.login : "(deleted)";
+}
+
 // Expose URL params as vars.
 //
 // Example: $.param('var_name');
@@ -109,10 +114,10 @@ $(document).ready(function () {
 			let disable = (function (mr) {
 				// Disable the row.
 				$(row).css('color', 'gray');
-				$(row).attr('title', 'Forks are unsupported. Remote: ' + mr['head']['repo']['owner']['login'] + ' != ' + owner);
+				$(row).attr('title', 'Forks are unsupported. Remote: ' + head_owner(mr) + ' != ' + owner);
 			});
 
-			if (mr['head']['repo']['owner']['login'] != owner) {
+			if (head_owner(mr) != owner) {
 				$(row).css('color', 'gray');
 				disable(mr);
 			} else {
-- 
2.43.0


From 2cae865c9c2bdd5925bd75e934dbdc75697ff492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:05 +0000
Subject: [PATCH 36/49] fix: encode repositories and refs in the links to
 comparisons

---
 web/static/merge_requests.js |  6 ++++--
 web/static/root.js           | 10 +++++-----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/web/static/merge_requests.js b/web/static/merge_requests.js
index ed0bb8f..7fa70c7 100644
--- a/web/static/merge_requests.js
+++ b/web/static/merge_requests.js
@@ -97,9 +97,11 @@ $(document).ready(function () {
 				$(row).dblclick(function() {
 					loading(true);
 					let params = new URLSearchParams(default_params(repo));
-					let url = "/compare?" + params.toString() + `&old=${mr.base.ref}&new=${mr.head.ref}`;
+					params.set("old", mr.base.ref);
+					params.set("new", mr.head.ref);
+					let url = "/compare?" + params.toString();
 					console.log("Opening: " + url);
-					$.getJSON("/branches?repo=" + repo + "&fetch=true", function (d) {
+					$.getJSON("/branches?repo=" + encodeURIComponent(repo) + "&fetch=true", function (d) {
 						loading(false);
 						window.location.href = url;
 					}).done(function () {
diff --git a/web/static/root.js b/web/static/root.js
index 01b4834..2bf3687 100644
--- a/web/static/root.js
+++ b/web/static/root.js
@@ -63,7 +63,7 @@ function load_branches(repo, fetch) {
     if (!(repo in branches) || fetch) {
         loading(true);
         console.log("Loading branches for " + repo);
-        $.getJSON("/branches?repo=" + repo + "&fetch=" + (fetch ? "true" : "false"), function (d) {
+        $.getJSON("/branches?repo=" + encodeURIComponent(repo) + "&fetch=" + (fetch ? "true" : "false"), function (d) {
             let data = d['branch'];
             branches[repo] = data;
         }).done(function () {
@@ -148,12 +148,12 @@ $(document).ready(function () {
         const repo = $('#repoSelect').val();
 
         var url = "/compare?unit=weight&ignore_errors=true&threshold=10&method=asymptotic";
-        url += "&repo=" + repo;
-        url += "&old=" + $('#firstSelect').val();
-        url += "&new=" + $('#secondSelect').val();
+        url += "&repo=" + encodeURIComponent(repo);
+        url += "&old=" + encodeURIComponent($('#firstSelect').val());
+        url += "&new=" + encodeURIComponent($('#secondSelect').val());
 
         if (repo in path_pattern_presets) {
-            url += "&path_pattern=" + path_pattern_presets[repo];
+            url += "&path_pattern=" + encodeURIComponent(path_pattern_presets[repo]);
         } else {
             // Show an alert
             alert("No path pattern for '" + repo + "'");
-- 
2.43.0


From 25e715fc5e50ebcf6e86782c96b94d031ce2ed9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:19 +0000
Subject: [PATCH 37/49] fix: a failing fetch leaves the list of merge requests
 usable

---
 web/static/merge_requests.js | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/web/static/merge_requests.js b/web/static/merge_requests.js
index 7fa70c7..246426a 100644
--- a/web/static/merge_requests.js
+++ b/web/static/merge_requests.js
@@ -104,10 +104,9 @@ $(document).ready(function () {
 					$.getJSON("/branches?repo=" + encodeURIComponent(repo) + "&fetch=true", function (d) {
 						loading(false);
 						window.location.href = url;
-					}).done(function () {
-						populate_branches(branches[repo]);
+					}).fail(function () {
 						loading(false);
-					});					
+					});
 				});
 				/*$(row).click(function() {
 					window.location.href = mr.html_url;
-- 
2.43.0


From a7e6a3ad6301d3b5464a692fcf256b2c7ebf6e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:19 +0000
Subject: [PATCH 38/49] fix: show the branches of the selected repository, and
 end loading when they cannot be listed

---
 web/static/root.js | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/web/static/root.js b/web/static/root.js
index 2bf3687..7d48435 100644
--- a/web/static/root.js
+++ b/web/static/root.js
@@ -67,7 +67,10 @@ function load_branches(repo, fetch) {
             let data = d['branch'];
             branches[repo] = data;
         }).done(function () {
-            populate_branches(branches[repo]);
+            // Another repo could have been selected in the meantime.
+            if ($('#repoSelect').val() === repo)
+                populate_branches(branches[repo]);
+        }).always(function () {
             loading(false);
         });
     } else {
-- 
2.43.0


From b19dd9db56e1b9c47e8d4930761f495487c9917f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:19 +0000
Subject: [PATCH 39/49] fix: restore the last selection

---
 web/static/root.js | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/web/static/root.js b/web/static/root.js
index 7d48435..a6efc1d 100644
--- a/web/static/root.js
+++ b/web/static/root.js
@@ -40,7 +40,7 @@ function populate_branches(branches) {
 
     // Load the selected branch from local storage or master.
     var selected_first = localStorage.getItem(lsk_selected_first);
-    if (selected_first != null && branches.includes(selected_first)) {
+    if (selected_first != null && branches.some(b => b[0] === selected_first)) {
         console.debug("Setting first branch to " + selected_first);
         $('#firstSelect').val(selected_first).trigger('change');
     } else {
@@ -49,7 +49,7 @@ function populate_branches(branches) {
     }
 
     var selected_second = localStorage.getItem(lsk_selected_second);
-    if (selected_second != null && branches.includes(selected_second)) {
+    if (selected_second != null && branches.some(b => b[0] === selected_second)) {
         console.debug("Setting second branch to " + selected_second);
         $('#secondSelect').val(selected_second).trigger('change');
     } else {
@@ -203,7 +203,7 @@ $(document).ready(function () {
 
     // Load the repo that was last selected
     var selected_repo = localStorage.getItem(lsk_selected_repo);
-    if (selected_repo && selected_repo in branches) {
+    if (selected_repo && $('#repoSelect option').is((_, o) => o.value === selected_repo)) {
         console.debug("Loading last selected repo: " + selected_repo);
         $('#repoSelect').val(selected_repo).trigger('change');
     } else {
-- 
2.43.0


From 558aca8d442c5a792afd7c123fc5eeba5cbc68b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:19 +0000
Subject: [PATCH 40/49] fix: both buttons fetch the branches

---
 web/static/root.js      | 2 +-
 web/templates/root.stpl | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/web/static/root.js b/web/static/root.js
index a6efc1d..ec27d1f 100644
--- a/web/static/root.js
+++ b/web/static/root.js
@@ -194,7 +194,7 @@ $(document).ready(function () {
         console.debug("Storing second branch as " + $(this).val());
     });
 
-    $('#fetch').click(function () {
+    $('.fetch').click(function () {
         const repo = $('#repoSelect').val();
         if (repo === null)
             return;
diff --git a/web/templates/root.stpl b/web/templates/root.stpl
index e95058e..c27cdef 100644
--- a/web/templates/root.stpl
+++ b/web/templates/root.stpl
@@ -53,7 +53,7 @@
 								<fieldset>
 									<div class="form-card">
 										<h2 class="fs-title">First commit</h2>
-										<p>Please select the first commit hash, tag or branch that you would like to use as <i>baseline</i> for your comparison. You can <button type="button" class="btn btn-link" id="fetch">fetch</button> if you think that your branch is missing from this list. There are <var class="branchCount">?</var> available.</p>
+										<p>Please select the first commit hash, tag or branch that you would like to use as <i>baseline</i> for your comparison. You can <button type="button" class="btn btn-link fetch">fetch</button> if you think that your branch is missing from this list. There are <var class="branchCount">?</var> available.</p>
 										<select class="form-control js-example-basic-single" id="firstSelect" style="width: 100%;">
 										</select>
 									</div>
@@ -65,7 +65,7 @@
 								<fieldset>
 									<div class="form-card">
 										<h2 class="fs-title">Second Commit</h2>
-										<p>Please select the second branch that you would like to compare with. You can <button type="button" class="btn btn-link" id="fetch">fetch</button> if you think that your branch is missing from this list. There are <var class="branchCount">?</var> available.</p>
+										<p>Please select the second branch that you would like to compare with. You can <button type="button" class="btn btn-link fetch">fetch</button> if you think that your branch is missing from this list. There are <var class="branchCount">?</var> available.</p>
 										<select class="form-control js-example-basic-single" id="secondSelect" style="width: 100%;">
 										</select>
 									</div>
-- 
2.43.0


From d0f5a55f3ed5a9d893b6721f9ec60df0f1eb31fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:59 +0000
Subject: [PATCH 41/49] fix: a repository without path pattern does not leave
 the list of merge requests loading

---
 web/static/merge_requests.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/static/merge_requests.js b/web/static/merge_requests.js
index 246426a..c058b4b 100644
--- a/web/static/merge_requests.js
+++ b/web/static/merge_requests.js
@@ -95,12 +95,12 @@ $(document).ready(function () {
 			// Create a double-click handler for the row:
 			let click_compare = (function (mr) {
 				$(row).dblclick(function() {
-					loading(true);
 					let params = new URLSearchParams(default_params(repo));
 					params.set("old", mr.base.ref);
 					params.set("new", mr.head.ref);
 					let url = "/compare?" + params.toString();
 					console.log("Opening: " + url);
+					loading(true);
 					$.getJSON("/branches?repo=" + encodeURIComponent(repo) + "&fetch=true", function (d) {
 						loading(false);
 						window.location.href = url;
-- 
2.43.0


From 67d27ca583a20ea155709e2364de5cfb8f64e3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:41 +0000
Subject: [PATCH 42/49] fix: do not accept arguments of zero and ref_time that
 end with a comma

---
 core/src/parse/pallet.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/src/parse/pallet.rs b/core/src/parse/pallet.rs
index 468ff5d..ae58bf1 100644
--- a/core/src/parse/pallet.rs
+++ b/core/src/parse/pallet.rs
@@ -366,7 +366,7 @@ fn parse_call(call: &ExprCall) -> Result<ChromaticTerm> {
 	} else if name.ends_with("::from_parts") {
 		parse_parts_args(&call.args)
 	} else if name.ends_with("::zero") {
-		if !call.args.empty_or_trailing() {
+		if !call.args.is_empty() {
 			return Err("Unexpected arguments for `zero`".into())
 		}
 		Ok(ChromaticTerm::Value(Zero::zero()))
@@ -383,7 +383,7 @@ fn parse_scalar_call(call: &ExprCall) -> Result<SimpleTerm> {
 		// normally want to multiply it.
 		parse_scalar_args(&call.args)
 	} else if name.ends_with("::zero") {
-		if !call.args.empty_or_trailing() {
+		if !call.args.is_empty() {
 			return Err("Unexpected arguments for `zero`".into())
 		}
 		Ok(SimpleTerm::Value(Zero::zero()))
@@ -478,7 +478,7 @@ pub(crate) fn parse_scalar_method_call(call: &ExprMethodCall) -> Result<Term<u12
 	let name: &str = &call.method.to_string();
 	match name {
 		"ref_time" => {
-			if !call.args.empty_or_trailing() {
+			if !call.args.is_empty() {
 				return Err("Unexpected arguments on `ref_time`".into())
 			}
 			parse_scalar_expression(&call.receiver)
-- 
2.43.0


From ca2bcd75d5581a51c38eaf95fb9e34762f015acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:20 +0000
Subject: [PATCH 43/49] fix: report the number of parsed files instead of
 extrinsics

---
 cli/src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index 3b95f87..eda813e 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -222,8 +222,8 @@ fn main() -> Result<(), Box<dyn std::error::Error>> {
 		},
 		SubCommand::Parse(ParseCmd::Files(ParseFilesCmd { files })) => {
 			print(format!("Trying to parse {} files...", files.len()), cmd.verbose);
-			let parsed = parse_files(&files)?;
-			print(format!("Parsed {} files successfully", parsed.len()), cmd.verbose);
+			parse_files(&files)?;
+			print(format!("Parsed {} files successfully", files.len()), cmd.verbose);
 		},
 	}
 
-- 
2.43.0


From 23d85144ec0aead681b427907bf2ae51c5dbb689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:25 +0000
Subject: [PATCH 44/49] fix: an invalid or too expensive path prefix is an
 error instead of a panic

---
 cli/src/main.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index eda813e..4f1eab9 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -126,12 +126,13 @@ pub struct FormatParams {
 }
 
 impl FormatParams {
-	pub fn filter_path(&self, path: String) -> String {
+	pub fn filter_path(&self, path: String) -> Result<String, String> {
 		if let Some(prefix) = self.strip_path_prefix.as_ref() {
-			let re = fancy_regex::Regex::new(prefix).expect("Invalid regex");
-			re.replace_all(&path, "").to_string()
+			let err = |e| format!("Could not strip path prefix '{}': {}", prefix, e);
+			let re = fancy_regex::Regex::new(prefix).map_err(err)?;
+			Ok(re.try_replacen(&path, 0, "").map_err(err)?.to_string())
 		} else {
-			path
+			Ok(path)
 		}
 	}
 }
@@ -332,7 +333,7 @@ fn print_changes_human(
 	// Print all errors
 	for (info, _change) in per_extrinsic.iter().filter_map(|p| p.error().map(|t| (p, t))) {
 		let row = vec![
-			format.filter_path(info.file.clone()),
+			format.filter_path(info.file.clone())?,
 			info.name.clone(),
 			"-".into(),
 			"-".into(),
@@ -343,7 +344,7 @@ fn print_changes_human(
 
 	for (info, change) in per_extrinsic.iter().filter_map(|p| p.term().map(|t| (p, t))) {
 		let mut row = vec![
-			format.filter_path(info.file.clone()),
+			format.filter_path(info.file.clone())?,
 			info.name.clone(),
 			change.old_v.map(|v| unit.fmt_value(v)).unwrap_or_default(),
 			change.new_v.map(|v| unit.fmt_value(v)).unwrap_or_default(),
-- 
2.43.0


From bfd8fef46900505fb811f80fbeab0773edb6d6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:39 +0000
Subject: [PATCH 45/49] fix: parse files can be called

---
 cli/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index 4f1eab9..d61eaac 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -97,7 +97,7 @@ struct CompareCommitsCmd {
 #[derive(Debug, Parser)]
 struct ParseFilesCmd {
 	/// The files to parse.
-	#[clap(long, index = 1, required(true), num_args = 0..1000)]
+	#[clap(index = 1, required(true), num_args = 0..1000)]
 	pub files: Vec<PathBuf>,
 }
 
-- 
2.43.0


From 401a1d2ebd0fdf5da315ec27270893dac10aabd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:37 +0000
Subject: [PATCH 46/49] fix: two-dimensional terms saturate

---
 core/src/term.rs   | 6 +++---
 core/src/traits.rs | 5 ++++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/core/src/term.rs b/core/src/term.rs
index b67e1d9..0431b53 100644
--- a/core/src/term.rs
+++ b/core/src/term.rs
@@ -391,16 +391,16 @@ impl ChromaticTerm {
 			Self::Add(x, y) => {
 				let (a, b) = x.eval(ctx)?.into();
 				let (m, n) = y.eval(ctx)?.into();
-				Ok((a + m, b + n).into())
+				Ok((a.saturating_add(m), b.saturating_add(n)).into())
 			},
 			Self::Mul(x, y) => match (x.as_ref(), y.as_ref()) {
 				(Self::Scalar(x), y) => {
 					let (a, b) = y.eval(ctx)?.into();
-					Ok((*x * a, *x * b).into())
+					Ok((x.saturating_mul(a), x.saturating_mul(b)).into())
 				},
 				(x, Self::Scalar(y)) => {
 					let (a, b) = x.eval(ctx)?.into();
-					Ok((*y * a, *y * b).into())
+					Ok((y.saturating_mul(a), y.saturating_mul(b)).into())
 				},
 				(Self::Var(x), y) => match ctx.get(x) {
 					Some(Self::Scalar(x)) => Ok(y.eval(ctx)?.mul_scalar(x)),
diff --git a/core/src/traits.rs b/core/src/traits.rs
index e9af584..02171cd 100644
--- a/core/src/traits.rs
+++ b/core/src/traits.rs
@@ -80,6 +80,9 @@ impl core::fmt::Display for Weight {
 
 impl Weight {
 	pub fn mul_scalar(&self, other: u128) -> Self {
-		Self { time: self.time * other, proof: self.proof * other }
+		Self {
+			time: self.time.saturating_mul(other),
+			proof: self.proof.saturating_mul(other),
+		}
 	}
 }
-- 
2.43.0


From cd194824560a38f36e18aadbbfd01a794fc1128c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:10 +0000
Subject: [PATCH 47/49] fix: escape pipes of file names in the markdown output

---
 cli/src/main.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index d61eaac..6216414 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -329,11 +329,16 @@ fn print_changes_human(
 		header.extend(vec!["Old Weight Term", "New Weight Term", "Used variables"]);
 	}
 	table.set_header(header);
+	let file_cell = |file: &str| {
+		let file = format.filter_path(file.into())?;
+		// Would start a new cell.
+		Ok::<_, Box<dyn std::error::Error>>(if markdown { file.replace('|', "\\|") } else { file })
+	};
 
 	// Print all errors
 	for (info, _change) in per_extrinsic.iter().filter_map(|p| p.error().map(|t| (p, t))) {
 		let row = vec![
-			format.filter_path(info.file.clone())?,
+			file_cell(&info.file)?,
 			info.name.clone(),
 			"-".into(),
 			"-".into(),
@@ -344,7 +349,7 @@ fn print_changes_human(
 
 	for (info, change) in per_extrinsic.iter().filter_map(|p| p.term().map(|t| (p, t))) {
 		let mut row = vec![
-			format.filter_path(info.file.clone())?,
+			file_cell(&info.file)?,
 			info.name.clone(),
 			change.old_v.map(|v| unit.fmt_value(v)).unwrap_or_default(),
 			change.new_v.map(|v| unit.fmt_value(v)).unwrap_or_default(),
-- 
2.43.0


From 78e6564e6539d1d5666b5f3140ac7d4dfdcf5606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:24 +0000
Subject: [PATCH 48/49] fix: refuse to start with a key of another certificate

---
 web/src/main.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/web/src/main.rs b/web/src/main.rs
index 6038b13..20e8547 100644
--- a/web/src/main.rs
+++ b/web/src/main.rs
@@ -165,6 +165,8 @@ async fn main() -> std::io::Result<()> {
 			.set_private_key_file(cmd.key.expect("Checked by clap"), SslFiletype::PEM)
 			.unwrap();
 		builder.set_certificate_chain_file(cert).unwrap();
+		// Otherwise no connection could ever be accepted.
+		builder.check_private_key().unwrap();
 		server.bind_openssl(endpoint, builder)
 	} else {
 		server.bind(endpoint)
-- 
2.43.0


From c4a86e215f0db092c718e280b2e27989aaaf8e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:38 +0000
Subject: [PATCH 49/49] fix: end the loading state if the merge requests cannot
 be listed

---
 web/static/merge_requests.js | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/web/static/merge_requests.js b/web/static/merge_requests.js
index c058b4b..f410761 100644
--- a/web/static/merge_requests.js
+++ b/web/static/merge_requests.js
@@ -133,5 +133,8 @@ $(document).ready(function () {
 		// Set the 'highlighted' variable.
 		$('#highlighted').text(highlighted);
 		loading(false);
-	}).await;
+	}).fail(function () {
+		// For example because of the rate limit.
+		loading(false);
+	});
 });
-- 
2.43.0

