//! Conformance driver: replays test inputs (one JSON object per line) on the real
//! `subweight-core` library and writes what was observed (one JSON object per line).
//!
//! The driver contains no oracle. Every judgement is made by TLC on the recorded trace.

use serde_json::{json, Value as J};
use std::{
	io::{BufRead, BufWriter, Write},
	panic::{catch_unwind, AssertUnwindSafe},
	path::{Path, PathBuf},
	str::FromStr,
};
use subweight_core::{
	compare_commits, compare_files, filter_changes,
	parse::{self, pallet},
	scope::{ChromaticScope, SimpleScope},
	sort_changes,
	term::{ChromaticTerm, SimpleTerm},
	traits::Weight,
	CompareMethod, CompareParams, Dimension, ExtrinsicDiff, FilterParams, RelativeChange, TotalDiff,
};

fn s(j: &J, k: &str) -> String {
	j[k].as_str().unwrap_or_default().to_string()
}
fn os(j: &J, k: &str) -> Option<String> {
	j[k].as_str().map(Into::into)
}
fn b(j: &J, k: &str) -> bool {
	j[k].as_bool().unwrap_or(false)
}

fn change_str(c: &RelativeChange) -> &'static str {
	match c {
		RelativeChange::Unchanged => "unchanged",
		RelativeChange::Added => "added",
		RelativeChange::Removed => "removed",
		RelativeChange::Changed => "changed",
	}
}

/// The bits of the number, nothing is rounded.
fn pct(p: f64) -> String {
	format!("{:016x}", p.to_bits())
}
fn row(d: &ExtrinsicDiff) -> J {
	let mut r = json!({"file": d.file, "name": d.name});
	if let Some(e) = d.error() {
		r["kind"] = json!("failed");
		r["msg"] = json!(e);
	} else if let Some(t) = d.term() {
		r["kind"] = json!(if d.warning().is_some() { "warning" } else { "ok" });
		r["msg"] = json!(d.warning().cloned().unwrap_or_default());
		r["change"] = json!(change_str(&t.change));
		r["old_v"] = t.old_v.map(|v| json!(v.to_string())).unwrap_or(J::Null);
		r["new_v"] = t.new_v.map(|v| json!(v.to_string())).unwrap_or(J::Null);
		r["percent"] = json!(pct(t.percent));
		r["old_f"] = t.old.as_ref().map(|v| json!(v.to_string())).unwrap_or(J::Null);
		r["new_f"] = t.new.as_ref().map(|v| json!(v.to_string())).unwrap_or(J::Null);
		r["scope"] = J::Array(
			t.scope
				.as_vec()
				.into_iter()
				.map(|(k, v)| {
					let v = v.eval(&subweight_core::scope::SimpleScope::empty());
					json!([k, v.map(|x| x.to_string()).unwrap_or("0".into())])
				})
				.collect(),
		);
		r["scope_s"] = json!(t.scope.to_string());
	}
	r
}

fn rows(d: &TotalDiff) -> J {
	J::Array(d.iter().map(row).collect())
}

fn params(j: &J) -> CompareParams {
	CompareParams {
		method: CompareMethod::from_str(&s(j, "method")).expect("harness: method"),
		unit: Dimension::from_str(&s(j, "unit")).expect("harness: unit"),
		ignore_errors: b(j, "ignore_errors"),
		git_pull: b(j, "git_pull"),
		git_force: b(j, "git_force"),
		offline: b(j, "offline"),
	}
}

fn filter(j: &J) -> FilterParams {
	FilterParams {
		threshold: j["threshold"].as_f64().unwrap_or(0.0),
		change: j["change"].as_array().map(|a| {
			a.iter()
				.map(|c| RelativeChange::from_str(c.as_str().unwrap()).expect("harness: change"))
				.collect()
		}),
		extrinsic: os(j, "extrinsic"),
		pallet: os(j, "pallet"),
	}
}

fn exts(e: &[pallet::ChromaticExtrinsic]) -> J {
	J::Array(
		e.iter()
			.map(|x| {
				let mut r: Vec<(String, u32, u32)> = x
					.comp_ranges
					.as_ref()
					.map(|m| m.iter().map(|(k, r)| (k.clone(), r.min, r.max)).collect())
					.unwrap_or_default();
				r.sort();
				json!({"name": x.name, "pallet": x.pallet, "ranges": r})
			})
			.collect(),
	)
}

fn staged(diff: TotalDiff, f: &FilterParams) -> J {
	let all = rows(&diff);
	let filtered = filter_changes(diff, f);
	let frows = rows(&filtered);
	let mut sorted = filtered;
	sort_changes(&mut sorted);
	let srows = rows(&sorted);
	sort_changes(&mut sorted);
	let again = rows(&sorted);
	json!({"ok": {"diff": all, "filtered": frows, "sorted": srows, "resorted": again}})
}

fn parse_side(j: &J) -> Result<Vec<pallet::ChromaticExtrinsic>, String> {
	let mut res = vec![];
	for f in j.as_array().expect("harness: side") {
		res.extend(pallet::parse_content(s(f, "pallet"), s(f, "content"))?);
	}
	Ok(res)
}

fn term_value(t: &subweight_core::term::SimpleTerm) -> J {
	let sc = subweight_core::scope::SimpleScope::from_substrate();
	match t.eval(&sc) {
		Ok(v) => json!(v.to_string()),
		Err(e) => json!({ "err": e }),
	}
}

fn overhead_json(w: &parse::overhead::Weight) -> J {
	let (kind, t) = match w {
		parse::overhead::Weight::BlockExecution(t) => ("block", t),
		parse::overhead::Weight::ExtrinsicBase(t) => ("extrinsic", t),
	};
	let time = t.simplify(Dimension::Time).map(|t| term_value(&t)).unwrap_or(J::Null);
	let proof = t.simplify(Dimension::Proof).map(|t| term_value(&t)).unwrap_or(J::Null);
	json!({"kind": kind, "time": time, "proof": proof})
}

fn storage_json(w: &parse::storage::Weights) -> J {
	json!({
		"kind": match w.db { parse::storage::Db::Parity => "parity", parse::storage::Db::Rocks => "rocks" },
		"read": term_value(&w.weights.read),
		"write": term_value(&w.weights.write),
	})
}

fn to_term(j: &J) -> SimpleTerm {
	let l = || Box::new(to_term(&j["l"]));
	let r = || Box::new(to_term(&j["r"]));
	let v = || s(j, "v").parse().expect("harness: number");
	match s(j, "k").as_str() {
		"val" => SimpleTerm::Value(v()),
		"sca" => SimpleTerm::Scalar(v()),
		"var" => SimpleTerm::Var(s(j, "n").into()),
		"add" => SimpleTerm::Add(l(), r()),
		"mul" => SimpleTerm::Mul(l(), r()),
		k => panic!("harness: unknown term {k}"),
	}
}

fn from_term(t: &SimpleTerm) -> J {
	match t {
		SimpleTerm::Value(v) => json!({"k": "val", "v": v.to_string()}),
		SimpleTerm::Scalar(v) => json!({"k": "sca", "v": v.to_string()}),
		SimpleTerm::Var(n) => json!({"k": "var", "n": n.0}),
		SimpleTerm::Add(l, r) => json!({"k": "add", "l": from_term(l), "r": from_term(r)}),
		SimpleTerm::Mul(l, r) => json!({"k": "mul", "l": from_term(l), "r": from_term(r)}),
	}
}

fn to_scope(j: &J) -> SimpleScope {
	let mut scope = SimpleScope::empty();
	for e in j.as_array().expect("harness: scope") {
		scope.put_var(&s(e, "n"), to_term(&e["t"]));
	}
	scope
}

fn from_scope(s: &SimpleScope) -> J {
	s.as_vec().iter().map(|(n, t)| json!({"n": n, "t": from_term(t)})).collect()
}

/// Operations on terms and scopes.
fn term_ops(j: &J) -> J {
	let (t, u, v) = (to_term(&j["t"]), to_term(&j["u"]), s(j, "v"));
	let (a, b) = (to_scope(&j["scope"]), to_scope(&j["other"]));
	let val = |t: &SimpleTerm, s: &SimpleScope| match t.eval(s) {
		Ok(v) => json!([v.to_string()]),
		Err(_) => json!([]),
	};
	let chrom = |d: Dimension| {
		let c = t.clone().into_chromatic(d);
		json!({
			"time": val(&c.simplify(Dimension::Time).expect("simplify"), &a),
			"proof": val(&c.simplify(Dimension::Proof).expect("simplify"), &a),
		})
	};
	let splice = t.clone().into_chromatic(Dimension::Time).splice_add(u.clone().into_chromatic(Dimension::Proof));
	let mut mutated = t.clone();
	mutated.substitute(&v, &u);
	let with = a.with_var(&v, u.clone());
	let mut extended = a.clone();
	extended.extend(b.clone());
	json!({
		"value": val(&t, &a),
		"free": t.free_vars(&a).into_iter().collect::<Vec<_>>(),
		"bound": t.bound_vars(&a).into_iter().collect::<Vec<_>>(),
		"zero": t.is_const_zero(),
		"one": t.is_const_one(),
		"subst": from_term(&t.clone().into_substituted(&v, &u)),
		"mutated": from_term(&mutated),
		"astime": chrom(Dimension::Time),
		"asproof": chrom(Dimension::Proof),
		"splice": {
			"time": val(&splice.simplify(Dimension::Time).expect("simplify"), &a),
			"proof": val(&splice.simplify(Dimension::Proof).expect("simplify"), &a),
		},
		"scope": from_scope(&a),
		"with": from_scope(&with),
		"extended": from_scope(&extended),
		"merged": from_scope(&a.clone().merge(b.clone())),
		"len": a.len(),
		"empty": a.is_empty(),
		"get": match a.get(&v) { Some(t) => json!([from_term(&t)]), None => json!([]) },
	})
}

fn to_cterm(j: &J) -> ChromaticTerm {
	let l = || Box::new(to_cterm(&j["l"]));
	let r = || Box::new(to_cterm(&j["r"]));
	let v = |k: &str| s(j, k).parse().expect("harness: number");
	match s(j, "k").as_str() {
		"val" => ChromaticTerm::Value(Weight { time: v("t"), proof: v("p") }),
		"sca" => ChromaticTerm::Scalar(v("v")),
		"var" => ChromaticTerm::Var(s(j, "n").into()),
		"add" => ChromaticTerm::Add(l(), r()),
		"mul" => ChromaticTerm::Mul(l(), r()),
		k => panic!("harness: unknown term {k}"),
	}
}

/// Operations on two-dimensional terms.
fn cterm_ops(j: &J) -> J {
	let (t, u) = (to_cterm(&j["t"]), to_cterm(&j["u"]));
	let mut a = ChromaticScope::empty();
	for e in j["scope"].as_array().expect("harness: scope") {
		a.put_var(&s(e, "n"), to_cterm(&e["t"]));
	}
	let val = |t: &ChromaticTerm| match t.eval(&a) {
		Ok(w) => json!([[w.time.to_string(), w.proof.to_string()]]),
		Err(_) => json!([]),
	};
	let one = |d: Dimension| {
		let mut b = SimpleScope::empty();
		for (n, t) in a.as_vec() {
			b.put_var(&n, t.simplify(d).expect("simplify"));
		}
		match t.simplify(d).expect("simplify").eval(&b) {
			Ok(v) => json!([v.to_string()]),
			Err(_) => json!([]),
		}
	};
	let mut mutated = t.clone();
	mutated.substitute(&s(j, "v"), &u);
	json!({
		"value": val(&t),
		"time": one(Dimension::Time),
		"proof": one(Dimension::Proof),
		"free": t.free_vars(&a).into_iter().collect::<Vec<_>>(),
		"bound": t.bound_vars(&a).into_iter().collect::<Vec<_>>(),
		"zero": t.is_const_zero(),
		"one": t.is_const_one(),
		"subst": val(&t.clone().into_substituted(&s(j, "v"), &u)),
		"mutated": val(&mutated),
		"splice": val(&t.clone().splice_add(u.clone())),
	})
}

/// How the names of options are read and listed.
fn names(j: &J) -> J {
	let n = s(j, "name");
	json!({
		"method": CompareMethod::from_str(&n).map(|m| format!("{m:?}")).ok(),
		"unit": Dimension::from_str(&n).map(|m| format!("{m:?}")).ok(),
		"change": RelativeChange::from_str(&n).map(|m| format!("{m:?}")).ok(),
		"methods": CompareMethod::reflect().iter().map(|(m, n)| json!([format!("{m:?}"), n])).collect::<Vec<_>>(),
		"units": Dimension::reflect().iter().map(|(m, n)| json!([format!("{m:?}"), n])).collect::<Vec<_>>(),
		"changes": RelativeChange::variants(),
	})
}

fn exec(j: &J) -> J {
	match s(j, "op").as_str() {
		"parse" => match pallet::parse_content(s(j, "pallet"), s(j, "content")) {
			Ok(e) => json!({ "ok": exts(&e) }),
			Err(e) => json!({ "err": e }),
		},
		"compare" => {
			let (olds, news) = match (parse_side(&j["old"]), parse_side(&j["new"])) {
				(Ok(o), Ok(n)) => (o, n),
				(Err(e), _) | (_, Err(e)) => return json!({ "parse_err": e }),
			};
			let f = filter(j);
			match compare_files(olds, news, &params(j), &f) {
				Ok(d) => staged(d, &f),
				Err(e) => json!({"err": e.to_string()}),
			}
		},
		"commits" => {
			let f = filter(j);
			match compare_commits(
				Path::new(&s(j, "repo")),
				&s(j, "old_ref"),
				&s(j, "new_ref"),
				&params(j),
				&f,
				&s(j, "path_pattern"),
				j["max_files"].as_u64().unwrap_or(u64::MAX) as usize,
			) {
				Ok(d) => staged(d, &f),
				Err(e) => json!({"err": e.to_string()}),
			}
		},
		// Parse a list of files from disk the way the CLI does.
		"parse_files" => {
			let p: Vec<PathBuf> = j["paths"]
				.as_array()
				.unwrap()
				.iter()
				.map(|p| PathBuf::from(p.as_str().unwrap()))
				.collect();
			let repo = j["repo"].as_str().map(Path::new);
			if b(j, "ignore_errors") {
				json!({"ok": exts(&match repo {
					Some(r) => pallet::try_parse_files_in_repo(r, &p),
					None => pallet::try_parse_files(&p),
				})})
			} else {
				match repo.map_or_else(|| pallet::parse_files(&p), |r| pallet::parse_files_in_repo(r, &p)) {
					Ok(e) => json!({ "ok": exts(&e) }),
					Err(e) => json!({ "err": e }),
				}
			}
		},
		"storage" => match parse::storage::parse_content(s(j, "content")) {
			Ok(w) => json!({ "ok": storage_json(&w) }),
			Err(e) => json!({ "err": e }),
		},
		"overhead" => match parse::overhead::parse_content(s(j, "content")) {
			Ok(w) => json!({ "ok": overhead_json(&w) }),
			Err(e) => json!({ "err": e }),
		},
		"detect" => {
			match parse::try_parse_file(Path::new(&s(j, "repo")), Path::new(&s(j, "path"))) {
				None => json!({"ok": {"type": "none"}}),
				Some(parse::ParsedFile::Pallet(e)) =>
					json!({"ok": {"type": "pallet", "exts": exts(&e)}}),
				Some(parse::ParsedFile::Storage(w)) =>
					json!({"ok": {"type": "storage", "w": storage_json(&w)}}),
				Some(parse::ParsedFile::Overhead(w)) =>
					json!({"ok": {"type": "overhead", "w": overhead_json(&w)}}),
			}
		},
		// Any text at all: what the parsers make of it, and the comparison of it with itself.
		"raw" => {
			let path = PathBuf::from(s(j, "path"));
			std::fs::write(&path, s(j, "content")).expect("harness: write");
			let tag = |ok: bool| if ok { "ok" } else { "err" };
			let content = s(j, "content");
			let p = pallet::parse_content("f.rs".into(), content.clone());
			let mut selfs = vec![];
			if let Ok(e) = &p {
				for m in CompareMethod::all() {
					for u in Dimension::all() {
						let cp = CompareParams {
							method: m,
							unit: u,
							ignore_errors: false,
							git_pull: false,
							git_force: false,
							offline: true,
						};
						let f = filter(j);
						selfs.push(match compare_files(e.clone(), e.clone(), &cp, &f) {
							Ok(d) => json!({"tag": "ok", "rows": d.iter().map(|x| json!([x.name, x.file, match x.term() {
								Some(t) => format!("{}{}", change_str(&t.change), if t.old_v == t.new_v { "" } else { "!" }),
								None => "failed".into(),
							}])).collect::<Vec<_>>()}),
							Err(_) => json!({"tag": "err", "rows": []}),
						});
					}
				}
			}
			json!({"ok": {
				"ext": tag(p.is_ok()),
				"exts": p.as_ref().map(|e| exts(e)).unwrap_or(json!([])),
				"db": tag(parse::storage::parse_content(content.clone()).is_ok()),
				"over": tag(parse::overhead::parse_content(content).is_ok()),
				"kind": match parse::try_parse_file(Path::new(&s(j, "repo")), &path) {
					None => "none",
					Some(parse::ParsedFile::Pallet(_)) => "pallet",
					Some(parse::ParsedFile::Storage(_)) => "storage",
					Some(parse::ParsedFile::Overhead(_)) => "overhead",
				},
				"selfs": selfs,
			}})
		},
		"fmt" => {
			let v: u128 = s(j, "v").parse().expect("harness: v");
			let d = Dimension::from_str(&s(j, "unit")).expect("harness: unit");
			json!({"ok": {"value": d.fmt_value(v), "scalar": Dimension::fmt_scalar(v)}})
		},
		"term" => json!({ "ok": term_ops(j) }),
		"cterm" => json!({ "ok": cterm_ops(j) }),
		"names" => json!({ "ok": names(j) }),
		op => panic!("harness: unknown op {op}"),
	}
}

fn main() {
	let args: Vec<String> = std::env::args().collect();
	let inp = std::fs::File::open(&args[1]).expect("input");
	let mut out = BufWriter::new(std::fs::File::create(&args[2]).expect("output"));
	std::panic::set_hook(Box::new(|_| {}));
	// Deeply nested inputs are part of the domain; use a large stack.
	std::thread::Builder::new()
		.stack_size(256 << 20)
		.spawn(move || {
			for line in std::io::BufReader::new(inp).lines() {
				let line = line.expect("line");
				if line.trim().is_empty() {
					continue;
				}
				let j: J = serde_json::from_str(&line).expect("json");
				let r = match catch_unwind(AssertUnwindSafe(|| exec(&j))) {
					Ok(r) => r,
					Err(p) => {
						let m = p
							.downcast_ref::<String>()
							.cloned()
							.or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
							.unwrap_or_else(|| "panic".into());
						if m.starts_with("harness: ") {
							eprintln!("{m}");
							std::process::exit(3);
						}
						json!({ "panic": m })
					},
				};
				writeln!(out, "{}", r).unwrap();
			}
			out.flush().unwrap();
		})
		.unwrap()
		.join()
		.unwrap();
}
