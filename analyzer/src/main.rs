#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_attr_ir;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod interp;
mod join;
mod memo;
mod lin;
mod models;
mod ops;
mod rules;
mod val;

use rustc_driver::{Callbacks, Compilation};
use rustc_middle::ty::{self, TyCtxt};
use std::fmt::Write as _;

/// Minimal JSON output
pub enum Json {
    S(String),
    N(i128),
    B(bool),
    A(Vec<Json>),
    O(Vec<(String, Json)>),
}
impl Json {
    pub fn s(x: impl Into<String>) -> Json {
        Json::S(x.into())
    }
    pub fn strs<'a>(it: impl Iterator<Item = &'a String>) -> Json {
        Json::A(it.map(|x| Json::S(x.clone())).collect())
    }
    pub fn render(&self, o: &mut String) {
        match self {
            Json::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        '\t' => o.push_str("\\t"),
                        c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            Json::N(n) => write!(o, "{n}").unwrap(),
            Json::B(b) => write!(o, "{b}").unwrap(),
            Json::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.render(o);
                }
                o.push(']');
            }
            Json::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    Json::S(k.clone()).render(o);
                    o.push(':');
                    x.render(o);
                }
                o.push('}');
            }
        }
    }
}

/// Abstract interpretation of the harness entry points named in GIFSA_ENTRIES
struct Engine {
    entries: Vec<String>,
    out: Option<String>,
}

fn run_entry<'t>(tcx: TyCtxt<'t>, name: &str, did: rustc_span::def_id::DefId, models: &std::collections::HashMap<String, rustc_span::def_id::DefId>) -> Json {
    let mut i = interp::I::new(tcx);
    i.entry = name.to_string();
    i.models = models.clone();
    let secs: u64 = std::env::var("GIFSA_SECS").ok().and_then(|x| x.parse().ok()).unwrap_or(600);
    i.deadline = std::time::Instant::now() + std::time::Duration::from_secs(secs);
    let t0 = std::time::Instant::now();
    let inst = ty::Instance::new_raw(did, ty::GenericArgs::empty());
    let mut incomplete = String::new();
    let mut ends = 0;
    match i.info(inst) {
        None => incomplete = "no MIR for the entry".into(),
        Some(info) => {
            let st = val::State::new();
            match i.exec_fn(st, info, vec![], rustc_span::DUMMY_SP) {
                Ok(o) => ends = o.len(),
                Err(interp::Stop::Unsup(m)) => incomplete = m,
                Err(interp::Stop::Split(_)) => incomplete = "split at entry".into(),
                Err(interp::Stop::Dead) => {}
            }
        }
    }
    let mut f = vec![];
    for x in i.findings.values() {
        f.push(Json::O(vec![
            ("prop".into(), Json::s(&*x.prop)),
            ("kind".into(), Json::s(&*x.kind)),
            ("msg".into(), Json::s(&*x.msg)),
            ("func".into(), Json::s(&*x.func)),
            ("loc".into(), Json::s(&*x.loc)),
            ("stack".into(), Json::strs(x.stack.iter())),
            ("trace".into(), Json::strs(x.trace.iter())),
            ("facts".into(), Json::s(x.facts.chars().take(1500).collect::<String>())),
        ]));
    }
    let s = &i.stats;
    Json::O(vec![
        ("entry".into(), Json::s(name)),
        ("incomplete".into(), Json::s(incomplete)),
        ("ends".into(), Json::N(ends as i128)),
        ("ms".into(), Json::N(t0.elapsed().as_millis() as i128)),
        ("findings".into(), Json::A(f)),
        ("steps".into(), Json::N(s.steps as i128)),
        ("joins".into(), Json::N(s.joins as i128)),
        ("syms".into(), Json::N(lin::n_syms() as i128)),
        ("summaries".into(), Json::s(format!("{} hits, {} misses, {} fallbacks", i.memo.hits, i.memo.misses, i.memo.fallback))),
        ("steps_hooked".into(), Json::N(s.steps_hooked as i128)),
        ("gif_fns".into(), Json::strs(s.gif_fns.iter())),
        ("fns".into(), Json::N(s.fns.len() as i128)),
        ("loops".into(), Json::strs(s.loops.iter())),
        ("panic_sites".into(), Json::strs(s.panic_sites.iter())),
        ("alloc_sites".into(), Json::strs(s.alloc_sites.iter())),
        ("models".into(), Json::strs(s.models.iter())),
        ("opaque".into(), Json::strs(s.opaque.keys())),
        ("reached".into(), Json::strs(s.reached.iter())),
        ("obligations".into(), Json::O(s.obligations.iter().map(|(k, v)| (k.clone(), Json::strs(v.iter()))).collect())),
        ("proved".into(), Json::O(s.proved.iter().map(|(k, v)| (k.clone(), Json::N(*v as i128))).collect())),
    ])
}

impl Callbacks for Engine {
    fn after_analysis<'t>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'t>) -> Compilation {
        let mut models = std::collections::HashMap::new();
        let mut all = std::collections::BTreeMap::new();
        for &d in tcx.mir_keys(()).iter() {
            let did = d.to_def_id();
            if !matches!(tcx.def_kind(did), rustc_hir::def::DefKind::Fn) {
                continue;
            }
            let p = rustc_middle::ty::print::with_no_trimmed_paths!(tcx.def_path_str(did));
            if let Some(m) = p.strip_prefix("rt::models::") {
                models.insert(m.to_string(), did);
            }
            let last = p.rsplit("::").next().unwrap().to_string();
            if let Some(h) = last.strip_prefix("h_") {
                all.insert(h.to_string(), did);
            }
        }
        let mut res = vec![];
        for e in &self.entries {
            match all.get(e) {
                Some(d) => res.push(run_entry(tcx, e, *d, &models)),
                None => res.push(Json::O(vec![("entry".into(), Json::s(&**e)), ("incomplete".into(), Json::s("no such entry"))])),
            }
        }
        let mut s = String::new();
        Json::A(res).render(&mut s);
        match &self.out {
            Some(p) => std::fs::write(p, s).unwrap(),
            None => println!("{s}"),
        }
        Compilation::Stop
    }
}

struct Rules {
    out: String,
}
impl Callbacks for Rules {
    fn after_analysis<'t>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'t>) -> Compilation {
        let j = rules::run(tcx);
        let mut s = String::new();
        j.render(&mut s);
        std::fs::write(&self.out, s).unwrap();
        Compilation::Continue
    }
}

struct Nop;
impl Callbacks for Nop {}

fn flags(args: &mut Vec<String>) {
    for f in ["-Zalways-encode-mir", "-Zmir-opt-level=0", "-Coverflow-checks=on", "-Cdebug-assertions=off"] {
        args.push(f.into());
    }
    if !args.iter().any(|a| a.starts_with("--cap-lints")) && args.windows(2).any(|w| w[0] == "--crate-name" && w[1] != "gif") {
        args.push("--cap-lints=allow".into());
    }
}

fn big_stack(f: impl FnOnce() + Send + 'static) {
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(f).unwrap();
    if h.join().is_err() {
        std::process::exit(101);
    }
}

fn main() {
    std::env::set_var("RUST_MIN_STACK", "2000000000");
    let args: Vec<String> = std::env::args().collect();
    if args.len() > 2 && args[1] == "--run" {
        // --run ARGSFILE OUT ENTRY...
        let text = std::fs::read_to_string(&args[2]).expect("arguments file");
        let mut lines = text.lines();
        let mut a: Vec<String> = vec!["rustc".into()];
        for l in &mut lines {
            if let Some(x) = l.strip_prefix("A ") {
                a.push(x.to_string());
            } else if let Some(x) = l.strip_prefix("D ") {
                std::env::set_current_dir(x).unwrap();
            } else if let Some(x) = l.strip_prefix("E ") {
                let (k, v) = x.split_once('=').unwrap();
                std::env::set_var(k, v);
            }
        }
        let out = args[3].clone();
        let entries = args[4..].to_vec();
        big_stack(move || {
            rustc_driver::compiler_entrypoint(&a, &mut Engine { entries, out: if out == "-" { None } else { Some(out) } });
        });
        return;
    }
    // RUSTC_WRAPPER: args[1] is rustc
    let mut a: Vec<String> = args[1..].to_vec();
    let krate = a.iter().position(|x| x == "--crate-name").and_then(|i| a.get(i + 1)).cloned().unwrap_or_default();
    let primary = std::env::var("GIFSA_DIR").ok();
    let is_lib = a.windows(2).any(|w| w[0] == "--crate-type" && w[1] == "lib");
    let dir = match (primary, is_lib, krate.as_str()) {
        (Some(d), true, "gif" | "gifsa_harness") => d,
        _ => {
            let st = std::process::Command::new(&a[0]).args(&a[1..]).status().expect("rustc");
            std::process::exit(st.code().unwrap_or(1));
        }
    };
    a[0] = "rustc".into();
    flags(&mut a);
    if krate == "gifsa_harness" {
        let mut s = String::new();
        writeln!(s, "D {}", std::env::current_dir().unwrap().display()).unwrap();
        for x in &a[1..] {
            if x.starts_with("--error-format") || x.starts_with("--json") {
                continue;
            }
            writeln!(s, "A {x}").unwrap();
        }
        for (k, v) in std::env::vars() {
            if k.starts_with("CARGO") && k != "CARGO_MAKEFLAGS" || k == "OUT_DIR" {
                if !v.contains('\n') {
                    writeln!(s, "E {k}={v}").unwrap();
                }
            }
        }
        std::fs::write(format!("{dir}/harness.args"), s).unwrap();
        big_stack(move || {
            rustc_driver::compiler_entrypoint(&a, &mut Nop);
        });
        return;
    }
    big_stack(move || {
        rustc_driver::compiler_entrypoint(&a, &mut Rules { out: format!("{dir}/rules.json") });
    });
}
