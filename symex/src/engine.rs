//! Path exploration by re-execution, in parallel; confirmation of counterexamples on f64; reporting.
use crate::ctx::*;
use crate::smt::{Res, Solver, STATS};
use crate::state::*;
use crate::sym::ST;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::Relaxed;
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

pub struct H {
    pub prop: &'static str,
    pub name: &'static str,
    pub about: &'static str,
    pub funcs: &'static [&'static str],
    pub bounds: &'static str,
    pub sym: fn(&SymCtx),
    pub conc: fn(&RepCtx),
    /// only in the thorough tier
    pub deep: bool,
    /// cover labels that must be reached
    pub need: &'static [&'static str],
    /// id of a known finding this harness demonstrates (its failure is expected)
    pub known: Option<&'static str>,
}

#[macro_export]
macro_rules! h {
    ($v:expr, $prop:expr, $name:expr, $about:expr, funcs: $f:expr, bounds: $b:expr, $body:expr $(, $opt:ident : $val:expr)*) => {{
        let sym: fn(&$crate::ctx::SymCtx) = $body;
        let conc: fn(&$crate::ctx::RepCtx) = $body;
        #[allow(unused_mut)]
        let mut h = $crate::engine::H { prop: $prop, name: $name, about: $about, funcs: $f, bounds: $b, sym, conc, deep: false, need: &[], known: None };
        $( h.$opt = $val; )*
        $v.push(h);
    }};
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
    }));
}

#[derive(Default, Clone)]
struct Acc {
    paths: u64,
    infeasible: u64,
    decisions: u64,
    forced: u64,
    unknown_branches: u64,
    syntactic: u64,
    discharged: u64,
    covers: BTreeMap<String, u64>,
    witnesses: u64,
    witness_ok: u64,
    witness_dev: Vec<Value>,
    cands: Vec<Cand>,
    undecided: Vec<String>,
    unsupported: Vec<String>,
    samples: Vec<Value>,
    confirmed: Vec<Value>,
    unconfirmed: Vec<Value>,
    cross: Vec<String>,
    cross_n: u64,
    secs: f64,
    stopped: bool,
}

struct Shared {
    queue: Vec<(usize, Vec<u8>)>,
    active: usize,
    acc: Vec<Acc>,
}

pub struct Outcome {
    pub violations: Vec<Value>,
    pub known: Vec<String>,
    pub errors: Vec<String>,
    pub evidence: Value,
}

pub struct Cfg {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub threads: usize,
    pub deadline: Duration,
    pub only: Option<String>,
    pub quiet: bool,
}

/// run the harness on concrete doubles
pub fn replay(h: &H, vars: &HashMap<String, f64>, choices: &[(String, usize)]) -> (Vec<(String, String)>, Option<String>) {
    let c = RepCtx::new(vars.clone(), choices.to_vec(), 1e-6);
    let saved = ST.with(|s| s.borrow_mut().take());
    let r = catch_unwind(AssertUnwindSafe(|| (h.conc)(&c)));
    ST.with(|s| *s.borrow_mut() = saved);
    let mut fails = c.fails.borrow().clone();
    let inv = c.invalid.borrow().clone();
    if let Err(e) = r {
        if !e.is::<Invalid>() {
            fails.push(("panic".into(), LAST_PANIC.with(|p| p.borrow().clone())));
        }
    }
    (fails, inv)
}

/// run the harness on concrete rationals in exact arithmetic: a deviation too small for the tolerance of the
/// f64 replay (or one that needs an exact tie) is still a concrete failing run of the real code
pub fn replay_exact(h: &H, vars: &HashMap<String, f64>, choices: &[(String, usize)], solver: &mut Solver) -> Option<(String, String)> {
    let lim = Limits { branch_ms: 3000, check_ms: 10_000, max_depth: 4000 };
    let mut todo = vec![vec![]];
    for _ in 0..6 {
        let prefix = todo.pop()?;
        let mut st0 = State::new(prefix, std::mem::take(solver), lim.clone());
        st0.pins = Some(vars.clone());
        st0.pin_choices = choices.iter().map(|c| c.1).collect();
        let saved = ST.with(|s| s.borrow_mut().replace(st0));
        let r = catch_unwind(AssertUnwindSafe(|| (h.sym)(&SymCtx)));
        let mut s = ST.with(|x| x.borrow_mut().take()).unwrap();
        ST.with(|x| *x.borrow_mut() = saved);
        // the axioms for exp and its relatives are not complete: a model of them is not a run
        let exact = !s.atoms.iter().any(|a| matches!(a, Atom::Exp(_) | Atom::Ln(_) | Atom::Acos(_) | Atom::Tri(_)));
        let mut found = s.cands.first().map(|c| (c.label.clone(), "exact rational arithmetic".to_string()));
        if let Err(e) = r {
            if !e.is::<Abort>() && s.solve(&[], 10_000, true) == Res::Sat {
                found = Some(("panic".into(), LAST_PANIC.with(|p| p.borrow().clone())));
            }
        }
        *solver = std::mem::take(&mut s.solver);
        if exact && found.is_some() {
            return found;
        }
        todo.extend(s.forks);
    }
    None
}

fn explore_one(h: &H, prefix: Vec<u8>, lim: &Limits, want_witness: bool, want_cross: bool, acc_out: &mut Acc, solver: &mut Solver) -> Vec<Vec<u8>> {
    let st0 = State::new(prefix, std::mem::take(solver), lim.clone());
    ST.with(|s| *s.borrow_mut() = Some(st0));
    let r = catch_unwind(AssertUnwindSafe(|| (h.sym)(&SymCtx)));
    let mut s = ST.with(|x| x.borrow_mut().take()).unwrap();
    let mut complete = false;
    match r {
        Ok(()) => {
            complete = true;
            acc_out.paths += 1;
        }
        Err(e) => match e.downcast::<Abort>() {
            Ok(a) => match *a {
                Abort::Infeasible => acc_out.infeasible += 1,
                Abort::Unsupported(m) => {
                    acc_out.paths += 1;
                    acc_out.unsupported.push(m)
                }
                Abort::Stop => acc_out.paths += 1,
            },
            Err(_) => {
                // the code under test panicked on this path
                acc_out.paths += 1;
                let msg = LAST_PANIC.with(|p| p.borrow().clone());
                let ms = s.lim.check_ms;
                match s.solve(&[], ms, true) {
                    Res::Unsat => {}
                    _ => {
                        let (r, _) = find_model(&mut s, &[], None, None, ms);
                        if r != Res::Unsat {
                            let m = collect_models(&mut s, None, ms.min(4000));
                            let choices = s.choices.clone();
                            s.cands.push(Cand { label: format!("panic: {}", msg), attempts: m, choices });
                        } else {
                            acc_out.infeasible += 1;
                        }
                    }
                }
            }
        },
    }
    acc_out.decisions += s.n_decisions;
    acc_out.forced += s.n_forced;
    acc_out.unknown_branches += s.n_unknown;
    acc_out.syntactic += s.syntactic;
    acc_out.discharged += s.discharged;
    for c in &s.covers {
        *acc_out.covers.entry(c.clone()).or_insert(0) += 1;
    }
    acc_out.undecided.append(&mut s.undecided);
    // cross-check the translation with a second solver on a few discharged queries
    for q in s.samples.drain(..) {
        if want_cross && acc_out.cross_n < 1 {
            acc_out.cross_n += 1;
            let r = Solver::cross_check(&q, 1000);
            acc_out.cross.push(format!("{:?}", r));
            if r == Res::Sat {
                acc_out.unsupported.push("second solver disagrees on a discharged query".into());
            }
            if acc_out.samples.len() < 2 {
                let mut t = format!("{}{}(check-sat)", q.decls, q.asserts);
                t.truncate(1500);
                acc_out.samples.push(json!({"kind": "discharged query (unsat)", "smt2": t}));
            }
        }
    }
    if complete && want_witness {
        let e = crate::poly::Q::new(1.into(), 64.into());
        let (mut r, mut m) = find_model(&mut s, &[], Some(&e), Some(16.0), 2500);
        if r != Res::Sat {
            let x = find_model(&mut s, &[], None, None, 2500);
            r = x.0;
            m = x.1;
        }
        if r == Res::Sat {
            acc_out.witnesses += 1;
            let (fails, inv) = replay(h, &m, &s.choices);
            if fails.is_empty() && inv.is_none() {
                acc_out.witness_ok += 1;
            } else {
                acc_out.witness_dev.push(json!({"vars": m, "choices": s.choices, "fails": fails, "invalid": inv}));
            }
            if acc_out.samples.len() < 3 {
                acc_out.samples.push(json!({"kind": "path witness, replayed on f64", "harness": h.name, "vars": m, "choices": s.choices, "decisions": s.trace.len()}));
            }
        }
    }
    let cands: Vec<Cand> = s.cands.drain(..).collect();
    for c in cands {
        let mut ok = false;
        let mut tried = vec![];
        for m in &c.attempts {
            let (fails, inv) = replay(h, m, &c.choices);
            if inv.is_none() {
                if let Some(f) = fails.first() {
                    acc_out.confirmed.push(json!({
                        "property": h.prop, "harness": h.name, "label": c.label, "vars": m, "choices": c.choices,
                        "observed": {"label": f.0, "detail": f.1}}));
                    ok = true;
                    break;
                }
            }
            tried.push(json!({"vars": m, "fails": fails, "invalid": inv}));
        }
        if !ok {
            for m in &c.attempts {
                if let Some(f) = replay_exact(h, m, &c.choices, &mut s.solver) {
                    acc_out.confirmed.push(json!({
                        "property": h.prop, "harness": h.name, "label": c.label, "vars": m, "choices": c.choices, "exact": true,
                        "observed": {"label": f.0, "detail": f.1}}));
                    ok = true;
                    break;
                }
            }
        }
        if !ok {
            acc_out.unconfirmed.push(json!({"harness": h.name, "label": c.label, "tried": tried, "choices": c.choices}));
        }
    }
    *solver = std::mem::take(&mut s.solver);
    s.forks
}

pub fn run(hs: &[H], cfg: &Cfg) -> Outcome {
    let t0 = Instant::now();
    let sel: Vec<&H> = hs
        .iter()
        .filter(|h| h.prop == cfg.prop && (cfg.thorough || !h.deep))
        .filter(|h| cfg.only.as_ref().map(|o| h.name.contains(o.as_str())).unwrap_or(true))
        .collect();
    let lim = Limits {
        branch_ms: if cfg.thorough { 3000 } else { 1500 },
        check_ms: if cfg.thorough { 60_000 } else { 20_000 },
        max_depth: 4000,
    };
    let sh = Mutex::new(Shared {
        queue: (0..sel.len()).rev().map(|i| (i, vec![])).collect(),
        active: 0,
        acc: vec![Acc::default(); sel.len()],
    });
    let cv = Condvar::new();
    let timed_out = std::sync::atomic::AtomicBool::new(false);
    std::thread::scope(|sc| {
        for _ in 0..cfg.threads {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, || {
                    let mut solver = Solver::new();
                    loop {
                        let (i, prefix, n_wit, n_cross);
                        {
                            let mut g = sh.lock().unwrap();
                            loop {
                                if t0.elapsed() > cfg.deadline {
                                    if !g.queue.is_empty() {
                                        timed_out.store(true, Relaxed);
                                        g.queue.clear();
                                    }
                                    cv.notify_all();
                                    return;
                                }
                                if let Some((a, b)) = g.queue.pop() {
                                    if g.acc[a].stopped {
                                        continue;
                                    }
                                    i = a;
                                    prefix = b;
                                    g.active += 1;
                                    let ac = &g.acc[a];
                                    // a few witnesses per harness: the first paths and then pseudo-randomly chosen ones
                                    let h = ac.paths.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(cfg.seed.wrapping_mul(0xD134_2543_DE82_EF95));
                                    n_wit = ac.witnesses < 2 || (ac.witnesses < 8 && (h >> 40) % 8 == 0);
                                    n_cross = ac.cross.len() < 2 && ac.paths < 12;
                                    break;
                                }
                                if g.active == 0 {
                                    cv.notify_all();
                                    return;
                                }
                                g = cv.wait_timeout(g, Duration::from_millis(50)).unwrap().0;
                            }
                        }
                        let t1 = Instant::now();
                        let mut a = Acc::default();
                        let forks = explore_one(sel[i], prefix, &lim, n_wit, n_cross, &mut a, &mut solver);
                        let mut g = sh.lock().unwrap();
                        let g = &mut *g;
                        let t = &mut g.acc[i];
                        t.paths += a.paths;
                        t.infeasible += a.infeasible;
                        t.decisions += a.decisions;
                        t.forced += a.forced;
                        t.unknown_branches += a.unknown_branches;
                        t.syntactic += a.syntactic;
                        t.discharged += a.discharged;
                        for (k, v) in a.covers {
                            *t.covers.entry(k).or_insert(0) += v;
                        }
                        t.witnesses += a.witnesses;
                        t.witness_ok += a.witness_ok;
                        t.witness_dev.extend(a.witness_dev);
                        t.undecided.extend(a.undecided);
                        t.unsupported.extend(a.unsupported);
                        t.cross.extend(a.cross);
                        if t.samples.len() < 3 {
                            t.samples.extend(a.samples);
                        }
                        t.confirmed.extend(a.confirmed);
                        t.unconfirmed.extend(a.unconfirmed);
                        t.secs += t1.elapsed().as_secs_f64();
                        if !t.confirmed.is_empty() || t.unconfirmed.len() > 12 || t.unsupported.len() > 12 || t.undecided.len() > 6 {
                            t.stopped = true;
                        }
                        let stop = t.stopped;
                        if !stop {
                            for f in forks {
                                g.queue.push((i, f));
                            }
                        }
                        g.active -= 1;
                        cv.notify_all();
                    }
                })
                .unwrap();
        }
    });
    let g = sh.into_inner().unwrap();
    let mut out = Outcome { violations: vec![], known: vec![], errors: vec![], evidence: Value::Null };
    let mut per = vec![];
    let mut funcs: Vec<&str> = vec![];
    let (mut states, mut trans, mut wit, mut disc, mut synt) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut samples = vec![];
    if sel.is_empty() {
        out.errors.push("no harness for this property".into());
    }
    for (h, a) in sel.iter().zip(&g.acc) {
        funcs.extend(h.funcs);
        states += a.paths;
        trans += a.decisions;
        wit += a.witness_ok;
        disc += a.discharged;
        synt += a.syntactic;
        samples.extend(a.samples.iter().take(2).cloned());
        for v in &a.confirmed {
            match h.known {
                Some(k) => {
                    if !out.known.contains(&k.to_string()) {
                        out.known.push(k.to_string())
                    }
                }
                None => out.violations.push(v.clone()),
            }
        }
        if h.known.is_none() {
            if a.confirmed.is_empty() {
                for u in &a.unconfirmed {
                    out.errors.push(format!("{}: counterexample does not reproduce on f64: {}", h.name, u));
                }
                for u in &a.unsupported {
                    out.errors.push(format!("{}: {}", h.name, u));
                }
                for u in &a.undecided {
                    out.errors.push(format!("{}: undecided obligation {}", h.name, u));
                }
                if !a.stopped && !timed_out.load(Relaxed) {
                    if a.witnesses == 0 {
                        out.errors.push(format!("{}: vacuous, no path has a witness", h.name));
                    }
                    if !a.covers.keys().any(|k| k.starts_with("check:")) {
                        out.errors.push(format!("{}: vacuous, no obligation was reached", h.name));
                    }
                    for n in h.need {
                        if !a.covers.contains_key(*n) {
                            out.errors.push(format!("{}: vacuous, {} never reached", h.name, n));
                        }
                    }
                }
            }
        }
        per.push(json!({
            "harness": h.name, "about": h.about, "bounds": h.bounds, "paths": a.paths, "infeasible_paths": a.infeasible,
            "decisions": a.decisions, "forced_decisions": a.forced, "branches_solver_unknown_kept_feasible": a.unknown_branches,
            "obligations_discharged_by_solver": a.discharged, "obligations_discharged_by_normal_form": a.syntactic,
            "reached": a.covers, "path_witnesses": a.witnesses, "path_witnesses_replayed_ok_on_f64": a.witness_ok,
            "witness_float_deviations": a.witness_dev, "second_solver_verdicts": a.cross, "cpu_s": (a.secs * 100.0).round() / 100.0,
            "known_finding": h.known,
        }));
        if !cfg.quiet {
            let _ = writeln!(
                std::io::stderr(),
                "[{}] {:<34} paths {:>5} (+{} infeasible) decisions {:>6} unk {} | solver {} nf {} | wit {}/{} | {:.1}s{}{}{}",
                h.prop, h.name, a.paths, a.infeasible, a.decisions, a.unknown_branches, a.discharged, a.syntactic, a.witness_ok, a.witnesses, a.secs,
                if a.confirmed.is_empty() { "" } else if h.known.is_some() { " KNOWN" } else { " VIOLATED" },
                if a.unconfirmed.is_empty() { "" } else { " UNCONFIRMED" },
                if a.undecided.is_empty() && a.unsupported.is_empty() { "" } else { " UNDECIDED" },
            );
            if std::env::var("SYMEX_DEBUG").is_ok() {
                for w in &a.witness_dev {
                    eprintln!("   deviation: {}", w);
                }
            }
        }
    }
    if timed_out.load(Relaxed) {
        out.errors.push("time budget exhausted before all paths were explored".into());
    }
    funcs.sort();
    funcs.dedup();
    let wall = t0.elapsed().as_secs_f64();
    out.evidence = json!({
        "property": cfg.prop,
        "tier": if cfg.thorough { "thorough" } else { "quick" },
        "seed": cfg.seed,
        "level": "model_checking",
        "coverage": {
            "states": states,
            "transitions": trans,
            "traces_validated_against_impl": wit,
            "samples": samples,
            "exhaustive": false,
            "rule": "states = feasible execution paths of the real code explored symbolically; transitions = symbolic branch decisions on them; every obligation on every path is decided by the solver (or by the polynomial normal form) for all values of the variables within the stated bounds",
            "functions_encoded": funcs,
            "obligations_discharged_by_solver": disc,
            "obligations_discharged_by_normal_form": synt,
            "solver": {
                "engine": "z3 5.3 (z3-new), falling back to qfnra-nlsat, z3 4.8, cvc5 1.1.2",
                "queries": STATS.queries.load(Relaxed), "cached": STATS.cached.load(Relaxed),
                "sat": STATS.sat.load(Relaxed), "unsat": STATS.unsat.load(Relaxed), "unknown": STATS.unknown.load(Relaxed),
                "fallbacks": STATS.fallback.load(Relaxed), "cross_checked_with_cvc5": STATS.cross.load(Relaxed),
                "seconds": STATS.micros.load(Relaxed) as f64 / 1e6,
            },
            "harnesses": per,
        },
        "assumptions": [
            "real arithmetic: the generic code is instantiated at an exact extended-real number type, so rounding is outside the claim; confirmed violations are re-run on f64 with relative tolerance 1e-6",
            "sizes (samples, features, tasks, epochs, iterations) are bounded as stated per harness",
            "rustc compiles the generic code at the symbolic type and at f64 to the same program modulo the element type",
        ],
        "wall_s": (wall * 100.0).round() / 100.0,
        "violations": out.violations.len(),
    });
    out
}
