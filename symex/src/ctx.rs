//! What a harness sees: free variables, assumptions, obligations. The same harness text runs symbolically
//! (`SymCtx`, F = Sym) and concretely (`RepCtx`, F = f64: the build users run) to confirm counterexamples.
use crate::poly::*;
use crate::smt::{Query, Res};
use crate::state::*;
use crate::sym::{st, Sym};
use num_traits::Signed;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub trait Num: sparseglm::Float + 'static {
    fn rat(n: i64, d: i64) -> Self;
    fn dbg(self) -> String;
}
impl Num for Sym {
    fn rat(n: i64, d: i64) -> Sym {
        Sym::rat(n, d)
    }
    fn dbg(self) -> String {
        self.show()
    }
}
impl Num for f64 {
    fn rat(n: i64, d: i64) -> f64 {
        n as f64 / d as f64
    }
    fn dbg(self) -> String {
        format!("{:?}", self)
    }
}

#[derive(Clone, Debug)]
pub enum Cond<F> {
    Le(F, F),
    Lt(F, F),
    Eq(F, F),
    /// exact zero (no tolerance)
    IsZero(F),
    NonZero(F),
    Finite(F),
    B(bool),
    And(Vec<Cond<F>>),
    Or(Vec<Cond<F>>),
    Not(Box<Cond<F>>),
}

pub fn le<F>(a: F, b: F) -> Cond<F> {
    Cond::Le(a, b)
}
pub fn lt<F>(a: F, b: F) -> Cond<F> {
    Cond::Lt(a, b)
}
pub fn ge<F>(a: F, b: F) -> Cond<F> {
    Cond::Le(b, a)
}
pub fn gt<F>(a: F, b: F) -> Cond<F> {
    Cond::Lt(b, a)
}
pub fn eq<F>(a: F, b: F) -> Cond<F> {
    Cond::Eq(a, b)
}
pub fn is0<F>(a: F) -> Cond<F> {
    Cond::IsZero(a)
}
pub fn nz<F>(a: F) -> Cond<F> {
    Cond::NonZero(a)
}
pub fn finite<F>(a: F) -> Cond<F> {
    Cond::Finite(a)
}
pub fn and<F>(v: Vec<Cond<F>>) -> Cond<F> {
    Cond::And(v)
}
pub fn or<F>(v: Vec<Cond<F>>) -> Cond<F> {
    Cond::Or(v)
}
pub fn not<F>(c: Cond<F>) -> Cond<F> {
    Cond::Not(Box::new(c))
}
pub fn imp<F>(a: Cond<F>, b: Cond<F>) -> Cond<F> {
    Cond::Or(vec![not(a), b])
}
pub fn all_eq<F: Copy>(a: &[F], b: &[F]) -> Cond<F> {
    let mut v = vec![Cond::B(a.len() == b.len())];
    if a.len() == b.len() {
        for i in 0..a.len() {
            v.push(Cond::Eq(a[i], b[i]));
        }
    }
    Cond::And(v)
}

pub trait Ctx {
    type F: Num;
    const SYM: bool;
    fn var_b(&self, name: &str, lo: Option<f64>, hi: Option<f64>) -> Self::F;
    fn var(&self, name: &str) -> Self::F {
        self.var_b(name, None, None)
    }
    fn var_in(&self, name: &str, lo: f64, hi: f64) -> Self::F {
        self.var_b(name, Some(lo), Some(hi))
    }
    fn pos(&self, name: &str) -> Self::F {
        let v = self.var_b(name, Some(0.0), None);
        self.assume(gt(v, Self::F::rat(0, 1)));
        v
    }
    fn nonneg(&self, name: &str) -> Self::F {
        self.var_b(name, Some(0.0), None)
    }
    fn vars(&self, name: &str, n: usize) -> Vec<Self::F> {
        (0..n).map(|i| self.var(&format!("{}{}", name, i))).collect()
    }
    fn assume(&self, c: Cond<Self::F>);
    fn check(&self, label: &str, c: Cond<Self::F>);
    fn choose(&self, name: &str, n: usize) -> usize;
    fn cover(&self, label: &str);
    /// branch on a condition (forks)
    fn split(&self, c: Cond<Self::F>) -> bool;
    /// run real code that may panic; None if it did
    fn guard<R>(&self, f: impl FnOnce() -> R) -> Option<R>;
    /// same expression (symbolically: same normal form)
    fn same(&self, a: Self::F, b: Self::F) -> bool;
    /// d f(x) / dx at the variable x: exact on the symbolic expression, central difference on f64
    fn deriv(&self, f: &dyn Fn(Self::F) -> Self::F, x: Self::F) -> Self::F;
    fn q(&self, n: i64, d: i64) -> Self::F {
        Self::F::rat(n, d)
    }
}

// ---------------------------------------------------------------------- symbolic

pub struct SymCtx;

/// formula for c (pol) or for "c fails by at least delta" (!pol)
fn cform(s: &mut State, c: &Cond<Sym>, pol: bool, delta: &Q) -> Form {
    let diff = |s: &mut State, a: &Sym, b: &Sym| -> Result<Poly, Option<std::cmp::Ordering>> {
        let r = |v: &Val| match v {
            Val::PInf => 1,
            Val::NInf => -1,
            _ => 0,
        };
        match (s.val(a.0), s.val(b.0)) {
            (Val::NaN, _) | (_, Val::NaN) => Err(None),
            (Val::Fin(p), Val::Fin(q)) => Ok(s.add(&p, &q.neg())),
            (x, y) => Err(Some(r(&x).cmp(&r(&y)))),
        }
    };
    let b = |x: bool| if x { Form::T } else { Form::F };
    let d = Poly::cst(delta.clone());
    let strict = delta.is_positive();
    use std::cmp::Ordering as O;
    match c {
        Cond::Le(x, y) => match diff(s, x, y) {
            Ok(p) => {
                if pol {
                    s.lit(&p, LE)
                } else if strict {
                    s.lit(&p.sub(&d), GE)
                } else {
                    s.lit(&p, POS)
                }
            }
            Err(o) => b((o == Some(O::Less) || o == Some(O::Equal)) == pol),
        },
        Cond::Lt(x, y) => match diff(s, x, y) {
            Ok(p) => {
                if pol {
                    s.lit(&p, NEG)
                } else {
                    s.lit(&p.sub(&d), GE)
                }
            }
            Err(o) => b((o == Some(O::Less)) == pol),
        },
        Cond::Eq(x, y) => match diff(s, x, y) {
            Ok(p) => {
                if pol {
                    s.lit(&p, ZER)
                } else if strict {
                    Form::Or(vec![s.lit(&p.sub(&d), GE), s.lit(&p.add(&d), LE)])
                } else {
                    s.lit(&p, NZ)
                }
            }
            Err(o) => b((o == Some(O::Equal)) == pol),
        },
        Cond::IsZero(x) => cform(s, &Cond::Eq(*x, Sym(0)), pol, delta),
        Cond::NonZero(x) => match s.val(x.0) {
            Val::Fin(p) => s.lit(&p, if pol { NZ } else { ZER }),
            Val::NaN => b(!pol),
            _ => b(pol),
        },
        Cond::Finite(x) => b(matches!(s.val(x.0), Val::Fin(_)) == pol),
        Cond::B(x) => b(*x == pol),
        Cond::And(v) | Cond::Or(v) => {
            let conj = matches!(c, Cond::And(_)) == pol;
            let mut out = vec![];
            for x in v {
                match (cform(s, x, pol, delta), conj) {
                    (Form::F, true) => return Form::F,
                    (Form::T, false) => return Form::T,
                    (Form::T, true) | (Form::F, false) => {}
                    (f, _) => out.push(f),
                }
            }
            match (out.len(), conj) {
                (0, true) => Form::T,
                (0, false) => Form::F,
                (1, _) => out.pop().unwrap(),
                (_, true) => Form::And(out),
                (_, false) => Form::Or(out),
            }
        }
        Cond::Not(x) => cform(s, x, !pol, delta),
    }
}

/// replace strict literals by ones with a margin (for models that survive rounding)
fn robust(f: &Form, eps: &Q) -> Form {
    match f {
        Form::L(l) => {
            let prod = |sgn: i64, mask: u8| -> Form {
                if l.f.len() > 1 {
                    // margin on every factor
                    let mut v: Vec<Form> = vec![Form::L(l.clone())];
                    for p in &l.f {
                        v.push(Form::Or(vec![
                            Form::L(Lit { f: vec![p.sub(&Poly::cst(eps.clone()))], mask: GE }),
                            Form::L(Lit { f: vec![p.add(&Poly::cst(eps.clone()))], mask: LE }),
                        ]));
                    }
                    return Form::And(v);
                }
                let e = Poly::cst(if sgn > 0 { eps.clone() } else { -eps.clone() });
                Form::L(Lit { f: vec![l.f[0].sub(&e)], mask })
            };
            match l.mask {
                POS => prod(1, GE),
                NEG => prod(-1, LE),
                NZ => Form::Or(vec![
                    robust(&Form::L(Lit { f: l.f.clone(), mask: POS }), eps),
                    robust(&Form::L(Lit { f: l.f.clone(), mask: NEG }), eps),
                ]),
                _ => f.clone(),
            }
        }
        Form::And(v) => Form::And(v.iter().map(|x| robust(x, eps)).collect()),
        Form::Or(v) => Form::Or(v.iter().map(|x| robust(x, eps)).collect()),
        _ => f.clone(),
    }
}

/// a model of (path condition and goal), with bounded variables and a margin on strict literals
pub fn find_model(s: &mut State, goal: &[Form], eps: Option<&Q>, bound: Option<f64>, ms: u64) -> (Res, HashMap<String, f64>) {
    let saved = s.pc.clone();
    if let Some(e) = eps {
        s.pc = saved.iter().map(|f| robust(f, e)).collect();
    }
    let mut goals: Vec<Form> = goal.to_vec();
    if let Some(b) = bound {
        let bq = Poly::cst(rationalise(b));
        for v in s.vars.clone() {
            let a = Poly::atom(v.atom);
            goals.push(Form::L(Lit { f: vec![a.sub(&bq)], mask: LE }));
            goals.push(Form::L(Lit { f: vec![a.add(&bq)], mask: GE }));
        }
    }
    let q = s.query(&goals, false);
    s.pc = saved;
    let names: Vec<String> = s.vars.iter().map(|v| format!("a{}", v.atom)).collect();
    let mut sv = std::mem::take(&mut s.solver);
    let (r, m) = sv.model(&q, &names, ms);
    s.solver = sv;
    let mut out = HashMap::new();
    for v in &s.vars {
        if let Some(x) = m.get(&format!("a{}", v.atom)) {
            out.insert(v.name.clone(), *x);
        }
    }
    (r, out)
}

/// several models for a failing obligation, the most robust first
pub fn collect_models(s: &mut State, c: Option<&Cond<Sym>>, ms: u64) -> Vec<HashMap<String, f64>> {
    let q = |n: i64, d: i64| Q::new(n.into(), d.into());
    let mut out: Vec<HashMap<String, f64>> = vec![];
    let tries: Vec<(Q, Option<Q>, Option<f64>)> = vec![
        (q(1, 4), Some(q(1, 16)), Some(4.0)),
        (q(1, 64), Some(q(1, 64)), Some(16.0)),
        (q(1, 2000), Some(q(1, 2000)), Some(64.0)),
        (q(1, 2000), None, Some(64.0)),
        (q(0, 1), None, Some(64.0)),
        (q(0, 1), None, None),
    ];
    for (d, e, b) in tries {
        let goal = match c {
            Some(c) => vec![cform(s, c, false, &d)],
            None => vec![],
        };
        if goal.iter().any(|g| matches!(g, Form::F)) {
            continue;
        }
        let (r, m) = find_model(s, &goal, e.as_ref(), b, ms);
        if r == Res::Sat {
            out.push(m);
            if out.len() >= 3 {
                break;
            }
        }
    }
    out
}

/// partially concretised searches for a counterexample when the solver gives up on the general query
fn hunt(s: &mut State, c: &Cond<Sym>) -> Option<HashMap<String, f64>> {
    let vals = [1i64, 2, -1, 3, -2, 1, 5, -3];
    let dens = [1i64, 1, 1, 2, 1, 4, 2, 2];
    let n = s.vars.len();
    let zero = Q::from_integer(0.into());
    let g = cform(s, c, false, &zero);
    for round in 0..14usize {
        let saved = s.pc.len();
        let keep = round % 3 + 1;
        let mut k = 0;
        for (i, v) in s.vars.clone().iter().enumerate() {
            let h = (i * 7 + round * 13) % 11;
            if h < 11 - keep.min(n) * 2 {
                let t = (i + round * 5) % 8;
                let mut x = Q::new(vals[t].into(), dens[t].into());
                if v.lo.map(|l| l >= 0.0).unwrap_or(false) {
                    x = x.abs();
                }
                let p = Poly::atom(v.atom).sub(&Poly::cst(x));
                s.pc.push(Form::L(Lit { f: vec![p], mask: ZER }));
                k += 1;
            }
        }
        if k == 0 {
            s.pc.truncate(saved);
            continue;
        }
        let (r, m) = find_model(s, &[g.clone()], None, None, 1500);
        s.pc.truncate(saved);
        if r == Res::Sat {
            return Some(m);
        }
    }
    None
}

impl Ctx for SymCtx {
    type F = Sym;
    const SYM: bool = true;
    fn var_b(&self, name: &str, lo: Option<f64>, hi: Option<f64>) -> Sym {
        st(|s| {
            if s.vars.iter().any(|v| v.name == name) {
                s.abort(&format!("duplicate variable {}", name));
            }
            if let Some(pins) = &s.pins {
                let mut v = *pins.get(name).unwrap_or(&1.0);
                v = v.max(lo.unwrap_or(v)).min(hi.unwrap_or(f64::INFINITY).max(lo.unwrap_or(v)));
                let p = Poly::cst(rationalise(v));
                return Sym(s.fin(p));
            }
            let a = s.intern(Atom::Var(name.to_string()));
            s.vars.push(VarInfo { name: name.into(), atom: a, lo, hi });
            let p = Poly::atom(a);
            if let Some(l) = lo {
                let f = s.lit(&p.sub(&Poly::cst(rationalise(l))), GE);
                s.constrain(f);
            }
            if let Some(h) = hi {
                let f = s.lit(&p.sub(&Poly::cst(rationalise(h))), LE);
                s.constrain(f);
            }
            Sym(s.fin(p))
        })
    }
    fn assume(&self, c: Cond<Sym>) {
        st(|s| {
            let z = Q::from_integer(0.into());
            let f = cform(s, &c, true, &z);
            if matches!(f, Form::T) {
                return;
            }
            let ms = s.lim.check_ms;
            // the decision is recorded in the trace so that re-executions do not ask again
            let pos = s.trace.len();
            if pos < s.prefix.len() {
                s.trace.push(1);
                s.constrain(f);
                return;
            }
            if matches!(f, Form::F) || s.solve(&[f.clone()], ms, false) == Res::Unsat {
                std::panic::panic_any(Abort::Infeasible);
            }
            s.trace.push(1);
            s.constrain(f);
        })
    }
    fn check(&self, label: &str, c: Cond<Sym>) {
        st(|s| {
            s.covers.push(format!("check:{}", label));
            // obligations of the replayed prefix were discharged by the run that created it
            if s.trace.len() < s.prefix.len() {
                return;
            }
            let z = Q::from_integer(0.into());
            let g = cform(s, &c, false, &z);
            if matches!(g, Form::F) {
                s.syntactic += 1;
                return;
            }
            let ms = s.lim.check_ms;
            let mut r = s.solve(&[g.clone()], ms, true);
            let mut models = vec![];
            if r == Res::Sat {
                models = collect_models(s, Some(&c), ms.min(4000));
                if models.is_empty() {
                    // the sliced query has a model but none was found for the whole path condition:
                    // the path may be infeasible (a branch kept because its query ran out of time)
                    if s.solve_all(&[g.clone()], 3 * ms) == Res::Unsat {
                        r = Res::Unsat;
                    } else {
                        models = collect_models(s, Some(&c), ms);
                    }
                }
            }
            match r {
                Res::Unsat => {
                    s.discharged += 1;
                    if s.samples.len() < 2 {
                        let q: Query = s.query(&[g], true);
                        s.samples.push(q);
                    }
                    return;
                }
                Res::Sat => {
                    s.cands.push(Cand { label: label.into(), attempts: models, choices: s.choices.clone() });
                }
                Res::Unknown => match hunt(s, &c) {
                    Some(m) => {
                        let mut v = vec![m];
                        v.extend(collect_models(s, Some(&c), 2000));
                        s.cands.push(Cand { label: label.into(), attempts: v, choices: s.choices.clone() });
                    }
                    None => {
                        s.undecided.push(label.into());
                        return;
                    }
                },
            }
            std::panic::panic_any(Abort::Stop)
        })
    }
    fn choose(&self, name: &str, n: usize) -> usize {
        st(|s| s.choose(name, n))
    }
    fn cover(&self, label: &str) {
        st(|s| s.covers.push(label.to_string()))
    }
    fn split(&self, c: Cond<Sym>) -> bool {
        st(|s| {
            let z = Q::from_integer(0.into());
            let f = cform(s, &c, true, &z);
            s.decide_form(f)
        })
    }
    fn guard<R>(&self, f: impl FnOnce() -> R) -> Option<R> {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
            Ok(r) => Some(r),
            Err(e) => {
                if e.is::<Abort>() {
                    std::panic::resume_unwind(e);
                }
                None
            }
        }
    }
    fn same(&self, a: Sym, b: Sym) -> bool {
        st(|s| match (s.val(a.0), s.val(b.0)) {
            (Val::Fin(p), Val::Fin(q)) => p == q,
            (Val::PInf, Val::PInf) | (Val::NInf, Val::NInf) => true,
            _ => false,
        })
    }
    fn deriv(&self, f: &dyn Fn(Sym) -> Sym, x: Sym) -> Sym {
        let y = f(x);
        st(|s| {
            let at = match s.val(x.0) {
                Val::Fin(p) if p.t.len() == 1 && p.t[0].0.len() == 1 && p.t[0].0[0].1 == 1 => p.t[0].0[0].0,
                _ => s.abort("derivative with respect to a non-variable"),
            };
            match s.val(y.0) {
                Val::Fin(p) => {
                    let d = s.diff(&p, at);
                    Sym(s.fin(d))
                }
                v => Sym(s.push(v)),
            }
        })
    }
}

// ---------------------------------------------------------------------- concrete

pub struct RepCtx {
    pub vars: HashMap<String, f64>,
    pub choices: RefCell<Vec<(String, usize)>>,
    pub fails: RefCell<Vec<(String, String)>>,
    pub invalid: RefCell<Option<String>>,
    pub tol: f64,
    pub log: RefCell<Vec<String>>,
}
pub struct Invalid;

impl RepCtx {
    pub fn new(vars: HashMap<String, f64>, choices: Vec<(String, usize)>, tol: f64) -> Rc<RepCtx> {
        let mut c = choices;
        c.reverse();
        Rc::new(RepCtx {
            vars,
            choices: RefCell::new(c),
            fails: RefCell::new(vec![]),
            invalid: RefCell::new(None),
            tol,
            log: RefCell::new(vec![]),
        })
    }
    /// (surely true, surely false)
    fn eval(&self, c: &Cond<f64>) -> (bool, bool) {
        let t = |a: f64, b: f64| {
            let m = a.abs().max(b.abs());
            if m.is_finite() {
                self.tol * (1.0 + m)
            } else {
                0.0
            }
        };
        match c {
            Cond::Le(a, b) => (a <= b, !(*a <= *b + t(*a, *b))),
            Cond::Lt(a, b) => (a < b, !(*a < *b + t(*a, *b))),
            Cond::Eq(a, b) => {
                let e = a == b || (a - b).abs() <= t(*a, *b);
                (e, !e)
            }
            Cond::IsZero(a) => (*a == 0.0, *a != 0.0),
            Cond::NonZero(a) => (*a != 0.0 && !a.is_nan(), !(*a != 0.0) || a.is_nan()),
            Cond::Finite(a) => (a.is_finite(), !a.is_finite()),
            Cond::B(x) => (*x, !*x),
            Cond::And(v) => {
                let e: Vec<_> = v.iter().map(|x| self.eval(x)).collect();
                (e.iter().all(|x| x.0), e.iter().any(|x| x.1))
            }
            Cond::Or(v) => {
                let e: Vec<_> = v.iter().map(|x| self.eval(x)).collect();
                (e.iter().any(|x| x.0), e.iter().all(|x| x.1))
            }
            Cond::Not(x) => {
                let (a, b) = self.eval(x);
                (b, a)
            }
        }
    }
}

impl Ctx for RepCtx {
    type F = f64;
    const SYM: bool = false;
    fn var_b(&self, name: &str, lo: Option<f64>, hi: Option<f64>) -> f64 {
        let mut v = *self.vars.get(name).unwrap_or(&1.0);
        if let Some(l) = lo {
            v = v.max(l);
        }
        if let Some(h) = hi {
            v = v.min(h);
        }
        v
    }
    fn assume(&self, c: Cond<f64>) {
        if self.eval(&c).1 {
            *self.invalid.borrow_mut() = Some(format!("{:?}", c));
            std::panic::panic_any(Invalid);
        }
    }
    fn check(&self, label: &str, c: Cond<f64>) {
        if self.eval(&c).1 {
            let mut d = format!("{:?}", c);
            d.truncate(600);
            self.fails.borrow_mut().push((label.to_string(), d));
        }
    }
    fn choose(&self, _name: &str, _n: usize) -> usize {
        self.choices.borrow_mut().pop().map(|x| x.1).unwrap_or(0)
    }
    fn cover(&self, _label: &str) {}
    fn split(&self, c: Cond<f64>) -> bool {
        !self.eval(&c).1
    }
    fn guard<R>(&self, f: impl FnOnce() -> R) -> Option<R> {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
            Ok(r) => Some(r),
            Err(e) => {
                if e.is::<Invalid>() {
                    std::panic::resume_unwind(e);
                }
                None
            }
        }
    }
    fn same(&self, a: f64, b: f64) -> bool {
        a == b
    }
    fn deriv(&self, f: &dyn Fn(f64) -> f64, x: f64) -> f64 {
        let h = 1e-3 * (1.0 + x.abs());
        let d = |h: f64| (f(x + h) - f(x - h)) / (2.0 * h);
        // Richardson extrapolation
        (4.0 * d(h / 2.0) - d(h)) / 3.0
    }
}
