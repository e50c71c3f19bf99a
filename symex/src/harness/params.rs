//! P14: hyper-parameters
use super::common::*;
use crate::ctx::*;
use crate::engine::H;
use crate::h;
use num_traits::Float as _;
use sparseglm::estimators::error::EstimatorError;
use sparseglm::estimators::estimators::*;
use sparseglm::estimators::hyperparams::*;
use sparseglm::estimators::param_guard::ParamGuard;
use sparseglm::solvers::Solver;

/// a free number, or one of the numbers that is not one
fn number<C: Ctx>(c: &C, name: &str, kind: usize) -> C::F {
    match kind {
        0 => c.var(name),
        1 => C::F::nan(),
        2 => C::F::neg_infinity(),
        _ => C::F::neg_zero(),
    }
}
fn at_least<F: Num>(x: F, lo: i64) -> Cond<F> {
    if x.is_nan() {
        return Cond::B(false);
    }
    ge(x, F::rat(lo, 1))
}
fn agree<F: Num>(a: F, b: F) -> Cond<F> {
    if a.is_nan() || b.is_nan() {
        return Cond::B(a.is_nan() && b.is_nan());
    }
    eq(a, b)
}
#[derive(Clone, Copy, PartialEq)]
enum X {
    No,
    Gamma,
    Ratio,
}
fn kind(e: &EstimatorError) -> usize {
    match e {
        EstimatorError::InvalidRegularization(_) => 0,
        EstimatorError::InvalidTolerance(_) => 1,
        EstimatorError::InvalidK(_) => 2,
        EstimatorError::InvalidWSSize(_) => 3,
        EstimatorError::InvalidGamma(_) | EstimatorError::InvalidL1Ratio(_) => 4,
    }
}
struct In<F> {
    alpha: F,
    tol: F,
    extra: F,
    k: usize,
    ws: usize,
    iters: usize,
    epochs: usize,
    acc: bool,
    verb: bool,
}

macro_rules! set_extra {
    ($p:expr, $v:expr, No) => {
        $p
    };
    ($p:expr, $v:expr, Gamma) => {
        $p.gamma($v)
    };
    ($p:expr, $v:expr, Ratio) => {
        $p.l1_ratio($v)
    };
}
macro_rules! get_extra {
    ($p:expr, $d:expr, No) => {
        $d
    };
    ($p:expr, $d:expr, Gamma) => {
        $p.gamma()
    };
    ($p:expr, $d:expr, Ratio) => {
        $p.l1_ratio()
    };
}
macro_rules! domain {
    ($c:expr, $ty:ident, $est:ident, $x:ident) => {{
        let c = $c;
        // one special value at a time, everything else free
        let special = c.choose("special", 10);
        let sp = |i: usize| if special >= i * 3 + 1 && special < i * 3 + 4 { special - i * 3 } else { 0 };
        let v = In {
            alpha: number(c, "alpha", sp(0)),
            tol: number(c, "tol", sp(1)),
            extra: number(c, "extra", sp(2)),
            k: [1, 0, 7, usize::MAX][c.choose("K", 4)],
            ws: [1, 0, 7, usize::MAX][c.choose("ws", 4)],
            iters: 11 * c.choose("iterations", 2),
            epochs: 13 * c.choose("epochs", 2),
            acc: c.choose("acceleration", 2) == 1,
            verb: c.choose("verbose", 2) == 1,
        };
        let build = |order: usize| {
            let p = $ty::<C::F>::new();
            match order {
                0 => set_extra!(p.alpha(v.alpha), v.extra, $x).max_iterations(v.iters).max_epochs(v.epochs).ws_start_size(v.ws).tolerance(v.tol).K(v.k).use_acceleration(v.acc).verbose(v.verb),
                1 => {
                    let p = p.verbose(v.verb).use_acceleration(v.acc).K(v.k).tolerance(v.tol).ws_start_size(v.ws).max_epochs(v.epochs).max_iterations(v.iters);
                    set_extra!(p, v.extra, $x).alpha(v.alpha)
                }
                _ => {
                    // the last value set counts
                    let p = p.K(if v.k == 0 { 1 } else { 0 }).tolerance(q(5, 1)).alpha(q(9, 1)).ws_start_size(3).max_epochs(2).max_iterations(2).verbose(!v.verb).use_acceleration(!v.acc);
                    let p = set_extra!(p, q(2, 1), $x);
                    let p = p.ws_start_size(v.ws).alpha(v.alpha).K(v.k).max_iterations(v.iters).use_acceleration(v.acc);
                    set_extra!(p, v.extra, $x).verbose(v.verb).max_epochs(v.epochs).tolerance(v.tol)
                }
            }
        };
        let x = X::$x;
        let ok_extra = match x {
            X::No => Cond::B(true),
            X::Gamma => at_least(v.extra, 1),
            X::Ratio => and(vec![at_least(v.extra, 0), if v.extra.is_nan() { Cond::B(false) } else { le(v.extra, one()) }]),
        };
        let conds = vec![at_least(v.alpha, 0), at_least(v.tol, 0), Cond::B(v.k > 0), Cond::B(v.ws > 0), ok_extra];
        let order = c.choose("order", 3);
        let p = build(order);
        let by_ref = p.check_ref().map(|r| r.clone());
        let by_val = build(order).check();
        let unwrapped = c.guard(|| build(order).check_unwrap());
        c.check("borrowing and consuming agree", Cond::B(by_ref.is_ok() == by_val.is_ok() && by_ref.is_ok() == unwrapped.is_some()));
        match (&by_ref, &by_val) {
            (Ok(a), Ok(b)) => {
                c.check("accepted only on the domain", and(conds));
                let un = unwrapped.clone().unwrap_or(b.clone());
                for (l, r) in [("borrowed", a), ("consumed", b), ("unwrapped", &un)] {
                    c.check(&format!("{} alpha", l), agree(r.alpha(), v.alpha));
                    c.check(&format!("{} tolerance", l), agree(r.tolerance(), v.tol));
                    c.check(&format!("{} shape", l), agree(get_extra!(r, v.extra, $x), v.extra));
                    c.check(&format!("{} K", l), Cond::B(r.K() == v.k));
                    c.check(&format!("{} ws", l), Cond::B(r.ws_start_size() == v.ws));
                    c.check(&format!("{} iterations", l), Cond::B(r.max_iterations() == v.iters));
                    c.check(&format!("{} epochs", l), Cond::B(r.max_epochs() == v.epochs));
                    c.check(&format!("{} acceleration", l), Cond::B(r.use_acceleration() == v.acc));
                    c.check(&format!("{} verbose", l), Cond::B(r.verbose() == v.verb));
                }
                c.cover("accepted");
            }
            (Err(a), Err(b)) => {
                c.check("refused only off the domain", not(and(conds.clone())));
                c.check("the error names a wrong parameter", not(conds[kind(a)].clone()));
                c.check("same error", Cond::B(kind(a) == kind(b)));
                c.cover("refused");
            }
            _ => {}
        }
        // an estimator starts from the same parameters
        let d = $ty::<C::F>::new();
        c.check("default", Cond::B(d == $ty::<C::F>::default() && d == $est::<C::F>::params()));
        let d = d.check();
        c.check("defaults are valid", Cond::B(d.is_ok()));
        if let Ok(d) = d {
            c.check("default alpha", eq(d.alpha(), one()));
            c.check("default tolerance", eq(d.tolerance(), q(1, 1_000_000)));
            c.check("default counts", Cond::B(d.max_iterations() == 50 && d.max_epochs() == 1000 && d.ws_start_size() == 10 && d.K() == 5));
            c.check("default switches", Cond::B(d.use_acceleration() && d.verbose()));
            let e: C::F = match x {
                X::Gamma => q(3, 1),
                _ => q(1, 2),
            };
            c.check("default shape", eq(get_extra!(d, e, $x), e));
        }
    }};
}
fn lasso<C: Ctx>(c: &C) {
    domain!(c, LassoParams, Lasso, No)
}
fn mt_lasso<C: Ctx>(c: &C) {
    domain!(c, MultiTaskLassoParams, MultiTaskLasso, No)
}
fn mcp<C: Ctx>(c: &C) {
    domain!(c, MCParams, MCPEstimator, Gamma)
}
fn block_mcp<C: Ctx>(c: &C) {
    domain!(c, BlockMCParams, BlockMCPEstimator, Gamma)
}
fn enet<C: Ctx>(c: &C) {
    domain!(c, ElasticNetParams, ElasticNet, Ratio)
}
fn mt_enet<C: Ctx>(c: &C) {
    domain!(c, MultiTaskElasticNetParams, MultiTaskElasticNet, Ratio)
}
fn solver<C: Ctx>(c: &C) {
    let tol = number(c, "tol", c.choose("special", 2));
    let (k, ws) = ([1, 0, 7][c.choose("K", 3)], [1, 0, 7][c.choose("ws", 3)]);
    let (it, ep) = (11 * c.choose("iterations", 2), 13 * c.choose("epochs", 2));
    let (a, v) = (c.choose("acceleration", 2) == 1, c.choose("verbose", 2) == 1);
    let s = Solver::<C::F>::new();
    let s = match c.choose("order", 2) {
        0 => s.ws_start_size(ws).max_iterations(it).max_epochs(ep).tolerance(tol).K(k).use_acceleration(a).verbose(v),
        _ => s.verbose(v).use_acceleration(a).K(k).tolerance(tol).max_epochs(ep).max_iterations(it).ws_start_size(ws),
    };
    c.check("tolerance", agree(s.tolerance, tol));
    c.check("counts", Cond::B(s.K == k && s.ws_start_size == ws && s.max_iterations == it && s.max_epochs == ep));
    c.check("switches", Cond::B(s.use_acceleration == a && s.verbose == v));
    for d in [Solver::<C::F>::new(), Solver::<C::F>::default()] {
        c.check("default tolerance", eq(d.tolerance, q(1, 100_000_000)));
        c.check("default counts", Cond::B(d.max_iterations == 50 && d.max_epochs == 1000 && d.ws_start_size == 10 && d.K == 5));
        c.check("default switches", Cond::B(d.use_acceleration && d.verbose));
    }
}

pub fn register(v: &mut Vec<H>) {
    const F: &[&str] = &["hyperparams::*Params (new, setters, default)", "ParamGuard::{check, check_ref, check_unwrap}", "*ValidParams getters", "estimators::*::params"];
    const B: &str = "every real value of the float parameters, plus NaN, -inf, -0; K, ws from {0, 1, 7, usize::MAX}; 3 setter orders";
    h!(v, "P14", "lasso", "accepted exactly on the domain; values, orders, defaults", funcs: F, bounds: B, |c| lasso(c), need: &["accepted", "refused"]);
    h!(v, "P14", "multi_task_lasso", "same", funcs: F, bounds: B, |c| mt_lasso(c), need: &["accepted", "refused"]);
    h!(v, "P14", "mcp", "same", funcs: F, bounds: B, |c| mcp(c), need: &["accepted", "refused"]);
    h!(v, "P14", "block_mcp", "same", funcs: F, bounds: B, |c| block_mcp(c), need: &["accepted", "refused"]);
    h!(v, "P14", "elastic_net", "same", funcs: F, bounds: B, |c| enet(c), need: &["accepted", "refused"]);
    h!(v, "P14", "multi_task_elastic_net", "same", funcs: F, bounds: B, |c| mt_enet(c), need: &["accepted", "refused"]);
    h!(v, "P14", "solver", "the bare solver's builder", funcs: &["Solver::{new, default, setters}"], bounds: "every tolerance", |c| solver(c));
}
