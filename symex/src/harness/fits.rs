//! P07, P09, P10, P13, P15, P19, P20, P23, P24, P25: whole fits through the real estimators and the real solver
use super::common::*;
use crate::ctx::*;
use crate::engine::H;
use crate::h;
use ndarray::{Array1, Array2, ArrayView1, ArrayView2, Axis};
use num_traits::{Float as _, One, Zero};
use sparseglm::datafits::multi_task::{MultiTaskDatafit, QuadraticMultiTask};
use sparseglm::datafits::single_task::{Datafit, Quadratic};
use sparseglm::datasets::csc_array::CSCArray;
use sparseglm::datasets::{DatasetBase, DesignMatrix};
use sparseglm::estimators::estimators::*;
use sparseglm::estimators::traits::Fit;
use sparseglm::penalties::block_separable::{BlockL1PlusL2, BlockMCP, MultiTaskPenalty, L21};
use sparseglm::penalties::separable::{L1PlusL2, Penalty, L1, MCP};
use sparseglm::solvers::{BCDSolver, CDSolver, Solver};
use sparseglm::utils::helpers::{compute_alpha_max, compute_alpha_max_mtl, compute_alpha_max_sparse};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum M {
    Lasso,
    Enet,
    Mcp,
    MtLasso,
    MtEnet,
    BMcp,
}
pub const SINGLE: [M; 3] = [M::Lasso, M::Enet, M::Mcp];
pub const MULTI: [M; 3] = [M::MtLasso, M::MtEnet, M::BMcp];
impl M {
    pub fn multi(self) -> bool {
        MULTI.contains(&self)
    }
}

#[derive(Clone, Debug)]
pub struct Hp<F> {
    pub alpha: F,
    /// gamma or l1_ratio
    pub extra: F,
    pub iters: usize,
    pub epochs: usize,
    pub ws: usize,
    pub tol: F,
    pub k: usize,
    pub acc: bool,
    pub verb: bool,
}
impl<F: Num> Hp<F> {
    pub fn new(alpha: F, iters: usize, epochs: usize) -> Hp<F> {
        Hp { alpha, extra: q(1, 2), iters, epochs, ws: 10, tol: q(1, 1000), k: 5, acc: false, verb: false }
    }
}

#[macro_export]
macro_rules! set_hp {
    ($p:expr, $h:expr) => {
        $p.alpha($h.alpha)
            .max_iterations($h.iters)
            .max_epochs($h.epochs)
            .ws_start_size($h.ws)
            .tolerance($h.tol)
            .K($h.k)
            .use_acceleration($h.acc)
            .verbose($h.verb)
    };
}
macro_rules! fit_any {
    ($m:expr, $x:expr, $y:expr, $h:expr) => {{
        let (h, y) = ($h, $y);
        let y1 = if y.ncols() == 1 { y.column(0).to_owned() } else { Array1::zeros(0) };
        macro_rules! one {
            ($p:expr) => {
                $p.fit(&DatasetBase::from(($x, y1.clone())))
                    .map(|r| r.coefficients().to_owned().insert_axis(Axis(1)))
                    .map_err(|e| format!("{:?}", e))
            };
        }
        macro_rules! many {
            ($p:expr) => {
                $p.fit(&DatasetBase::from(($x, y.clone()))).map(|r| r.coefficients().to_owned()).map_err(|e| format!("{:?}", e))
            };
        }
        match $m {
            M::Lasso => one!(set_hp!(Lasso::params(), h)),
            M::Enet => one!(set_hp!(ElasticNet::params(), h).l1_ratio(h.extra)),
            M::Mcp => one!(set_hp!(MCPEstimator::params(), h).gamma(h.extra)),
            M::MtLasso => many!(set_hp!(MultiTaskLasso::params(), h)),
            M::MtEnet => many!(set_hp!(MultiTaskElasticNet::params(), h).l1_ratio(h.extra)),
            M::BMcp => many!(set_hp!(BlockMCPEstimator::params(), h).gamma(h.extra)),
        }
    }};
}
pub fn fit_dense<F: Num>(m: M, x: ArrayView2<F>, y: &Array2<F>, h: &Hp<F>) -> Result<Array2<F>, String> {
    fit_any!(m, x, y, h)
}
pub fn fit_csc<F: Num>(m: M, x: CSCArray<F>, y: &Array2<F>, h: &Hp<F>) -> Result<Array2<F>, String> {
    fit_any!(m, x.clone(), y, h)
}
pub fn solver_of<F: Num>(h: &Hp<F>) -> Solver<F> {
    Solver {
        ws_start_size: h.ws,
        max_iterations: h.iters,
        max_epochs: h.epochs,
        tolerance: h.tol,
        K: h.k,
        use_acceleration: h.acc,
        verbose: h.verb,
    }
}
/// the bare solver on the documented datafit and penalty
pub fn solve_ref<F: Num, DM: DesignMatrix<Elem = F> + Clone>(m: M, x: &DM, y: &Array2<F>, h: &Hp<F>) -> Array2<F>
where
    Quadratic<F>: Datafit<F, DM, Array1<F>>,
    QuadraticMultiTask<F>: MultiTaskDatafit<F, DM, Array2<F>>,
{
    let s = solver_of(h);
    if m.multi() {
        let ds = DatasetBase::<DM, Array2<F>>::new(x.clone(), y.clone());
        let mut d = QuadraticMultiTask::new();
        match m {
            M::MtLasso => s.solve_multi_task(&ds, &mut d, &L21::new(h.alpha)),
            M::MtEnet => s.solve_multi_task(&ds, &mut d, &BlockL1PlusL2::new(h.alpha, h.extra)),
            _ => s.solve_multi_task(&ds, &mut d, &BlockMCP::new(h.alpha, h.extra)),
        }
        .unwrap()
    } else {
        let ds = DatasetBase::<DM, Array1<F>>::new(x.clone(), y.column(0).to_owned());
        let mut d = Quadratic::new();
        match m {
            M::Lasso => s.solve(&ds, &mut d, &L1::new(h.alpha)),
            M::Enet => s.solve(&ds, &mut d, &L1PlusL2::new(h.alpha, h.extra)),
            _ => s.solve(&ds, &mut d, &MCP::new(h.alpha, h.extra)),
        }
        .unwrap()
        .insert_axis(Axis(1))
    }
}

/// concrete designs: orthogonal, correlated, wide, tall, with a zero column, with duplicates
pub fn design<F: Num>(k: usize) -> Array2<F> {
    let f = |m: usize, n: usize, v: &[i64]| Array2::from_shape_vec((m, n), v.iter().map(|x| F::rat(*x, 1)).collect()).unwrap();
    match k {
        0 => f(2, 1, &[1, 2]),
        1 => f(2, 2, &[1, 1, -1, 1]),
        2 => f(2, 2, &[2, 1, 0, 1]),
        3 => f(2, 3, &[1, 0, 2, 0, 1, -1]),
        4 => f(2, 3, &[1, 0, 1, 2, 0, 2]),
        5 => f(3, 2, &[1, 2, 0, 1, -1, 1]),
        6 => f(1, 1, &[3]),
        7 => f(1, 2, &[1, -2]),
        8 => f(2, 2, &[0, 0, 0, 0]),
        9 => f(2, 2, &[1, 0, 2, 0]),
        _ => f(2, 2, &[1, 1, 2, 2]),
    }
}
pub fn pick<C: Ctx>(c: &C, ks: &[usize]) -> Array2<C::F> {
    design(ks[c.choose("design", ks.len())])
}
pub fn extra_of<C: Ctx>(c: &C, m: M) -> C::F {
    match m {
        M::Enet | M::MtEnet => [q(1, 2), q(1, 1), q(0, 1)][c.choose("l1 ratio", 3)],
        M::Mcp | M::BMcp => [q(3, 1), q(11, 10)][c.choose("gamma", 2)],
        _ => q(1, 2),
    }
}
pub fn hp_of<C: Ctx>(c: &C, m: M, iters: usize, epochs: usize) -> Hp<C::F> {
    // a product of a free alpha with free targets is kept out of the elastic nets (it divides by 1 + alpha (1-r) L)
    let alpha = match m {
        M::Enet | M::MtEnet => q(1, 3),
        _ => c.nonneg("alpha"),
    };
    let mut h = Hp::new(alpha, iters, epochs);
    h.extra = match m {
        M::Mcp | M::BMcp => q(3, 1),
        _ => q(1, 2),
    };
    h
}
fn flat<F: Num>(a: &Array2<F>) -> Vec<F> {
    a.iter().cloned().collect()
}

// ------------------------------------------------------------------ P13: alpha_max

fn alpha_max_value<C: Ctx>(c: &C, m: usize, e: usize, t: usize) {
    let x = mat(c, "x", m, e);
    let y = mat(c, "y", m, t);
    let s = c.var("s");
    let sp = Csc::full(&x);
    let lay = c.choose("layout", 4);
    let lx = Lay::new(x.view(), lay);
    let n: C::F = q(m as i64, 1);
    let mut corr = vec![];
    for j in 0..e {
        let g: Vec<C::F> = (0..t).map(|k| dot(&x.column(j).to_vec(), &y.column(k).to_vec())).collect();
        corr.push(if t == 1 { g[0].abs() } else { nrm(&g) });
    }
    let mut vals = vec![compute_alpha_max_mtl(lx.view(), y.view())];
    if t == 1 {
        vals.push(compute_alpha_max(lx.view(), y.column(0)));
        vals.push(compute_alpha_max_sparse(&sp.view(), y.column(0)));
    }
    for (i, a) in vals.iter().enumerate() {
        let l = ["mtl", "dense", "sparse"][i];
        c.check(&format!("{} finite", l), finite(*a));
        c.check(&format!("{} nonnegative", l), ge(*a, zero()));
        c.check(&format!("{} bounds every correlation", l), and(corr.iter().map(|g| le(*g, *a * n)).collect()));
        c.check(&format!("{} is attained", l), or(corr.iter().map(|g| eq(*g, *a * n)).collect()));
    }
    if t == 1 && lay == 0 {
        let ys = y.map(|v| *v * s);
        let scaled = compute_alpha_max(x.view(), ys.column(0));
        c.check("scales linearly", eq(scaled, vals[1] * s.abs()));
    }
}
fn alpha_max_of<F: Num>(m: M, x: &Array2<F>, y: &Array2<F>, sparse: bool) -> F {
    if m.multi() {
        compute_alpha_max_mtl(x.view(), y.view())
    } else if sparse {
        compute_alpha_max_sparse(&Csc::full(x).view(), y.column(0))
    } else {
        compute_alpha_max(x.view(), y.column(0))
    }
}
fn above<C: Ctx>(c: &C, m: M, e: usize, t: usize) {
    let x = mat(c, "x", 2, e);
    let y = mat(c, "y", 2, t);
    let sparse = c.choose("sparse", 2) == 1;
    let amax = alpha_max_of(m, &x, &y, sparse);
    let more = c.nonneg("more");
    let mut h = Hp::new(amax + more, 2, 2);
    if m == M::Enet || m == M::MtEnet {
        h.extra = q(1, 2);
        h.alpha = (amax + more) * q(2, 1);
    }
    h.tol = c.nonneg("tol");
    let w = if sparse { fit_csc(m, Csc::full(&x).view(), &y, &h) } else { fit_dense(m, x.view(), &y, &h) };
    c.check("valid", Cond::B(w.is_ok()));
    if let Ok(w) = w {
        c.check("zero at and above alpha_max", and(w.iter().map(|v| is0(*v)).collect()));
    }
}
fn below<C: Ctx>(c: &C, m: M, x: Array2<C::F>, t: usize, epochs: usize) {
    let y = mat(c, "y", x.nrows(), t);
    let sparse = c.choose("sparse", 2) == 1;
    let amax = alpha_max_of(m, &x, &y, sparse);
    let tol = c.nonneg("tol");
    let alpha = c.nonneg("alpha");
    c.assume(lt(alpha, amax - tol));
    let mut h = Hp::new(alpha, 1, epochs);
    if m == M::Enet || m == M::MtEnet {
        h.extra = q(1, 2);
        h.alpha = alpha * q(2, 1);
    }
    h.tol = tol;
    let w = if sparse { fit_csc(m, Csc::full(&x).view(), &y, &h) } else { fit_dense(m, x.view(), &y, &h) };
    c.check("valid", Cond::B(w.is_ok()));
    if let Ok(w) = w {
        c.check("non-zero below alpha_max", or(w.iter().map(|v| nz(*v)).collect()));
    }
}

/// unit directions in the space of the tasks, whose norms are rational
fn direction<F: Num>(t: usize) -> Vec<F> {
    let v: &[(i64, i64)] = match t {
        1 => &[(1, 1)],
        2 => &[(3, 5), (-4, 5)],
        3 => &[(2, 3), (-1, 3), (2, 3)],
        4 => &[(1, 2), (-1, 2), (1, 2), (1, 2)],
        _ => &[(1, 2), (1, 4), (0, 1), (-1, 2), (1, 4), (-1, 4), (1, 2), (1, 4)],
    };
    v.iter().map(|(a, b)| q(*a, *b)).collect()
}
/// fixed designs of all shapes, targets on a line through the task space, one of them free
fn wide_problem<C: Ctx>(c: &C) -> (Array2<C::F>, Array2<C::F>) {
    let (m, e) = [(7, 9), (20, 33), (1, 12), (13, 1), (12, 2)][c.choose("shape", 5)];
    let t = [1, 2, 3, 4, 8][c.choose("tasks", 5)];
    let mut x = fixed_mat::<C::F>(m, e, 1);
    if e > 2 {
        x.column_mut(0).fill(zero());
        let last = x.column(1).map(|v| -*v);
        x.column_mut(e - 1).assign(&last);
    }
    let f = [0, m - 1][c.choose("free", 2)];
    let s = c.var("s");
    let d = direction::<C::F>(t);
    let y = Array2::from_shape_fn((m, t), |(i, k)| d[k] * if i == f { s } else { fixed(3 * i + 1) });
    (x, y)
}
fn alpha_max_wide<C: Ctx>(c: &C) {
    let (x, y) = wide_problem(c);
    let (m, t) = y.dim();
    let st = c.choose("storage", 6);
    let d = direction::<C::F>(t);
    let n: C::F = q(m as i64, 1);
    // the norm of a row of X^T Y is the size of its projection on the direction
    let corr: Vec<C::F> = x
        .columns()
        .into_iter()
        .map(|xj| {
            let g: Vec<C::F> = (0..t).map(|k| dot(&xj.to_vec(), &y.column(k).to_vec())).collect();
            dot(&g, &d).abs()
        })
        .collect();
    let y1 = y.column(0);
    let sp = |z: bool| Csc::keep(&x, |i, j| z || !c.same(x[[i, j]], zero()), st == 5);
    let a = match st {
        0..=3 if t > 1 || st == 3 => compute_alpha_max_mtl(Lay::new(x.view(), st).view(), Lay::new(y.view(), (st + 1) % 4).view()),
        0..=2 => compute_alpha_max(Lay::new(x.view(), st).view(), y1),
        _ if t > 1 => compute_alpha_max_mtl(Lay::new(x.view(), 3).view(), y.view()),
        4 => compute_alpha_max_sparse(&sp(true).view(), y1),
        _ => compute_alpha_max_sparse(&sp(false).view(), y1),
    };
    c.check("nonnegative", ge(a, zero()));
    c.check("bounds every correlation", and(corr.iter().map(|g| le(*g, a * n)).collect()));
    c.check("is attained", or(corr.iter().map(|g| eq(*g, a * n)).collect()));
}
/// fits on both sides of the threshold: everything fixed but the penalty and the tolerance
fn threshold<C: Ctx>(c: &C) {
    let m = one_of(c, &[M::Lasso, M::Enet, M::MtLasso, M::MtEnet]);
    let (r, e) = [(7, 9), (8, 20), (1, 12), (13, 1)][c.choose("shape", 4)];
    let t = if m.multi() { [2, 3][c.choose("tasks", 2)] } else { 1 };
    let x = fixed_mat::<C::F>(r, e, 1);
    let d = direction::<C::F>(t);
    let y = Array2::from_shape_fn((r, t), |(i, k)| d[k] * fixed(3 * i + 1));
    let sparse = c.choose("sparse", 2) == 1;
    let amax = alpha_max_of(m, &x, &y, sparse);
    let enet = m == M::Enet || m == M::MtEnet;
    let alpha = if enet { amax * [q(1, 1), q(1001, 1000), q(999, 1000)][c.choose("alpha", 3)] } else { c.nonneg("alpha") };
    let mut h = Hp::new(alpha, 1, 1);
    if enet {
        h.extra = q(1, 2);
        h.alpha = alpha * q(2, 1);
    }
    h.tol = if c.choose("tolerance", 2) == 0 { zero() } else { c.nonneg("tol") };
    h.ws = [1, 40][c.choose("ws", 2)];
    // near the threshold: few features can enter
    c.assume(gt(alpha + h.tol, amax * q(9, 10)));
    let w = if sparse { fit_csc(m, Csc::thin(c, &x).view(), &y, &h) } else { fit_dense(m, x.view(), &y, &h) }.unwrap();
    if c.split(le(amax, alpha)) {
        c.cover("above");
        c.check("zero at and above alpha_max", and(w.iter().map(|v| is0(*v)).collect()));
    } else if c.split(lt(alpha, amax - h.tol)) {
        c.cover("below");
        c.check("non-zero below alpha_max", or(w.iter().map(|v| nz(*v)).collect()));
    }
}

// ------------------------------------------------------------------ P15: estimators solve the documented model

fn documented<C: Ctx>(c: &C, m: M, t: usize, accel: bool) {
    let sparse = c.choose("sparse", 2) == 1;
    let mut h;
    let (x, y);
    if accel {
        // a run long enough for the extrapolation to matter; one free number
        x = Array2::from_shape_vec((2, 2), vec![q(2, 1), q(1, 1), q(0, 1), q(1, 1)]).unwrap();
        let s = c.var_in("s", 4.0, 5.0);
        y = Array2::from_shape_fn((2, t), |(i, k)| if k == 0 { if i == 0 { s } else { q(7, 1) } } else { q(i as i64, 2) });
        h = Hp::new(q(1, 2), 1, 4);
        h.k = c.choose("K", 3) + 1;
        h.acc = c.choose("acceleration", 2) == 1;
        h.tol = zero();
    } else {
        x = design(3);
        y = mat(c, "y", 2, t);
        h = hp_of(c, m, c.choose("iterations", 3), c.choose("epochs", 3));
        h.ws = c.choose("ws", 2) + 1;
        h.tol = c.nonneg("tol");
    }
    h.extra = extra_of(c, m);
    let (a, b) = if sparse {
        let s = Csc::thin(c, &x);
        (fit_csc(m, s.view(), &y, &h), solve_ref(m, &s.view(), &y, &h))
    } else {
        (fit_dense(m, x.view(), &y, &h), solve_ref(m, &x, &y, &h))
    };
    c.check("valid", Cond::B(a.is_ok()));
    if accel && !sparse && h.acc {
        // the run is long enough for K and the switch to show
        let mut o = h.clone();
        o.acc = false;
        if !same_all(c, &flat(&b), &flat(&solve_ref(m, &x, &y, &o))) {
            c.cover("acceleration shows");
        }
        o.acc = true;
        o.k = 5;
        if !same_all(c, &flat(&b), &flat(&solve_ref(m, &x, &y, &o))) {
            c.cover("K shows");
        }
    }
    if let Ok(a) = a {
        c.check("same coefficients", eq2(a.view(), b.view()));
    }
}
fn refused<C: Ctx>(c: &C, m: M) {
    let x = design::<C::F>(1);
    let y = Array2::from_elem((2, 1), one());
    let sparse = c.choose("sparse", 2) == 1;
    let mut h = Hp::new(one::<C::F>(), 1, 1);
    if m == M::Mcp || m == M::BMcp {
        h.extra = q(3, 1);
    }
    let bad = c.var("bad");
    match c.choose("what", 5) {
        0 => {
            c.assume(lt(bad, zero()));
            h.alpha = bad;
        }
        1 => {
            c.assume(lt(bad, zero()));
            h.tol = bad;
        }
        2 => h.k = 0,
        3 => h.ws = 0,
        _ => match m {
            M::Enet | M::MtEnet => {
                c.assume(or(vec![lt(bad, zero()), gt(bad, one())]));
                h.extra = bad;
            }
            M::Mcp | M::BMcp => {
                c.assume(lt(bad, one()));
                h.extra = bad;
            }
            _ => h.ws = 0,
        },
    }
    let a = if sparse { fit_csc(m, Csc::thin(c, &x).view(), &y, &h) } else { fit_dense(m, x.view(), &y, &h) };
    c.check("an error, no coefficients", Cond::B(a.is_err()));
}

// ------------------------------------------------------------------ P20: no panic, no NaN

fn safe<C: Ctx>(c: &C, m: M, ks: &[usize], t: usize, iters: usize, epochs: usize, acc: bool) {
    let x = pick(c, ks);
    let y = mat(c, "y", x.nrows(), t);
    safe_on(c, m, x, y, iters, epochs, acc)
}
fn safe_on<C: Ctx>(c: &C, m: M, x: Array2<C::F>, y: Array2<C::F>, iters: usize, epochs: usize, acc: bool) {
    let mut h = hp_of(c, m, iters, epochs);
    h.tol = zero();
    h.extra = extra_of(c, m);
    if acc {
        h.acc = true;
        h.k = c.choose("K", 2) + 1;
        h.ws = [1, 10][c.choose("ws", 2)];
    }
    safe_at(c, m, x, y, h)
}
fn safe_at<C: Ctx>(c: &C, m: M, x: Array2<C::F>, y: Array2<C::F>, h: Hp<C::F>) {
    let t = y.ncols();
    let sparse = c.choose("sparse", 2) == 1;
    let w = if sparse { fit_csc(m, Csc::thin(c, &x).view(), &y, &h) } else { fit_dense(m, x.view(), &y, &h) };
    c.check("accepted", Cond::B(w.is_ok()));
    if let Ok(w) = w {
        c.check("shape", Cond::B(w.dim() == (x.ncols(), t)));
        c.check("finite", fin_all(&flat(&w)));
    }
}

// ------------------------------------------------------------------ P07: storage of the design

fn storage<C: Ctx>(c: &C, m: M, ks: &[usize], t: usize, iters: usize, epochs: usize) {
    let x = pick(c, ks);
    let y = mat(c, "y", x.nrows(), t);
    let h = hp_of(c, m, iters, epochs);
    storage_at(c, m, x, y, h)
}
fn storage_at<C: Ctx>(c: &C, m: M, x: Array2<C::F>, y: Array2<C::F>, h: Hp<C::F>) {
    let a = fit_dense(m, x.view(), &y, &h).unwrap();
    let kind = c.choose("storage", 6);
    let b = match kind {
        0..=2 => fit_dense(m, Lay::new(x.view(), kind + 1).view(), &y, &h),
        3 => fit_csc(m, Csc::full(&x).view(), &y, &h),
        4 => fit_csc(m, Csc::keep(&x, |i, j| !c.same(x[[i, j]], zero()), false).view(), &y, &h),
        _ => fit_csc(m, Csc::keep(&x, |_, _| true, true).view(), &y, &h),
    }
    .unwrap();
    c.check("same coefficients", eq2(a.view(), b.view()));
}

// ------------------------------------------------------------------ P09 / P10: the objective never ends above its start

pub fn objective<F: Num>(m: M, x: &Array2<F>, y: &Array2<F>, h: &Hp<F>, w: &Array2<F>) -> F {
    let r = y - &xw2(x, w);
    let f = r.iter().fold(F::zero(), |s, v| s + *v * *v) / q(2 * x.nrows() as i64, 1);
    let w1 = w.column(0);
    f + match m {
        M::Lasso => L1::new(h.alpha).value(w1),
        M::Enet => L1PlusL2::new(h.alpha, h.extra).value(w1),
        M::Mcp => MCP::new(h.alpha, h.extra).value(w1),
        M::MtLasso => L21::new(h.alpha).value(w.view()),
        M::MtEnet => BlockL1PlusL2::new(h.alpha, h.extra).value(w.view()),
        M::BMcp => BlockMCP::new(h.alpha, h.extra).value(w.view()),
    }
}
fn descends<C: Ctx>(c: &C, m: M, ks: &[usize], t: usize, epochs: usize) {
    let x = pick(c, ks);
    let y = mat(c, "y", x.nrows(), t);
    let h = hp_of(c, m, 1, epochs);
    descends_at(c, m, x, y, h)
}
fn descends_at<C: Ctx>(c: &C, m: M, x: Array2<C::F>, y: Array2<C::F>, h: Hp<C::F>) {
    let w = fit_dense(m, x.view(), &y, &h).unwrap();
    let end = objective(m, &x, &y, &h, &w);
    let start = objective(m, &x, &y, &h, &Array2::from_elem(w.dim(), zero()));
    c.check("objective not above its start", le(end, start));
}

// ------------------------------------------------------------------ P19: one task

fn single_of(m: M) -> M {
    match m {
        M::MtLasso => M::Lasso,
        M::MtEnet => M::Enet,
        _ => M::Mcp,
    }
}
fn one_task<C: Ctx>(c: &C, m: M, ks: &[usize], iters: usize, epochs: usize, acc: bool) {
    let x = pick(c, ks);
    let y = mat(c, "y", x.nrows(), 1);
    let mut h = hp_of(c, m, iters, epochs);
    h.ws = [1, 10][c.choose("ws", 2)];
    h.acc = acc;
    h.k = 2;
    one_task_at(c, m, x, y, h)
}
fn one_task_at<C: Ctx>(c: &C, m: M, x: Array2<C::F>, y: Array2<C::F>, h: Hp<C::F>) {
    let sparse = c.choose("sparse", 2) == 1;
    let f = |m: M| {
        if sparse {
            fit_csc(m, Csc::thin(c, &x).view(), &y, &h)
        } else {
            fit_dense(m, x.view(), &y, &h)
        }
        .unwrap()
    };
    let a = f(single_of(m));
    let b = f(m);
    c.check("same coefficients", eq2(a.view(), b.view()));
}
/// a one-dimensional target is a single column
fn flat_target<C: Ctx>(c: &C, m: M, x: Array2<C::F>, iters: usize, epochs: usize) {
    let y = vecv(c, "y", x.nrows());
    let h = hp_of(c, m, iters, epochs);
    let y2 = y.clone().insert_axis(Axis(1));
    macro_rules! both {
        ($p:expr) => {{
            let p = $p;
            let a = p.fit(&DatasetBase::from((x.clone(), y.clone()))).unwrap().coefficients().to_owned();
            let b = p.fit(&DatasetBase::from((x.clone(), y2.clone()))).unwrap().coefficients().to_owned();
            c.check("dense", eq2(a.view(), b.view()));
            let s = Csc::thin(c, &x);
            let d = p.fit(&DatasetBase::from((s.view(), y.clone()))).unwrap().coefficients().to_owned();
            let e = p.fit(&DatasetBase::from((s.view(), y2.clone()))).unwrap().coefficients().to_owned();
            c.check("sparse", eq2(d.view(), e.view()));
        }};
    }
    match m {
        M::MtLasso => both!(set_hp!(MultiTaskLasso::params(), h)),
        M::MtEnet => both!(set_hp!(MultiTaskElasticNet::params(), h).l1_ratio(h.extra)),
        _ => both!(set_hp!(BlockMCPEstimator::params(), h).gamma(h.extra)),
    }
}
fn comp_penalty<C: Ctx>(c: &C, m: M, e: usize) {
    let w = vecv(c, "w", e);
    let g = vecv(c, "g", e);
    let z = c.var("z");
    let step = c.pos("step");
    let alpha = c.nonneg("alpha");
    let extra = match m {
        M::MtEnet => c.var_in("ratio", 0.0, 1.0),
        _ => {
            let g = c.var("gamma");
            c.assume(gt(g, one()));
            c.assume(gt(g, step));
            g
        }
    };
    let w2 = w.clone().insert_axis(Axis(1));
    let g2 = g.clone().insert_axis(Axis(1));
    let sel = all_selections(e);
    let ws = sel[c.choose("ws", sel.len())].clone();
    let gw = Array1::from_iter(ws.iter().map(|j| g[*j]));
    let gw2 = gw.clone().insert_axis(Axis(1));
    let _ = g2;
    macro_rules! cmp {
        ($s:expr, $b:expr) => {{
            let (s, b) = ($s, $b);
            c.check("value", eq(s.value(w.view()), b.value(w2.view())));
            let p = b.prox(Array1::from_vec(vec![z]).view(), step);
            c.check("prox", and(vec![Cond::B(p.len() == 1), eq(p[0], s.prox(z, step))]));
            let wv = ArrayView1::from(&ws[..]);
            let (ka, ma) = s.subdiff_distance(w.view(), gw.view(), wv);
            let (kb, mb) = b.subdiff_distance(w2.view(), gw2.view(), wv);
            c.check("violations", eq1(ka.view(), kb.view()));
            c.check("largest violation", eq(ma, mb));
        }};
    }
    match m {
        M::MtLasso => cmp!(L1::new(alpha), L21::new(alpha)),
        M::MtEnet => cmp!(L1PlusL2::new(alpha, extra), BlockL1PlusL2::new(alpha, extra)),
        _ => cmp!(MCP::new(alpha, extra), BlockMCP::new(alpha, extra)),
    }
}
fn comp_datafit<C: Ctx>(c: &C, m: usize, e: usize) {
    let x = mat(c, "x", m, e);
    let y = vecv(c, "y", m);
    let f = vecv(c, "f", m);
    let y2 = y.clone().insert_axis(Axis(1));
    let f2 = f.clone().insert_axis(Axis(1));
    let sparse = c.choose("sparse", 2) == 1;
    fn go<C: Ctx, DM: DesignMatrix<Elem = C::F> + Clone>(c: &C, x: DM, y: Array1<C::F>, y2: Array2<C::F>, f: &Array1<C::F>, f2: &Array2<C::F>, e: usize)
    where
        Quadratic<C::F>: Datafit<C::F, DM, Array1<C::F>>,
        QuadraticMultiTask<C::F>: MultiTaskDatafit<C::F, DM, Array2<C::F>>,
    {
        let (a, b) = (DatasetBase::<DM, Array1<C::F>>::new(x.clone(), y), DatasetBase::<DM, Array2<C::F>>::new(x, y2));
        let (mut s, mut t) = (Quadratic::new(), QuadraticMultiTask::new());
        s.initialize(&a);
        t.initialize(&b);
        c.check("value", eq(s.value(&a, f.view()), t.value(&b, f2.view())));
        c.check("step sizes", eq1(s.step_size().view(), t.step_size().view()));
        for j in 0..e {
            let g = t.gradient_j(&b, f2.view(), j);
            c.check("gradient", and(vec![Cond::B(g.len() == 1), eq(g[0], s.gradient_j(&a, f.view(), j))]));
        }
        let (ga, gb) = (s.full_grad(&a, f.view()), t.full_grad(&b, f2.view()));
        c.check("full gradient", eq2(ga.insert_axis(Axis(1)).view(), gb.view()));
    }
    if sparse {
        let s = Csc::full(&x);
        go(c, s.view(), y, y2, &f, &f2, e)
    } else {
        go(c, x, y, y2, &f, &f2, e)
    }
}
fn comp_ws<C: Ctx>(c: &C, e: usize) {
    let kkt: Vec<C::F> = (0..e).map(|j| c.nonneg(&format!("k{}", j))).collect();
    let w: Vec<C::F> = (0..e).map(|j| if c.choose("active", 2) == 1 { c.var(&format!("w{}", j)) } else { zero() }).collect();
    let p = c.choose("ws", e) + 1;
    let w1 = Array1::from_vec(w);
    let w2 = w1.clone().insert_axis(Axis(1));
    let (mut a, mut b) = (Array1::from_vec(kkt.clone()), Array1::from_vec(kkt));
    let (wa, na) = sparseglm::solvers::anderson_cd::construct_ws_from_kkt(&mut a, w1.view(), p);
    let (wb, nb) = sparseglm::solvers::anderson_bcd::construct_ws_from_kkt(&mut b, w2.view(), p);
    c.check("same size", Cond::B(na == nb));
    // features of equal violation may come in any order
    let mut ok = vec![Cond::B(wa.len() == wb.len())];
    if wa.len() == wb.len() {
        for i in 0..wa.len() {
            ok.push(eq(a[wa[i]], b[wb[i]]));
        }
    }
    c.check("same ranking", and(ok));
}

// ------------------------------------------------------------------ P23: nothing but the arguments

fn quiet<C: Ctx>(c: &C, m: M, ks: &[usize], t: usize, epochs: usize, acc: bool) {
    let x = pick(c, ks);
    let y = mat(c, "y", x.nrows(), t);
    let mut h = hp_of(c, m, 2, epochs);
    h.tol = c.nonneg("tol");
    if acc {
        h.acc = true;
        h.k = 1 + c.choose("K", 2);
    }
    quiet_at(c, m, x, y, h)
}
fn quiet_at<C: Ctx>(c: &C, m: M, x: Array2<C::F>, y: Array2<C::F>, mut h: Hp<C::F>) {
    let sparse = c.choose("sparse", 2) == 1;
    let sp = Csc::thin(c, &x);
    let f = |h: &Hp<C::F>| if sparse { fit_csc(m, sp.view(), &y, h) } else { fit_dense(m, x.view(), &y, h) }.unwrap();
    let a = f(&h);
    h.verb = true;
    let b = f(&h);
    c.check("verbosity changes nothing", eq2(a.view(), b.view()));
}
fn reuse<C: Ctx>(c: &C, m: M, first: usize, second: usize, t: usize, epochs: usize) {
    let (x1, x2) = (design::<C::F>(first), design::<C::F>(second));
    let y1 = Array2::from_shape_fn((x1.nrows(), t), |(i, k)| q(3 + 2 * i as i64 - k as i64, 1));
    let y2 = mat(c, "y", x2.nrows(), t);
    let mut h = hp_of(c, m, 1, epochs);
    h.tol = q(1, 1000);
    let s = solver_of(&h);
    let sparse = c.choose("sparse", 2) == 1;
    let (s1, s2) = (Csc::thin(c, &x1), Csc::thin(c, &x2));
    let keep = (x2.clone(), y2.clone());
    macro_rules! run1 {
        ($pen:expr, $a:expr, $b:expr) => {{
            let pen = $pen;
            let d1 = DatasetBase::from(($a, y1.column(0).to_owned()));
            let d2 = DatasetBase::from(($b, y2.column(0).to_owned()));
            let mut used = Quadratic::new();
            let _ = s.solve(&d1, &mut used, &pen).unwrap();
            let got = s.solve(&d2, &mut used, &pen).unwrap();
            let again = s.solve(&d2, &mut used, &pen).unwrap();
            let fresh = solver_of(&h).solve(&d2, &mut Quadratic::new(), &$pen).unwrap();
            (got.insert_axis(Axis(1)), again.insert_axis(Axis(1)), fresh.insert_axis(Axis(1)))
        }};
    }
    macro_rules! run2 {
        ($pen:expr, $a:expr, $b:expr) => {{
            let pen = $pen;
            let d1 = DatasetBase::from(($a, y1.clone()));
            let d2 = DatasetBase::from(($b, y2.clone()));
            let mut used = QuadraticMultiTask::new();
            let _ = s.solve_multi_task(&d1, &mut used, &pen).unwrap();
            let got = s.solve_multi_task(&d2, &mut used, &pen).unwrap();
            let again = s.solve_multi_task(&d2, &mut used, &pen).unwrap();
            let fresh = solver_of(&h).solve_multi_task(&d2, &mut QuadraticMultiTask::new(), &$pen).unwrap();
            (got, again, fresh)
        }};
    }
    macro_rules! on {
        ($run:ident, $pen:expr) => {
            if sparse {
                $run!($pen, s1.view(), s2.view())
            } else {
                $run!($pen, x1.view(), x2.view())
            }
        };
    }
    let (got, again, fresh) = match m {
        M::Lasso => on!(run1, L1::new(h.alpha)),
        M::Enet => on!(run1, L1PlusL2::new(h.alpha, h.extra)),
        M::Mcp => on!(run1, MCP::new(h.alpha, h.extra)),
        M::MtLasso => on!(run2, L21::new(h.alpha)),
        M::MtEnet => on!(run2, BlockL1PlusL2::new(h.alpha, h.extra)),
        M::BMcp => on!(run2, BlockMCP::new(h.alpha, h.extra)),
    };
    c.check("reused objects", eq2(got.view(), fresh.view()));
    c.check("a second run", eq2(again.view(), fresh.view()));
    c.check("inputs untouched", and(vec![eq2(keep.0.view(), x2.view()), eq2(keep.1.view(), y2.view())]));
    // parameter objects and datasets
    let p = fit_dense(m, x2.view(), &y2, &h).unwrap();
    c.check("through the estimator", eq2(p.view(), fresh.view()));
}
fn params_reuse<C: Ctx>(c: &C, m: M, first: usize, second: usize, epochs: usize) {
    let (x1, x2) = (design::<C::F>(first), design::<C::F>(second));
    let y1 = Array1::from_shape_fn(x1.nrows(), |i| q::<C::F>(3 + 2 * i as i64, 1));
    let y2 = vecv(c, "y", x2.nrows());
    let h = hp_of(c, m, 1, epochs);
    macro_rules! go {
        ($p:expr) => {{
            let p = $p;
            let (d1, d2) = (DatasetBase::from((x1.view(), y1.view())), DatasetBase::from((x2.view(), y2.view())));
            let before = p.clone();
            let _ = p.fit(&d1).unwrap();
            let a = p.fit(&d2).unwrap();
            let b = $p.fit(&d2).unwrap();
            c.check("parameters re-used", all_eq(&a.coefficients().iter().cloned().collect::<Vec<_>>(), &b.coefficients().iter().cloned().collect::<Vec<_>>()));
            c.check("parameters unchanged", Cond::B(p == before));
        }};
    }
    match m {
        M::Lasso => go!(set_hp!(Lasso::params(), h)),
        M::Enet => go!(set_hp!(ElasticNet::params(), h)),
        M::Mcp => go!(set_hp!(MCPEstimator::params(), h)),
        M::MtLasso => go!(set_hp!(MultiTaskLasso::params(), h)),
        M::MtEnet => go!(set_hp!(MultiTaskElasticNet::params(), h)),
        M::BMcp => go!(set_hp!(BlockMCPEstimator::params(), h)),
    }
}

// ------------------------------------------------------------------ P24: columns of zeros

fn useless<C: Ctx>(c: &C, m: M, ks: &[usize], t: usize, iters: usize, epochs: usize, acc: bool) {
    let x = pick(c, ks);
    let (rows, e) = x.dim();
    let y = mat(c, "y", rows, t);
    let mut h = hp_of(c, m, iters, epochs);
    h.tol = q(1, 100);
    if acc {
        h.acc = true;
        h.k = 2;
    }
    useless_at(c, m, x, y, h)
}
/// features of equal violation may be updated in any order (the support counts as equal from the second round on, and
/// so does everything within the penalty); with many features: one round, targets without ties, a small penalty
pub fn untied<F: Num>(x: &Array2<F>, y: &mut Array2<F>, h: &mut Hp<F>) {
    if x.ncols() > 20 {
        h.iters = 1;
        h.alpha = q(1, 4096);
        h.acc = false;
        h.epochs = h.epochs.min(4);
        for ((i, _), v) in y.indexed_iter_mut() {
            *v = *v * q((4096 + (i * i * i * 37 + i * 911 + 13) % 4093) as i64, 4096);
        }
    }
}
fn one_task_untied<C: Ctx>(c: &C, m: M, x: Array2<C::F>, mut y: Array2<C::F>, mut h: Hp<C::F>) {
    untied(&x, &mut y, &mut h);
    one_task_at(c, m, x, y, h)
}
/// with a working set of all features: a partial one is left by another rule (its pass ends on the share of the
/// violation removed), so the number of features may show in a fit that stops before it has converged
fn useless_full<C: Ctx>(c: &C, m: M, x: Array2<C::F>, mut y: Array2<C::F>, mut h: Hp<C::F>) {
    h.ws = x.ncols() + 1;
    untied(&x, &mut y, &mut h);
    useless_at(c, m, x, y, h)
}
fn useless_at<C: Ctx>(c: &C, m: M, x: Array2<C::F>, y: Array2<C::F>, h: Hp<C::F>) {
    let (rows, e) = x.dim();
    let t = y.ncols();
    let at = if e <= 5 { c.choose("position", e + 1) } else { [4, e][c.choose("position", 2)] };
    let xz = Array2::from_shape_fn((rows, e + 1), |(i, j)| if j == at { zero() } else { x[[i, j - (j > at) as usize]] });
    let st = if e <= 5 { c.choose("storage", 3) } else { [0, 2][c.choose("storage", 2)] };
    let f = |x: &Array2<C::F>, skip: Option<usize>| match (st, skip) {
        (0, _) => fit_dense(m, x.view(), &y, &h),
        (2, Some(p)) => fit_csc(m, Csc::keep(x, |_, j| j != p, false).view(), &y, &h),
        _ => fit_csc(m, Csc::thin(c, x).view(), &y, &h),
    }
    .unwrap();
    let a = f(&x, None);
    let b = f(&xz, Some(at));
    c.check("zero coefficient", and(b.row(at).iter().map(|v| is0(*v)).collect()));
    let rest = Array2::from_shape_fn((e, t), |(j, k)| b[[j + (j >= at) as usize, k]]);
    c.check("the others do not change", eq2(a.view(), rest.view()));
}

// ------------------------------------------------------------------ P25: symmetries

fn symmetric<C: Ctx>(c: &C, m: M, ks: &[usize], t: usize, iters: usize, epochs: usize, acc: bool) {
    let x = pick(c, ks);
    let (rows, e) = x.dim();
    let y = mat(c, "y", rows, t);
    let mut h = hp_of(c, m, iters, epochs);
    h.tol = q(1, 100);
    if acc {
        h.acc = true;
        h.k = 2;
    }
    symmetric_at(c, m, x, y, h)
}
fn symmetric_at<C: Ctx>(c: &C, m: M, x: Array2<C::F>, y: Array2<C::F>, h: Hp<C::F>) {
    let (rows, e) = x.dim();
    let t = y.ncols();
    let sparse = c.choose("sparse", 2) == 1;
    let f = |x: &Array2<C::F>, y: &Array2<C::F>, h: &Hp<C::F>| if sparse { fit_csc(m, Csc::thin(c, x).view(), y, h) } else { fit_dense(m, x.view(), y, h) }.unwrap();
    let a = f(&x, &y, &h);
    let kinds = if m == M::Lasso || m == M::MtLasso { 4 } else { 3 };
    match c.choose("symmetry", kinds) {
        0 => {
            let j = if e <= 5 { c.choose("column", e) } else { [1, e - 1][c.choose("column", 2)] };
            let xf = Array2::from_shape_fn((rows, e), |(i, k)| if k == j { -x[[i, k]] } else { x[[i, k]] });
            let b = f(&xf, &y, &h);
            let want = Array2::from_shape_fn((e, t), |(k, l)| if k == j { -a[[k, l]] } else { a[[k, l]] });
            c.check("sign flip", eq2(b.view(), want.view()));
        }
        1 => {
            let perms = if rows <= 3 {
                selections(rows, rows)
            } else {
                vec![(0..rows).rev().collect(), (0..rows).map(|i| (i + 1) % rows).collect()]
            };
            let p = &perms[c.choose("permutation", perms.len())];
            let xp = Array2::from_shape_fn((rows, e), |(i, k)| x[[p[i], k]]);
            let yp = Array2::from_shape_fn((rows, t), |(i, k)| y[[p[i], k]]);
            c.check("sample order", eq2(f(&xp, &yp, &h).view(), a.view()));
        }
        2 => {
            let b = f(&x, &y.map(|v| -*v), &h);
            c.check("negated targets", eq2(b.view(), a.map(|v| -*v).view()));
        }
        _ => {
            let s: C::F = [q(3, 1), q(1, 2)][c.choose("scale", 2)];
            let mut h2 = h.clone();
            h2.alpha = h.alpha * s;
            h2.tol = h.tol * s;
            let b = f(&x, &y.map(|v| *v * s), &h2);
            c.check("scaled targets", eq2(b.view(), a.map(|v| *v * s).view()));
        }
    }
}

// ------------------------------------------------------------------ larger problems, long runs, targets on a line

/// y = (a + s b) v' with one free number s
fn line<C: Ctx>(c: &C, m: usize, t: usize) -> Array2<C::F> {
    let s = c.var_in("s", 1.0, 1.25);
    let v: &[(i64, i64)] = match t {
        1 => &[(1, 1)],
        2 => &[(3, 5), (-4, 5)],
        _ => &[(2, 3), (-1, 3), (2, 3)],
    };
    Array2::from_shape_fn((m, t), |(i, k)| (fixed::<C::F>(i + 3) * q(2, 1) + s * fixed::<C::F>(2 * i + 1)) * q(v[k].0, v[k].1))
}
fn long_x<C: Ctx>(c: &C) -> Array2<C::F> {
    match c.choose("design", 2) {
        0 => fixed_mat(4, 3, 0),
        _ => fixed_mat(3, 5, 4),
    }
}
#[derive(Clone, Copy)]
pub struct Long {
    pub iters: usize,
    pub epochs: usize,
    pub acc: bool,
}
fn long_h<C: Ctx>(c: &C, m: M, l: Long) -> Hp<C::F> {
    let mut h = Hp::new(q(1, 3), l.iters, l.epochs);
    h.extra = match m {
        M::Mcp | M::BMcp => q(7, 2),
        M::Enet | M::MtEnet => q(3, 5),
        _ => h.extra,
    };
    h.tol = q(1, 100);
    h.acc = l.acc;
    if l.acc {
        h.k = 2;
    }
    h.ws = [1, 10][c.choose("ws", 2)];
    h
}
fn documented_at<C: Ctx>(c: &C, m: M, x: Array2<C::F>, y: Array2<C::F>, h: Hp<C::F>) {
    let sparse = c.choose("sparse", 2) == 1;
    let (a, b) = if sparse {
        let s = Csc::thin(c, &x);
        (fit_csc(m, s.view(), &y, &h), solve_ref(m, &s.view(), &y, &h))
    } else {
        (fit_dense(m, x.view(), &y, &h), solve_ref(m, &x, &y, &h))
    };
    c.check("valid", Cond::B(a.is_ok()));
    if let Ok(a) = a {
        c.check("same coefficients", eq2(a.view(), b.view()));
    }
}
pub const ALL: [M; 6] = [M::Lasso, M::Enet, M::Mcp, M::MtLasso, M::MtEnet, M::BMcp];
pub fn long<C: Ctx>(c: &C, ms: &[M], t: usize, l: Long, go: fn(&C, M, Array2<C::F>, Array2<C::F>, Hp<C::F>)) {
    let m = one_of(c, ms);
    let x = long_x(c);
    let y = line(c, x.nrows(), if m.multi() { t } else { 1 });
    let h = long_h(c, m, l);
    go(c, m, x, y, h)
}

/// distance of minus the gradient to the subdifferential of the penalty, for every row
fn violations<F: Num>(m: M, x: &Array2<F>, y: &Array2<F>, h: &Hp<F>, w: &Array2<F>) -> Vec<F> {
    let r = y - &xw2(x, w);
    let (a, n) = (h.alpha, q::<F>(x.nrows() as i64, 1));
    let norm = |v: &[F]| if v.len() == 1 { v[0].abs() } else { nrm(v) };
    (0..x.ncols())
        .map(|j| {
            let g: Vec<F> = (0..y.ncols()).map(|k| -dot(&x.column(j).to_vec(), &r.column(k).to_vec()) / n).collect();
            let wj = w.row(j).to_vec();
            let lasso = match m {
                M::Enet | M::MtEnet => a * h.extra,
                _ => a,
            };
            if wj.iter().all(|v| *v == zero()) {
                let d = norm(&g) - lasso;
                return if d > zero() { d } else { zero() };
            }
            let nw = norm(&wj);
            let d: Vec<F> = g
                .iter()
                .zip(&wj)
                .map(|(g, w)| match m {
                    M::Enet | M::MtEnet => *g + lasso * *w / nw + a * (F::one() - h.extra) * *w,
                    M::Mcp | M::BMcp if nw >= a * h.extra => *g,
                    M::Mcp | M::BMcp => *g + a * *w / nw - *w / h.extra,
                    _ => *g + a * *w / nw,
                })
                .collect();
            norm(&d)
        })
        .collect()
}
/// one more round leaves an optimal point alone and changes any other
fn settles_at<C: Ctx>(c: &C, m: M, x: Array2<C::F>, y: Array2<C::F>, mut h: Hp<C::F>) {
    let sparse = c.choose("sparse", 2) == 1;
    let sp = Csc::thin(c, &x);
    let f = |h: &Hp<C::F>| if sparse { fit_csc(m, sp.view(), &y, h) } else { fit_dense(m, x.view(), &y, h) }.unwrap();
    h.iters = 1 + c.choose("rounds", 2);
    let a = f(&h);
    h.iters += 1;
    let b = f(&h);
    let v = violations(m, &x, &y, &h, &a);
    let done = and(v.iter().map(|v| le(*v, h.tol)).collect());
    if c.split(done) {
        c.cover("converged");
        c.check("a converged point stays", eq2(a.view(), b.view()));
    } else {
        c.cover("not converged");
        c.check("work goes on while a feature violates the optimality conditions", or(a.iter().zip(b.iter()).map(|(a, b)| nz(*a - *b)).collect()));
    }
}

/// everything fixed but the tolerance: runs long enough for the inner checks, several extrapolations and a growing working set
pub fn sweep<C: Ctx>(c: &C, ms: &[M], t: usize, go: fn(&C, M, Array2<C::F>, Array2<C::F>, Hp<C::F>)) {
    let m = one_of(c, ms);
    let (x, epochs, k, ws) = match c.choose("problem", 4) {
        0 => (fixed_mat(4, 3, 0), 24, 2, 10),
        1 => (scaled_signs(4, 5), 13, 5, 1),
        2 => (fixed_mat(4, 3, 7), 12, 1, 2),
        _ => (scaled_signs(4, 12), 7, 2, 10),
    };
    let t = if m.multi() { t } else { 1 };
    let v: &[(i64, i64)] = match t {
        1 => &[(1, 1)],
        2 => &[(3, 5), (-4, 5)],
        _ => &[(2, 3), (-1, 3), (2, 3)],
    };
    let y = Array2::from_shape_fn((x.nrows(), t), |(i, k)| fixed::<C::F>(i + 3) * q(2, 1) * q(v[k].0, v[k].1));
    let mut h = Hp::new(q(1, 3), 3, epochs);
    h.extra = match m {
        M::Mcp | M::BMcp => q(7, 2),
        M::Enet | M::MtEnet => q(3, 5),
        _ => h.extra,
    };
    h.tol = c.var_in("tol", 1e-6, 4.0);
    h.acc = c.choose("acceleration", 2) == 0;
    h.k = k;
    h.ws = ws;
    go(c, m, x, y, h)
}

/// a design of signs
fn signs<F: Num>(m: usize, e: usize) -> Array2<F> {
    Array2::from_shape_fn((m, e), |(i, j)| {
        let h = (i * 0x9E37 + j * 0x85EB + i * j * 0x27D5 + 0x1657) as u64;
        let h = (h ^ (h >> 7)).wrapping_mul(0x2545F491) >> 13;
        q(if h & 1 == 1 { 1 } else { -1 }, 1)
    })
}
/// two tasks on a line, one free number per sample
pub fn small_dir<C: Ctx>(c: &C, ms: &[M], iters: usize, epochs: usize, go: fn(&C, M, Array2<C::F>, Array2<C::F>, Hp<C::F>)) {
    let m = one_of(c, ms);
    let x = pick(c, &[1, 2]);
    let s = vecv(c, "s", x.nrows());
    let y = Array2::from_shape_fn((x.nrows(), 2), |(i, k)| s[i] * [q(3, 5), q(-4, 5)][k]);
    let mut h = hp_of(c, m, iters, epochs);
    h.tol = q(1, 100);
    go(c, m, x, y, h)
}

/// signs, columns in different units
fn scaled_signs<F: Num>(m: usize, e: usize) -> Array2<F> {
    let x = signs::<F>(m, e);
    Array2::from_shape_fn((m, e), |(i, j)| x[[i, j]] * [q(1, 1), q(2, 1), q(1, 2)][j % 3])
}
/// larger problems: designs of signs, so that numbers stay short; everything fixed but the tolerance
pub fn large<C: Ctx>(c: &C, ms: &[M], t: usize, go: fn(&C, M, Array2<C::F>, Array2<C::F>, Hp<C::F>)) {
    let m = one_of(c, ms);
    let (x, iters, epochs, k, acc, ws) = match c.choose("problem", 2) {
        0 => (signs(16, 24), 2, 12, 5, true, 3),
        _ => (signs(32, 40), 4, 2, 5, false, 10),
    };
    let t = if m.multi() { t } else { 1 };
    let v: &[(i64, i64)] = match t {
        1 => &[(1, 1)],
        2 => &[(3, 5), (-4, 5)],
        _ => &[(2, 3), (-1, 3), (2, 3)],
    };
    let y = Array2::from_shape_fn((x.nrows(), t), |(i, k)| fixed::<C::F>(i + 3) * q(2, 1) * q(v[k].0, v[k].1));
    let mut h = Hp::new(q(1, 4), iters, epochs);
    h.extra = match m {
        M::Mcp | M::BMcp => q(5, 1),
        _ => q(1, 2),
    };
    h.tol = c.var_in("tol", 1e-6, 4.0);
    h.acc = acc;
    h.k = k;
    h.ws = ws;
    go(c, m, x, y, h)
}

pub const EST: &[&str] = &[
    "estimators::Fit for *ValidParams",
    "param_guard::Fit for P",
    "hyperparams::check_ref",
    "coordinate_descent",
    "block_coordinate_descent",
    "anderson_accel",
    "construct_ws_from_kkt",
    "Quadratic",
    "QuadraticMultiTask",
    "L1/L1PlusL2/MCP",
    "L21/BlockL1PlusL2/BlockMCP",
];


pub fn one_of<C: Ctx>(c: &C, ms: &[M]) -> M {
    ms[c.choose("model", ms.len())]
}

pub fn register(v: &mut Vec<H>) {
    const AM: &[&str] = &["compute_alpha_max", "compute_alpha_max_mtl", "compute_alpha_max_sparse"];
    h!(v, "P13", "value_1", "alpha_max is the largest correlation over n; nonnegative, linear in the targets", funcs: AM, bounds: "2 samples, 2 features, 1 task, every X, y; 4 memory layouts + CSC", |c| alpha_max_value(c, 2, 2, 1));
    h!(v, "P13", "value_2", "same, two tasks", funcs: AM, bounds: "2 samples, 2 features, 2 tasks", |c| alpha_max_value(c, 2, 2, 2));
    h!(v, "P13", "value_3", "same, three tasks", funcs: AM, bounds: "2 samples, 1 feature, 3 tasks; 1 sample, 2 features, 3 tasks", |c| { let (m, e) = [(2, 1), (1, 2)][c.choose("shape", 2)]; alpha_max_value(c, m, e, 3) });
    h!(v, "P13", "value_wide", "same, more features than samples and the reverse", funcs: AM, bounds: "1 sample x 3 features, 4 samples x 1 feature, 1 task", |c| { let (m, e) = [(1, 3), (4, 1), (1, 1)][c.choose("shape", 3)]; alpha_max_value(c, m, e, 1) });
    h!(v, "P13", "value_fixed", "same, larger fixed designs", funcs: AM, bounds: "fixed designs of 7x9, 20x33, 1x12, 13x1, 12x2 (with a zero and two opposite columns), 1, 2, 3, 4, 8 tasks on a line, one free target; four layouts, CSC", |c| alpha_max_wide(c));
    h!(v, "P13", "threshold", "fits on both sides of alpha_max, larger problems", funcs: EST, bounds: "fixed designs of 7x9, 8x20, 1x12, 13x1, 1-3 tasks on a line; alpha (elastic nets: three values around alpha_max), tol free with alpha + tol > 0.9 alpha_max; 1 pass; start 1, 40", |c| threshold(c), need: &["above", "below"]);
    h!(v, "P13", "value_13", "same", funcs: AM, bounds: "3 samples, 3 features, 1 task", |c| alpha_max_value(c, 3, 3, 1), deep: true);
    h!(v, "P13", "above", "every fit at or above alpha_max is exactly zero", funcs: EST, bounds: "2x2 X and y free, dense/CSC, single task, 2 iterations, 2 epochs", |c| above(c, one_of(c, &[M::Lasso, M::Enet]), 2, 1));
    h!(v, "P13", "above_multi", "same, multi-task", funcs: EST, bounds: "2x1 X, 2 tasks, free", |c| above(c, one_of(c, &[M::MtLasso, M::MtEnet]), 1, 2));
    h!(v, "P13", "below_free", "every fit below alpha_max - tol is non-zero", funcs: EST, bounds: "2x1 X free, y, alpha, tol free, 1 epoch", |c| below(c, one_of(c, &[M::Lasso, M::Enet, M::MtLasso, M::MtEnet]), mat(c, "x", 2, 1), 1, 1));
    h!(v, "P13", "below", "same, several features", funcs: EST, bounds: "fixed 2x2..3x2 designs; y, alpha, tol free; 1-2 epochs", |c| below(c, M::Lasso, pick(c, &[1, 2, 4, 5, 9]), 1, 1 + c.choose("epochs", 2)));
    h!(v, "P13", "below_multi", "same, two tasks", funcs: EST, bounds: "fixed 2x1 design; Y, alpha, tol free; 1 epoch", |c| below(c, M::MtLasso, pick(c, &[0]), 2, 1));

    h!(v, "P15", "single", "estimator = solver on the documented datafit and penalty, every hyper-parameter passed on", funcs: EST, bounds: "fixed 2x3 design, dense/CSC; y, alpha, tol free; iterations, epochs 0..2, ws 1..2", |c| documented(c, one_of(c, &SINGLE), 1, false));
    h!(v, "P15", "single_accel", "same, K and acceleration", funcs: EST, bounds: "fixed 2x2 design, 4 epochs, K 1..3, one free target", |c| documented(c, one_of(c, &SINGLE), 1, true), need: &["acceleration shows", "K shows"]);
    h!(v, "P15", "multi", "same, multi-task", funcs: EST, bounds: "fixed 2x3 design, 1 task, iterations, epochs 0..2", |c| documented(c, one_of(c, &MULTI), 1, false));
    h!(v, "P15", "multi_accel", "same, K and acceleration", funcs: EST, bounds: "fixed 2x2 design, 1 task, 4 epochs, K 1..3", |c| documented(c, one_of(c, &MULTI), 1, true), need: &["acceleration shows", "K shows"]);
    h!(v, "P15", "refused", "invalid hyper-parameters give an error", funcs: EST, bounds: "every estimator, dense/CSC; any invalid value", |c| refused(c, one_of(c, &[M::Lasso, M::Enet, M::Mcp, M::MtLasso, M::MtEnet, M::BMcp])));

    h!(v, "P20", "single", "fits return finite coefficients of the right shape", funcs: EST, bounds: "fixed designs incl. zero/duplicate columns; y, alpha free; 2 iterations, 2 epochs", |c| safe(c, one_of(c, &SINGLE), &[1, 6, 7, 8, 9, 10], 1, 2, 2, false));
    h!(v, "P20", "single_accel", "same with extrapolation", funcs: EST, bounds: "2x2 designs; 3 epochs, K 1..2", |c| safe(c, one_of(c, &SINGLE), &[8, 9, 10], 1, 1, 3, true));
    h!(v, "P20", "single_free", "same, design free too", funcs: EST, bounds: "1x1 X, y, alpha free; 1 iteration, 1 epoch", |c| safe_on(c, one_of(c, &SINGLE), mat(c, "x", 1, 1), mat(c, "y", 1, 1), 1, 1, false));
    h!(v, "P20", "multi", "same, multi-task", funcs: EST, bounds: "fixed designs, 2 tasks, 1 epoch", |c| safe(c, one_of(c, &MULTI), &[6, 8, 9], 2, 1, 1, false));
    h!(v, "P20", "multi_1", "same, one task", funcs: EST, bounds: "fixed designs, 1 task, 2 epochs", |c| safe(c, one_of(c, &MULTI), &[6, 7, 8, 9, 10], 1, 1, 2, false));
    h!(v, "P20", "multi_accel", "same with extrapolation", funcs: EST, bounds: "fixed designs, 1 task, 3 epochs, K 1..2", |c| safe(c, one_of(c, &MULTI), &[8, 9, 10], 1, 1, 3, true));

    h!(v, "P07", "fit_single", "fitted coefficients do not depend on the storage", funcs: EST, bounds: "fixed designs; y, alpha free; 4 layouts, 3 CSC forms; 2 epochs", |c| storage(c, one_of(c, &SINGLE), &[2, 9], 1, 1, 2));
    h!(v, "P07", "fit_multi", "same, multi-task", funcs: EST, bounds: "fixed designs, 1-2 tasks; 1 epoch", |c| storage(c, one_of(c, &MULTI), &[9], 1 + c.choose("tasks", 2), 1, 1));

    h!(v, "P09", "objective", "objective of the returned weights is at most that at zero", funcs: EST, bounds: "fixed designs; y, alpha free; 1-2 epochs", |c| descends(c, one_of(c, &SINGLE), &[1, 2, 3, 9], 1, 1 + c.choose("epochs", 2)));
    h!(v, "P10", "objective", "objective of the returned weights is at most that at zero", funcs: EST, bounds: "fixed designs, 1 task; Y, alpha free; 1 epoch", |c| descends(c, one_of(c, &MULTI), &[1, 9], 1, 1));

    const PAIRS: &[&str] = &["L1/L21", "L1PlusL2/BlockL1PlusL2", "MCP/BlockMCP", "Quadratic/QuadraticMultiTask", "construct_ws_from_kkt"];
    h!(v, "P19", "penalties", "value, prox and violations of the block penalties on one column", funcs: PAIRS, bounds: "2 features, every working set, everything free", |c| comp_penalty(c, one_of(c, &MULTI), 2));
    h!(v, "P19", "datafits", "loss, gradient, curvature on one column", funcs: PAIRS, bounds: "2x2, dense/CSC, everything free", |c| comp_datafit(c, 2, 2));
    h!(v, "P19", "datafits_shapes", "same, other shapes", funcs: PAIRS, bounds: "1x3, 3x1, 1x1, dense/CSC, everything free", |c| { let (m, e) = [(1, 3), (3, 1), (1, 1)][c.choose("shape", 3)]; comp_datafit(c, m, e) });
    h!(v, "P19", "working sets", "same ranking and size", funcs: PAIRS, bounds: "4 features", |c| comp_ws(c, 4));
    h!(v, "P19", "fits", "whole fits with one task", funcs: EST, bounds: "fixed designs; y, alpha free; 2 iterations, 1 epoch", |c| one_task(c, one_of(c, &MULTI), &[1, 9], 2, 1, false));
    h!(v, "P19", "flat target", "a 1-d target is one column", funcs: EST, bounds: "fixed 2x2 design; dense/CSC", |c| flat_target(c, one_of(c, &MULTI), design(1), 1, 1));

    h!(v, "P23", "verbose", "verbosity changes nothing", funcs: EST, bounds: "fixed 2x2 design; y, alpha, tol free; 2 iterations, 1 epoch", |c| quiet(c, one_of(c, &SINGLE), &[2], 1, 1, false));
    h!(v, "P23", "verbose_multi", "same, multi-task", funcs: EST, bounds: "fixed 2x2 design, 1 task", |c| quiet(c, one_of(c, &MULTI), &[2], 1, 1, false));
    h!(v, "P23", "verbose_accel", "same with extrapolation", funcs: EST, bounds: "1 feature, 3 epochs", |c| quiet(c, one_of(c, &[M::Lasso, M::MtLasso]), &[0], 1, 3, true));
    h!(v, "P23", "reuse_small", "datafit, penalty and solver re-used for a smaller problem", funcs: EST, bounds: "2x3 then 2x2, dense/CSC; y, alpha free; 1 epoch", |c| reuse(c, one_of(c, &SINGLE), 3, 1, 1, 1));
    h!(v, "P23", "reuse_large", "same, larger problem", funcs: EST, bounds: "2x1 then 2x2", |c| reuse(c, one_of(c, &SINGLE), 0, 2, 1, 1));
    h!(v, "P23", "reuse_same", "same, a problem of the same shape", funcs: EST, bounds: "2x2 then another 2x2; dense/CSC", |c| reuse(c, one_of(c, &SINGLE), 1, 2, 1, 1));
    h!(v, "P23", "reuse_same_multi", "same, multi-task", funcs: EST, bounds: "2x2 then another 2x2, 1 task", |c| reuse(c, one_of(c, &MULTI), 1, 2, 1, 1));
    h!(v, "P23", "reuse_targets", "same, the same design with other targets", funcs: EST, bounds: "2x2; dense/CSC, 1 task", |c| reuse(c, one_of(c, &[M::Lasso, M::Enet, M::Mcp, M::MtLasso, M::MtEnet, M::BMcp]), 2, 2, 1, 1));
    h!(v, "P23", "reuse_multi", "same, multi-task", funcs: EST, bounds: "2x3 then 2x2, then 2x1 with 2 tasks", |c| if c.choose("tasks", 2) == 0 { reuse(c, one_of(c, &MULTI), 3, 1, 1, 1) } else { reuse(c, one_of(c, &MULTI), 1, 0, 2, 1) });
    h!(v, "P23", "params", "parameter objects and datasets re-used", funcs: EST, bounds: "2x3 then 2x2; y, alpha free", |c| params_reuse(c, one_of(c, &[M::Lasso, M::Enet, M::Mcp, M::MtLasso, M::MtEnet, M::BMcp]), 3, 1, 1));

    h!(v, "P24", "single", "a zero column gets zero and changes nothing", funcs: EST, bounds: "fixed designs + zero column anywhere, dense/CSC stored/empty; y, alpha free; 2 iterations, 1 epoch", |c| useless(c, one_of(c, &SINGLE), &[1, 2], 1, 2, 1, false));
    h!(v, "P24", "multi", "same, multi-task", funcs: EST, bounds: "1-2 features + zero column, 1-2 tasks", |c| if c.choose("tasks", 2) == 0 { useless(c, one_of(c, &MULTI), &[1], 1, 2, 1, false) } else { useless(c, one_of(c, &MULTI), &[0], 2, 1, 1, false) });
    h!(v, "P24", "accel", "same with extrapolation", funcs: EST, bounds: "1 feature + zero column, 3 epochs", |c| useless(c, one_of(c, &[M::Lasso, M::MtLasso]), &[0], 1, 1, 3, true));

    h!(v, "P25", "single", "sign flips, sample order, negation, scaling", funcs: EST, bounds: "fixed 2x2, 3x2 designs; y, alpha free; 2 iterations, 1 epoch", |c| symmetric(c, one_of(c, &SINGLE), &[2, 5], 1, 2, 1, false));
    h!(v, "P25", "multi", "same, multi-task", funcs: EST, bounds: "fixed designs, 1-2 tasks", |c| if c.choose("tasks", 2) == 0 { symmetric(c, one_of(c, &MULTI), &[2], 1, 2, 1, false) } else { symmetric(c, one_of(c, &MULTI), &[0], 2, 1, 1, false) });
    h!(v, "P25", "accel", "same with extrapolation", funcs: EST, bounds: "1 feature, 3 epochs", |c| symmetric(c, one_of(c, &[M::Lasso, M::MtLasso]), &[0], 1, 1, 3, true));

    h!(v, "P07", "fit_long", "longer fits on every storage", funcs: EST, bounds: "fixed 4x3 and 3x5 designs, targets on a segment (one free number in [1, 1.25]), start 1, 10; 1 task, 2 rounds of 3 passes", |c| long(c, &ALL, 1, Long { iters: 2, epochs: 3, acc: false }, storage_at));
    h!(v, "P15", "long", "longer fits", funcs: EST, bounds: "fixed 4x3 and 3x5 designs, targets on a segment (one free number in [1, 1.25]), start 1, 10; 1 task, 2 rounds of 3 passes", |c| long(c, &ALL, 1, Long { iters: 2, epochs: 3, acc: false }, documented_at));
    h!(v, "P20", "long", "longer fits", funcs: EST, bounds: "fixed 4x3 and 3x5 designs, targets on a segment (one free number in [1, 1.25]), start 1, 10; 1 task, 2 rounds of 3 passes", |c| long(c, &ALL, 1, Long { iters: 2, epochs: 3, acc: false }, safe_at));
    h!(v, "P19", "long", "longer fits with one task", funcs: EST, bounds: "fixed 4x3 and 3x5 designs, targets on a segment (one free number in [1, 1.25]), start 1, 10; 1 task, 2 rounds of 3 passes", |c| long(c, &MULTI, 1, Long { iters: 2, epochs: 3, acc: false }, one_task_at));
    h!(v, "P23", "long", "longer fits", funcs: EST, bounds: "fixed 4x3 and 3x5 designs, targets on a segment (one free number in [1, 1.25]), start 1, 10; 1 task, 2 rounds of 3 passes", |c| long(c, &ALL, 1, Long { iters: 2, epochs: 3, acc: false }, quiet_at));
    h!(v, "P24", "long", "longer fits", funcs: EST, bounds: "fixed 4x3 and 3x5 designs, targets on a segment (one free number in [1, 1.25]), start 1, 10; 1 task, 2 rounds of 3 passes", |c| long(c, &ALL, 1, Long { iters: 2, epochs: 3, acc: false }, useless_at));
    h!(v, "P25", "long", "longer fits", funcs: EST, bounds: "fixed 4x3 and 3x5 designs, targets on a segment (one free number in [1, 1.25]), start 1, 10; 1 task, 2 rounds of 3 passes", |c| long(c, &ALL, 1, Long { iters: 2, epochs: 3, acc: false }, symmetric_at));
    h!(v, "P09", "objective_long", "longer fits", funcs: EST, bounds: "fixed 4x3 and 3x5 designs, targets on a segment (one free number in [1, 1.25]), start 1, 10; 1 task, 2 rounds of 3 passes", |c| long(c, &SINGLE, 1, Long { iters: 2, epochs: 3, acc: false }, descends_at));
    h!(v, "P10", "objective_long", "longer fits", funcs: EST, bounds: "fixed 4x3 and 3x5 designs, targets on a segment (one free number in [1, 1.25]), start 1, 10; 1 task, 2 rounds of 3 passes", |c| long(c, &MULTI, 1, Long { iters: 2, epochs: 3, acc: false }, descends_at));

    h!(v, "P07", "sweep", "long accelerated fits, any tolerance", funcs: EST, bounds: "four fixed problems up to 12 features, 7 to 24 passes per round, K = 1, 2, 5; any tolerance", |c| sweep(c, &ALL, 1, storage_at));
    h!(v, "P07", "sweep_2", "same, two tasks", funcs: EST, bounds: "four fixed problems up to 12 features, 7 to 24 passes per round, K = 1, 2, 5; any tolerance; 2 tasks on a line", |c| sweep(c, &MULTI, 2, storage_at));
    h!(v, "P07", "long_2", "longer fits, two tasks", funcs: EST, bounds: "fixed 4x3 and 3x5 designs, 2-task targets on a line (one free number in [1, 1.25]), start 1, 10; 2 rounds of 3 passes", |c| long(c, &MULTI, 2, Long { iters: 2, epochs: 3, acc: false }, storage_at));
    h!(v, "P15", "sweep", "long accelerated fits, any tolerance", funcs: EST, bounds: "four fixed problems up to 12 features, 7 to 24 passes per round, K = 1, 2, 5; any tolerance", |c| sweep(c, &ALL, 1, documented_at));
    h!(v, "P15", "sweep_2", "same, two tasks", funcs: EST, bounds: "four fixed problems up to 12 features, 7 to 24 passes per round, K = 1, 2, 5; any tolerance; 2 tasks on a line", |c| sweep(c, &MULTI, 2, documented_at));
    h!(v, "P15", "long_2", "longer fits, two tasks", funcs: EST, bounds: "fixed 4x3 and 3x5 designs, 2-task targets on a line (one free number in [1, 1.25]), start 1, 10; 2 rounds of 3 passes", |c| long(c, &MULTI, 2, Long { iters: 2, epochs: 3, acc: false }, documented_at));
    h!(v, "P20", "sweep", "long accelerated fits, any tolerance", funcs: EST, bounds: "four fixed problems up to 12 features, 7 to 24 passes per round, K = 1, 2, 5; any tolerance", |c| sweep(c, &ALL, 1, safe_at));
    h!(v, "P20", "sweep_2", "same, two tasks", funcs: EST, bounds: "four fixed problems up to 12 features, 7 to 24 passes per round, K = 1, 2, 5; any tolerance; 2 tasks on a line", |c| sweep(c, &MULTI, 2, safe_at));
    h!(v, "P20", "long_2", "longer fits, two tasks", funcs: EST, bounds: "fixed 4x3 and 3x5 designs, 2-task targets on a line (one free number in [1, 1.25]), start 1, 10; 2 rounds of 3 passes", |c| long(c, &MULTI, 2, Long { iters: 2, epochs: 3, acc: false }, safe_at));
    h!(v, "P19", "sweep", "long accelerated fits, any tolerance", funcs: EST, bounds: "four fixed problems up to 12 features, 7 to 24 passes per round, K = 1, 2, 5; any tolerance", |c| sweep(c, &MULTI, 1, one_task_at));
    h!(v, "P23", "sweep", "long accelerated fits, any tolerance", funcs: EST, bounds: "four fixed problems up to 12 features, 7 to 24 passes per round, K = 1, 2, 5; any tolerance", |c| sweep(c, &ALL, 1, quiet_at));
    h!(v, "P23", "sweep_2", "same, two tasks", funcs: EST, bounds: "four fixed problems up to 12 features, 7 to 24 passes per round, K = 1, 2, 5; any tolerance; 2 tasks on a line", |c| sweep(c, &MULTI, 2, quiet_at));
    h!(v, "P23", "long_2", "longer fits, two tasks", funcs: EST, bounds: "fixed 4x3 and 3x5 designs, 2-task targets on a line (one free number in [1, 1.25]), start 1, 10; 2 rounds of 3 passes", |c| long(c, &MULTI, 2, Long { iters: 2, epochs: 3, acc: false }, quiet_at));
    h!(v, "P24", "sweep", "long accelerated fits, any tolerance", funcs: EST, bounds: "four fixed problems up to 12 features, 7 to 24 passes per round, K = 1, 2, 5; any tolerance", |c| sweep(c, &ALL, 1, useless_full));
    h!(v, "P24", "sweep_2", "same, two tasks", funcs: EST, bounds: "four fixed problems up to 12 features, 7 to 24 passes per round, K = 1, 2, 5; any tolerance; 2 tasks on a line", |c| sweep(c, &MULTI, 2, useless_full));
    h!(v, "P24", "long_2", "longer fits, two tasks", funcs: EST, bounds: "fixed 4x3 and 3x5 designs, 2-task targets on a line (one free number in [1, 1.25]), start 1, 10; 2 rounds of 3 passes", |c| long(c, &MULTI, 2, Long { iters: 2, epochs: 3, acc: false }, useless_at));
    h!(v, "P25", "sweep", "long accelerated fits, any tolerance", funcs: EST, bounds: "four fixed problems up to 12 features, 7 to 24 passes per round, K = 1, 2, 5; any tolerance", |c| sweep(c, &ALL, 1, symmetric_at));
    h!(v, "P25", "sweep_2", "same, two tasks", funcs: EST, bounds: "four fixed problems up to 12 features, 7 to 24 passes per round, K = 1, 2, 5; any tolerance; 2 tasks on a line", |c| sweep(c, &MULTI, 2, symmetric_at));
    h!(v, "P25", "long_2", "longer fits, two tasks", funcs: EST, bounds: "fixed 4x3 and 3x5 designs, 2-task targets on a line (one free number in [1, 1.25]), start 1, 10; 2 rounds of 3 passes", |c| long(c, &MULTI, 2, Long { iters: 2, epochs: 3, acc: false }, symmetric_at));
    h!(v, "P09", "sweep", "long accelerated fits, any tolerance", funcs: EST, bounds: "four fixed problems up to 12 features, 7 to 24 passes per round, K = 1, 2, 5; any tolerance", |c| sweep(c, &SINGLE, 1, descends_at));
    h!(v, "P10", "sweep", "long accelerated fits, any tolerance", funcs: EST, bounds: "four fixed problems up to 12 features, 7 to 24 passes per round, K = 1, 2, 5; any tolerance", |c| sweep(c, &MULTI, 1, descends_at));
    h!(v, "P10", "sweep_2", "same, two tasks", funcs: EST, bounds: "four fixed problems up to 12 features, 7 to 24 passes per round, K = 1, 2, 5; any tolerance; 2 tasks on a line", |c| sweep(c, &MULTI, 2, descends_at));
    h!(v, "P10", "long_2", "longer fits, two tasks", funcs: EST, bounds: "fixed 4x3 and 3x5 designs, 2-task targets on a line (one free number in [1, 1.25]), start 1, 10; 2 rounds of 3 passes", |c| long(c, &MULTI, 2, Long { iters: 2, epochs: 3, acc: false }, descends_at));
    h!(v, "P08", "fit", "a converged fit stays, any other goes on, on real data", funcs: EST, bounds: "four fixed problems up to 12 features, 7 to 24 passes per round, K = 1, 2, 5; any tolerance; after 1 and after 2 rounds", |c| sweep(c, &ALL, 1, settles_at));
    h!(v, "P08", "fit_2", "a converged fit stays, any other goes on, on real data", funcs: EST, bounds: "four fixed problems up to 12 features, 7 to 24 passes per round, K = 1, 2, 5; any tolerance; 2 tasks on a line; after 1 and after 2 rounds", |c| sweep(c, &MULTI, 2, settles_at));
    h!(v, "P07", "large", "fits of larger problems, any tolerance", funcs: EST, bounds: "fixed problems of 16x24 (accelerated) and 32x40; any tolerance", |c| large(c, &ALL, 1, storage_at));
    h!(v, "P15", "large", "fits of larger problems, any tolerance", funcs: EST, bounds: "fixed problems of 16x24 (accelerated) and 32x40; any tolerance", |c| large(c, &ALL, 1, documented_at));
    h!(v, "P20", "large", "fits of larger problems, any tolerance", funcs: EST, bounds: "fixed problems of 16x24 (accelerated) and 32x40; any tolerance", |c| large(c, &ALL, 1, safe_at));
    h!(v, "P19", "large", "fits of larger problems, any tolerance", funcs: EST, bounds: "fixed problems of 16x24 and 32x40, 1 round of 2 or 4 passes; any tolerance", |c| large(c, &MULTI, 1, one_task_untied));
    h!(v, "P23", "large", "fits of larger problems, any tolerance", funcs: EST, bounds: "fixed problems of 16x24 (accelerated) and 32x40; any tolerance", |c| large(c, &ALL, 1, quiet_at));
    h!(v, "P24", "large", "fits of larger problems, any tolerance", funcs: EST, bounds: "fixed problems of 16x24 and 32x40, 1 round of 2 or 4 passes, full working set; any tolerance", |c| large(c, &ALL, 1, useless_full));
    h!(v, "P25", "large", "fits of larger problems, any tolerance", funcs: EST, bounds: "fixed problems of 16x24 (accelerated) and 32x40; any tolerance", |c| large(c, &ALL, 1, symmetric_at));
    h!(v, "P09", "large", "fits of larger problems, any tolerance", funcs: EST, bounds: "fixed problems of 16x24 (accelerated) and 32x40; any tolerance", |c| large(c, &SINGLE, 1, descends_at));
    h!(v, "P10", "large", "fits of larger problems, any tolerance", funcs: EST, bounds: "fixed problems of 16x24 (accelerated) and 32x40; any tolerance", |c| large(c, &MULTI, 1, descends_at));
    h!(v, "P08", "large", "fits of larger problems, any tolerance", funcs: EST, bounds: "fixed problems of 16x24 (accelerated) and 32x40; any tolerance", |c| large(c, &ALL, 1, settles_at));
    h!(v, "P07", "large_2", "same, two tasks", funcs: EST, bounds: "fixed problems of 16x24 (accelerated) and 32x40, 2 tasks on a line; any tolerance", |c| large(c, &MULTI, 2, storage_at));
    h!(v, "P15", "large_2", "same, two tasks", funcs: EST, bounds: "fixed problems of 16x24 (accelerated) and 32x40, 2 tasks on a line; any tolerance", |c| large(c, &MULTI, 2, documented_at));
    h!(v, "P20", "large_2", "same, two tasks", funcs: EST, bounds: "fixed problems of 16x24 (accelerated) and 32x40, 2 tasks on a line; any tolerance", |c| large(c, &MULTI, 2, safe_at));
    h!(v, "P23", "large_2", "same, two tasks", funcs: EST, bounds: "fixed problems of 16x24 (accelerated) and 32x40, 2 tasks on a line; any tolerance", |c| large(c, &MULTI, 2, quiet_at));
    h!(v, "P24", "large_2", "same, two tasks", funcs: EST, bounds: "fixed problems of 16x24 and 32x40, 1 round of 2 or 4 passes, full working set, 2 tasks on a line; any tolerance", |c| large(c, &MULTI, 2, useless_full));
    h!(v, "P25", "large_2", "same, two tasks", funcs: EST, bounds: "fixed problems of 16x24 (accelerated) and 32x40, 2 tasks on a line; any tolerance", |c| large(c, &MULTI, 2, symmetric_at));
    h!(v, "P10", "large_2", "same, two tasks", funcs: EST, bounds: "fixed problems of 16x24 (accelerated) and 32x40, 2 tasks on a line; any tolerance", |c| large(c, &MULTI, 2, descends_at));
    h!(v, "P08", "large_2", "same, two tasks", funcs: EST, bounds: "fixed problems of 16x24 (accelerated) and 32x40, 2 tasks on a line; any tolerance", |c| large(c, &MULTI, 2, settles_at));
    const DIR: &str = "fixed 2x2 designs, 2 tasks on a line with one free number per sample; alpha free (elastic net: 1/3); 2 rounds of 1 pass";
    h!(v, "P07", "line_2", "two tasks on a line", funcs: EST, bounds: DIR, |c| small_dir(c, &MULTI, 2, 1, storage_at));
    h!(v, "P10", "line_2", "two tasks on a line", funcs: EST, bounds: DIR, |c| small_dir(c, &MULTI, 2, 1, descends_at));
    h!(v, "P15", "line_2", "two tasks on a line", funcs: EST, bounds: DIR, |c| small_dir(c, &MULTI, 2, 1, documented_at));
    h!(v, "P20", "line_2", "two tasks on a line", funcs: EST, bounds: DIR, |c| small_dir(c, &MULTI, 2, 1, safe_at));
    h!(v, "P23", "line_2", "two tasks on a line", funcs: EST, bounds: DIR, |c| small_dir(c, &MULTI, 2, 1, quiet_at));
    h!(v, "P24", "line_2", "two tasks on a line", funcs: EST, bounds: DIR, |c| small_dir(c, &MULTI, 2, 1, useless_at));
    h!(v, "P25", "line_2", "two tasks on a line", funcs: EST, bounds: DIR, |c| small_dir(c, &MULTI, 2, 1, symmetric_at));
    h!(v, "P08", "line_2", "two tasks on a line", funcs: EST, bounds: DIR, |c| small_dir(c, &MULTI, 2, 1, settles_at));
}
