//! P27, P28, P29, P30: laws that relate two fits, and the sorting helper
use super::common::*;
use super::fits::*;
use crate::ctx::*;
use crate::engine::H;
use crate::h;
use ndarray::{Array1, Array2};
use num_traits::Float as _;

fn run<C: Ctx>(c: &C, m: M, x: &Array2<C::F>, y: &Array2<C::F>, h: &Hp<C::F>, sparse: bool) -> Array2<C::F> {
    let w = if sparse { fit_csc(m, Csc::thin(c, x).view(), y, h) } else { fit_dense(m, x.view(), y, h) };
    c.check("accepted", Cond::B(w.is_ok()));
    w.unwrap_or_else(|_| Array2::from_elem((x.ncols(), y.ncols()), zero()))
}

// ------------------------------------------------------------------ P27: more budget

/// the run with the larger budget goes on where the other one stopped
fn further_at<C: Ctx>(c: &C, m: M, x: Array2<C::F>, y: Array2<C::F>, h: Hp<C::F>) {
    let sparse = c.choose("sparse", 2) == 1;
    let mut rest = true;
    let ends = if c.choose("budget", 2) == 0 {
        // passes of one round
        let n = [0, h.epochs - 1, h.epochs][c.choose("passes", 3)];
        // an extrapolation from older iterates may leave a local minimum of a non-convex objective
        rest = !(h.acc && (m == M::Mcp || m == M::BMcp));
        [n, n + 1, n + 2].map(|e| Hp { iters: 1, epochs: e, ..h.clone() })
    } else {
        let n = c.choose("rounds", h.iters);
        [n, n + 1, n + 2].map(|i| Hp { iters: i, ..h.clone() })
    };
    let w = ends.map(|h| run(c, m, &x, &y, &h, sparse));
    let f: Vec<C::F> = w.iter().map(|w| objective(m, &x, &y, &h, w)).collect();
    c.check("more work does not raise the objective", and(vec![le(f[1], f[0]), le(f[2], f[1])]));
    if rest && same_all(c, &w[0].iter().cloned().collect::<Vec<_>>(), &w[1].iter().cloned().collect::<Vec<_>>()) {
        c.cover("at rest");
        c.check("what did not move once does not move later", eq2(w[1].view(), w[2].view()));
    } else {
        c.cover("moving");
    }
}

// ------------------------------------------------------------------ P28: models that coincide

fn special_at<C: Ctx>(c: &C, m: M, x: Array2<C::F>, y: Array2<C::F>, mut h: Hp<C::F>) {
    let sparse = c.choose("sparse", 2) == 1;
    let multi = m.multi();
    let (l, e, p) = if multi { (M::MtLasso, M::MtEnet, M::BMcp) } else { (M::Lasso, M::Enet, M::Mcp) };
    match c.choose("case", if x.ncols() > 12 { 3 } else { 4 }) {
        // (1/2n) |y - Xw|^2 + a (1 - r) |w|^2 / 2 is a quadratic loss on data with ridge rows
        3 => {
            let (n, f) = (x.nrows() as i64, x.ncols() as i64);
            let s: C::F = q(1, 2);
            let x2 = Array2::from_shape_fn(((n + f) as usize, f as usize), |(i, j)| if (i as i64) < n { x[[i, j]] } else if i - n as usize == j { s } else { zero() });
            let y2 = Array2::from_shape_fn(((n + f) as usize, y.ncols()), |(i, k)| if (i as i64) < n { y[[i, k]] } else { zero() });
            h.extra = q(1, 2);
            h.alpha = s * s * q(2, n);
            let a = run(c, e, &x, &y, &h, sparse);
            let g = Hp { alpha: s * s * q(1, n + f), tol: h.tol * q(n, n + f), ..h.clone() };
            c.check("an elastic net is the Lasso on data with ridge rows", eq2(run(c, l, &x2, &y2, &g, sparse).view(), a.view()));
        }
        0 => {
            let a = run(c, l, &x, &y, &h, sparse);
            h.extra = q(1, 1);
            c.check("an elastic net of ratio 1 is the Lasso", eq2(run(c, e, &x, &y, &h, sparse).view(), a.view()));
        }
        1 => {
            h.alpha = zero();
            let a = run(c, l, &x, &y, &h, sparse);
            h.extra = [q(0, 1), q(1, 3)][c.choose("ratio", 2)];
            c.check("without penalty the elastic net is the Lasso", eq2(run(c, e, &x, &y, &h, sparse).view(), a.view()));
        }
        _ => {
            h.alpha = zero();
            let a = run(c, l, &x, &y, &h, sparse);
            h.extra = q(3, 1);
            c.check("without penalty MCP is the Lasso", eq2(run(c, p, &x, &y, &h, sparse).view(), a.view()));
        }
    }
}

// ------------------------------------------------------------------ P29: units, repeated data, tasks

/// the same model with its penalty multiplied by k
fn times<F: Num>(m: M, h: &Hp<F>, k: F) -> Hp<F> {
    let mut o = h.clone();
    o.alpha = h.alpha * k;
    o.tol = h.tol * k;
    if m == M::Mcp || m == M::BMcp {
        o.extra = h.extra / k;
    }
    o
}
fn units_at<C: Ctx>(c: &C, m: M, x: Array2<C::F>, y: Array2<C::F>, h: Hp<C::F>) {
    let sparse = c.choose("sparse", 2) == 1;
    let ((n, e), t) = (x.dim(), y.ncols());
    let enet = m == M::Enet || m == M::MtEnet;
    let a = run(c, m, &x, &y, &h, sparse);
    match c.choose("law", if enet { 3 } else { 4 }) {
        0 => {
            let order = c.choose("order", 2);
            let at = |i: usize| if order == 0 { i % n } else { i / 2 };
            let x2 = Array2::from_shape_fn((2 * n, e), |(i, j)| x[[at(i), j]]);
            let y2 = Array2::from_shape_fn((2 * n, t), |(i, k)| y[[at(i), k]]);
            c.check("every sample twice", eq2(run(c, m, &x2, &y2, &h, sparse).view(), a.view()));
        }
        1 => {
            let at = [0, n][c.choose("position", 2)];
            let row = |i: usize| if i == at { None } else { Some(i - (i > at) as usize) };
            let x2 = Array2::from_shape_fn((n + 1, e), |(i, j)| row(i).map_or(zero(), |i| x[[i, j]]));
            let y2 = Array2::from_shape_fn((n + 1, t), |(i, k)| row(i).map_or(zero(), |i| y[[i, k]]));
            let h2 = times(m, &h, q(n as i64, n as i64 + 1));
            c.check("a sample of zeros only counts in the mean", eq2(run(c, m, &x2, &y2, &h2, sparse).view(), a.view()));
        }
        2 => {
            let s: C::F = [q(1, 2), q(-1, 1 << 14)][c.choose("unit", 2)];
            let h2 = times(m, &h, s * s);
            let b = run(c, m, &x.map(|v| *v * s), &y.map(|v| *v * s), &h2, sparse);
            c.check("data in other units", eq2(b.view(), a.view()));
        }
        _ => {
            let s: C::F = q(1, 2);
            let mut h2 = times(m, &h, s);
            if m == M::Mcp || m == M::BMcp {
                h2.extra = h.extra / (s * s);
            }
            let b = run(c, m, &x.map(|v| *v * s), &y, &h2, sparse);
            c.check("features in other units", eq2(b.map(|v| *v * s).view(), a.view()));
        }
    }
}
fn tasks_at<C: Ctx>(c: &C, m: M, x: Array2<C::F>, y: Array2<C::F>, h: Hp<C::F>) {
    let sparse = c.choose("sparse", 2) == 1;
    let (n, t) = y.dim();
    let a = run(c, m, &x, &y, &h, sparse);
    let e = x.ncols();
    match c.choose("law", if t > 1 { 4 } else { 1 }) {
        0 => {
            let at = c.choose("position", t + 1);
            let y2 = Array2::from_shape_fn((n, t + 1), |(i, k)| if k == at { zero() } else { y[[i, k - (k > at) as usize]] });
            let b = run(c, m, &x, &y2, &h, sparse);
            let want = Array2::from_shape_fn((e, t + 1), |(j, k)| if k == at { zero() } else { a[[j, k - (k > at) as usize]] });
            c.check("a task of zeros", eq2(b.view(), want.view()));
        }
        1 => {
            let p = |k: usize| (k + 1) % t;
            let b = run(c, m, &x, &Array2::from_shape_fn((n, t), |(i, k)| y[[i, p(k)]]), &h, sparse);
            c.check("order of the tasks", eq2(b.view(), Array2::from_shape_fn((e, t), |(j, k)| a[[j, p(k)]]).view()));
        }
        2 => {
            let at = c.choose("task", t);
            let f = |v: &Array2<C::F>| Array2::from_shape_fn(v.dim(), |(i, k)| if k == at { -v[[i, k]] } else { v[[i, k]] });
            c.check("sign of a task", eq2(run(c, m, &x, &f(&y), &h, sparse).view(), f(&a).view()));
        }
        _ => {
            let (u, v): (C::F, C::F) = (q(3, 5), q(4, 5));
            let r = |y: &Array2<C::F>| {
                Array2::from_shape_fn(y.dim(), |(i, k)| match k {
                    0 => u * y[[i, 0]] - v * y[[i, 1]],
                    1 => v * y[[i, 0]] + u * y[[i, 1]],
                    _ => y[[i, k]],
                })
            };
            c.check("rotated tasks", eq2(run(c, m, &x, &r(&y), &h, sparse).view(), r(&a).view()));
        }
    }
}

// ------------------------------------------------------------------ P30: sorting by index

fn argsort<C: Ctx>(c: &C, v: Vec<C::F>) {
    let down = c.choose("order", 2) == 1;
    let n = v.len();
    let a = Array1::from_vec(v);
    let cmp = |x: &C::F, y: &C::F| if down { y.partial_cmp(x).unwrap() } else { x.partial_cmp(y).unwrap() };
    let strided = c.choose("strided", 2) == 1;
    let s = if strided {
        let wide = Array1::from_shape_fn(2 * n, |i| if i % 2 == 0 { a[n - 1 - i / 2] } else { zero() });
        let v = wide.slice(ndarray::s![..;2]);
        sparseglm::utils::helpers::argsort_by(&v.slice(ndarray::s![..;-1]), cmp)
    } else {
        sparseglm::utils::helpers::argsort_by(&a, cmp)
    };
    let mut seen = vec![false; n];
    let mut ok = s.len() == n;
    for i in &s {
        ok = ok && *i < n && !std::mem::replace(&mut seen[*i], true);
    }
    c.check("every index once", Cond::B(ok));
    if ok {
        c.check("in order", and(s.windows(2).map(|p| if down { le(a[p[1]], a[p[0]]) } else { le(a[p[0]], a[p[1]]) }).collect()));
    }
}

/// orthogonal columns: the solution in closed form, one coordinate (row) at a time
fn closed<F: Num>(m: M, x: &Array2<F>, y: &Array2<F>, h: &Hp<F>) -> Array2<F> {
    let n: F = q(x.nrows() as i64, 1);
    let mut w = Array2::from_elem((x.ncols(), y.ncols()), zero());
    for j in 0..x.ncols() {
        let xj = x.column(j).to_vec();
        let l = dot(&xj, &xj) / n;
        if l == zero() {
            continue;
        }
        let z: Vec<F> = (0..y.ncols()).map(|k| dot(&xj, &y.column(k).to_vec()) / n / l).collect();
        let r = if z.len() == 1 { z[0].abs() } else { nrm(&z) };
        let (a, one) = (h.alpha, one::<F>());
        let cut = |t: F| if r > t { one - t / r } else { zero() };
        let scale = match m {
            M::Enet | M::MtEnet => cut(a * h.extra / l) / (one + a * (one - h.extra) / l),
            M::Mcp | M::BMcp if r > a * h.extra => one,
            M::Mcp | M::BMcp => cut(a / l) / (one - one / (h.extra * l)),
            _ => cut(a / l),
        };
        for k in 0..z.len() {
            w[[j, k]] = z[k] * scale;
        }
    }
    w
}
fn closed_at<C: Ctx>(c: &C, m: M, x: Array2<C::F>, y: Array2<C::F>, h: Hp<C::F>) {
    let sparse = c.choose("sparse", 2) == 1;
    let w = run(c, m, &x, &y, &h, sparse);
    let ex = closed(m, &x, &y, &h);
    c.check("the closed-form solution", eq2(w.view(), ex.view()));
    c.cover(if c.same(w[[0, 0]], zero()) { "unused" } else { "used" });
}
/// columns of a Sylvester matrix times 1, 2, 1, 3, ...
fn sylvester<F: Num>(n: usize, e: usize) -> Array2<F> {
    Array2::from_shape_fn((n, e), |(i, j)| q([1, 2, 1, 3][j % 4] * if (i & (j * 5 % n)).count_ones() % 2 == 0 { 1 } else { -1 }, 1))
}
fn orth_small<C: Ctx>(c: &C, ms: &[M], t: usize) {
    let m = one_of(c, ms);
    let x: Array2<C::F> = match c.choose("design", 4) {
        0 => sylvester(2, 2),
        1 => design(0),
        2 => Array2::from_shape_fn((2, 2), |(i, j)| q([3, -8, 4, 6][2 * i + j], 5)),
        _ => Array2::from_shape_fn((2, 3), |(i, j)| q([0, 0, 4, 2, 0, 0][3 * i + j], 1)),
    };
    let y = if t == 1 { mat(c, "y", x.nrows(), 1) } else {
        let s = vecv(c, "s", x.nrows());
        Array2::from_shape_fn((x.nrows(), t), |(i, k)| s[i] * [q(2, 7), q(-3, 7), q(6, 7)][k])
    };
    let mut h = hp_of(c, m, x.ncols() + 1, [1, 2, 11][c.choose("passes", 3)]);
    h.tol = zero();
    h.ws = [1, 10][c.choose("start", 2)];
    h.acc = c.choose("accelerated", 2) == 1;
    h.k = 2;
    closed_at(c, m, x, y, h)
}
fn orth_large<C: Ctx>(c: &C, ms: &[M], t: usize) {
    let m = one_of(c, ms);
    let (x, ws): (Array2<C::F>, usize) = match c.choose("design", 4) {
        0 => (sylvester(8, 8), 1),
        1 => (sylvester(16, 11), 10),
        2 => (sylvester(32, 32), 3),
        _ => (Array2::from_shape_fn((40, 33), |(i, j)| if i == (j * 7) % 40 { fixed::<C::F>(j + 2) + q(3, 1) } else { zero() }), 10),
    };
    let s = c.var_in("s", 1.0, 1.25);
    let v: &[(i64, i64)] = match t {
        1 => &[(1, 1)],
        2 => &[(3, 5), (-4, 5)],
        _ => &[(2, 7), (-3, 7), (6, 7)],
    };
    let y = Array2::from_shape_fn((x.nrows(), t), |(i, k)| (if i == 3 { s } else { fixed::<C::F>(i + 3) * q(2, 1) }) * q(v[k].0, v[k].1));
    let mut h = Hp::new(q(1, 4), x.ncols() + 1, 1 + c.choose("passes", 2));
    h.extra = if m == M::Mcp || m == M::BMcp { q(41, 1) } else { q(1, 2) };
    h.tol = zero();
    h.ws = ws;
    closed_at(c, m, x, y, h)
}

/// budgets far beyond what a run needs, up to the largest number there is
fn huge<C: Ctx>(c: &C, ms: &[M], t: usize) {
    let m = one_of(c, ms);
    let d = c.choose("design", 2);
    let x: Array2<C::F> = Array2::from_shape_fn((2, 2), |(i, j)| if (i + d) % 2 == j { q(1 + i as i64, 1) } else { zero() });
    let s = c.var("s");
    let y = Array2::from_shape_fn((2, t), |(i, k)| if i == 0 { s * q(k as i64 + 1, 1) } else { q(2, 1 + k as i64) });
    let mut h = Hp::new(q(1, 3), 5, 20);
    h.extra = if m == M::Mcp || m == M::BMcp { q(3, 1) } else { q(1, 2) };
    h.tol = q(1, 100);
    h.acc = c.choose("accelerated", 2) == 1;
    let sparse = c.choose("sparse", 2) == 1;
    let a = run(c, m, &x, &y, &h, sparse);
    let mut g = h.clone();
    match c.choose("huge", 4) {
        0 => g.iters = usize::MAX,
        1 => g.epochs = usize::MAX,
        2 => g.ws = usize::MAX,
        _ => (g.iters, g.epochs, g.ws) = (usize::MAX, usize::MAX, usize::MAX / 2 + 1),
    }
    let b = run(c, m, &x, &y, &g, sparse);
    c.check("a budget that is not used up does not show", eq2(b.view(), a.view()));
    c.check("finite", fin_all(&b.iter().cloned().collect::<Vec<_>>()));
}

fn small<C: Ctx>(c: &C, ms: &[M], ks: &[usize], t: usize, iters: usize, epochs: usize, acc: bool, go: fn(&C, M, Array2<C::F>, Array2<C::F>, Hp<C::F>)) {
    let m = one_of(c, ms);
    let x = pick(c, ks);
    let y = mat(c, "y", x.nrows(), t);
    let mut h = hp_of(c, m, iters, epochs);
    h.tol = q(1, 100);
    if acc {
        h.acc = true;
        h.k = 2;
    }
    go(c, m, x, y, h)
}

pub fn register(v: &mut Vec<H>) {
    const SMALL: &str = "fixed 2x2, 3x2 designs; y, alpha free (elastic nets: alpha 1/3); 2 rounds of 1 pass; dense/CSC";
    const SMALL2: &str = "fixed 2x1 design, 2 tasks; Y, alpha free; 1 round of 1 pass";
    const ACC: &str = "1 feature; y, alpha free; 3 passes, extrapolation with K = 2";
    const LONG: &str = "fixed 4x3 and 3x5 designs, targets on a segment (one free number in [1, 1.25]), start 1, 10; 2 rounds of 3 passes";
    const SWEEP: &str = "four fixed problems up to 12 features, 7 to 24 passes per round, K = 1, 2, 5; any tolerance";
    const LARGE: &str = "fixed problems of 16x24 (accelerated) and 32x40; any tolerance";
    const L: Long = Long { iters: 2, epochs: 3, acc: false };

    h!(v, "P27", "small", "the next pass or round never raises the objective", funcs: EST, bounds: "fixed 2x2 designs; y, alpha free; up to 3 passes or rounds of 1 pass; dense/CSC", |c| small(c, &SINGLE, &[2], 1, 1, 1, false, further_at), need: &["at rest", "moving"]);
    h!(v, "P27", "long", "longer fits", funcs: EST, bounds: LONG, |c| long(c, &ALL, 1, L, further_at), need: &["moving"]);
    h!(v, "P27", "long_2", "longer fits, two tasks", funcs: EST, bounds: LONG, |c| long(c, &MULTI, 2, L, further_at), need: &["moving"]);
    h!(v, "P27", "sweep", "long accelerated fits", funcs: EST, bounds: SWEEP, |c| sweep(c, &ALL, 1, further_at), need: &["at rest", "moving"]);
    h!(v, "P27", "sweep_2", "same, two tasks", funcs: EST, bounds: SWEEP, |c| sweep(c, &MULTI, 2, further_at), need: &["at rest", "moving"]);
    h!(v, "P27", "large", "larger problems", funcs: EST, bounds: LARGE, |c| large(c, &ALL, 1, further_at), need: &["at rest", "moving"]);
    h!(v, "P27", "large_2", "same, two tasks", funcs: EST, bounds: LARGE, |c| large(c, &MULTI, 2, further_at), need: &["at rest", "moving"]);

    h!(v, "P28", "single", "models that coincide", funcs: EST, bounds: SMALL, |c| small(c, &[M::Lasso], &[2, 5], 1, 2, 1, false, special_at));
    h!(v, "P28", "multi", "same, multi-task", funcs: EST, bounds: SMALL, |c| small(c, &[M::MtLasso], &[2], 1, 2, 1, false, special_at));
    h!(v, "P28", "multi_2", "same, two tasks", funcs: EST, bounds: SMALL2, |c| small(c, &[M::MtLasso], &[0], 2, 1, 1, false, special_at));
    h!(v, "P28", "accel", "same with extrapolation", funcs: EST, bounds: ACC, |c| small(c, &[M::Lasso, M::MtLasso], &[0], 1, 1, 3, true, special_at));
    h!(v, "P28", "long", "longer fits", funcs: EST, bounds: LONG, |c| long(c, &[M::Lasso, M::MtLasso], 1, L, special_at));
    h!(v, "P28", "long_2", "longer fits, two tasks", funcs: EST, bounds: LONG, |c| long(c, &[M::MtLasso], 2, L, special_at));
    h!(v, "P28", "sweep", "long accelerated fits", funcs: EST, bounds: SWEEP, |c| sweep(c, &[M::Lasso, M::MtLasso], 1, special_at));
    h!(v, "P28", "sweep_2", "same, two tasks", funcs: EST, bounds: SWEEP, |c| sweep(c, &[M::MtLasso], 2, special_at));
    h!(v, "P28", "large", "larger problems", funcs: EST, bounds: LARGE, |c| large(c, &[M::Lasso, M::MtLasso], 1, special_at));
    h!(v, "P28", "large_2", "same, two tasks", funcs: EST, bounds: LARGE, |c| large(c, &[M::MtLasso], 2, special_at));

    for p in ["P20", "P21"] {
        h!(v, p, "huge", "budgets up to the largest integer", funcs: EST, bounds: "two diagonal 2x2 designs; one free target; rounds, passes, working set up to usize::MAX", |c| huge(c, &SINGLE, 1));
        h!(v, p, "huge_2", "same, multi-task", funcs: EST, bounds: "two diagonal 2x2 designs; 2-task targets with one free number; rounds, passes, working set up to usize::MAX", |c| huge(c, &MULTI, 2));
    }
    h!(v, "P29", "single", "repeated samples, samples of zeros, units", funcs: EST, bounds: SMALL, |c| small(c, &SINGLE, &[2, 5], 1, 2, 1, false, units_at));
    h!(v, "P29", "multi", "same, multi-task", funcs: EST, bounds: SMALL, |c| small(c, &MULTI, &[2], 1, 2, 1, false, units_at));
    h!(v, "P29", "multi_2", "same, two tasks", funcs: EST, bounds: SMALL2, |c| small(c, &MULTI, &[0], 2, 1, 1, false, units_at));
    h!(v, "P29", "accel", "same with extrapolation", funcs: EST, bounds: ACC, |c| small(c, &[M::Lasso, M::MtLasso], &[0], 1, 1, 3, true, units_at));
    h!(v, "P29", "long", "longer fits", funcs: EST, bounds: LONG, |c| long(c, &ALL, 1, L, units_at));
    h!(v, "P29", "long_2", "longer fits, two tasks", funcs: EST, bounds: LONG, |c| long(c, &MULTI, 2, L, units_at));
    h!(v, "P29", "sweep", "long accelerated fits", funcs: EST, bounds: SWEEP, |c| sweep(c, &ALL, 1, units_at));
    h!(v, "P29", "sweep_2", "same, two tasks", funcs: EST, bounds: SWEEP, |c| sweep(c, &MULTI, 2, units_at));
    h!(v, "P29", "large", "larger problems", funcs: EST, bounds: LARGE, |c| large(c, &ALL, 1, units_at));
    h!(v, "P29", "large_2", "same, two tasks", funcs: EST, bounds: LARGE, |c| large(c, &MULTI, 2, units_at));

    h!(v, "P30", "tasks_1", "a task of zeros beside another", funcs: EST, bounds: SMALL, |c| small(c, &MULTI, &[2], 1, 2, 1, false, tasks_at));
    h!(v, "P30", "tasks_2", "order, signs and rotations of the tasks", funcs: EST, bounds: SMALL2, |c| small(c, &MULTI, &[0], 2, 1, 1, false, tasks_at));
    h!(v, "P30", "long", "longer fits", funcs: EST, bounds: LONG, |c| long(c, &MULTI, 1, L, tasks_at));
    h!(v, "P30", "long_2", "longer fits, two tasks", funcs: EST, bounds: LONG, |c| long(c, &MULTI, 2, L, tasks_at));
    h!(v, "P30", "long_3", "longer fits, three tasks", funcs: EST, bounds: LONG, |c| long(c, &MULTI, 3, L, tasks_at));
    h!(v, "P30", "sweep", "long accelerated fits, two tasks", funcs: EST, bounds: SWEEP, |c| sweep(c, &MULTI, 2, tasks_at));
    h!(v, "P30", "sweep_3", "same, three tasks", funcs: EST, bounds: SWEEP, |c| sweep(c, &MULTI, 3, tasks_at));
    h!(v, "P30", "large", "larger problems, two tasks", funcs: EST, bounds: LARGE, |c| large(c, &MULTI, 2, tasks_at));

    const SORT: &[&str] = &["argsort_by"];
    h!(v, "P12", "argsort", "the indices that sort an array", funcs: SORT, bounds: "arrays of 0 to 5 numbers, ascending and descending, contiguous and strided", |c| { let n = c.choose("length", 6); argsort(c, (0..n).map(|i| c.var(&format!("v{}", i))).collect()) });
    h!(v, "P12", "argsort_long", "same, longer arrays", funcs: SORT, bounds: "arrays of 21, 40 and 130 numbers, ties included, one free; ascending and descending, contiguous and strided", |c| { let n = [21, 40, 130][c.choose("length", 3)]; let at = [0, n / 2, n - 1][c.choose("free", 3)]; argsort(c, (0..n).map(|i| if i == at { c.var("v") } else { fixed(7 * i) }).collect()) });
    const DIR: &str = "fixed 2x2 designs, 2 tasks on a line with one free number per sample; alpha free (elastic net: 1/3); 1 to 3 rounds of 1 pass";
    h!(v, "P27", "line_2", "two tasks on a line", funcs: EST, bounds: DIR, |c| small_dir(c, &MULTI, 1, 1, further_at), need: &["at rest", "moving"]);
    h!(v, "P28", "line_2", "two tasks on a line", funcs: EST, bounds: DIR, |c| small_dir(c, &[M::MtLasso], 2, 1, special_at));
    h!(v, "P29", "line_2", "two tasks on a line", funcs: EST, bounds: DIR, |c| small_dir(c, &MULTI, 2, 1, units_at));
    h!(v, "P30", "line_2", "two tasks on a line", funcs: EST, bounds: DIR, |c| small_dir(c, &MULTI, 2, 1, tasks_at));

    const ORTH: &str = "2x2 (three), 2x1 and 2x3 fixed designs with orthogonal columns (zero and scaled ones included); y (three tasks: on a line), alpha free (elastic nets: 1/3); tolerance 0; 1, 2, 11 passes, start 1, 10, with and without extrapolation";
    h!(v, "P31", "single", "the closed-form solution", funcs: EST, bounds: ORTH, |c| orth_small(c, &SINGLE, 1), need: &["used", "unused"]);
    h!(v, "P31", "multi", "same, multi-task", funcs: EST, bounds: ORTH, |c| orth_small(c, &MULTI, 1), need: &["used", "unused"]);
    h!(v, "P31", "multi_3", "same, three tasks", funcs: EST, bounds: ORTH, |c| orth_small(c, &MULTI, 3), need: &["used", "unused"]);
    const ORTHL: &str = "fixed orthogonal designs of 8x8, 16x11, 32x32, 40x33; one free target in [1, 1.25]; start 1, 3, 10; 1 or 2 passes";
    h!(v, "P31", "large", "larger designs", funcs: EST, bounds: ORTHL, |c| orth_large(c, &ALL, 1));
    h!(v, "P31", "large_2", "same, two tasks", funcs: EST, bounds: ORTHL, |c| orth_large(c, &MULTI, 2));
    h!(v, "P31", "large_3", "same, three tasks", funcs: EST, bounds: ORTHL, |c| orth_large(c, &MULTI, 3));
}
