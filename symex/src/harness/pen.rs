//! P03: penalty values.  P04 / P05: distance of minus the gradient to the subdifferential
use super::common::*;
use crate::ctx::*;
use crate::engine::H;
use crate::h;
use ndarray::{Array1, Array2};
use num_traits::Float as _;
use num_traits::One;
use sparseglm::penalties::block_separable::*;
use sparseglm::penalties::separable::*;

// ------------------------------------------------------------------ specifications

fn mcp_of<C: Ctx>(c: &C, a: C::F, g: C::F, x: C::F) -> C::F {
    if c.split(lt(x, a * g)) {
        a * x - x * x / (q::<C::F>(2, 1) * g)
    } else {
        g * a * a / q(2, 1)
    }
}

fn permute<T: Clone>(v: &[T], p: &[usize]) -> Vec<T> {
    p.iter().map(|&i| v[i].clone()).collect()
}

/// value against the closed form, sign-flip and permutation invariance, non-negativity, zero at zero
fn value1<C: Ctx, P: Penalty<C::F>>(c: &C, p: &P, n: usize, spec: impl Fn(&[C::F]) -> C::F) {
    value1_at(c, p, vecv(c, "w", n), spec)
}
fn value1_at<C: Ctx, P: Penalty<C::F>>(c: &C, p: &P, w: Array1<C::F>, spec: impl Fn(&[C::F]) -> C::F) {
    let n = w.len();
    let v = p.value(w.view());
    c.check("closed form", eq(v, spec(&w.to_vec())));
    c.check("non-negative", ge(v, zero()));
    let mut f = w.clone();
    f[n - 1] = -f[n - 1];
    c.check("sign flip", eq(p.value(f.view()), v));
    if n > 1 {
        let r: Vec<usize> = (0..n).rev().collect();
        let w2 = Array1::from_vec(permute(&w.to_vec(), &r));
        c.check("permutation", eq(p.value(w2.view()), v));
    }
    c.check("zero", is0(p.value(Array1::from_elem(n, zero::<C::F>()).view())));
}
fn v_l1<C: Ctx>(c: &C) {
    let n = c.choose("n", 3) + 1;
    let a = c.nonneg("alpha");
    value1(c, &L1::new(a), n, |w| w.iter().fold(zero::<C::F>(), |s, x| s + a * x.abs()));
}
fn v_l1l2<C: Ctx>(c: &C) {
    let n = c.choose("n", 3) + 1;
    let (a, r) = (c.nonneg("alpha"), c.var_in("ratio", 0.0, 1.0));
    value1(c, &L1PlusL2::new(a, r), n, |w| {
        w.iter().fold(zero::<C::F>(), |s, x| s + a * r * x.abs() + a * (one::<C::F>() - r) * *x * *x / q(2, 1))
    });
}
fn v_mcp<C: Ctx>(c: &C, max: usize) {
    let n = c.choose("n", max) + 1;
    let (a, g) = (c.nonneg("alpha"), c.pos("gamma"));
    value1(c, &MCP::new(a, g), n, |w| w.iter().fold(zero::<C::F>(), |s, x| s + mcp_of(c, a, g, x.abs())));
}
fn v_l05<C: Ctx>(c: &C) {
    let n = c.choose("n", 3) + 1;
    let a = c.nonneg("alpha");
    value1(c, &L05::new(a), n, |w| w.iter().fold(zero::<C::F>(), |s, x| s + a * x.abs().sqrt()));
}

fn value2<C: Ctx, P: MultiTaskPenalty<C::F>>(c: &C, p: &P, n: usize, t: usize, spec: impl Fn(&[C::F]) -> C::F) {
    value2_at(c, p, mat(c, "w", n, t), spec)
}
fn value2_at<C: Ctx, P: MultiTaskPenalty<C::F>>(c: &C, p: &P, w: Array2<C::F>, spec: impl Fn(&[C::F]) -> C::F) {
    let (n, t) = w.dim();
    let v = p.value(w.view());
    let norms: Vec<C::F> = (0..n).map(|j| nrm(&w.row(j).to_vec())).collect();
    c.check("closed form", eq(v, spec(&norms)));
    c.check("non-negative", ge(v, zero()));
    // depends on rows through their norm only: reversing / negating the tasks of one row changes nothing
    let mut f = w.clone();
    for k in 0..t {
        f[[0, k]] = -w[[0, t - 1 - k]];
    }
    c.check("row norm only", eq(p.value(f.view()), v));
    if n > 1 {
        let w2 = Array2::from_shape_fn((n, t), |(j, k)| w[[n - 1 - j, k]]);
        c.check("permutation", eq(p.value(w2.view()), v));
    }
    c.check("zero", is0(p.value(Array2::from_elem((n, t), zero::<C::F>()).view())));
}
fn dims<C: Ctx>(c: &C, nmax: usize, tmax: usize) -> (usize, usize) {
    (c.choose("rows", nmax) + 1, c.choose("tasks", tmax) + 1)
}
fn v_l21<C: Ctx>(c: &C) {
    let (n, t) = dims(c, 3, 3);
    let a = c.nonneg("alpha");
    value2(c, &L21::new(a), n, t, |w| w.iter().fold(zero::<C::F>(), |s, x| s + a * *x));
}
fn v_bl1l2<C: Ctx>(c: &C) {
    let (n, t) = dims(c, 3, 3);
    let (a, r) = (c.nonneg("alpha"), c.var_in("ratio", 0.0, 1.0));
    value2(c, &BlockL1PlusL2::new(a, r), n, t, |w| {
        w.iter().fold(zero::<C::F>(), |s, x| s + a * r * *x + a * (one::<C::F>() - r) * *x * *x / q(2, 1))
    });
}
fn v_bmcp<C: Ctx>(c: &C, nmax: usize) {
    let (n, t) = dims(c, nmax, 3);
    let (a, g) = (c.nonneg("alpha"), c.pos("gamma"));
    value2(c, &BlockMCP::new(a, g), n, t, |w| w.iter().fold(zero::<C::F>(), |s, x| s + mcp_of(c, a, g, *x)));
}

// ------------------------------------------------------------------ P04

/// `dist(w_j, g)` is the specification of one entry
fn subdiff1<C: Ctx, P: Penalty<C::F>>(c: &C, p: &P, n: usize, sel: Vec<Vec<usize>>, dist: impl Fn(C::F, C::F) -> C::F) {
    let w = vecv(c, "w", n);
    let ws = sel[c.choose("ws", sel.len())].clone();
    let g = vecv(c, "g", ws.len());
    subdiff1_at(c, p, w, ws, g, dist)
}
fn subdiff1_at<C: Ctx, P: Penalty<C::F>>(c: &C, p: &P, w: Array1<C::F>, ws: Vec<usize>, g: Array1<C::F>, dist: impl Fn(C::F, C::F) -> C::F) {
    let wsa = Array1::from_vec(ws.clone());
    let (d, m) = p.subdiff_distance(w.view(), g.view(), wsa.view());
    c.check("length", Cond::B(d.len() == ws.len()));
    let mut ms = vec![];
    for (k, &j) in ws.iter().enumerate() {
        c.check("entry k describes feature ws[k]", eq(d[k], dist(w[j], g[k])));
        c.check("bounded by the maximum", le(d[k], m));
        ms.push(eq(d[k], m));
    }
    c.check("maximum attained", or(ms));
}
fn clamp<F: Num>(x: F) -> F {
    if x > F::zero() {
        x
    } else {
        F::zero()
    }
}
fn interval_or<C: Ctx>(c: &C, w: C::F, g: C::F, a: C::F, deriv: impl Fn(C::F) -> C::F) -> C::F {
    // subdifferential at 0 is [-a, a]; elsewhere the single point sign(w) * deriv(|w|)
    if c.split(is0(w)) {
        clamp(g.abs() - a)
    } else if c.split(gt(w, zero())) {
        (g + deriv(w)).abs()
    } else {
        (g - deriv(-w)).abs()
    }
}
fn s_l1<C: Ctx>(c: &C, n: usize, sel: Vec<Vec<usize>>) {
    let a = c.nonneg("alpha");
    subdiff1(c, &L1::new(a), n, sel, |w, g| interval_or(c, w, g, a, |_| a));
}
fn s_l1l2<C: Ctx>(c: &C, n: usize, sel: Vec<Vec<usize>>) {
    let (a, r) = (c.nonneg("alpha"), c.var_in("ratio", 0.0, 1.0));
    subdiff1(c, &L1PlusL2::new(a, r), n, sel, |w, g| interval_or(c, w, g, a * r, |x| a * r + a * (one::<C::F>() - r) * x));
}
fn s_mcp<C: Ctx>(c: &C, n: usize, sel: Vec<Vec<usize>>) {
    let (a, g) = (c.nonneg("alpha"), c.pos("gamma"));
    subdiff1(c, &MCP::new(a, g), n, sel, |w, gr| {
        interval_or(c, w, gr, a, |x| if c.split(lt(x, a * g)) { a - x / g } else { zero() })
    });
}
/// the reported distance really is the distance to the subdifferential of the real `value` (convex penalties):
/// v = -g + d*(direction) is a subgradient, checked through the subgradient inequality, and nothing nearer is
fn s_value<C: Ctx>(c: &C) {
    let (a, r) = (c.nonneg("alpha"), c.var_in("ratio", 0.0, 1.0));
    let p = L1PlusL2::new(a, r);
    let pv = |x: C::F| p.value(Array1::from_vec(vec![x]).view());
    let (w, g, z, v) = (c.var("w"), c.var("g"), c.var("z"), c.var("v"));
    let (_, d) = p.subdiff_distance(Array1::from_vec(vec![w]).view(), Array1::from_vec(vec![g]).view(), Array1::from_vec(vec![0]).view());
    // one of the two points at distance d from -g is a subgradient
    let ok = |s: C::F, z: C::F| ge(pv(z), pv(w) + s * (z - w));
    let z2 = c.var("z2");
    c.check("attained", or(vec![ok(-g + d, z), ok(-g - d, z2)]));
    // a subgradient v is not nearer: v in the subdifferential, tested at two witnesses around w
    let e = c.pos("e");
    c.assume(or(vec![is0(w), le(e, w.abs())]));
    c.assume(and(vec![ok(v, w + e), ok(v, w - e)]));
    let slack = a * (one::<C::F>() - r) * e;
    c.check("nothing nearer", ge((v + g).abs() + slack, d));
}

// ------------------------------------------------------------------ P05

fn subdiff2<C: Ctx, P: MultiTaskPenalty<C::F>>(
    c: &C,
    p: &P,
    n: usize,
    t: usize,
    sel: Vec<Vec<usize>>,
    dist2: impl Fn(&[C::F], &[C::F], C::F) -> Cond<C::F>,
) {
    let w = mat(c, "w", n, t);
    let ws = sel[c.choose("ws", sel.len())].clone();
    let g = mat(c, "g", ws.len(), t);
    subdiff2_at(c, p, w, ws, g, dist2)
}
fn subdiff2_at<C: Ctx, P: MultiTaskPenalty<C::F>>(
    c: &C,
    p: &P,
    w: Array2<C::F>,
    ws: Vec<usize>,
    g: Array2<C::F>,
    dist2: impl Fn(&[C::F], &[C::F], C::F) -> Cond<C::F>,
) {
    let wsa = Array1::from_vec(ws.clone());
    let (d, m) = p.subdiff_distance(w.view(), g.view(), wsa.view());
    c.check("length", Cond::B(d.len() == ws.len()));
    let mut ms = vec![];
    for (k, &j) in ws.iter().enumerate() {
        c.check("non-negative", ge(d[k], zero()));
        c.check("entry k describes row ws[k]", dist2(&w.row(j).to_vec(), &g.row(k).to_vec(), d[k]));
        c.check("bounded by the maximum", le(d[k], m));
        ms.push(eq(d[k], m));
    }
    c.check("maximum attained", or(ms));
}
/// d is the distance from -g to: the ball of radius a if w = 0, else the point coef(|w|) * w
fn ball_or<C: Ctx>(c: &C, w: &[C::F], g: &[C::F], d: C::F, a: C::F, coef: impl Fn(C::F) -> C::F) -> Cond<C::F> {
    if c.split(and(w.iter().map(|x| is0(*x)).collect())) {
        c.cover("zero row");
        eq(d, clamp(nrm(g) - a))
    } else {
        c.cover("non-zero row");
        let k = coef(nrm(w));
        let s: Vec<C::F> = (0..w.len()).map(|i| g[i] + k * w[i]).collect();
        eq(d * d, dot(&s, &s))
    }
}
fn s_l21<C: Ctx>(c: &C, n: usize, t: usize, sel: Vec<Vec<usize>>) {
    let a = c.nonneg("alpha");
    subdiff2(c, &L21::new(a), n, t, sel, |w, g, d| ball_or(c, w, g, d, a, |x| a / x));
}
fn s_bl1l2<C: Ctx>(c: &C, n: usize, t: usize, sel: Vec<Vec<usize>>) {
    let (a, r) = (c.nonneg("alpha"), c.var_in("ratio", 0.0, 1.0));
    subdiff2(c, &BlockL1PlusL2::new(a, r), n, t, sel, |w, g, d| {
        ball_or(c, w, g, d, a * r, |x| a * r / x + a * (C::F::one() - r))
    });
}
fn s_bmcp<C: Ctx>(c: &C, n: usize, t: usize, sel: Vec<Vec<usize>>) {
    let (a, gm) = (c.nonneg("alpha"), c.pos("gamma"));
    subdiff2(c, &BlockMCP::new(a, gm), n, t, sel, |w, g, d| {
        ball_or(c, w, g, d, a, |x| if c.split(lt(x, a * gm)) { a / x - C::F::one() / gm } else { zero() })
    });
}

// ------------------------------------------------------------------ larger shapes, few free entries

/// rows of rational norm
const ROWS: [[i64; 5]; 8] =
    [[1, 2, 2, 0, 0], [0, 0, 0, 0, 0], [2, 0, 0, 0, 0], [1, 1, 1, 1, 0], [0, -3, 0, 4, 0], [-1, 1, -1, 3, 2], [0, 0, 0, 0, -7], [2, -4, 5, 6, 0]];
fn rows_fixed<C: Ctx>(c: &C, name: &str, n: usize, t: usize, free: &[usize], scale: i64) -> Array2<C::F> {
    Array2::from_shape_fn((n, t), |(j, k)| {
        if free.contains(&j) {
            c.var(&format!("{}{}_{}", name, j, k))
        } else {
            q(ROWS[j % 8][k], scale)
        }
    })
}
fn v_wide<C: Ctx>(c: &C) {
    let n = [7, 12, 33, 257][c.choose("n", 4)];
    let free = [0, n / 2, n - 1][c.choose("free", 3)];
    let w = mostly(c, "w", n, 0, &[free]);
    // square roots of the fixed entries have to be rational for L0.5
    let w4 = w.mapv(|x| if c.same(x, w[free]) { x } else { x * x });
    let a = c.nonneg("alpha");
    match c.choose("penalty", 4) {
        0 => value1_at(c, &L1::new(a), w, |w| w.iter().fold(zero::<C::F>(), |s, x| s + a * x.abs())),
        1 => {
            let r = c.var_in("ratio", 0.0, 1.0);
            value1_at(c, &L1PlusL2::new(a, r), w, |w| {
                w.iter().fold(zero::<C::F>(), |s, x| s + a * r * x.abs() + a * (one::<C::F>() - r) * *x * *x / q(2, 1))
            })
        }
        2 => {
            let (a, g) = ([q(0, 1), q(1, 2), q(3, 2)][c.choose("a", 3)], [q(2, 1), q(3, 1)][c.choose("g", 2)]);
            value1_at(c, &MCP::new(a, g), w, |w| w.iter().fold(zero::<C::F>(), |s, x| s + mcp_of(c, a, g, x.abs())))
        }
        _ => value1_at(c, &L05::new(a), w4, |w| w.iter().fold(zero::<C::F>(), |s, x| s + a * x.abs().sqrt())),
    }
}
fn v_wide2<C: Ctx>(c: &C) {
    let (n, t) = [(6, 5), (17, 4), (8, 1), (1, 5), (130, 2), (65, 5)][c.choose("shape", 6)];
    let free = [0, n - 1][c.choose("free", 2)];
    let w = rows_fixed(c, "w", n, t, &[free], 2);
    let a = c.nonneg("alpha");
    match c.choose("penalty", 3) {
        0 => value2_at(c, &L21::new(a), w, |w| w.iter().fold(zero::<C::F>(), |s, x| s + a * *x)),
        1 => {
            let r = c.var_in("ratio", 0.0, 1.0);
            value2_at(c, &BlockL1PlusL2::new(a, r), w, |w| {
                w.iter().fold(zero::<C::F>(), |s, x| s + a * r * *x + a * (one::<C::F>() - r) * *x * *x / q(2, 1))
            })
        }
        _ => {
            let (a, g) = ([q(0, 1), q(1, 2), q(3, 2)][c.choose("a", 3)], [q(2, 1), q(3, 1)][c.choose("g", 2)]);
            value2_at(c, &BlockMCP::new(a, g), w, |w| w.iter().fold(zero::<C::F>(), |s, x| s + mcp_of(c, a, g, *x)))
        }
    }
}
/// a few working sets of n features: all in order, all reversed, a scattered half, the last alone
fn some_ws<C: Ctx>(c: &C, n: usize) -> Vec<usize> {
    match c.choose("ws", 4) {
        0 => (0..n).collect(),
        1 => (0..n).rev().collect(),
        2 => (0..n / 2).map(|k| (5 * k + 3) % n).collect(),
        _ => vec![n - 1],
    }
}
fn s_wide<C: Ctx>(c: &C) {
    let n = [13, 64][c.choose("n", 2)]; // coprime to 5
    let ws = some_ws(c, n);
    let k = [0, ws.len() - 1, ws.len() / 2][c.choose("free", 3)];
    let w = mostly(c, "w", n, 0, &[ws[k]]);
    let g = mostly(c, "g", ws.len(), 4, &[k]);
    match c.choose("penalty", 3) {
        0 => {
            let a = [q(0, 1), q(1, 2), q(3, 1)][c.choose("a", 3)];
            subdiff1_at(c, &L1::new(a), w, ws, g, |w, g| interval_or(c, w, g, a, |_| a))
        }
        1 => {
            let (a, r) = ([q(1, 2), q(3, 1)][c.choose("a", 2)], [q(0, 1), q(1, 3), q(1, 1)][c.choose("r", 3)]);
            subdiff1_at(c, &L1PlusL2::new(a, r), w, ws, g, |w, g| interval_or(c, w, g, a * r, |x| a * r + a * (one::<C::F>() - r) * x))
        }
        _ => {
            let (a, gm): (C::F, C::F) = ([q(1, 2), q(3, 1)][c.choose("a", 2)], [q(2, 1), q(3, 1)][c.choose("g", 2)]);
            subdiff1_at(c, &MCP::new(a, gm), w, ws, g, |w, gr| {
                interval_or(c, w, gr, a, |x| if c.split(lt(x, a * gm)) { a - x / gm } else { zero() })
            })
        }
    }
}
/// fixed rows lie on one line with their gradients, so that every distance is rational
fn s_wide2<C: Ctx>(c: &C, t: usize) {
    let n = [8, 40][c.choose("n", 2)];
    let ws = match c.choose("ws", 4) {
        0 => (0..n).collect::<Vec<usize>>(),
        1 => (0..n).rev().collect(),
        2 => vec![5, 0, 7, 2],
        _ => vec![n - 1],
    };
    let k = [0, ws.len() - 1][c.choose("free", 2)];
    let mut w = rows_fixed(c, "w", n, t, &[], 1);
    let free = c.choose("free row", 2) == 1;
    // the free row: along a fixed direction or zero, with a free gradient on the same line
    let dir: Vec<C::F> = (0..t).map(|i| q([3, 4, 0, 0, 0][i], 5)).collect();
    let len = if t == 1 { q::<C::F>(3, 5) } else { one() };
    let (cw, cg) = (c.var("cw"), c.var("cg"));
    for i in 0..t {
        w[[ws[k], i]] = if free { cw * dir[i] / len } else { zero() };
    }
    let g = Array2::from_shape_fn((ws.len(), t), |(r, i)| {
        if r == k {
            cg * dir[i] / len
        } else {
            fixed::<C::F>(r + 3) * q(ROWS[ws[r] % 8][i], 1) + if ROWS[ws[r] % 8].iter().all(|v| *v == 0) && i == 0 { q(3, 2) } else { zero() }
        }
    });
    let (a, gm): (C::F, C::F) = ([q(1, 2), q(3, 1)][c.choose("a", 2)], q(2, 1));
    match c.choose("penalty", 3) {
        0 => subdiff2_at(c, &L21::new(a), w, ws, g, |w, g, d| ball_or(c, w, g, d, a, |x| a / x)),
        1 => {
            let r: C::F = [q(0, 1), q(1, 3), q(1, 1)][c.choose("r", 3)];
            subdiff2_at(c, &BlockL1PlusL2::new(a, r), w, ws, g, |w, g, d| {
                ball_or(c, w, g, d, a * r, |x| a * r / x + a * (C::F::one() - r))
            })
        }
        _ => subdiff2_at(c, &BlockMCP::new(a, gm), w, ws, g, |w, g, d| {
            ball_or(c, w, g, d, a, |x| if c.split(lt(x, a * gm)) { a / x - C::F::one() / gm } else { zero() })
        }),
    }
}

const F3: &[&str] = &["L1::value", "L1PlusL2::value", "MCP::value", "L05::value"];
const F3B: &[&str] = &["L21::value", "BlockL1PlusL2::value", "BlockMCP::value"];

pub fn register(v: &mut Vec<H>) {
    h!(v, "P03", "value_l1", "L1 value", funcs: F3, bounds: "1-3 features, all reals, alpha >= 0", |c| v_l1(c));
    h!(v, "P03", "value_l1l2", "L1+L2 value", funcs: F3, bounds: "1-3 features, all reals, alpha >= 0, ratio in [0,1]", |c| v_l1l2(c));
    h!(v, "P03", "value_mcp", "MCP value", funcs: F3, bounds: "1-2 features, all reals, alpha >= 0, gamma > 0", |c| v_mcp(c, 2));
    h!(v, "P03", "value_mcp_3", "MCP value", funcs: F3, bounds: "1-3 features", |c| v_mcp(c, 3));
    h!(v, "P03", "value_l05", "L0.5 value", funcs: F3, bounds: "1-3 features, all reals, alpha >= 0", |c| v_l05(c));
    h!(v, "P03", "value_l21", "L21 value", funcs: F3B, bounds: "1-3 rows x 1-3 tasks", |c| v_l21(c));
    h!(v, "P03", "value_bl1l2", "block L1+L2 value", funcs: F3B, bounds: "1-3 rows x 1-3 tasks", |c| v_bl1l2(c));
    h!(v, "P03", "value_bmcp", "block MCP value", funcs: F3B, bounds: "1-2 rows x 1-3 tasks", |c| v_bmcp(c, 2));
    h!(v, "P03", "value_bmcp_3", "block MCP value", funcs: F3B, bounds: "1-3 rows x 1-3 tasks", |c| v_bmcp(c, 3));
    h!(v, "P03", "value_wide", "values of long vectors", funcs: F3, bounds: "7, 12, 33 or 257 features, one free entry (first, middle or last), the others fixed (zeros included); every strength and ratio (MCP: six pairs)", |c| v_wide(c));
    h!(v, "P03", "value_wide_block", "values of many rows", funcs: F3B, bounds: "6x5, 17x4, 8x1, 1x5, 130x2, 65x5 rows x tasks, one free row (first or last); every strength and ratio (MCP: six pairs)", |c| v_wide2(c));

    h!(v, "P04", "dist_wide", "violations over long working sets", funcs: &["L1::subdiff_distance", "L1PlusL2::subdiff_distance", "MCP::subdiff_distance"], bounds: "13 or 64 features, four working sets of 1-64 features in several orders, one free coefficient and gradient entry; fixed strengths (0 included), ratios and gammas", |c| s_wide(c));
    h!(v, "P04", "dist_l1", "L1 violation of every entry of every working set", funcs: &["L1::subdiff_distance"], bounds: "3 features; every ordered non-empty selection of at most 2 of them, and all permutations for the deep tier", |c| s_l1(c, 3, [selections(3, 1), selections(3, 2)].concat()));
    h!(v, "P04", "dist_l1l2", "L1+L2 violation", funcs: &["L1PlusL2::subdiff_distance"], bounds: "3 features; every ordered selection of at most 2", |c| s_l1l2(c, 3, [selections(3, 1), selections(3, 2)].concat()));
    h!(v, "P04", "dist_mcp", "MCP violation", funcs: &["MCP::subdiff_distance"], bounds: "3 features; every ordered selection of at most 2", |c| s_mcp(c, 3, [selections(3, 1), selections(3, 2)].concat()));
    h!(v, "P04", "dist_value", "L1 / L1+L2 violation against the subgradient inequality of the real value", funcs: &["L1PlusL2::subdiff_distance", "L1PlusL2::value"], bounds: "1 feature; all reals", |c| s_value(c));
    h!(v, "P04", "dist_l1_3", "L1 violation, full working sets", funcs: &["L1::subdiff_distance"], bounds: "3 features; all permutations", |c| s_l1(c, 3, selections(3, 3)), deep: true);
    h!(v, "P04", "dist_l1l2_3", "L1+L2 violation, full working sets", funcs: &["L1PlusL2::subdiff_distance"], bounds: "3 features; all permutations", |c| s_l1l2(c, 3, selections(3, 3)), deep: true);
    h!(v, "P04", "dist_mcp_3", "MCP violation, full working sets", funcs: &["MCP::subdiff_distance"], bounds: "3 features; all permutations", |c| s_mcp(c, 3, selections(3, 3)), deep: true);

    const Z: &[&str] = &["zero row", "non-zero row"];
    h!(v, "P05", "dist_wide", "violations of many rows", funcs: &["L21::subdiff_distance", "BlockL1PlusL2::subdiff_distance", "BlockMCP::subdiff_distance"], bounds: "8 or 40 rows x 5 tasks, four working sets of 1-40 rows in several orders; one row and its gradient with free lengths; fixed strengths, ratios, gamma", |c| s_wide2(c, 5), need: Z);
    h!(v, "P05", "dist_wide_1", "violations of many one-task rows", funcs: &["L21::subdiff_distance", "BlockL1PlusL2::subdiff_distance", "BlockMCP::subdiff_distance"], bounds: "8 or 40 rows x 1 task, likewise", |c| s_wide2(c, 1), need: Z);
    h!(v, "P05", "dist_l21", "L21 violation", funcs: &["L21::subdiff_distance"], bounds: "1 row x 2 tasks", |c| s_l21(c, 1, 2, selections(1, 1)), need: Z);
    h!(v, "P05", "dist_bl1l2", "block L1+L2 violation", funcs: &["BlockL1PlusL2::subdiff_distance"], bounds: "1 row x 2 tasks", |c| s_bl1l2(c, 1, 2, selections(1, 1)), need: Z);
    h!(v, "P05", "dist_bmcp", "block MCP violation", funcs: &["BlockMCP::subdiff_distance"], bounds: "1 row x 2 tasks", |c| s_bmcp(c, 1, 2, selections(1, 1)), need: Z);
    h!(v, "P05", "dist_l21_ws", "L21 violation, reordered working sets", funcs: &["L21::subdiff_distance"], bounds: "3 rows x 1 task, every ordered selection of 2", |c| s_l21(c, 3, 1, selections(3, 2)), need: Z);
    h!(v, "P05", "dist_bl1l2_ws", "block L1+L2 violation, reordered working sets", funcs: &["BlockL1PlusL2::subdiff_distance"], bounds: "3 rows x 1 task, every ordered selection of 2", |c| s_bl1l2(c, 3, 1, selections(3, 2)), need: Z);
    h!(v, "P05", "dist_bmcp_ws", "block MCP violation, reordered working sets", funcs: &["BlockMCP::subdiff_distance"], bounds: "3 rows x 1 task, every ordered selection of 2", |c| s_bmcp(c, 3, 1, selections(3, 2)), need: Z);
    h!(v, "P05", "dist_l21_3t", "L21 violation, 3 tasks", funcs: &["L21::subdiff_distance"], bounds: "1 row x 3 tasks", |c| s_l21(c, 1, 3, selections(1, 1)), need: Z);
    h!(v, "P05", "dist_bmcp_3t", "block MCP violation, 3 tasks", funcs: &["BlockMCP::subdiff_distance"], bounds: "1 row x 3 tasks", |c| s_bmcp(c, 1, 3, selections(1, 1)), need: Z);
}
