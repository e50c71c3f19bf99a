//! P01 / P02: proximal operators are global minimisers of their prox objective
use super::common::*;
use crate::ctx::*;
use crate::engine::H;
use crate::h;
use ndarray::{arr1, Array1, Array2};
use num_traits::Float as _;
use num_traits::{One, Zero};
use sparseglm::penalties::block_separable::*;
use sparseglm::penalties::separable::*;
use sparseglm::utils::prox_funcs::*;

/// penalty value at the scalar x, through the real `value`
fn pen1<F: Num, P: Penalty<F>>(p: &P, x: F) -> F {
    p.value(arr1(&[x]).view())
}

/// |prox(x) - x|^2/2 + step*pen(prox(x)) <= |z - x|^2/2 + step*pen(z) for an arbitrary z
fn minimiser<C: Ctx, P: Penalty<C::F>>(c: &C, p: &P, x: C::F, step: C::F) {
    let half: C::F = q(1, 2);
    let u = p.prox(x, step);
    c.check("finite", finite(u));
    let z = c.var("z");
    let fu = half * (u - x) * (u - x) + step * pen1(p, u);
    let fz = half * (z - x) * (z - x) + step * pen1(p, z);
    c.check("minimiser", le(fu, fz));
}
/// odd, and zero exactly on |x| <= dead
fn shape<C: Ctx, P: Penalty<C::F>>(c: &C, p: &P, x: C::F, step: C::F, dead: C::F) {
    let u = p.prox(x, step);
    let v = p.prox(-x, step);
    c.check("odd", eq(v, -u));
    if c.split(le(x.abs(), dead)) {
        c.check("dead-zone", is0(u));
        c.cover("dead");
    } else {
        c.check("support", nz(u));
        c.check("sign", gt(u * x, zero()));
        c.check("shrinks", le(u.abs(), x.abs()));
    }
}

fn args<C: Ctx>(c: &C) -> (C::F, C::F, C::F) {
    (c.var("x"), c.nonneg("alpha"), c.pos("step"))
}
fn l1<C: Ctx>(c: &C) {
    let (x, a, s) = args(c);
    minimiser(c, &L1::new(a), x, s);
}
fn l1_shape<C: Ctx>(c: &C) {
    let (x, a, s) = args(c);
    shape(c, &L1::new(a), x, s, a * s);
}
fn l1l2<C: Ctx>(c: &C) {
    let (x, a, s) = args(c);
    let r = c.var_in("ratio", 0.0, 1.0);
    minimiser(c, &L1PlusL2::new(a, r), x, s);
}
fn l1l2_shape<C: Ctx>(c: &C) {
    let (x, a, s) = args(c);
    let r = c.var_in("ratio", 0.0, 1.0);
    shape(c, &L1PlusL2::new(a, r), x, s, a * s * r);
}
fn mcp<C: Ctx>(c: &C) {
    let (x, a, s) = args(c);
    let g = c.pos("gamma");
    c.assume(gt(g, s));
    minimiser(c, &MCP::new(a, g), x, s);
}
fn mcp_shape<C: Ctx>(c: &C) {
    let (x, a, s) = args(c);
    let g = c.pos("gamma");
    c.assume(gt(g, s));
    let p = MCP::new(a, g);
    shape(c, &p, x, s, a * s);
    if c.split(gt(x.abs(), g * a)) {
        c.check("unbiased", eq(p.prox(x, s), x));
    }
}
/// threshold = s^3, |x| = y^2: no generality lost (cube / square roots exist)
fn l05<C: Ctx>(c: &C) {
    let (s, y, v) = (c.nonneg("s"), c.nonneg("y"), c.nonneg("v"));
    c.assume(or(vec![gt(s, zero()), gt(y, zero())]));
    let neg = c.choose("negative x", 2) == 1;
    let x = if neg { -y * y } else { y * y };
    let l = s * s * s;
    let u = prox_05(x, l);
    c.check("finite", finite(u));
    // z of the other sign is never better
    let z = v * v;
    let fu = q::<C::F>(1, 2) * sq(u - x) + l * u.abs().sqrt();
    let zz = if neg { -z } else { z };
    let fz = q::<C::F>(1, 2) * sq(zz - x) + l * v;
    c.check("sign", ge(u * x, zero()));
    c.check("minimiser", le(fu, fz));
}
fn l05_forward<C: Ctx>(c: &C) {
    let (x, a, s) = args(c);
    c.assume(gt(x.abs() + a, zero()));
    c.check("L05::prox is prox_05(x, alpha*step)", eq(L05::new(a).prox(x, s), prox_05(x, a * s)));
}
fn l05_zero<C: Ctx>(c: &C) {
    let s = c.pos("step");
    c.check("prox_05(0, 0) is finite", finite(L05::new(zero::<C::F>()).prox(zero(), s)));
    let a = c.nonneg("alpha");
    c.check("prox_05(0, .) is 0", is0(L05::new(a).prox(zero(), s)));
}
fn soft<C: Ctx>(c: &C) {
    let (x, t) = (c.var("x"), c.nonneg("t"));
    let u = soft_thresholding(x, t);
    if c.split(gt(x, t)) {
        c.check("above", eq(u, x - t));
    } else if c.split(lt(x, -t)) {
        c.check("below", eq(u, x + t));
    } else {
        c.check("inside", is0(u));
    }
}

// ------------------------------------------------------------------ blocks

fn penr<F: Num, P: MultiTaskPenalty<F>>(p: &P, r: &[F]) -> F {
    p.value(Array2::from_shape_vec((1, r.len()), r.to_vec()).unwrap().view())
}

/// against an arbitrary competitor row
fn block_min<C: Ctx, P: MultiTaskPenalty<C::F>>(c: &C, p: &P, x: Array1<C::F>, step: C::F) {
    let n = x.len();
    let u = p.prox(x.view(), step);
    c.check("length", Cond::B(u.len() == n));
    c.check("finite", fin_all(&u.to_vec()));
    let z = vecv(c, "z", n);
    // Cauchy-Schwarz, a fact about reals the solver need not rediscover
    c.assume(ge(nrm(&z.to_vec()) * nrm(&x.to_vec()), dot(&z.to_vec(), &x.to_vec())));
    let half: C::F = q(1, 2);
    let d = |v: &Array1<C::F>| (0..n).fold(zero::<C::F>(), |s, i| s + sq(v[i] - x[i]));
    let fu = half * d(&u) + step * penr(p, &u.to_vec());
    let fz = half * d(&z) + step * penr(p, &z.to_vec());
    c.check("minimiser", le(fu, fz));
}
/// `u` is a non-negative multiple of x (never rotated or reflected), and no other multiple of x with any radius r >= 0
/// is better.  With Cauchy-Schwarz (|z - x| >= ||z| - |x||) this is global minimality, for a penalty that depends
/// on the norm only (P03).
fn block_radial<C: Ctx, P: MultiTaskPenalty<C::F>>(c: &C, p: &P, x: Array1<C::F>, step: C::F, dead: C::F) {
    let n = x.len();
    let xs = x.to_vec();
    let u = p.prox(x.view(), step);
    c.check("length", Cond::B(u.len() == n));
    let us = u.to_vec();
    c.check("finite", fin_all(&us));
    for i in 0..n {
        c.check("same direction", ge(us[i] * xs[i], zero()));
        for j in 0..i {
            c.check("collinear", eq(us[i] * xs[j], us[j] * xs[i]));
        }
        c.check("zero stays zero", or(vec![nz(xs[i]), is0(us[i])]));
    }
    let nx = nrm(&xs);
    let nu = nrm(&us);
    let r = c.nonneg("r");
    let half: C::F = q(1, 2);
    // row of norm r, through the real value
    let mut row = vec![zero::<C::F>(); n];
    row[0] = r;
    let fu = half * sq(nu - nx) + step * penr(p, &us);
    let fr = half * sq(r - nx) + step * penr(p, &row);
    c.check("radially minimal", le(fu, fr));
    if c.split(le(nx, dead)) {
        for v in &us {
            c.check("dead-zone", is0(*v));
        }
    } else {
        c.check("support", gt(nu, zero()));
    }
}
fn rows<C: Ctx>(c: &C, max: usize) -> Array1<C::F> {
    let n = c.choose("tasks", max) + 1;
    vecv(c, "x", n)
}
fn b21<C: Ctx>(c: &C, max: usize) {
    let x = rows(c, max);
    let (a, s) = (c.nonneg("alpha"), c.pos("step"));
    block_radial(c, &L21::new(a), x, s, a * s);
}
fn ben<C: Ctx>(c: &C, max: usize) {
    let x = rows(c, max);
    let (a, s, r) = (c.nonneg("alpha"), c.pos("step"), c.var_in("ratio", 0.0, 1.0));
    block_radial(c, &BlockL1PlusL2::new(a, r), x, s, a * s * r);
}
fn bmcp<C: Ctx>(c: &C, max: usize) {
    let x = rows(c, max);
    let (a, s, g) = (c.nonneg("alpha"), c.pos("step"), c.pos("gamma"));
    c.assume(gt(g, s));
    block_radial(c, &BlockMCP::new(a, g), x, s, a * s);
}
/// rows of 4 to 12 tasks on a fixed line of rational norm, at every length
fn wide<C: Ctx>(c: &C) {
    let dirs: [&[i64]; 4] = [&[1, -1, 1, 1], &[2, -4, 5, 6, 0], &[0, 0, 0, 0, 0, 0, 3], &[1, 2, 3, 0, -1, 1, 0, 0, -3, 0, 0, 0]];
    let many: Vec<i64> = (0..64).map(|i| if i % 3 == 0 { -1 } else { 1 }).collect();
    let l = c.choose("line", 5);
    let d = if l < 4 { dirs[l] } else { &many[..] };
    let k = c.var("k");
    let x = Array1::from_iter(d.iter().map(|v| k * q(*v, 1)));
    let (a, s) = (c.nonneg("alpha"), c.pos("step"));
    match c.choose("penalty", 3) {
        0 => block_radial(c, &L21::new(a), x, s, a * s),
        1 => {
            let r = c.var_in("ratio", 0.0, 1.0);
            block_radial(c, &BlockL1PlusL2::new(a, r), x, s, a * s * r)
        }
        _ => {
            let (a, s, g): (C::F, C::F, C::F) = ([q(0, 1), q(1, 2), q(3, 1)][c.choose("a", 3)], q(1, 3), [q(1, 2), q(3, 1)][c.choose("g", 2)]);
            block_radial(c, &BlockMCP::new(a, g), x, s, a * s)
        }
    }
}
/// an arbitrary competitor row, x on a line of rational norm
fn b21_full<C: Ctx>(c: &C, en: bool) {
    let k = c.var("k");
    let d: [C::F; 2] = [[q(1, 1), q(0, 1)], [q(3, 5), q(-4, 5)]][c.choose("line", 2)];
    let x = Array1::from_vec(vec![k * d[0], k * d[1]]);
    let a = c.nonneg("alpha");
    if en {
        let r = c.var_in("ratio", 0.0, 1.0);
        block_min(c, &BlockL1PlusL2::new(a, r), x, c.pos("step"));
    } else {
        block_min(c, &L21::new(a), x, c.pos("step"));
    }
}
fn bst<C: Ctx>(c: &C) {
    let n = c.choose("tasks", 3) + 1;
    let x = vecv(c, "x", n);
    let t = c.nonneg("t");
    let u = block_soft_thresholding(x.view(), t);
    c.check("finite", fin_all(&u.to_vec()));
    let nx = nrm(&x.to_vec());
    if c.split(le(nx, t)) {
        for v in u.iter() {
            c.check("dead-zone", is0(*v));
        }
    } else {
        for i in 0..n {
            c.check("scaled", eq(u[i], x[i] * (C::F::one() - t / nx)));
        }
    }
}
/// a zero row, whatever the strength (0 included), stays a zero row
fn zero_row<C: Ctx>(c: &C) {
    let n = c.choose("tasks", 3) + 1;
    let x = Array1::from_elem(n, C::F::zero());
    let (a, s, r, g) = (c.nonneg("alpha"), c.pos("step"), c.var_in("ratio", 0.0, 1.0), c.pos("gamma"));
    c.assume(gt(g, s));
    for (l, u) in [
        ("L21", L21::new(a).prox(x.view(), s)),
        ("BlockL1PlusL2", BlockL1PlusL2::new(a, r).prox(x.view(), s)),
        ("BlockMCP", BlockMCP::new(a, g).prox(x.view(), s)),
    ] {
        for v in u.iter() {
            c.check(l, is0(*v));
        }
    }
}

pub fn register(v: &mut Vec<H>) {
    h!(v, "P01", "prox_l1", "L1 prox is a global minimiser", funcs: &["L1::prox", "L1::value", "soft_thresholding"], bounds: "all real x, z; alpha >= 0; step > 0", |c| l1(c));
    h!(v, "P01", "prox_l1_shape", "L1 prox is odd, zero exactly on the dead zone, shrinks", funcs: &["L1::prox", "soft_thresholding"], bounds: "all real x; alpha >= 0; step > 0", |c| l1_shape(c), need: &["dead"]);
    h!(v, "P01", "prox_l1l2", "L1+L2 prox is a global minimiser", funcs: &["L1PlusL2::prox", "L1PlusL2::value", "soft_thresholding"], bounds: "all real x, z; alpha >= 0; ratio in [0,1]; step > 0", |c| l1l2(c));
    h!(v, "P01", "prox_l1l2_shape", "L1+L2 prox shape", funcs: &["L1PlusL2::prox"], bounds: "all real x; alpha >= 0; ratio in [0,1]; step > 0", |c| l1l2_shape(c), need: &["dead"]);
    h!(v, "P01", "prox_mcp", "MCP prox is a global minimiser", funcs: &["MCP::prox", "MCP::value"], bounds: "all real x, z; alpha >= 0; gamma > step > 0", |c| mcp(c));
    h!(v, "P01", "prox_mcp_shape", "MCP prox is odd, zero exactly on the dead zone, identity on the flat part", funcs: &["MCP::prox"], bounds: "all real x; alpha >= 0; gamma > step > 0", |c| mcp_shape(c), need: &["dead"]);
    h!(v, "P01", "prox_l05", "L0.5 prox is a global minimiser", funcs: &["prox_05"], bounds: "x = +-y^2, threshold = s^3, z = +-v^2 for all y, s, v >= 0 (every real x, threshold >= 0, z)", |c| l05(c));
    h!(v, "P01", "prox_l05_forward", "L0.5 prox is prox_05 at alpha*step", funcs: &["L05::prox", "prox_05"], bounds: "all real x; alpha >= 0; step > 0", |c| l05_forward(c));
    h!(v, "P01", "prox_l05_zero", "L0.5 prox at x = 0 for every strength, 0 included", funcs: &["L05::prox", "prox_05"], bounds: "x = 0; alpha >= 0; step > 0", |c| l05_zero(c));
    h!(v, "P01", "soft_thresholding", "soft_thresholding is the documented piecewise function", funcs: &["soft_thresholding"], bounds: "all real x, t >= 0", |c| soft(c));

    h!(v, "P02", "prox_l21", "L21 prox: direction kept and radially minimal", funcs: &["L21::prox", "L21::value", "block_soft_thresholding"], bounds: "rows of 1-3 tasks; alpha >= 0; step > 0; all competitors radius r >= 0", |c| b21(c, 3));
    h!(v, "P02", "prox_bl1l2", "block L1+L2 prox: direction kept and radially minimal", funcs: &["BlockL1PlusL2::prox", "BlockL1PlusL2::value"], bounds: "rows of 1-2 tasks; alpha >= 0; ratio in [0,1]; step > 0", |c| ben(c, 2));
    h!(v, "P02", "prox_bmcp", "block MCP prox: direction kept and radially minimal", funcs: &["BlockMCP::prox", "BlockMCP::value"], bounds: "rows of 1-2 tasks; alpha >= 0; gamma > step > 0", |c| bmcp(c, 2));
    h!(v, "P02", "prox_wide", "block prox of rows of many tasks", funcs: &["L21::prox", "BlockL1PlusL2::prox", "BlockMCP::prox"], bounds: "rows of 4, 5, 7, 12 and 64 tasks on five fixed lines, at every length; alpha >= 0, step > 0, ratio in [0,1] (MCP: six triples)", |c| wide(c));
    h!(v, "P02", "prox_bl1l2_3", "block L1+L2 prox, 3 tasks", funcs: &["BlockL1PlusL2::prox"], bounds: "rows of 1-3 tasks", |c| ben(c, 3));
    h!(v, "P02", "prox_bmcp_3", "block MCP prox, 3 tasks", funcs: &["BlockMCP::prox"], bounds: "rows of 1-3 tasks", |c| bmcp(c, 3), deep: true);
    h!(v, "P02", "prox_l21_any", "L21 prox against an arbitrary competitor row", funcs: &["L21::prox"], bounds: "rows of 2 tasks on two fixed lines, at every length, against all competitor rows", |c| b21_full(c, false));
    h!(v, "P02", "prox_bl1l2_any", "block L1+L2 prox against an arbitrary competitor row", funcs: &["BlockL1PlusL2::prox"], bounds: "rows of 2 tasks on two fixed lines, at every length, against all competitor rows", |c| b21_full(c, true));
    h!(v, "P02", "block_soft_thresholding", "block_soft_thresholding is the documented function", funcs: &["block_soft_thresholding"], bounds: "rows of 1-3 tasks, threshold >= 0", |c| bst(c));
    h!(v, "P02", "zero_row", "zero rows stay zero for every strength", funcs: &["L21::prox", "BlockL1PlusL2::prox", "BlockMCP::prox"], bounds: "zero rows of 1-3 tasks; alpha >= 0 (0 included)", |c| zero_row(c));
}
