//! P08, P09, P10, P11, P12, P21: the solvers, run on recording datafits and penalties
use super::common::*;
use super::stub::*;
use crate::ctx::*;
use crate::engine::H;
use crate::h;
use ndarray::{Array1, Array2, ArrayView1, Axis};
use num_traits::Float as _;
use num_traits::{One, Zero};
use sparseglm::datasets::{AsMultiTargets, DatasetBase};
use sparseglm::solvers::anderson_bcd as bcd;
use sparseglm::solvers::anderson_cd as cd;
use sparseglm::solvers::{BCDSolver, CDSolver, Solver};

#[derive(Clone, Copy)]
struct Par {
    ws: usize,
    iters: usize,
    epochs: usize,
    k: usize,
    acc: bool,
    verb: bool,
}

/// run the real solver: single-task when `t` is None
fn drive<C: Ctx>(rec: &Rec<C>, multi: bool, p: Par) -> Array2<C::F> {
    let s = Solver::<C::F> {
        ws_start_size: p.ws,
        max_iterations: p.iters,
        max_epochs: p.epochs,
        tolerance: rec.tol,
        K: p.k,
        use_acceleration: p.acc,
        verbose: p.verb,
    };
    let m = rec.x.nrows();
    let w = if multi {
        let ds = DatasetBase::<Array2<C::F>, Array2<C::F>>::new(rec.x.clone(), Array2::from_elem((m, rec.t), one()));
        s.solve_multi_task(&ds, &mut Df(rec), &Pn(rec)).unwrap()
    } else {
        let ds = DatasetBase::<Array2<C::F>, Array1<C::F>>::new(rec.x.clone(), Array1::from_elem(m, one()));
        s.solve(&ds, &mut Df(rec), &Pn(rec)).unwrap().insert_axis(Axis(1))
    };
    rec.c.check("finite", fin_all(&w.iter().cloned().collect::<Vec<_>>()));
    w
}
fn ones<F: Num>(e: usize) -> Vec<F> {
    vec![one(); e]
}
/// a fixed design whose columns are linearly independent of each other as long as m >= e
fn plain<F: Num>(m: usize, e: usize) -> Array2<F> {
    Array2::from_shape_fn((m, e), |(i, j)| F::rat(if i == j { 2 } else { 1 + (i + 2 * j) as i64 % 3 }, 1))
}
/// ranking of the features by violation: a permutation, as constants
fn ranking<C: Ctx>(c: &C, e: usize) -> Vec<C::F> {
    let perms = selections(e, e);
    let p = perms[c.choose("ranking", perms.len())].clone();
    let mut k = vec![zero::<C::F>(); e];
    for (r, &j) in p.iter().enumerate() {
        k[j] = C::F::rat((e - r) as i64, 1);
    }
    k
}

// ------------------------------------------------------------------ P09 / P10: every update is the proximal step

fn steps<C: Ctx>(c: &C, multi: bool, m: usize, e: usize, t: usize, p: Par, zeros: bool) {
    let x = mat(c, "x", m, e);
    let mut lips = vec![];
    let mut flat = vec![];
    for j in 0..e {
        flat.push(zeros && c.choose("flat feature", 2) == 1);
        if flat[j] {
            lips.push(zero());
        } else {
            lips.push(c.pos(&format!("L{}", j)));
        }
    }
    let k = ranking(c, e);
    let rec = Rec::new(c, x, t, lips, Prox::FreshOrZero, Kkt::Fixed(k.clone()), zero());
    let w = drive(&rec, multi, p);
    rec.finish(w.view());
    // violations never reach the tolerance (zero), so every round uses its whole budget: every feature of the first
    // working set that has curvature is stepped in every pass (the first ranking is known: all weights are zero)
    let rounds = rec.rounds();
    c.check("a round is done", Cond::B(!rounds.is_empty()));
    let mut order: Vec<usize> = (0..e).collect();
    order.sort_by(|a, b| k[*b].partial_cmp(&k[*a]).unwrap());
    for r in rounds.iter().take(if p.ws >= e { p.iters } else { 1 }) {
        for &j in order.iter().take(p.ws) {
            let n = r.iter().filter(|i| **i == j).count();
            c.check("each pass steps every working-set feature that has curvature", Cond::B(n == if flat[j] { 0 } else { p.epochs }));
        }
    }
}
/// more features and rounds on a fixed design: growing working sets, any curvatures
fn steps_wide<C: Ctx>(c: &C, multi: bool, e: usize, t: usize, budgets: &[(usize, usize)]) {
    let x = fixed_mat::<C::F>(4, e, 0);
    let k: Vec<C::F> = if c.choose("ranking", 2) == 0 {
        (0..e).map(|j| C::F::rat((e - j) as i64, 1)).collect()
    } else {
        (0..e).map(|j| C::F::rat(((j * 5 + 2) % (e | 1)) as i64 + 1, 1)).collect()
    };
    let flat = [e, 0, e / 2, e - 1][c.choose("flat feature", 4)];
    let lips: Vec<C::F> = (0..e).map(|j| if j == flat { zero() } else { c.pos(&format!("L{}", j)) }).collect();
    let ws = [1, 2, e - 1, e, e + 3][c.choose("start", 5)];
    let (iters, epochs) = budgets[c.choose("budget", budgets.len())];
    let p = Par { ws, iters, epochs, k: 5, acc: false, verb: false };
    let mut rec = Rec::new(c, x, t, lips, Prox::Count, Kkt::Fixed(k.clone()), zero());
    rec.fuel = 100_000;
    let w = drive(&rec, multi, p);
    rec.finish(w.view());
    // every prox outcome is new and non-zero: the support is what was stepped; each round works on the support and
    // the worst violators, and steps each of them (but the flat one) in every pass
    let mut supp = vec![false; e];
    let mut rounds = 0;
    let mut ev: Vec<usize> = vec![];
    for r in rec.rounds() {
        ev.extend(r);
    }
    let mut at = 0;
    while rounds < p.iters {
        let n = supp.iter().filter(|b| **b).count();
        let size = ws.min(e).max((2 * n).min(e));
        let mut order: Vec<usize> = (0..e).collect();
        order.sort_by(|a, b| (supp[*b], k[*b]).partial_cmp(&(supp[*a], k[*a])).unwrap());
        let mut set: Vec<usize> = order[..size].iter().filter(|j| **j != flat).cloned().collect();
        set.sort();
        for _ in 0..p.epochs {
            let mut pass: Vec<usize> = ev[at.min(ev.len())..(at + set.len()).min(ev.len())].to_vec();
            pass.sort();
            c.check("each pass steps every working-set feature that has curvature", Cond::B(pass == set));
            at += set.len();
        }
        for j in set {
            supp[j] = true;
        }
        rounds += 1;
    }
    c.check("nothing beyond the budget", Cond::B(at == ev.len()));
}
/// with extrapolation: still every change is a proximal step or an objective-decreasing extrapolation
fn steps_acc<C: Ctx>(c: &C, multi: bool, e: usize, t: usize, k: usize, epochs: usize) {
    let x = plain(2, e);
    let mut rec = Rec::new(c, x, t, ones(e), Prox::Count, Kkt::Fixed(ranking(c, e)), zero());
    rec.free_values = true;
    let w = drive(&rec, multi, Par { ws: e, iters: 1, epochs, k, acc: true, verb: false });
    rec.finish(w.view());
    if rec.accepted.get() > 0 {
        c.cover("extrapolated");
    }
}

// ------------------------------------------------------------------ P08: early stop

fn stops<C: Ctx>(c: &C, multi: bool, e: usize, t: usize, states: usize, p: Par) {
    stops_at(c, multi, e, t, Kkt::Free(states), p)
}
fn stops_at<C: Ctx>(c: &C, multi: bool, e: usize, t: usize, kkt: Kkt<C::F>, p: Par) {
    let x = plain(2, e);
    let tol = c.pos("tol");
    let mut rec = Rec::new(c, x, t, ones(e), Prox::Count, kkt, tol);
    rec.fuel = 2000;
    rec.free_values = p.acc;
    let w = drive(&rec, multi, p);
    rec.finish(w.view());
    rec.optimal(w.view());
    if rec.full_states.borrow().len() > 1 {
        c.cover("more than one round");
    }
}

// ------------------------------------------------------------------ P19 / P23: two runs, one schedule

/// the second run (verbose, or multi-task with one task) checks, steps and returns exactly what the first one does
fn twins<C: Ctx>(c: &C, multi: (bool, bool), verb: (bool, bool), e: usize, t: usize, states: usize, p: Par) {
    let x = plain(2, e);
    let tol = c.pos("tol");
    let mut rec = Rec::new(c, x, t, ones(e), Prox::Count, Kkt::Free(states), tol);
    rec.free_values = p.acc;
    let a = drive(&rec, multi.0, Par { verb: verb.0, ..p });
    let other = rec.again();
    let b = drive(&other, multi.1, Par { verb: verb.1, ..p });
    c.check("same checks and steps, in the same order", Cond::B(*rec.ev.borrow() == *other.ev.borrow()));
    c.check("same weights", eq2(a.view(), b.view()));
    if rec.ev.borrow().contains(&Ev::Part) {
        c.cover("checks inside a round");
    }
}

// ------------------------------------------------------------------ P21: budgets

fn budget<C: Ctx>(c: &C, multi: bool, e: usize, t: usize, iters: usize, epochs: &[usize]) {
    let ws = c.choose("ws", e + 1) + 1;
    let kkt: Vec<C::F> = (0..e).map(|j| c.var_in(&format!("k{}", j), 0.0, 10.0)).collect();
    budget_at(c, multi, t, iters, epochs, ws, kkt)
}
fn budget_wide<C: Ctx>(c: &C, multi: bool, t: usize) {
    let e = 7;
    let ws = [1, 3, 7, 8][c.choose("ws", 4)];
    let f = [0, 4][c.choose("free", 2)];
    let kkt: Vec<C::F> = (0..e).map(|j| if j == f { c.var_in("k", 0.0, 10.0) } else { fixed::<C::F>(j).abs() }).collect();
    budget_at(c, multi, t, [1, 4][c.choose("many rounds", 2)], &[1, 12], ws, kkt)
}
/// long runs, and many features
fn budget_long<C: Ctx>(c: &C, multi: bool, t: usize) {
    let (e, iters, epochs, ws) = [(3, 70, 1, 1), (3, 70, 1, 4), (2, 1, 1100, 1), (3, 12, 25, 2), (100, 3, 1, 10), (100, 1, 12, 64), (33, 2, 2, 100)][c.choose("budget", 7)];
    let kkt: Vec<C::F> = (0..e).map(|j| if j == e / 2 { c.var_in("k", 0.0, 10.0) } else { C::F::rat(((j * 7 + 3) % e) as i64 + 1, 2) }).collect();
    budget_run(c, multi, t, iters, epochs, ws, kkt)
}
fn budget_at<C: Ctx>(c: &C, multi: bool, t: usize, iters: usize, epochs: &[usize], ws: usize, kkt: Vec<C::F>) {
    let iters = c.choose("iterations", iters + 1);
    let epochs = epochs[c.choose("epochs", epochs.len())];
    budget_run(c, multi, t, iters, epochs, ws, kkt)
}
fn budget_run<C: Ctx>(c: &C, multi: bool, t: usize, iters: usize, epochs: usize, ws: usize, kkt: Vec<C::F>) {
    let e = kkt.len();
    let x = plain(2, e);
    let prox = match c.choose("outcome", 3) {
        0 => Prox::Count,
        1 => Prox::Fixed(zero()),
        _ => Prox::Fixed(C::F::rat(3, 1)),
    };
    let mut rec = Rec::new(c, x, t, ones(e), prox, Kkt::Fixed(kkt.clone()), C::F::rat(1, 10));
    rec.fuel = 100_000;
    let w = drive(&rec, multi, Par { ws, iters, epochs, k: 3, acc: false, verb: false });
    rec.finish(w.view());
    let rounds = rec.rounds();
    let worked = rounds.iter().filter(|r| !r.is_empty()).count();
    // a check inside a round looks like the start of a new one; it needs more than ten passes
    c.check("at most max_iterations rounds", Cond::B(worked <= iters || epochs > 10));
    for j in 0..e {
        let n = rounds.iter().flatten().filter(|k| **k == j).count();
        c.check("at most max_iterations * max_epochs updates of a feature", Cond::B(n <= iters * epochs));
    }
    for r in &rounds {
        let mut feats: Vec<usize> = r.clone();
        feats.sort();
        feats.dedup();
        let n = feats.len();
        // every pass goes once through the working set
        for pass in r.chunks(n.max(1)) {
            let mut q = pass.to_vec();
            q.sort();
            c.check("each feature once per pass", Cond::B(q == feats));
        }
        c.check("at most max_epochs passes", Cond::B(n == 0 || r.len() / n <= epochs));
    }
    if iters == 0 || epochs == 0 {
        c.check("no budget, no weights", and(w.iter().map(|v| is0(*v)).collect()));
    }
    if worked == iters && epochs > 0 && iters > 0 {
        c.cover("budget used");
    }
}

// ------------------------------------------------------------------ P12: working sets

/// many features, fixed violations with ties, one free
fn working_set_wide<C: Ctx>(c: &C, multi: bool, t: usize) {
    working_set_of(c, multi, t, [6, 9, 20][c.choose("e", 3)])
}
fn working_set_of<C: Ctx>(c: &C, multi: bool, t: usize, e: usize) {
    let (start, n) = if e <= 20 {
        ([1, 2, 5, e - 1, e][c.choose("start", 5)], [0, 1, 3, e / 2, e / 2 + 1, e][c.choose("support", 6)])
    } else {
        ([1, 10, e][c.choose("start", 3)], [0, 7, e / 2 + 1][c.choose("support", 3)])
    };
    let mut supp = vec![false; e];
    let mut w = Array2::from_elem((e, t), zero::<C::F>());
    for i in 0..n {
        let j = (7 * i + 4) % e;
        let j = if supp[j] { (0..e).find(|k| !supp[*k]).unwrap() } else { j };
        supp[j] = true;
        w[[j, i % t]] = if i % 3 == 0 { c.var(&format!("w{}", j)) } else { fixed::<C::F>(i).abs() - q(9, 1) };
        c.assume(nz(w[[j, i % t]]));
    }
    // ties among up to twenty features, distinct violations beyond
    let mut kkt: Vec<C::F> = (0..e).map(|j| if e <= 20 || j % 3 == 0 { fixed::<C::F>(2 * j).abs() } else { C::F::rat(((j * 37 + 11) % 1009) as i64, 100) }).collect();
    let f = if e <= 20 { [0, e / 2, e - 1][c.choose("free", 3)] } else { e - 2 };
    kkt[f] = c.nonneg("k");
    let mut arg = Array1::from_vec(kkt.clone());
    let (ws, size) = if multi {
        bcd::construct_ws_from_kkt(&mut arg, w.view(), start)
    } else {
        cd::construct_ws_from_kkt(&mut arg, w.column(0), start)
    };
    judge_ws(c, &ws.to_vec(), size, &supp, &kkt, start);
}
fn working_set<C: Ctx>(c: &C, multi: bool, emin: usize, emax: usize, t: usize) {
    let e = emin + c.choose("e", emax - emin + 1);
    let start = c.choose("start", e) + 1;
    let mut supp = vec![false; e];
    let mut w = Array2::from_elem((e, t), zero::<C::F>());
    for j in 0..e {
        // which entries of the row are nonzero
        let pat = c.choose("row", 1 << t);
        for k in 0..t {
            if pat >> k & 1 == 1 {
                w[[j, k]] = c.var(&format!("w{}_{}", j, k));
                c.assume(nz(w[[j, k]]));
                supp[j] = true;
            }
        }
    }
    let kkt: Vec<C::F> = (0..e).map(|j| c.nonneg(&format!("k{}", j))).collect();
    let mut arg = Array1::from_vec(kkt.clone());
    let (ws, size) = if multi {
        bcd::construct_ws_from_kkt(&mut arg, w.view(), start)
    } else {
        cd::construct_ws_from_kkt(&mut arg, w.column(0), start)
    };
    judge_ws(c, &ws.to_vec(), size, &supp, &kkt, start);
}
fn judge_ws<C: Ctx>(c: &C, ws: &[usize], size: usize, supp: &[bool], kkt: &[C::F], start: usize) {
    let e = supp.len();
    let n = supp.iter().filter(|b| **b).count();
    c.check("size", Cond::B(ws.len() == size && size == start.max((2 * n).min(e))));
    let mut seen = vec![false; e];
    for &j in ws {
        c.check("valid feature, once", Cond::B(j < e && !seen[j]));
        seen[j] = true;
    }
    for j in 0..e {
        if supp[j] && size >= n {
            c.check("keeps the support", Cond::B(seen[j]));
        }
        for i in 0..e {
            if !seen[j] && !supp[j] && seen[i] && !supp[i] {
                c.check("keeps the worst violators", le(kkt[j], kkt[i]));
            }
        }
    }
}
/// the working sets the solver really uses
fn used_ws<C: Ctx>(c: &C, multi: bool, e: usize, t: usize) {
    let start = c.choose("start", e + 2) + 1;
    let kkt: Vec<C::F> = (0..e).map(|j| c.var_in(&format!("k{}", j), 1.0, 9.0)).collect();
    let zeros = c.choose("shrink", 2) == 1;
    let prox = if zeros { Prox::Fixed(zero()) } else { Prox::Count };
    let rec = Rec::new(c, plain(2, e), t, ones(e), prox, Kkt::Fixed(kkt.clone()), C::F::rat(1, 10));
    let w = drive(&rec, multi, Par { ws: start, iters: 3, epochs: 1, k: 3, acc: false, verb: false });
    rec.finish(w.view());
    let mut supp = vec![false; e];
    for r in rec.rounds() {
        if r.is_empty() {
            continue;
        }
        judge_ws(c, &r, r.len(), &supp, &kkt, start.min(e));
        if !zeros {
            for j in r {
                supp[j] = true;
            }
        }
    }
}

// ------------------------------------------------------------------ P11: extrapolation

/// is v an affine combination of the rows of h?  (exact, by elimination on concrete ranks is impossible
/// symbolically, so by determinants: rank [1;h] = rank [1;h,v])
fn affine<C: Ctx>(c: &C, h: &[Vec<C::F>], v: &[C::F]) {
    let n = v.len();
    // vectors relative to the first iterate
    let d: Vec<Vec<C::F>> = h[1..].iter().map(|r| (0..n).map(|i| r[i] - h[0][i]).collect()).collect();
    let z: Vec<C::F> = (0..n).map(|i| v[i] - h[0][i]).collect();
    if d.len() == 1 {
        // parallel to d, and zero when d is
        for i in 0..n {
            for k in 0..i {
                c.check("extrapolated point on the line of the iterates", eq(z[i] * d[0][k], z[k] * d[0][i]));
            }
            c.check(
                "no move along a zero difference",
                imp(and(d[0].iter().map(|a| is0(*a)).collect()), eq(z[i], zero())),
            );
        }
    } else if d.len() > 5 {
        // constants: by elimination
        let mut d = d;
        let mut z = z;
        for col in 0..n {
            let Some(p) = d.iter().position(|r| !c.same(r[col], zero())) else { continue };
            let p = d.swap_remove(p);
            for r in d.iter_mut().chain(std::iter::once(&mut z)) {
                let f = r[col] / p[col];
                for i in 0..n {
                    r[i] = r[i] - f * p[i];
                }
            }
        }
        c.check("extrapolated point in the affine span", and(z.iter().map(|v| eq(*v, zero())).collect()));
    } else if n > d.len() {
        // every minor of [d; z] of order |d|+1 vanishes
        let r = d.len() + 1;
        for cols in combos(n, r) {
            let a = Array2::from_shape_fn((r, r), |(i, j)| if i < d.len() { d[i][cols[j]] } else { z[cols[j]] });
            c.check("extrapolated point in the affine span", eq(super::linsys::det(&a), zero()));
        }
    }
}
fn combos(n: usize, k: usize) -> Vec<Vec<usize>> {
    (0..1usize << n).filter(|b| b.count_ones() as usize == k).map(|b| (0..n).filter(|i| b >> i & 1 == 1).collect()).collect()
}
struct AccIn {
    e: usize,
    k: usize,
    t: usize,
    ws: Vec<usize>,
}
fn accel<C: Ctx>(c: &C, multi: bool, i: &AccIn, free: usize) {
    let (e, k, t, ws) = (i.e, i.k, i.t, &i.ws);
    let n = ws.len();
    let x = plain::<C::F>(2, e);
    let epoch = c.choose("epoch", 2 * (k + 1));
    let row = epoch % (k + 1);
    // iterates; those not free are constants
    let mut hist = Array2::from_shape_fn((k + 1, n * t), |(a, b)| {
        if a * n * t + b >= free {
            C::F::rat(1 + if k < 6 { (3 * a * a + 5 * b * (a + 1)) % 7 } else { (5 * a * a * a + b * (7 * a + 3) + a * b * b) % 31 } as i64, 1)
        } else {
            c.var(&format!("h{}_{}", a, b))
        }
    });
    // current weights live on the working set; the history row about to be written is junk
    let mut w = Array2::from_elem((e, t), zero::<C::F>());
    for (p, &j) in ws.iter().enumerate() {
        for b in 0..t {
            w[[j, b]] = hist[[row, p * t + b]];
        }
    }
    for b in 0..n * t {
        hist[[row, b]] = C::F::rat(99, 1);
    }
    let mut fit = xw2(&x, &w);
    let (w0, f0, h0) = (w.clone(), fit.clone(), hist.clone());
    let mut rec = Rec::new(c, x.clone(), t, ones(e), Prox::Count, Kkt::Fixed(ones(e)), zero());
    rec.free_values = true;
    rec.inits.set(1);
    *rec.w.borrow_mut() = w0.clone();
    let mut u = Array2::from_elem((k, n * t), zero::<C::F>());
    let wsa = Array1::from_vec(ws.clone());
    if multi {
        let ds = DatasetBase::<Array2<C::F>, Array2<C::F>>::new(x.clone(), Array2::from_elem((2, t), one()));
        bcd::anderson_accel(&ds, &mut w, &mut fit, &Df(&rec), &Pn(&rec), wsa.view(), &mut hist, &mut u, epoch, k, false);
    } else {
        let ds = DatasetBase::<Array2<C::F>, Array1<C::F>>::new(x.clone(), Array1::from_elem(2, one()));
        let (mut w1, mut f1) = (w.column(0).to_owned(), fit.column(0).to_owned());
        cd::anderson_accel(&ds, &Df(&rec), &Pn(&rec), &mut hist, &mut u, &mut w1, &mut f1, wsa.view(), epoch, k, false);
        w = w1.insert_axis(Axis(1));
        fit = f1.insert_axis(Axis(1));
    }
    // the iterate is stored in its row and nothing else of the history changes
    for a in 0..k + 1 {
        for (p, &j) in ws.iter().enumerate() {
            for b in 0..t {
                let ex = if a == row { w0[[j, b]] } else { h0[[a, p * t + b]] };
                c.check("history holds the iterates", eq(hist[[a, p * t + b]], ex));
            }
        }
    }
    c.check("shapes", Cond::B(w.dim() == (e, t) && fit.dim() == f0.dim()));
    let unchanged = same_all(c, &w.iter().cloned().collect::<Vec<_>>(), &w0.iter().cloned().collect::<Vec<_>>());
    if unchanged {
        c.cover("kept");
        c.check("fit kept with the weights", eq2(fit.view(), f0.view()));
        return;
    }
    c.cover("extrapolated");
    c.check("only when the history is complete", Cond::B(row == k));
    for j in 0..e {
        if !ws.contains(&j) {
            c.check("nothing outside the working set", and((0..t).map(|b| is0(w[[j, b]])).collect()));
        }
    }
    c.check("finite", fin_all(&w.iter().cloned().collect::<Vec<_>>()));
    c.check("fit follows the weights", eq2(fit.view(), xw2(&x, &w).view()));
    rec.settle(w.view());
    c.check("strictly lower objective", Cond::B(rec.accepted.get() == 1));
    let rows: Vec<Vec<C::F>> = hist.rows().into_iter().map(|r| r.to_vec()).collect();
    let v: Vec<C::F> = ws.iter().flat_map(|&j| w.row(j).to_vec()).collect();
    affine(c, &rows, &v);
}
fn accel_c<C: Ctx>(c: &C, multi: bool, e: usize, k: usize, t: usize, n: usize, free: usize) {
    let sel = selections(e, n);
    let ws = sel[c.choose("ws", sel.len())].clone();
    accel(c, multi, &AccIn { e, k, t, ws }, free);
}

const FC: &[&str] = &["coordinate_descent", "Solver::solve", "anderson_cd::{opt_cond_violation, construct_grad, construct_ws_from_kkt}", "DesignMatrix::update_model_fit"];
const FB: &[&str] = &["block_coordinate_descent", "Solver::solve_multi_task", "anderson_bcd::{opt_cond_violation, construct_grad, construct_ws_from_kkt}", "DesignMatrix::update_model_fit_multi_task"];
const FA: &[&str] = &["anderson_cd::anderson_accel", "solve_lin_sys", "DesignMatrix::compute_extrapolated_fit"];
const FAB: &[&str] = &["anderson_bcd::anderson_accel", "solve_lin_sys", "DesignMatrix::compute_extrapolated_fit_multi_task"];

pub fn register(v: &mut Vec<H>) {
    h!(v, "P09", "steps_22", "every weight change of the single-task solver is the proximal step", funcs: FC, bounds: "2 features, 1 sample, 1 round of 2 passes; any datafit, penalty, curvatures, design", |c| steps(c, false, 1, 2, 1, Par { ws: 2, iters: 1, epochs: 2, k: 5, acc: false, verb: false }, true));
    h!(v, "P09", "rounds", "across rounds with a growing working set", funcs: FC, bounds: "2 features, 1 sample, 3 rounds of 1 pass, start size 1", |c| steps(c, false, 1, 2, 1, Par { ws: 1, iters: 3, epochs: 1, k: 5, acc: false, verb: false }, false));
    h!(v, "P09", "features_3", "three features", funcs: FC, bounds: "3 features, 1 sample, 1 round of 1 pass", |c| steps(c, false, 1, 3, 1, Par { ws: 2, iters: 1, epochs: 1, k: 5, acc: false, verb: false }, true));
    h!(v, "P09", "extrapolating", "with extrapolation", funcs: FC, bounds: "2 features, K = 1..2, up to 7 passes, any objective values", |c| { let k = c.choose("K", 2) + 1; steps_acc(c, false, 2, 1, k, 7) }, need: &["extrapolated"]);
    h!(v, "P09", "wide", "six features, growing working sets", funcs: FC, bounds: "fixed 4x6 design, 4 rounds of 1, 3 or 12 passes, start 1..9, any curvatures, at most one of them zero", |c| steps_wide(c, false, 6, 1, &[(4, 1), (4, 3), (4, 12)]));
    h!(v, "P10", "wide", "six features, growing working sets", funcs: FB, bounds: "fixed 4x6 design, 3 tasks, 4 rounds of 1, 3 or 12 passes, start 1..9, any curvatures, at most one of them zero", |c| steps_wide(c, true, 6, 3, &[(4, 1), (4, 3), (4, 12)]));
    h!(v, "P10", "steps_22", "every row change of the multi-task solver is the proximal step", funcs: FB, bounds: "2 features, 1 sample, 2 tasks, 1 round of 2 passes; any datafit, penalty, curvatures, design", |c| steps(c, true, 1, 2, 2, Par { ws: 2, iters: 1, epochs: 2, k: 5, acc: false, verb: false }, true));
    h!(v, "P10", "rounds", "across rounds with a growing working set", funcs: FB, bounds: "2 features, 1 sample, 2 tasks, 3 rounds of 1 pass, start size 1", |c| steps(c, true, 1, 2, 2, Par { ws: 1, iters: 3, epochs: 1, k: 5, acc: false, verb: false }, false));
    h!(v, "P10", "features_3", "three features", funcs: FB, bounds: "3 features, 1 sample, 1 task, 1 round of 1 pass", |c| steps(c, true, 1, 3, 1, Par { ws: 2, iters: 1, epochs: 1, k: 5, acc: false, verb: false }, true));
    h!(v, "P10", "extrapolating", "with extrapolation", funcs: FB, bounds: "2 features, 2 tasks, K = 1..2, up to 7 passes, any objective values", |c| { let k = c.choose("K", 2) + 1; steps_acc(c, true, 2, 2, k, 7) }, need: &["extrapolated"]);

    h!(v, "P08", "cd_wide", "six features", funcs: FC, bounds: "6 features, violations of the first 4 states fixed but one, any tolerance; 1, 12 or 32 passes, start 1, 2 or 5", |c| { let (ws, k) = ([1, 2, 5][c.choose("ws", 3)], c.choose("epochs", 3)); stops_at(c, false, 6, 1, Kkt::Some(4), Par { ws, iters: 1 << 40, epochs: [1, 12, 32][k], k: 5, acc: false, verb: false }) }, need: &["more than one round"]);
    h!(v, "P08", "bcd_wide", "six features, multi-task", funcs: FB, bounds: "6 features, 3 tasks, violations of the first 4 states fixed but one, any tolerance; 1, 12 or 32 passes, start 1, 2 or 5", |c| { let (ws, k) = ([1, 2, 5][c.choose("ws", 3)], c.choose("epochs", 3)); stops_at(c, true, 6, 3, Kkt::Some(4), Par { ws, iters: 1 << 40, epochs: [1, 12, 32][k], k: 5, acc: false, verb: false }) }, need: &["more than one round"]);
    h!(v, "P08", "cd_short", "unlimited rounds of one pass", funcs: FC, bounds: "2 features, violations free for 3 states, working-set start 1..2", |c| { let ws = c.choose("ws", 2) + 1; stops(c, false, 2, 1, 3, Par { ws, iters: 1 << 40, epochs: 1, k: 5, acc: false, verb: false }) }, need: &["more than one round"]);
    h!(v, "P08", "cd_inner", "with the inner optimality check", funcs: FC, bounds: "2 features, violations free for 5 states, 21 passes", |c| { let ws = c.choose("ws", 2) + 1; stops(c, false, 2, 1, 5, Par { ws, iters: 1 << 40, epochs: 21, k: 5, acc: false, verb: false }) }, need: &["more than one round"]);
    h!(v, "P08", "cd_three", "three features", funcs: FC, bounds: "3 features, violations free for 2 states, start 1..3", |c| { let ws = c.choose("ws", 3) + 1; stops(c, false, 3, 1, 2, Par { ws, iters: 1 << 40, epochs: 11, k: 5, acc: false, verb: false }) });
    h!(v, "P08", "cd_acc", "with extrapolation", funcs: FC, bounds: "2 features, violations free for 2 states, 11 passes, K = 2", |c| { let ws = c.choose("ws", 2) + 1; stops(c, false, 2, 1, 2, Par { ws, iters: 1 << 40, epochs: 4, k: 2, acc: true, verb: false }) });
    h!(v, "P08", "bcd_short", "unlimited rounds of one pass, multi-task", funcs: FB, bounds: "2 features, 2 tasks, violations free for 3 states, start 1..2", |c| { let ws = c.choose("ws", 2) + 1; stops(c, true, 2, 2, 3, Par { ws, iters: 1 << 40, epochs: 1, k: 5, acc: false, verb: false }) }, need: &["more than one round"]);
    h!(v, "P08", "bcd_inner", "with the inner optimality check, multi-task", funcs: FB, bounds: "2 features, 1 task, violations free for 5 states, 21 passes", |c| { let ws = c.choose("ws", 2) + 1; stops(c, true, 2, 1, 5, Par { ws, iters: 1 << 40, epochs: 21, k: 5, acc: false, verb: false }) }, need: &["more than one round"]);
    h!(v, "P08", "bcd_three", "three features, multi-task", funcs: FB, bounds: "3 features, violations free for 2 states, start 1..3", |c| { let ws = c.choose("ws", 3) + 1; stops(c, true, 3, 1, 2, Par { ws, iters: 1 << 40, epochs: 11, k: 5, acc: false, verb: false }) });
    h!(v, "P08", "bcd_acc", "with extrapolation, multi-task", funcs: FB, bounds: "2 features, violations free for 2 states, K = 2", |c| { let ws = c.choose("ws", 2) + 1; stops(c, true, 2, 1, 2, Par { ws, iters: 1 << 40, epochs: 4, k: 2, acc: true, verb: false }) });

    h!(v, "P21", "cd", "budgets, single-task", funcs: FC, bounds: "2 features, 0..3 rounds, 0..3, 11 or 12 passes, start 1..3, any violations", |c| budget(c, false, 2, 1, 3, &[0, 1, 2, 3, 11, 12]), need: &["budget used"]);
    h!(v, "P21", "bcd", "budgets, multi-task", funcs: FB, bounds: "2 features, 0..3 rounds, 0..3, 11 or 12 passes, start 1..3, any violations", |c| budget(c, true, 2, 2, 3, &[0, 1, 2, 3, 11, 12]), need: &["budget used"]);
    h!(v, "P21", "cd_3", "budgets, single-task, 3 features", funcs: FC, bounds: "3 features, 0..2 rounds, 0..2 or 11 passes, start 1..4", |c| budget(c, false, 3, 1, 2, &[0, 1, 2, 11]));
    h!(v, "P21", "cd_wide", "budgets, single-task, 7 features", funcs: FC, bounds: "7 features, one free violation, 0..4 rounds, 1 or 12 passes, start 1, 3, 7, 8", |c| budget_wide(c, false, 1), need: &["budget used"]);
    h!(v, "P21", "bcd_wide", "budgets, multi-task, 7 features", funcs: FB, bounds: "7 features, 3 tasks, one free violation, 0..4 rounds, 1 or 12 passes, start 1, 3, 7, 8", |c| budget_wide(c, true, 3), need: &["budget used"]);
    h!(v, "P21", "bcd_3", "budgets, multi-task, 3 features", funcs: FB, bounds: "3 features, 0..2 rounds, 0..2 or 11 passes, start 1..4", |c| budget(c, true, 3, 1, 2, &[0, 1, 2, 11]));

    h!(v, "P19", "schedule", "one task: the multi-task solver checks, steps and stops exactly as the single-task one", funcs: &["coordinate_descent", "block_coordinate_descent", "anderson_cd::opt_cond_violation", "anderson_bcd::opt_cond_violation"], bounds: "2 features, violations free for 4 states, 2 rounds of 1, 12 or 22 passes, start 1..2", |c| { let (ws, k) = (c.choose("ws", 2) + 1, c.choose("epochs", 3)); twins(c, (false, true), (false, false), 2, 1, 4, Par { ws, iters: 2, epochs: [1, 12, 22][k], k: 5, acc: false, verb: false }) }, need: &["checks inside a round"]);
    h!(v, "P19", "schedule_acc", "same with extrapolation", funcs: &["coordinate_descent", "block_coordinate_descent", "anderson_cd::anderson_accel", "anderson_bcd::anderson_accel"], bounds: "2 features, violations free for 2 states, 1 round of 4 passes, K = 1..2, any objective values", |c| { let (ws, k) = (c.choose("ws", 2) + 1, c.choose("K", 2) + 1); twins(c, (false, true), (false, false), 2, 1, 2, Par { ws, iters: 1, epochs: 4, k, acc: true, verb: false }) });
    h!(v, "P23", "verbose_schedule", "verbose: the solver checks, steps and stops exactly as the quiet one", funcs: FC, bounds: "2 features, violations free for 4 states, 2 rounds of 1, 12 or 22 passes, start 1..2", |c| { let (ws, k) = (c.choose("ws", 2) + 1, c.choose("epochs", 3)); twins(c, (false, false), (false, true), 2, 1, 4, Par { ws, iters: 2, epochs: [1, 12, 22][k], k: 5, acc: false, verb: false }) }, need: &["checks inside a round"]);
    h!(v, "P23", "verbose_schedule_multi", "same, multi-task", funcs: FB, bounds: "2 features, 2 tasks, violations free for 4 states, 2 rounds of 1, 12 or 22 passes, start 1..2", |c| { let (ws, k) = (c.choose("ws", 2) + 1, c.choose("epochs", 3)); twins(c, (true, true), (false, true), 2, 2, 4, Par { ws, iters: 2, epochs: [1, 12, 22][k], k: 5, acc: false, verb: false }) }, need: &["checks inside a round"]);
    h!(v, "P23", "verbose_schedule_acc", "same with extrapolation", funcs: FC, bounds: "2 features, 1 round of 4 passes, K = 1..2, any objective values", |c| { let (ws, k, m) = (c.choose("ws", 2) + 1, c.choose("K", 2) + 1, c.choose("multi", 2) == 1); twins(c, (m, m), (false, true), 2, 1, 2, Par { ws, iters: 1, epochs: 4, k, acc: true, verb: false }) });

    h!(v, "P12", "cd", "working-set construction, single-task", funcs: &["anderson_cd::construct_ws_from_kkt", "argsort_by"], bounds: "1..3 features, every support, start size, violations", |c| working_set(c, false, 1, 3, 1));
    h!(v, "P12", "bcd", "working-set construction, multi-task", funcs: &["anderson_bcd::construct_ws_from_kkt", "argsort_by"], bounds: "1..3 features, 2 tasks, every support, start size, violations", |c| working_set(c, true, 1, 3, 2));
    h!(v, "P12", "cd_4", "working-set construction, 4 features", funcs: &["anderson_cd::construct_ws_from_kkt", "argsort_by"], bounds: "4 features", |c| working_set(c, false, 4, 4, 1));
    h!(v, "P12", "bcd_4", "working-set construction, 4 features", funcs: &["anderson_bcd::construct_ws_from_kkt", "argsort_by"], bounds: "4 features, 1 task", |c| working_set(c, true, 4, 4, 1));
    h!(v, "P12", "cd_5", "working-set construction, 5 features", funcs: &["anderson_cd::construct_ws_from_kkt", "argsort_by"], bounds: "5 features", |c| working_set(c, false, 5, 5, 1));
    h!(v, "P12", "bcd_5", "working-set construction, 5 features", funcs: &["anderson_bcd::construct_ws_from_kkt", "argsort_by"], bounds: "5 features, 1 task", |c| working_set(c, true, 5, 5, 1));
    h!(v, "P12", "cd_wide", "working-set construction, many features", funcs: &["anderson_cd::construct_ws_from_kkt", "argsort_by"], bounds: "6, 9 or 20 features, supports of 0 to all of them, start 1 to all, violations fixed (ties included) but one", |c| working_set_wide(c, false, 1));
    h!(v, "P12", "bcd_wide", "working-set construction, many features", funcs: &["anderson_bcd::construct_ws_from_kkt", "argsort_by"], bounds: "6, 9 or 20 features x 4 tasks, supports of 0 to all of them, start 1 to all, violations fixed (ties included) but one", |c| working_set_wide(c, true, 4));
    h!(v, "P12", "cd_used", "working sets used by the single-task solver", funcs: FC, bounds: "3 features, 3 rounds, start 1..5", |c| used_ws(c, false, 3, 1));
    h!(v, "P12", "bcd_used", "working sets used by the multi-task solver", funcs: FB, bounds: "3 features, 3 rounds, start 1..5", |c| used_ws(c, true, 3, 1));

    h!(v, "P11", "cd_k1", "one stored difference", funcs: FA, bounds: "3 features, working sets of 1..3, K = 1, any iterates, every epoch phase", |c| { let n = c.choose("n", 3) + 1; accel_c(c, false, 3, 1, 1, n, 99) }, need: &["extrapolated", "kept"]);
    h!(v, "P11", "cd_k2", "two stored differences", funcs: FA, bounds: "3 features, working sets of 1..2, K = 2", |c| { let n = c.choose("n", 2) + 1; accel_c(c, false, 3, 2, 1, n, 99) }, need: &["extrapolated", "kept"]);
    h!(v, "P11", "cd_k2_3", "two stored differences, three features", funcs: FA, bounds: "3 features, working set of 3, K = 2, first iterate free", |c| accel_c(c, false, 3, 2, 1, 3, 3), need: &["extrapolated", "kept"]);
    h!(v, "P11", "cd_k3", "three stored differences", funcs: FA, bounds: "3 features, working sets of 1..3, K = 3, first entry free", |c| { let n = c.choose("n", 3) + 1; accel_c(c, false, 3, 3, 1, n, 1) }, need: &["extrapolated", "kept"]);
    h!(v, "P11", "cd_k5", "the default depth", funcs: FA, bounds: "6 features, working sets of 4 and 6 in scattered order, K = 4, 5; fixed iterates, any objective values", |c| { let (k, n) = (4 + c.choose("K", 2), [4, 6][c.choose("n", 2)]); let ws = (0..n).map(|i| (5 * i + 2) % 6).collect(); accel(c, false, &AccIn { e: 6, k, t: 1, ws }, 0) }, need: &["kept", "extrapolated"]);
    h!(v, "P11", "bcd_k5", "the default depth, multi-task", funcs: FAB, bounds: "4 features, 3 tasks, working sets of 2 and 3 in scattered order, K = 4, 5; fixed iterates, any objective values", |c| { let (k, n) = (4 + c.choose("K", 2), [2, 3][c.choose("n", 2)]); let ws = (0..n).map(|i| (3 * i + 2) % 4).collect(); accel(c, true, &AccIn { e: 4, k, t: 3, ws }, 0) }, need: &["kept", "extrapolated"]);
    h!(v, "P11", "bcd_k1", "one stored difference, multi-task", funcs: FAB, bounds: "2 features, 2 tasks, working sets of 1..2, K = 1", |c| { let n = c.choose("n", 2) + 1; accel_c(c, true, 2, 1, 2, n, 99) }, need: &["extrapolated", "kept"]);
    h!(v, "P11", "bcd_k2", "two stored differences, multi-task", funcs: FAB, bounds: "2 features, 2 tasks, working sets of 1..2, K = 2, first iterate free", |c| { let n = c.choose("n", 2) + 1; accel_c(c, true, 2, 2, 2, n, n * 2) }, need: &["extrapolated", "kept"]);
    h!(v, "P11", "bcd_k3", "three stored differences, multi-task", funcs: FAB, bounds: "2 features, 2 tasks, working sets of 1..2, K = 3, first entry free", |c| { let n = c.choose("n", 2) + 1; accel_c(c, true, 2, 3, 2, n, 1) }, need: &["extrapolated", "kept"]);
    h!(v, "P12", "cd_many", "working-set construction, very many features", funcs: &["anderson_cd::construct_ws_from_kkt", "argsort_by"], bounds: "64 or 130 features, supports of 0, 7 or more than half of them, start 1, 10, all, violations fixed but one", |c| working_set_of(c, false, 1, [64, 130][c.choose("e", 2)]));
    h!(v, "P12", "bcd_many", "working-set construction, very many features", funcs: &["anderson_bcd::construct_ws_from_kkt", "argsort_by"], bounds: "64 or 130 features x 3 tasks, supports of 0, 7 or more than half of them, start 1, 10, all, violations fixed but one", |c| working_set_of(c, true, 3, [64, 130][c.choose("e", 2)]));
    h!(v, "P21", "cd_long", "long runs, many features", funcs: FC, bounds: "2 or 3 features: 70 rounds of 1 pass, 1 round of 1100, 12 of 25; 33 or 100 features: 1 to 3 rounds; violations fixed but one", |c| budget_long(c, false, 1), need: &["budget used"]);
    h!(v, "P21", "bcd_long", "long runs, many features, multi-task", funcs: FB, bounds: "2 or 3 features: 70 rounds of 1 pass, 1 round of 1100, 12 of 25; 33 or 100 features: 1 to 3 rounds; 2 tasks; violations fixed but one", |c| budget_long(c, true, 2), need: &["budget used"]);
    h!(v, "P09", "many", "many features", funcs: FC, bounds: "fixed 4x40 design, 3 rounds of 1 or 2 passes, start 1..43, any curvatures, at most one of them zero", |c| steps_wide(c, false, 40, 1, &[(3, 1), (2, 2)]));
    h!(v, "P09", "long", "long runs", funcs: FC, bounds: "fixed 4x3 design, 60 rounds of 1 pass, 2 of 130, start 1..6, any curvatures, at most one of them zero", |c| steps_wide(c, false, 3, 1, &[(60, 1), (2, 130)]));
    h!(v, "P10", "many", "many features", funcs: FB, bounds: "fixed 4x40 design, 2 tasks, 3 rounds of 1 or 2 passes, start 1..43, any curvatures, at most one of them zero", |c| steps_wide(c, true, 40, 2, &[(3, 1), (2, 2)]));
    h!(v, "P10", "long", "long runs", funcs: FB, bounds: "fixed 4x3 design, 2 tasks, 60 rounds of 1 pass, 2 of 130, start 1..6, any curvatures, at most one of them zero", |c| steps_wide(c, true, 3, 2, &[(60, 1), (2, 130)]));
    h!(v, "P08", "cd_long", "long runs", funcs: FC, bounds: "3 features, violations of the first 40 states fixed but one value, any tolerance; 1 pass, start 1 or 3", |c| { let (ws, at) = ([1, 3][c.choose("ws", 2)], [0, 3, 17, 39][c.choose("at", 4)]); stops_at(c, false, 3, 1, Kkt::One(40, at), Par { ws, iters: 1 << 40, epochs: 1, k: 5, acc: false, verb: false }) }, need: &["more than one round"]);
    h!(v, "P08", "bcd_long", "long runs, multi-task", funcs: FB, bounds: "3 features, 2 tasks, violations of the first 40 states fixed but one value, any tolerance; 1 pass, start 1 or 3", |c| { let (ws, at) = ([1, 3][c.choose("ws", 2)], [0, 3, 17, 39][c.choose("at", 4)]); stops_at(c, true, 3, 2, Kkt::One(40, at), Par { ws, iters: 1 << 40, epochs: 1, k: 5, acc: false, verb: false }) }, need: &["more than one round"]);
    h!(v, "P11", "cd_k10", "a great depth", funcs: FA, bounds: "14 features, working set of 12 in scattered order, K = 8, 10; fixed iterates, any objective values", |c| { let k = [8, 10][c.choose("K", 2)]; let ws = (0..12).map(|i| (5 * i + 2) % 14).collect(); accel(c, false, &AccIn { e: 14, k, t: 1, ws }, 0) }, need: &["kept", "extrapolated"]);
    h!(v, "P11", "bcd_k10", "a great depth, multi-task", funcs: FAB, bounds: "8 features, 3 tasks, working set of 5 in scattered order, K = 8, 10; fixed iterates, any objective values", |c| { let k = [8, 10][c.choose("K", 2)]; let ws = (0..5).map(|i| (3 * i + 2) % 8).collect(); accel(c, true, &AccIn { e: 8, k, t: 3, ws }, 0) }, need: &["kept", "extrapolated"]);
}
