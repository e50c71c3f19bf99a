//! P06: datafits.  P07: storage independence.  P22: datasets and targets
use super::common::*;
use crate::ctx::*;
use crate::engine::H;
use crate::h;
use ndarray::{s, Array1, Array2, ArrayView1, ArrayView2, Axis};
use num_traits::Float as _;
use num_traits::One;
use sparseglm::datafits::multi_task::*;
use sparseglm::datafits::single_task::*;
use sparseglm::datasets::csc_array::CSCArray;
use sparseglm::datasets::*;
use sparseglm::utils::helpers::*;

fn a1<F: Num>(v: &[F]) -> Array1<F> {
    Array1::from_vec(v.to_vec())
}
fn n_of<F: Num>(m: usize) -> F {
    F::rat(m as i64, 1)
}

// ------------------------------------------------------------------ P06

/// quadratic loss, generic over the storage
fn quad<C: Ctx, DM: DesignMatrix<Elem = C::F>>(c: &C, dm: DM, x: &Array2<C::F>, m: usize, e: usize)
where
    Quadratic<C::F>: Datafit<C::F, DM, Array1<C::F>>,
{
    quad_at(c, dm, x, vecv(c, "y", m), vecv(c, "w", e))
}
fn quad_at<C: Ctx, DM: DesignMatrix<Elem = C::F>>(c: &C, dm: DM, x: &Array2<C::F>, y: Array1<C::F>, w: Array1<C::F>)
where
    Quadratic<C::F>: Datafit<C::F, DM, Array1<C::F>>,
{
    let (m, e) = x.dim();
    let ds = DatasetBase::<DM, Array1<C::F>>::new(dm, y.clone());
    let mut df = Quadratic::new();
    df.initialize(&ds);
    let f = xw(x, &w.to_vec());
    let fit = a1(&f);
    let n: C::F = n_of(m);
    let r: Vec<C::F> = (0..m).map(|i| y[i] - f[i]).collect();
    c.check("value", eq(df.value(&ds, fit.view()), dot(&r, &r) / (n + n)));
    let g = df.full_grad(&ds, fit.view());
    let l = df.step_size().to_owned();
    c.check("shapes", Cond::B(g.len() == e && l.len() == e));
    let h = c.var("h");
    for j in 0..e {
        let xj = x.column(j).to_vec();
        let gj = df.gradient_j(&ds, fit.view(), j);
        c.check("full_grad stacks gradient_j", eq(g[j], gj));
        c.check("step size is |X_j|^2/n", eq(l[j], dot(&xj, &xj) / n));
        // value(w + h e_j) = value(w) + h g_j + h^2 L_j / 2 for all h: exact gradient and curvature
        let moved: Vec<C::F> = (0..m).map(|i| f[i] + h * xj[i]).collect();
        c.check(
            "Taylor identity",
            eq(df.value(&ds, a1(&moved).view()), df.value(&ds, fit.view()) + h * gj + h * h * l[j] / q(2, 1)),
        );
        let at = |t: C::F| a1(&(0..m).map(|i| f[i] + t * xj[i]).collect::<Vec<_>>());
        let d = c.deriv(&|t| df.value(&ds, at(t).view()), h);
        c.check("derivative", eq(d, df.gradient_j(&ds, at(h).view(), j)));
    }
}
fn quad_dense<C: Ctx>(c: &C) {
    let (m, e) = (c.choose("m", 3) + 1, c.choose("e", 3) + 1);
    let x = mat(c, "x", m, e);
    quad(c, x.clone(), &x, m, e);
}
fn quad_sparse<C: Ctx>(c: &C, m: usize, e: usize) {
    let pat = c.choose("pattern", 1 << (m * e));
    let rev = c.choose("reversed rows", 2) == 1;
    let x = mat_pat(c, "x", m, e, pat);
    let s = Csc::new(&x, pat, rev);
    quad(c, s.view(), &x, m, e);
}
fn quad_mt<C: Ctx, DM: DesignMatrix<Elem = C::F>>(c: &C, dm: DM, x: &Array2<C::F>, m: usize, e: usize, t: usize)
where
    QuadraticMultiTask<C::F>: MultiTaskDatafit<C::F, DM, Array2<C::F>>,
{
    quad_mt_at(c, dm, x, mat(c, "y", m, t), mat(c, "w", e, t), vecv(c, "h", t))
}
fn quad_mt_at<C: Ctx, DM: DesignMatrix<Elem = C::F>>(c: &C, dm: DM, x: &Array2<C::F>, y: Array2<C::F>, w: Array2<C::F>, h: Array1<C::F>)
where
    QuadraticMultiTask<C::F>: MultiTaskDatafit<C::F, DM, Array2<C::F>>,
{
    let (m, e, t) = (x.nrows(), x.ncols(), y.ncols());
    let ds = DatasetBase::<DM, Array2<C::F>>::new(dm, y.clone());
    let mut df = QuadraticMultiTask::new();
    df.initialize(&ds);
    let fit = xw2(x, &w);
    let n: C::F = n_of(m);
    let mut ss = zero::<C::F>();
    for i in 0..m {
        for k in 0..t {
            ss = ss + sq(y[[i, k]] - fit[[i, k]]);
        }
    }
    c.check("value", eq(df.value(&ds, fit.view()), ss / (n + n)));
    let g = df.full_grad(&ds, fit.view());
    let l = df.step_size().to_owned();
    c.check("shapes", Cond::B(g.dim() == (e, t) && l.len() == e));
    for j in 0..e {
        let xj = x.column(j).to_vec();
        let gj = df.gradient_j(&ds, fit.view(), j);
        c.check("length of gradient_j", Cond::B(gj.len() == t));
        c.check("full_grad stacks gradient_j", eq1(g.row(j), gj.view()));
        c.check("step size is |X_j|^2/n", eq(l[j], dot(&xj, &xj) / n));
        let moved = Array2::from_shape_fn((m, t), |(i, k)| fit[[i, k]] + h[k] * xj[i]);
        let hs = h.to_vec();
        c.check(
            "Taylor identity",
            eq(df.value(&ds, moved.view()), df.value(&ds, fit.view()) + dot(&hs, &gj.to_vec()) + dot(&hs, &hs) * l[j] / q(2, 1)),
        );
    }
}
fn quad_mt_dense<C: Ctx>(c: &C) {
    let (m, e, t) = (c.choose("m", 3) + 1, c.choose("e", 3) + 1, c.choose("t", 3) + 1);
    let x = mat(c, "x", m, e);
    quad_mt(c, x.clone(), &x, m, e, t);
}
fn quad_mt_sparse<C: Ctx>(c: &C, m: usize, e: usize, t: usize) {
    let pat = c.choose("pattern", 1 << (m * e));
    let rev = c.choose("reversed rows", 2) == 1;
    let x = mat_pat(c, "x", m, e, pat);
    let s = Csc::new(&x, pat, rev);
    quad_mt(c, s.view(), &x, m, e, t);
}
/// logistic loss: value, exact gradient (derivative of the real value), curvature bound
fn logi<C: Ctx, DM: DesignMatrix<Elem = C::F>>(c: &C, dm: DM, x: &Array2<C::F>, m: usize, e: usize, curv: bool)
where
    Logistic<C::F>: Datafit<C::F, DM, Array1<C::F>>,
{
    let y = if curv {
        Array1::from_vec((0..m).map(|_| if c.choose("label", 2) == 0 { one() } else { -one::<C::F>() }).collect())
    } else {
        Array1::from_vec((0..m).map(|i| c.var_in(&format!("y{}", i), -4.0, 4.0)).collect())
    };
    let ds = DatasetBase::<DM, Array1<C::F>>::new(dm, y.clone());
    let mut df = Logistic::new();
    df.initialize(&ds);
    let n: C::F = n_of(m);
    let l = df.step_size().to_owned();
    c.check("shapes", Cond::B(l.len() == e));
    let f: Vec<C::F> = (0..m).map(|i| c.var_in(&format!("f{}", i), -4.0, 4.0)).collect();
    let fit = a1(&f);
    let g = df.full_grad(&ds, fit.view());
    c.check("shapes", Cond::B(g.len() == e));
    let mut v = zero::<C::F>();
    for i in 0..m {
        v = v + (C::F::one() + (-y[i] * f[i]).exp()).ln();
    }
    c.check("value", eq(df.value(&ds, fit.view()), v / n));
    let t = c.var_in("t", -1.0, 1.0);
    for j in 0..e {
        let xj = x.column(j).to_vec();
        c.check("step size is |X_j|^2/(4n)", eq(l[j], dot(&xj, &xj) / (n * q(4, 1))));
        let gj = df.gradient_j(&ds, fit.view(), j);
        c.check("full_grad stacks gradient_j", eq(g[j], gj));
        if !curv {
            // gradient at f + t X_j is the derivative along X_j of the value
            let at = |t: C::F| a1(&(0..m).map(|i| f[i] + t * xj[i]).collect::<Vec<_>>());
            let d = c.deriv(&|t| df.value(&ds, at(t).view()), t);
            c.check("derivative", eq(d, df.gradient_j(&ds, at(t).view(), j)));
        } else {
            let d2 = c.deriv(&|t| {
                let at = a1(&(0..m).map(|i| f[i] + t * xj[i]).collect::<Vec<_>>());
                df.gradient_j(&ds, at.view(), j)
            }, t);
            c.check("convex", ge(d2, zero()));
            c.check("curvature bounded by the step size", le(d2, l[j]));
        }
    }
}
fn logi_dense<C: Ctx>(c: &C, mm: usize, em: usize, curv: bool) {
    let (m, e) = (c.choose("m", mm) + 1, c.choose("e", em) + 1);
    let x = mat(c, "x", m, e);
    logi(c, x.clone(), &x, m, e, curv);
}
fn logi_sparse<C: Ctx>(c: &C, m: usize, e: usize) {
    let pat = c.choose("pattern", 1 << (m * e));
    let x = mat_pat(c, "x", m, e, pat);
    let s = Csc::new(&x, pat, c.choose("reversed rows", 2) == 1);
    logi(c, s.view(), &x, m, e, false);
}
fn sig<C: Ctx>(c: &C) {
    let x = c.var_in("x", -8.0, 8.0);
    let s = sigmoid(x);
    c.check("0 < sigmoid < 1", and(vec![gt(s, zero()), lt(s, one())]));
    c.check("symmetry", eq(s + sigmoid(-x), one()));
    c.check("definition", eq(s * (C::F::one() + (-x).exp()), one()));
    let d = c.deriv(&|t| sigmoid(t), x);
    c.check("derivative", eq(d, s * (C::F::one() - s)));
}

// ------------------------------------------------------------------ P07

/// everything the single-task solver asks from a design, as one vector
fn profile1<C: Ctx, DM: DesignMatrix<Elem = C::F>, T: AsSingleTargets<Elem = C::F>>(
    ds: &DatasetBase<DM, T>,
    fit: &Array1<C::F>,
    logistic: bool,
    d: C::F,
    wacc: &Array1<C::F>,
    ws: &[usize],
) -> Vec<C::F>
where
    Quadratic<C::F>: Datafit<C::F, DM, T>,
    Logistic<C::F>: Datafit<C::F, DM, T>,
{
    let mut out = vec![];
    let e = ds.design_matrix().n_features();
    let m = ds.targets().n_samples();
    out.push(n_of(e));
    if logistic {
        let mut df = Logistic::new();
        df.initialize(ds);
        out.push(df.value(ds, fit.view()));
        out.extend(df.full_grad(ds, fit.view()));
        out.extend(df.step_size().iter());
        for j in 0..e {
            out.push(df.gradient_j(ds, fit.view(), j));
        }
    } else {
        let mut df = Quadratic::new();
        df.initialize(ds);
        out.push(df.value(ds, fit.view()));
        out.extend(df.full_grad(ds, fit.view()));
        out.extend(df.step_size().iter());
        for j in 0..e {
            out.push(df.gradient_j(ds, fit.view(), j));
            let mut f = fit.clone();
            ds.design_matrix().update_model_fit(&mut f, d, j);
            out.extend(f);
        }
        out.extend(ds.design_matrix().compute_extrapolated_fit(ArrayView1::from(ws), wacc, m));
    }
    out
}
fn profile2<C: Ctx, DM: DesignMatrix<Elem = C::F>, T: AsMultiTargets<Elem = C::F>>(
    ds: &DatasetBase<DM, T>,
    fit: &Array2<C::F>,
    d: &Array1<C::F>,
    wacc: &Array2<C::F>,
    ws: &[usize],
) -> Vec<C::F>
where
    QuadraticMultiTask<C::F>: MultiTaskDatafit<C::F, DM, T>,
{
    let mut out = vec![];
    let e = ds.design_matrix().n_features();
    let (m, t) = (ds.targets().n_samples(), ds.targets().n_tasks());
    let mut df = QuadraticMultiTask::new();
    df.initialize(ds);
    out.push(df.value(ds, fit.view()));
    out.extend(df.full_grad(ds, fit.view()));
    out.extend(df.step_size().iter());
    out.extend(df.XtY().iter());
    for j in 0..e {
        out.extend(df.gradient_j(ds, fit.view(), j));
        let mut f = fit.clone();
        ds.design_matrix().update_model_fit_multi_task(&mut f, d.view(), j);
        out.extend(f);
    }
    out.extend(ds.design_matrix().compute_extrapolated_fit_multi_task(ArrayView1::from(ws), wacc, m, t));
    out
}
fn ws_of<C: Ctx>(c: &C, e: usize) -> Vec<usize> {
    let sel = all_selections(e);
    let k = c.choose("ws", sel.len());
    sel[k].clone()
}
fn on_ws<F: Num>(w: &Array1<F>, ws: &[usize]) -> Array1<F> {
    Array1::from_shape_fn(w.len(), |j| if ws.contains(&j) { w[j] } else { F::zero() })
}
/// expected profile from first principles, for the fit functions
fn expected_fit<C: Ctx>(c: &C, dm: &impl DesignMatrix<Elem = C::F>, x: &Array2<C::F>, fit: &Array1<C::F>, d: C::F, wacc: &Array1<C::F>, ws: &[usize]) {
    let m = x.nrows();
    for j in 0..x.ncols() {
        let mut f = fit.clone();
        dm.update_model_fit(&mut f, d, j);
        for i in 0..m {
            c.check("update_model_fit adds diff * X_j", eq(f[i], fit[i] + d * x[[i, j]]));
        }
    }
    let r = dm.compute_extrapolated_fit(ArrayView1::from(ws), wacc, m);
    c.check("extrapolated fit is X w", all_eq(&r.to_vec(), &xw(x, &wacc.to_vec())));
}
fn store1<C: Ctx>(c: &C, m: usize, e: usize, kinds: &[usize]) {
    let kind = kinds[c.choose("storage", kinds.len())];
    let sparse = kind >= 4;
    let pat = if sparse { c.choose("pattern", 1 << (m * e)) } else { (1 << (m * e)) - 1 };
    let x = mat_pat(c, "x", m, e, pat);
    let ws = ws_of(c, e);
    store1_at(c, &x, vecv(c, "y", m), Csc::new(&x, pat, kind == 5), kind, ws)
}
fn store1_at<C: Ctx>(c: &C, x: &Array2<C::F>, y: Array1<C::F>, sp: Csc<C::F>, kind: usize, ws: Vec<usize>) {
    let (m, e) = x.dim();
    store1_on(c, x, y, vecv(c, "f", m), vecv(c, "w", e), sp, kind, ws)
}
fn store1_on<C: Ctx>(c: &C, x: &Array2<C::F>, y: Array1<C::F>, fit: Array1<C::F>, w: Array1<C::F>, sp: Csc<C::F>, kind: usize, ws: Vec<usize>) {
    let sparse = kind >= 4;
    let wacc = on_ws(&w, &ws);
    let d = c.var("d");
    let reference = profile1::<C, _, _>(&DatasetBase::from((x.clone(), y.clone())), &fit, false, d, &wacc, &ws);
    c.check("finite", fin_all(&reference));
    if sparse {
        let p = profile1::<C, _, _>(&DatasetBase::from((sp.view(), y.clone())), &fit, false, d, &wacc, &ws);
        c.check("same as dense", all_eq(&p, &reference));
        expected_fit(c, &sp.view(), x, &fit, d, &wacc, &ws);
        c.check("alpha_max", eq(compute_alpha_max_sparse(&sp.view(), y.view()), compute_alpha_max(x.view(), y.view())));
    } else {
        let l = Lay::new(x.view(), kind);
        let p = profile1::<C, _, _>(&DatasetBase::from((l.view(), y.clone())), &fit, false, d, &wacc, &ws);
        c.check("same as row-major", all_eq(&p, &reference));
        expected_fit(c, &l.view(), x, &fit, d, &wacc, &ws);
        c.check("alpha_max", eq(compute_alpha_max(l.view(), y.view()), compute_alpha_max(x.view(), y.view())));
    }
}
fn store_log<C: Ctx>(c: &C, m: usize, e: usize) {
    let kind = c.choose("storage", 6);
    let sparse = kind >= 4;
    let pat = if sparse { c.choose("pattern", 1 << (m * e)) } else { (1 << (m * e)) - 1 };
    let x = mat_pat(c, "x", m, e, pat);
    let y = Array1::from_vec((0..m).map(|i| c.var_in(&format!("y{}", i), -4.0, 4.0)).collect());
    let fit = Array1::from_vec((0..m).map(|i| c.var_in(&format!("f{}", i), -4.0, 4.0)).collect());
    let reference = profile1::<C, _, _>(&DatasetBase::from((x.clone(), y.clone())), &fit, true, zero(), &y, &[]);
    let p = if sparse {
        let sp = Csc::new(&x, pat, kind == 5);
        profile1::<C, _, _>(&DatasetBase::from((sp.view(), y.clone())), &fit, true, zero(), &y, &[])
    } else {
        let l = Lay::new(x.view(), kind);
        profile1::<C, _, _>(&DatasetBase::from((l.view(), y.clone())), &fit, true, zero(), &y, &[])
    };
    c.check("same as row-major", all_eq(&p, &reference));
}
fn store2<C: Ctx>(c: &C, m: usize, e: usize, t: usize, kinds: &[usize]) {
    let kind = kinds[c.choose("storage", kinds.len())];
    let sparse = kind >= 4;
    let pat = if sparse { c.choose("pattern", 1 << (m * e)) } else { (1 << (m * e)) - 1 };
    let x = mat_pat(c, "x", m, e, pat);
    let y = mat(c, "y", m, t);
    let ws = ws_of(c, e);
    store2_at(c, &x, y, Csc::new(&x, pat, kind == 5), kind, ws)
}
fn store2_at<C: Ctx>(c: &C, x: &Array2<C::F>, y: Array2<C::F>, sp: Csc<C::F>, kind: usize, ws: Vec<usize>) {
    let (m, e) = x.dim();
    let t = y.ncols();
    store2_on(c, x, y, mat(c, "f", m, t), mat(c, "w", e, t), vecv(c, "d", t), sp, kind, ws)
}
fn store2_on<C: Ctx>(c: &C, x: &Array2<C::F>, y: Array2<C::F>, fit: Array2<C::F>, w: Array2<C::F>, d: Array1<C::F>, sp: Csc<C::F>, kind: usize, ws: Vec<usize>) {
    let sparse = kind >= 4;
    let (m, e) = x.dim();
    let t = y.ncols();
    let wacc = Array2::from_shape_fn((e, t), |(j, k)| if ws.contains(&j) { w[[j, k]] } else { zero() });
    let reference = profile2::<C, _, _>(&DatasetBase::from((x.clone(), y.clone())), &fit, &d, &wacc, &ws);
    let am = compute_alpha_max_mtl(x.view(), y.view());
    let checkfit = |dm: &dyn Fn(&mut Array2<C::F>, usize), r: Array2<C::F>| {
        for j in 0..e {
            let mut f = fit.clone();
            dm(&mut f, j);
            let ex = Array2::from_shape_fn((m, t), |(i, k)| fit[[i, k]] + d[k] * x[[i, j]]);
            c.check("update_model_fit_multi_task adds X_j diff", eq2(f.view(), ex.view()));
        }
        c.check("extrapolated fit is X W", eq2(r.view(), xw2(x, &wacc).view()));
    };
    let wsv = ArrayView1::from(&ws[..]);
    if sparse {
        let v = sp.view();
        let p = profile2::<C, _, _>(&DatasetBase::from((sp.view(), y.clone())), &fit, &d, &wacc, &ws);
        c.check("same as dense", all_eq(&p, &reference));
        checkfit(&|f, j| v.update_model_fit_multi_task(f, d.view(), j), v.compute_extrapolated_fit_multi_task(wsv, &wacc, m, t));
    } else {
        let l = Lay::new(x.view(), kind);
        let ly = Lay::new(y.view(), kind);
        let p = profile2::<C, _, _>(&DatasetBase::from((l.view(), ly.view())), &fit, &d, &wacc, &ws);
        c.check("same as row-major", all_eq(&p, &reference));
        let v = l.view();
        checkfit(&|f, j| v.update_model_fit_multi_task(f, d.view(), j), v.compute_extrapolated_fit_multi_task(wsv, &wacc, m, t));
        c.check("alpha_max", eq(compute_alpha_max_mtl(l.view(), ly.view()), am));
    }
}

// ------------------------------------------------------------------ larger fixed designs

const WIDE: [(usize, usize); 4] = [(8, 6), (5, 9), (12, 2), (2, 11)];
/// a fixed design, the pattern CSC stores (non-zeros only, or explicit zeros too), rows of a column reversed or not
fn wide_x<C: Ctx>(c: &C) -> (Array2<C::F>, usize) {
    let (m, e) = WIDE[c.choose("shape", 4)];
    let x = fixed_mat::<C::F>(m, e, 1);
    let nz = pattern_of(c, &x);
    (x, if c.choose("explicit zeros", 2) == 1 { (1 << (m * e)) - 1 } else { nz })
}
fn wide_quad<C: Ctx>(c: &C) {
    let (x, pat) = wide_x(c);
    let (m, e) = x.dim();
    match c.choose("storage", 4) {
        0 => quad(c, x.clone(), &x, m, e),
        1 => quad(c, Lay::new(x.view(), 1).view(), &x, m, e),
        k => quad(c, Csc::new(&x, pat, k == 3).view(), &x, m, e),
    }
}
fn wide_quad_mt<C: Ctx>(c: &C) {
    let (x, pat) = wide_x(c);
    let (m, e) = x.dim();
    let t = [5, 2][c.choose("t", 2)];
    match c.choose("storage", 4) {
        0 => quad_mt(c, x.clone(), &x, m, e, t),
        1 => quad_mt(c, Lay::new(x.view(), 1).view(), &x, m, e, t),
        k => quad_mt(c, Csc::new(&x, pat, k == 3).view(), &x, m, e, t),
    }
}
fn wide_logi<C: Ctx>(c: &C) {
    let (m, e) = [(4, 3), (5, 2), (2, 6)][c.choose("shape", 3)];
    let x = fixed_mat::<C::F>(m, e, 1);
    match c.choose("storage", 3) {
        0 => logi(c, x.clone(), &x, m, e, false),
        k => logi(c, Csc::new(&x, pattern_of(c, &x), k == 2).view(), &x, m, e, false),
    }
}
fn wide_ws<C: Ctx>(c: &C, e: usize) -> Vec<usize> {
    match c.choose("ws", 3) {
        0 => (0..e).collect(),
        1 => (0..e).rev().collect(),
        _ => (0..e).rev().step_by(2).collect(),
    }
}
fn wide_store1<C: Ctx>(c: &C) {
    let (x, pat) = wide_x(c);
    let (m, e) = x.dim();
    let kind = c.choose("storage", 5) + 1;
    let ws = wide_ws(c, e);
    // few free targets: which column attains alpha_max is decided by forking
    store1_at(c, &x, mostly(c, "y", m, 2, &[m - 1]), Csc::new(&x, pat, kind == 5), kind, ws)
}
fn wide_store2<C: Ctx>(c: &C) {
    let (x, pat) = wide_x(c);
    let (m, e) = x.dim();
    let t = [5, 2][c.choose("t", 2)];
    // a fixed target: the largest row norm of X'Y is one number
    let y = Array2::from_shape_fn((m, t), |(i, k)| if k == 0 || c.same(q::<C::F>(k as i64, 1), q(3, 1)) { fixed(i + 2) } else { zero() });
    let kind = c.choose("storage", 5) + 1;
    let ws = wide_ws(c, e);
    store2_at(c, &x, y, Csc::new(&x, pat, kind == 5), kind, ws)
}

const LARGE: [(usize, usize); 4] = [(40, 33), (65, 3), (3, 65), (130, 1)];
/// large fixed designs, a zero column among them; CSC with or without explicit zeros
fn large_x<C: Ctx>(c: &C) -> (Array2<C::F>, usize, usize, usize, Csc<C::F>) {
    let (m, e) = LARGE[c.choose("shape", 4)];
    let mut x = fixed_mat::<C::F>(m, e, 1);
    if e > 1 {
        x.column_mut(e / 2).fill(zero());
    }
    let st = c.choose("storage", 7);
    let sp = Csc::keep(&x, |i, j| st == 6 || !c.same(x[[i, j]], zero()), st == 5);
    (x, m, e, st, sp)
}
fn large_quad<C: Ctx>(c: &C) {
    let (x, m, e, st, sp) = large_x(c);
    let f = [(0, e - 1), (m - 1, 0)][c.choose("free", 2)];
    let (y, w) = (mostly(c, "y", m, 3, &[f.0]), mostly(c, "w", e, 5, &[f.1]));
    match st {
        0..=3 => quad_at(c, Lay::new(x.view(), st).view(), &x, y, w),
        _ => quad_at(c, sp.view(), &x, y, w),
    }
}
fn mostly2<C: Ctx>(c: &C, name: &str, m: usize, n: usize, from: usize, free: (usize, usize)) -> Array2<C::F> {
    let mut a = fixed_mat(m, n, from);
    a[free] = c.var(name);
    a
}
fn large_quad_mt<C: Ctx>(c: &C) {
    let (x, m, e, st, sp) = large_x(c);
    let t = [3, 12][c.choose("t", 2)];
    let f = [((0, t - 1), (e - 1, 0)), ((m - 1, 0), (0, t - 1))][c.choose("free", 2)];
    let (y, w, h) = (mostly2(c, "y", m, t, 3, f.0), mostly2(c, "w", e, t, 5, f.1), mostly(c, "h", t, 2, &[f.0 .1]));
    match st {
        0..=3 => quad_mt_at(c, Lay::new(x.view(), st).view(), &x, y, w, h),
        _ => quad_mt_at(c, sp.view(), &x, y, w, h),
    }
}
fn large_store1<C: Ctx>(c: &C) {
    let (x, m, e, st, sp) = large_x(c);
    let ws = wide_ws(c, e);
    let k = ws[ws.len() / 2];
    store1_on(c, &x, mostly(c, "y", m, 2, &[]), mostly(c, "f", m, 1, &[m / 2]), mostly(c, "w", e, 4, &[k]), sp, st.max(1).min(5), ws)
}
fn large_store2<C: Ctx>(c: &C) {
    let (x, m, e, st, sp) = large_x(c);
    let t = [3, 12][c.choose("t", 2)];
    let ws = wide_ws(c, e);
    let k = ws[ws.len() / 2];
    // targets in the first task only: the largest row norm of X'Y is a number
    let y = Array2::from_shape_fn((m, t), |(i, k)| if k == 0 { fixed(i + 2) } else { zero() });
    let d = mostly(c, "d", t, 1, &[t - 1]);
    store2_on(c, &x, y, mostly2(c, "f", m, t, 1, (m / 2, t - 1)), mostly2(c, "w", e, t, 4, (k, 0)), d, sp, st.max(1).min(5), ws)
}

// ------------------------------------------------------------------ P22

fn wrap1<C: Ctx>(c: &C) {
    let m = [1, 2, 3, 5, 17, 64][c.choose("m", 6)];
    let y = vecv(c, "y", m);
    let big = Array1::from_shape_fn(2 * m, |i| if i % 2 == 0 { y[i / 2] } else { q(55, 1) });
    let rev = Array1::from_shape_fn(m, |i| y[m - 1 - i]);
    fn look<C: Ctx, T: AsSingleTargets<Elem = C::F>>(c: &C, t: &T, y: &Array1<C::F>) {
        c.check("n_samples", Cond::B(t.n_samples() == y.len()));
        c.check("n_tasks", Cond::B(t.n_tasks() == 1));
        let mt = t.as_multi_tasks();
        c.check("one column", Cond::B(mt.dim() == (y.len(), 1)));
        c.check("as_multi_tasks", eq2(mt, y.view().insert_axis(Axis(1))));
        match t.try_single_target() {
            Ok(v) => c.check("try_single_target", eq1(v, y.view())),
            Err(_) => c.check("try_single_target succeeds", Cond::B(false)),
        }
    }
    fn refl<C: Ctx, T: AsMultiTargets<Elem = C::F>>(c: &C, t: T, y: &Array1<C::F>) {
        c.check("ref n_samples", Cond::B(t.n_samples() == y.len()));
        c.check("ref n_tasks", Cond::B(t.n_tasks() == 1));
        c.check("ref as_multi_tasks", eq2(t.as_multi_tasks(), y.view().insert_axis(Axis(1))));
    }
    match c.choose("kind", 4) {
        0 => look(c, &y, &y),
        1 => look(c, &big.slice(s![..;2]), &y),
        2 => look(c, &rev.slice(s![..;-1]), &y),
        _ => {
            refl(c, &y, &y);
            refl(c, &big.slice(s![..;2]), &y);
        }
    }
}
/// a user type with several columns: single-target extraction must be refused
struct Wide<F>(Array2<F>);
impl<F: Num> AsMultiTargets for Wide<F> {
    type Elem = F;
    fn n_samples(&self) -> usize {
        self.0.nrows()
    }
    fn n_tasks(&self) -> usize {
        self.0.ncols()
    }
    fn as_multi_tasks(&self) -> ArrayView2<F> {
        self.0.view()
    }
}
impl<F: Num> AsSingleTargets for Wide<F> {}

fn wrap2<C: Ctx>(c: &C) {
    let (m, t) = [(1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (3, 3), (1, 9), (9, 1), (7, 5), (33, 2), (2, 33)][c.choose("shape", 14)];
    let y = mat(c, "y", m, t);
    let lay = Lay::new(y.view(), c.choose("layout", 4));
    fn look<C: Ctx, T: AsMultiTargets<Elem = C::F>>(c: &C, v: T, y: &Array2<C::F>) {
        c.check("n_samples", Cond::B(v.n_samples() == y.nrows()));
        c.check("n_tasks", Cond::B(v.n_tasks() == y.ncols()));
        c.check("as_multi_tasks", eq2(v.as_multi_tasks(), y.view()));
    }
    look(c, y.clone(), &y);
    look(c, lay.view(), &y);
    look(c, &lay.view(), &y);
    look(c, &&y, &y);
    let w = Wide(y.clone());
    match w.try_single_target() {
        Ok(v) => {
            c.check("only one column is a single target", Cond::B(t == 1));
            c.check("the column", eq1(v, y.column(0)));
        }
        Err(_) => c.check("one column is a single target", Cond::B(t != 1)),
    }
}
fn wrapx<C: Ctx>(c: &C) {
    let (m, e) = [(1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (3, 3), (1, 9), (9, 1), (7, 5), (4, 10)][c.choose("shape", 13)];
    let kind = c.choose("storage", 7);
    let mut x = mat(c, "x", m, e);
    let y = vecv(c, "y", m);
    let fit = vecv(c, "f", m);
    let d = c.var("d");
    fn look<C: Ctx, DM: DesignMatrix<Elem = C::F>>(c: &C, dm: DM, x: &Array2<C::F>, sparse: bool, y: &Array1<C::F>, fit: &Array1<C::F>, d: C::F) {
        let e = x.ncols();
        c.check("n_features", Cond::B(dm.n_features() == e));
        c.check("kind", Cond::B(dm.matrix_type() == if sparse { DesignMatrixType::Sparse } else { DesignMatrixType::Dense }));
        for j in 0..e {
            let mut f = fit.clone();
            dm.update_model_fit(&mut f, d, j);
            let ex: Vec<C::F> = (0..x.nrows()).map(|i| fit[i] + d * x[[i, j]]).collect();
            c.check("update through the wrapper", all_eq(&f.to_vec(), &ex));
            let mut f2 = fit.clone().insert_axis(Axis(1));
            dm.update_model_fit_multi_task(&mut f2, Array1::from_vec(vec![d]).view(), j);
            c.check("multi-task update through the wrapper", all_eq(&f2.column(0).to_vec(), &ex));
            let mut f3 = Array2::from_shape_fn((x.nrows(), 2), |(i, k)| if k == 0 { y[i] } else { fit[i] });
            dm.update_model_fit_multi_task(&mut f3, Array1::from_vec(vec![zero(), d]).view(), j);
            c.check("two-task update through the wrapper", and(vec![all_eq(&f3.column(0).to_vec(), &y.to_vec()), all_eq(&f3.column(1).to_vec(), &ex)]));
        }
        let w = Array1::from_shape_fn(e, |j| y[0] + fit[0] * q(j as i64 + 1, 1));
        let ws: Vec<usize> = (0..e).collect();
        let z = dm.compute_extrapolated_fit(ArrayView1::from(&ws[..]), &w, x.nrows());
        c.check("fit through the wrapper", all_eq(&z.to_vec(), &xw(x, &w.to_vec())));
        let z2 = dm.compute_extrapolated_fit_multi_task(ArrayView1::from(&ws[..]), &w.clone().insert_axis(Axis(1)), x.nrows(), 1);
        c.check("multi-task fit through the wrapper", all_eq(&z2.column(0).to_vec(), &xw(x, &w.to_vec())));
        let w2 = Array2::from_shape_fn((e, 2), |(j, k)| if k == 0 { w[j] } else { y[0] - fit[0] * q(j as i64, 1) });
        let z3 = dm.compute_extrapolated_fit_multi_task(ArrayView1::from(&ws[..]), &w2, x.nrows(), 2);
        c.check("two-task fit through the wrapper", and((0..2).map(|k| all_eq(&z3.column(k).to_vec(), &xw(x, &w2.column(k).to_vec()))).collect()));
        let ds = DatasetBase::<DM, &Array1<C::F>>::new(dm, y);
        c.check("dataset target", Cond::B(same_all(c, &ds.targets().to_vec(), &y.to_vec())));
        c.check("dataset design", Cond::B(ds.design_matrix().n_features() == e));
    }
    if kind < 4 {
        let l = Lay::new(x.view(), kind);
        look(c, l.view(), &x, false, &y, &fit, d);
        look(c, &l.view(), &x, false, &y, &fit, d);
        look(c, &&l.view(), &x, false, &y, &fit, d);
        let ds = DatasetBase::from((l.view(), y.clone()));
        c.check("from keeps the design", eq2(ds.design_matrix().view(), x.view()));
        c.check("from keeps the target", eq1(ds.targets().view(), y.view()));
        let nd = DatasetBase::new(l.view(), y.clone());
        c.check("new keeps the design", eq2(nd.design_matrix().view(), x.view()));
        c.check("new keeps the target", eq1(nd.targets().view(), y.view()));
    } else {
        // the last sample, or the last feature, without entries
        for ((i, j), v) in x.indexed_iter_mut() {
            if kind == 5 && i + 1 == m || kind == 6 && j + 1 == e {
                *v = zero();
            }
        }
        let s = Csc::keep(&x, |i, j| !(kind == 5 && i + 1 == m || kind == 6 && j + 1 == e), false);
        look(c, s.view(), &x, true, &y, &fit, d);
        look(c, &s.view(), &x, true, &y, &fit, d);
        let k: CSCArray<C::F> = s.view();
        let ds = DatasetBase::from((k, y.clone()));
        c.check("from keeps the data", eq1(ds.design_matrix().data, s.data.view()));
        c.check("from keeps the indices", Cond::B(ds.design_matrix().indices == s.indices && ds.design_matrix().indptr == s.indptr));
        c.check("from keeps the target", eq1(ds.targets().view(), y.view()));
    }
}

const FD: &[&str] = &["Datafit<ArrayBase>::{initialize,value,gradient_j,full_grad,step_size} for Quadratic"];
const FS: &[&str] = &["Datafit<CSCArray>::{initialize,value,gradient_j,full_grad,step_size} for Quadratic"];
const FMD: &[&str] = &["MultiTaskDatafit<ArrayBase> for QuadraticMultiTask"];
const FMS: &[&str] = &["MultiTaskDatafit<CSCArray> for QuadraticMultiTask"];
const FL: &[&str] = &["Datafit<ArrayBase> for Logistic", "Datafit<CSCArray> for Logistic", "sigmoid"];
const FX: &[&str] = &["DesignMatrix for ArrayBase", "DesignMatrix for CSCArray", "compute_alpha_max", "compute_alpha_max_sparse", "compute_alpha_max_mtl"];

pub fn register(v: &mut Vec<H>) {
    h!(v, "P06", "quadratic_dense", "quadratic loss, dense", funcs: FD, bounds: "1-3 samples x 1-3 features, all reals", |c| quad_dense(c));
    h!(v, "P06", "quadratic_sparse", "quadratic loss, CSC", funcs: FS, bounds: "3 samples x 2 features, every sparsity pattern, sorted and unsorted rows", |c| quad_sparse(c, 3, 2));
    h!(v, "P06", "quadratic_mt_dense", "multi-task quadratic loss, dense", funcs: FMD, bounds: "1-3 samples x 1-3 features x 1-3 tasks, all reals", |c| quad_mt_dense(c));
    h!(v, "P06", "quadratic_mt_sparse", "multi-task quadratic loss, CSC", funcs: FMS, bounds: "2 samples x 2 features x 2 tasks, every sparsity pattern, sorted and unsorted", |c| quad_mt_sparse(c, 2, 2, 2));
    h!(v, "P06", "quadratic_sparse_shapes", "quadratic loss, CSC, other shapes", funcs: FS, bounds: "1 sample x 1-4 features, 4 samples x 1 feature; every sparsity pattern", |c| { let (m, e) = [(1, 1), (1, 2), (1, 3), (1, 4), (2, 1), (4, 1), (2, 3)][c.choose("shape", 7)]; quad_sparse(c, m, e) });
    h!(v, "P06", "quadratic_mt_sparse_shapes", "multi-task quadratic loss, CSC, other shapes", funcs: FMS, bounds: "samples x features x tasks 1x3x2, 1x2x3, 2x1x3, 3x1x2, 1x1x4, 4x1x1; every sparsity pattern, sorted and unsorted", |c| { let (m, e, t) = [(1, 3, 2), (1, 2, 3), (2, 1, 3), (3, 1, 2), (1, 1, 4), (4, 1, 1)][c.choose("shape", 6)]; quad_mt_sparse(c, m, e, t) });
    h!(v, "P06", "logistic_shapes", "logistic loss, other shapes", funcs: FL, bounds: "1 sample x 3 features, 3 samples x 1 feature; dense and CSC, every pattern", |c| { let (m, e) = [(1, 3), (3, 1), (1, 1)][c.choose("shape", 3)]; if c.choose("sparse", 2) == 1 { logi_sparse(c, m, e) } else { let x = mat(c, "x", m, e); logi(c, x.clone(), &x, m, e, false) } });
    h!(v, "P06", "logistic_dense", "logistic loss: value and exact gradient, dense", funcs: FL, bounds: "1-2 samples x 1-2 features", |c| logi_dense(c, 2, 2, false));
    h!(v, "P06", "logistic_sparse", "logistic loss: value and exact gradient, CSC", funcs: FL, bounds: "2 samples x 2 features, every pattern", |c| logi_sparse(c, 2, 2));
    h!(v, "P06", "logistic_curvature", "logistic loss: convex, curvature below the step size (labels +-1)", funcs: FL, bounds: "1-2 samples x 1 feature, labels +-1", |c| logi_dense(c, 2, 1, true));
    h!(v, "P06", "sigmoid", "sigmoid", funcs: &["sigmoid"], bounds: "all x in [-8, 8] (exp treated as an increasing positive function)", |c| sig(c));
    h!(v, "P06", "quadratic_sparse_33", "quadratic loss, CSC, 3x3", funcs: FS, bounds: "3 samples x 3 features, every sparsity pattern", |c| quad_sparse(c, 3, 3));
    h!(v, "P06", "quadratic_mt_sparse_32", "multi-task quadratic loss, CSC 3x2", funcs: FMS, bounds: "3 x 2 x 2, every pattern", |c| quad_mt_sparse(c, 3, 2, 2));
    h!(v, "P06", "quadratic_wide", "quadratic loss, larger fixed designs", funcs: FD, bounds: "fixed designs of 8x6, 5x9, 12x2, 2x11; dense (both orders) and CSC (with and without explicit zeros, sorted and unsorted); all targets, coefficients and displacements", |c| wide_quad(c));
    h!(v, "P06", "quadratic_mt_wide", "multi-task quadratic loss, larger fixed designs", funcs: FMD, bounds: "the same designs, 2 and 5 tasks; all targets, coefficients and displacements", |c| wide_quad_mt(c));
    h!(v, "P06", "logistic_wide", "logistic loss, larger fixed designs", funcs: FL, bounds: "fixed designs of 4x3, 5x2, 2x6; dense and CSC; all targets and fits in [-4, 4]", |c| wide_logi(c));

    h!(v, "P07", "single_dense_layouts", "dense memory layouts, single task", funcs: FX, bounds: "3 samples x 2 features; row-major, column-major, strided, reversed; all working sets", |c| store1(c, 3, 2, &[1, 2, 3]));
    h!(v, "P07", "single_sparse", "CSC vs dense, single task", funcs: FX, bounds: "2 samples x 2 features, every pattern, sorted/unsorted, explicit zeros; all working sets", |c| store1(c, 2, 2, &[4, 5]));
    h!(v, "P07", "single_sparse_32", "CSC vs dense, single task", funcs: FX, bounds: "3 samples x 2 features, every pattern, sorted/unsorted", |c| store1(c, 3, 2, &[4, 5]));
    h!(v, "P07", "single_wide", "every storage, larger fixed designs", funcs: FX, bounds: "fixed designs of 8x6, 5x9, 12x2, 2x11, every storage, with and without explicit zeros, three working sets; one free target; all fits and updates", |c| wide_store1(c));
    h!(v, "P07", "multi_wide", "every storage, larger fixed designs, multi-task", funcs: FX, bounds: "the same designs, 2 and 5 tasks, fixed target; all fits and updates", |c| wide_store2(c));
    h!(v, "P07", "multi_dense_layouts", "dense memory layouts, multi-task", funcs: FX, bounds: "2 samples x 2 features x 2 tasks, four layouts of X and Y", |c| store2(c, 2, 2, 2, &[1, 2, 3]));
    h!(v, "P07", "multi_sparse", "CSC vs dense, multi-task", funcs: FX, bounds: "2 samples x 2 features x 2 tasks, every pattern", |c| store2(c, 2, 2, 2, &[4, 5]));
    h!(v, "P07", "single_shapes", "every storage, other shapes", funcs: FX, bounds: "1 sample x 3 features, 4 samples x 1 feature, every pattern and layout", |c| { let (m, e) = [(1, 3), (4, 1), (1, 1)][c.choose("shape", 3)]; store1(c, m, e, &[1, 2, 3, 4, 5]) });
    h!(v, "P07", "multi_shapes", "every storage, other shapes, multi-task", funcs: FX, bounds: "samples x features x tasks 1x3x2, 3x1x2, 2x1x3, 1x2x3; every pattern and layout", |c| { let (m, e, t) = [(1, 3, 2), (3, 1, 2), (2, 1, 3), (1, 2, 3)][c.choose("shape", 4)]; store2(c, m, e, t, &[1, 2, 3, 4, 5]) });
    h!(v, "P07", "logistic_storage", "logistic loss, every storage", funcs: FL, bounds: "2 samples x 2 features, every pattern and layout", |c| store_log(c, 2, 2));

    h!(v, "P22", "targets_1d", "1-d targets through every wrapper", funcs: &["AsMultiTargets for ArrayBase<Ix1>", "AsSingleTargets::try_single_target", "AsMultiTargets for &T"], bounds: "1-3, 5, 17, 64 samples; owned, strided, reversed, borrowed", |c| wrap1(c));
    h!(v, "P22", "targets_2d", "2-d targets through every wrapper", funcs: &["AsMultiTargets for ArrayBase<Ix2>", "AsSingleTargets::try_single_target", "AsMultiTargets for &T"], bounds: "1-3 samples x 1-3 tasks, 1x9, 9x1, 7x5, 33x2, 2x33; four layouts", |c| wrap2(c));
    h!(v, "P22", "designs", "designs and datasets through every wrapper", funcs: &["DesignMatrix for ArrayBase / CSCArray / &DM", "DatasetBase::{new, from, targets, design_matrix}"], bounds: "1-3 samples x 1-3 features, 1x9, 9x1, 7x5, 4x10; dense layouts and CSC", |c| wrapx(c));
    h!(v, "P06", "quadratic_large", "quadratic loss, large fixed designs", funcs: FD, bounds: "fixed designs of 40x33, 65x3, 3x65, 130x1 with a zero column; four layouts, CSC (with and without explicit zeros, sorted and unsorted); one free target, coefficient and displacement", |c| large_quad(c));
    h!(v, "P06", "quadratic_mt_large", "multi-task quadratic loss, large fixed designs", funcs: FMD, bounds: "the same designs and storages, 3 and 12 tasks; one free target, coefficient and displacement", |c| large_quad_mt(c));
    h!(v, "P07", "single_large", "every storage, large fixed designs", funcs: FX, bounds: "fixed designs of 40x33, 65x3, 3x65, 130x1 with a zero column, every storage, three working sets; one free fit, weight and update", |c| large_store1(c));
    h!(v, "P07", "multi_large", "every storage, large fixed designs, multi-task", funcs: FX, bounds: "the same designs, 3 and 12 tasks; one free fit, weight and update", |c| large_store2(c));
}
