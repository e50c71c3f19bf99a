//! P17: the native Python classes, compiled from /repo/python/src against stand-ins for pyo3 and numpy
use ndarray::{Array1, Array2, Axis, ShapeBuilder};
use numpy::PyArray;
use pyo3::{Args, Obj, PyModule, PyResult, Python};
use symex::ctx::*;
use symex::engine::H;
use symex::h;
use symex::harness::common::*;
use symex::harness::fits::*;
use symex::sym::Sym;

include!(concat!(env!("OUT_DIR"), "/native.rs"));

trait Native: Num {
    fn module(m: &PyModule) -> PyResult<()>;
}
impl Native for Sym {
    fn module(m: &PyModule) -> PyResult<()> {
        native_sym::_lib(Python::token(), m)
    }
}
impl Native for f64 {
    fn module(m: &PyModule) -> PyResult<()> {
        native_f64::_lib(Python::token(), m)
    }
}
const ALL: [M; 6] = [M::Lasso, M::Enet, M::Mcp, M::MtLasso, M::MtEnet, M::BMcp];
fn class(m: M) -> &'static str {
    match m {
        M::Lasso => "LassoWrapper",
        M::Enet => "ElasticNetWrapper",
        M::Mcp => "MCPWrapper",
        M::MtLasso => "MultiTaskLassoWrapper",
        M::MtEnet => "MultiTaskElasticNetWrapper",
        M::BMcp => "BlockMCPWrapper",
    }
}
fn make<F: Native>(m: M, h: &Hp<F>) -> PyResult<Box<dyn Obj>> {
    let module = PyModule::default();
    F::module(&module)?;
    let mut a = Args::new()
        .kw("alpha", h.alpha)
        .kw("max_iterations", h.iters)
        .kw("max_epochs", h.epochs)
        .kw("tolerance", h.tol)
        .kw("ws_start_size", h.ws)
        .kw("use_acceleration", h.acc)
        .kw("k", h.k)
        .kw("verbose", h.verb);
    match m {
        M::Enet | M::MtEnet => a = a.kw("l1_ratio", h.extra),
        M::Mcp | M::BMcp => a = a.kw("gamma", h.extra),
        _ => {}
    }
    module.make(class(m), a)
}
fn call<F: Native>(o: &mut dyn Obj, m: M, x: &Array2<F>, y: &Array2<F>, sparse: Option<usize>, fortran: bool) -> PyResult<Array2<F>> {
    let mut a = Args::new();
    let name;
    match sparse {
        Some(pat) => {
            name = "fit_sparse";
            let s = Csc::new(x, pat, false);
            a = a.push(PyArray::leak(s.data)).push(PyArray::leak(s.indices)).push(PyArray::leak(s.indptr));
        }
        None => {
            name = "fit";
            let x = if fortran { Array2::from_shape_fn(x.dim().f(), |i| x[i]) } else { x.clone() };
            a = a.push(PyArray::leak(x));
        }
    }
    if m.multi() {
        let y = if fortran { Array2::from_shape_fn(y.dim().f(), |i| y[i]) } else { y.clone() };
        a = a.push(PyArray::leak(y));
    } else {
        a = a.push(PyArray::leak(y.column(0).to_owned()));
    }
    let r = o.call(name, a)?;
    let d = *r.data.downcast::<Vec<F>>().expect("an array of floats");
    let e = if m.multi() {
        assert_eq!(r.shape.len(), 2);
        (r.shape[0], r.shape[1])
    } else {
        assert_eq!(r.shape.len(), 1);
        (r.shape[0], 1)
    };
    Ok(Array2::from_shape_vec(e, d).unwrap())
}
fn compare<C: Ctx>(c: &C, m: M, x: Array2<C::F>, y: Array2<C::F>, h: Hp<C::F>)
where
    C::F: Native,
{
    let (rows, cols) = x.dim();
    let how = c.choose("storage", 4);
    let nzpat = (0..rows * cols).filter(|k| !c.same(x[[k / cols, k % cols]], zero())).fold(0, |p, k| p | 1 << k);
    let pat = match how {
        2 => Some((1 << (rows * cols)) - 1),
        3 => Some(nzpat),
        _ => None,
    };
    let want = match pat {
        None => fit_dense(m, x.view(), &y, &h),
        Some(p) => fit_csc(m, Csc::new(&x, p, false).view(), &y, &h),
    }
    .unwrap();
    let got = c.guard(|| make(m, &h).and_then(|mut o| call(&mut *o, m, &x, &y, pat, how == 1)));
    let ok = matches!(got, Some(Ok(_)));
    c.check("constructs and fits", Cond::B(ok));
    if let Some(Ok(w)) = got {
        c.check("same coefficients", eq2(w.view(), want.view()));
    }
}
fn plain<C: Ctx>(c: &C, m: M, t: usize)
where
    C::F: Native,
{
    let x = design(2 + c.choose("design", 2));
    let y = mat(c, "y", 2, t);
    let mut h = hp_of(c, m, [2, 0][c.choose("iterations", 2)], c.choose("epochs", 2) + 1);
    h.ws = c.choose("ws", 2) + 1;
    h.tol = c.nonneg("tol");
    h.extra = extra_of(c, m);
    compare(c, m, x, y, h)
}
/// a smaller family: working-set growth, epochs and iterations one at a time
fn small<C: Ctx>(c: &C, m: M)
where
    C::F: Native,
{
    let (d, iters, epochs, ws) = [(3, 1, 1, 1), (3, 1, 1, 2), (2, 2, 1, 1), (2, 1, 2, 2), (2, 0, 2, 2)][c.choose("shape", 5)];
    let x = design(d);
    let y = mat(c, "y", 2, 1);
    let mut h = hp_of(c, m, iters, epochs);
    h.ws = ws;
    h.tol = c.nonneg("tol");
    h.extra = extra_of(c, m);
    compare(c, m, x, y, h)
}
/// K and the acceleration switch
fn accel<C: Ctx>(c: &C, m: M)
where
    C::F: Native,
{
    let x = Array2::from_shape_vec((2, 2), vec![q(2, 1), q(1, 1), q(0, 1), q(1, 1)]).unwrap();
    let s = c.var_in("s", 4.0, 5.0);
    let y = Array1::from_vec(vec![s, q(7, 1)]).insert_axis(Axis(1));
    let mut h = Hp::new(q(1, 2), 1, 4);
    h.tol = zero();
    h.k = c.choose("K", 3) + 1;
    h.acc = c.choose("acceleration", 2) == 1;
    h.verb = c.choose("verbose", 2) == 1;
    h.extra = extra_of(c, m);
    compare(c, m, x, y, h)
}
/// one object, several fits: each as from a fresh object
fn again<C: Ctx>(c: &C, m: M)
where
    C::F: Native,
{
    let (x1, x2) = (design::<C::F>(3), design::<C::F>(1));
    let y1 = Array2::from_shape_fn((2, 1), |(i, _)| q(3 + i as i64, 1));
    let y2 = mat(c, "y", 2, 1);
    let h = hp_of(c, m, 1, 1);
    let want = fit_dense(m, x2.view(), &y2, &h).unwrap();
    let first = c.choose("first sparse", 2) == 1;
    let got = c.guard(|| {
        let mut o = make(m, &h)?;
        call(&mut *o, m, &x1, &y1, if first { Some(63) } else { None }, false)?;
        call(&mut *o, m, &x2, &y2, None, false)
    });
    c.check("fits twice", Cond::B(matches!(got, Some(Ok(_)))));
    if let Some(Ok(w)) = got {
        c.check("second fit as from a fresh object", eq2(w.view(), want.view()));
    }
}

fn main() {
    const F: &[&str] = &["python/src/lib.rs _lib", "LassoWrapper", "ElasticNetWrapper", "MCPWrapper", "MultiTaskLassoWrapper", "MultiTaskElasticNetWrapper", "BlockMCPWrapper"];
    let mut v: Vec<H> = vec![];
    h!(v, "P17", "forward", "new + fit / fit_sparse give the Rust estimator's coefficients", funcs: F, bounds: "fixed 2x2, 2x3 designs (C, Fortran, CSC), one task; y, alpha, tol free; iterations 0..2, epochs 1..2, ws 1..2", |c| small(c, ALL[c.choose("class", 6)]));
    h!(v, "P17", "forward_all", "same, every combination", funcs: F, bounds: "same, iterations 0/2 x epochs 1..2 x ws 1..2", |c| plain(c, ALL[c.choose("class", 6)], 1), deep: true);
    h!(v, "P17", "tasks", "same, two tasks (orientation)", funcs: F, bounds: "fixed 2x1 design, 2 tasks, 1 epoch", |c| {
        let m = MULTI[c.choose("class", 3)];
        let h = hp_of(c, m, 1, 1);
        compare(c, m, design(0), mat(c, "y", 2, 2), h)
    });
    h!(v, "P17", "accelerated", "same, K and acceleration", funcs: F, bounds: "fixed 2x2 design, 4 epochs, K 1..3, one free target", |c| accel(c, ALL[c.choose("class", 6)]));
    h!(v, "P17", "again", "an object can be fitted again", funcs: F, bounds: "2x3 then 2x2", |c| again(c, ALL[c.choose("class", 6)]));
    symex::cli(v);
}
