//! A datafit and a penalty that record what the real solver does with them. Gradients, optimality violations,
//! proximal outcomes and objective values are free variables (a function of the arguments: equal arguments give
//! equal answers), so the solver is decided for every datafit and penalty at once.
use super::common::*;
use crate::ctx::*;
use ndarray::{Array1, Array2, ArrayView1, ArrayView2, Axis};
use num_traits::Float as _;
use num_traits::{One, Zero};
use sparseglm::datafits::multi_task::MultiTaskDatafit;
use sparseglm::datafits::single_task::Datafit;
use sparseglm::datasets::{AsMultiTargets, AsSingleTargets, DatasetBase, DesignMatrix};
use sparseglm::penalties::block_separable::MultiTaskPenalty;
use sparseglm::penalties::separable::Penalty;
use std::cell::{Cell, RefCell};

#[derive(Clone)]
pub enum Prox<F> {
    /// a free value
    Fresh,
    /// a free value or zero (two paths)
    FreshOrZero,
    /// 1, 2, 3, ...: every update moves
    Count,
    /// always this
    Fixed(F),
}
#[derive(Clone)]
pub enum Kkt<F> {
    /// one value per feature, whatever the weights
    Fixed(Vec<F>),
    /// free nonnegative values for the first n weight vectors seen, zero from then on
    Free(usize),
    /// fixed values for the first n weight vectors seen, one of them free each time; zero from then on
    Some(usize),
    /// fixed values for the first n weight vectors seen but for one free value in the given one; zero from then on
    One(usize, usize),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ev {
    /// an optimality check over every feature
    Full,
    /// an optimality check over some features
    Part,
    /// a proximal step of feature j
    Prox(usize),
}

pub struct Rec<'a, C: Ctx> {
    pub c: &'a C,
    /// the design as a plain matrix
    pub x: Array2<C::F>,
    pub t: usize,
    pub lips: Array1<C::F>,
    pub prox: Prox<C::F>,
    pub kkt: Kkt<C::F>,
    /// free objective values (for extrapolation); otherwise the objective is a constant
    pub free_values: bool,
    /// number of proximal steps after which the run is declared endless
    pub fuel: usize,
    pub tol: C::F,
    pub inits: Cell<usize>,
    pub w: RefCell<Array2<C::F>>,
    pub last: RefCell<Option<(usize, Vec<C::F>)>>,
    pub ev: RefCell<Vec<Ev>>,
    /// working sets, as the set of features updated between two full checks
    pub kkts: RefCell<Vec<(Vec<C::F>, Vec<C::F>)>>,
    grads: RefCell<Vec<(Vec<C::F>, usize, Vec<C::F>)>>,
    vals: RefCell<Vec<(bool, Vec<C::F>, C::F)>>,
    /// weights whose objective was last asked for
    cand: RefCell<Option<Array2<C::F>>>,
    /// every feature satisfied the tolerance at the last full check
    done: Cell<bool>,
    n: Cell<usize>,
    /// outcomes so far
    count: Cell<usize>,
    /// proximal steps so far
    steps: Cell<usize>,
    pub full_states: RefCell<Vec<(Vec<C::F>, Vec<C::F>)>>,
    pub accepted: Cell<usize>,
}

fn flat<F: Num>(a: ArrayView2<F>) -> Vec<F> {
    a.iter().cloned().collect()
}

impl<'a, C: Ctx> Rec<'a, C> {
    pub fn new(c: &'a C, x: Array2<C::F>, t: usize, lips: Vec<C::F>, prox: Prox<C::F>, kkt: Kkt<C::F>, tol: C::F) -> Self {
        let e = x.ncols();
        Rec {
            c,
            x,
            t,
            lips: Array1::from_vec(lips),
            prox,
            kkt,
            free_values: false,
            fuel: 400,
            tol,
            inits: Cell::new(0),
            w: RefCell::new(Array2::from_elem((e, t), zero())),
            last: RefCell::new(None),
            ev: RefCell::new(vec![]),
            kkts: RefCell::new(vec![]),
            grads: RefCell::new(vec![]),
            vals: RefCell::new(vec![]),
            cand: RefCell::new(None),
            done: Cell::new(false),
            n: Cell::new(0),
            count: Cell::new(0),
            steps: Cell::new(0),
            full_states: RefCell::new(vec![]),
            accepted: Cell::new(0),
        }
    }
    pub fn e(&self) -> usize {
        self.x.ncols()
    }
    /// the same datafit and penalty (equal arguments still give equal answers), ready to watch another run
    pub fn again(&self) -> Self {
        let mut r = Rec::new(self.c, self.x.clone(), self.t, self.lips.to_vec(), self.prox.clone(), self.kkt.clone(), self.tol);
        r.free_values = self.free_values;
        r.fuel = self.fuel;
        r.n.set(self.n.get());
        *r.kkts.borrow_mut() = self.kkts.borrow().clone();
        *r.grads.borrow_mut() = self.grads.borrow().clone();
        *r.vals.borrow_mut() = self.vals.borrow().clone();
        r
    }
    fn name(&self, p: &str) -> String {
        self.n.set(self.n.get() + 1);
        format!("{}{}", p, self.n.get())
    }
    fn fit_of(&self, w: &Array2<C::F>) -> Array2<C::F> {
        xw2(&self.x, w)
    }
    /// the current weights follow an accepted extrapolation if the fit says so
    fn sync(&self, fit: ArrayView2<C::F>) {
        let here = self.fit_of(&self.w.borrow());
        if same_all(self.c, &flat(fit), &flat(here.view())) {
            return;
        }
        let cand = self.cand.borrow_mut().take();
        if let Some(k) = cand {
            let there = self.fit_of(&k);
            if same_all(self.c, &flat(fit), &flat(there.view())) {
                self.moved(&k);
                return;
            }
        }
        self.c.check("the fit is X w", eq2(fit, here.view()));
    }
    fn moved(&self, k: &Array2<C::F>) {
        let old = self.w.borrow().clone();
        let a = self.val(false, flat(k.view())) + self.val(true, flat(self.fit_of(k).view()));
        let b = self.val(false, flat(old.view())) + self.val(true, flat(self.fit_of(&old).view()));
        self.c.check("extrapolation lowers the objective", lt(a, b));
        self.accepted.set(self.accepted.get() + 1);
        *self.w.borrow_mut() = k.clone();
    }
    fn val(&self, data: bool, arg: Vec<C::F>) -> C::F {
        if !self.free_values {
            return one();
        }
        for (d, a, v) in self.vals.borrow().iter().rev() {
            if *d == data && same_all(self.c, a, &arg) {
                return *v;
            }
        }
        let v = self.c.var(&self.name("v"));
        self.vals.borrow_mut().push((data, arg, v));
        v
    }
    fn grad(&self, at: Vec<C::F>, j: usize) -> Vec<C::F> {
        for (f, k, g) in self.grads.borrow().iter().rev() {
            if *k == j && same_all(self.c, f, &at) {
                return g.clone();
            }
        }
        let g: Vec<C::F> = (0..self.t).map(|_| self.c.var(&self.name("g"))).collect();
        self.grads.borrow_mut().push((at, j, g.clone()));
        g
    }
    /// violations at weights w, memoised
    pub fn kkt_at(&self, w: &[C::F]) -> Vec<C::F> {
        let n = match &self.kkt {
            Kkt::Fixed(v) => return v.clone(),
            Kkt::Free(n) | Kkt::Some(n) | Kkt::One(n, _) => *n,
        };
        let fix = |s: usize, j: usize| match &self.kkt {
            Kkt::Some(_) => j != (2 * s + 1) % self.e(),
            Kkt::One(_, at) => s != *at || j != (2 * s + 1) % self.e(),
            _ => false,
        };
        for (a, v) in self.kkts.borrow().iter().rev() {
            if same_all(self.c, a, w) {
                return v.clone();
            }
        }
        let v: Vec<C::F> = (0..self.e())
            .map(|j| {
                let s = self.kkts.borrow().len();
                if s >= n {
                    zero()
                } else if fix(s, j) {
                    fixed::<C::F>(3 * s + 2 * j).abs()
                } else {
                    self.c.nonneg(&self.name("k"))
                }
            })
            .collect();
        self.kkts.borrow_mut().push((w.to_vec(), v.clone()));
        v
    }

    // ---- what the solver calls
    pub fn on_grad(&self, fit: ArrayView2<C::F>, j: usize) -> Vec<C::F> {
        self.c.check("datafit initialised before use", Cond::B(self.inits.get() > 0));
        self.c.check("fit has the shape of the targets", Cond::B(fit.dim() == (self.x.nrows(), self.t)));
        self.c.check("feature exists", Cond::B(j < self.e()));
        self.sync(fit);
        let g = self.grad(flat(self.w.borrow().view()), j);
        *self.last.borrow_mut() = Some((j, g.clone()));
        g
    }
    pub fn on_prox(&self, v: &[C::F], step: C::F) -> Vec<C::F> {
        let (j, g) = match self.last.borrow_mut().take() {
            Some(x) => x,
            None => {
                self.c.check("a proximal step follows a gradient", Cond::B(false));
                return v.to_vec();
            }
        };
        self.ev.borrow_mut().push(Ev::Prox(j));
        self.steps.set(self.steps.get() + 1);
        if self.steps.get() > self.fuel {
            self.c.check("the solver stops", Cond::B(false));
            panic!("the solver does not stop");
        }
        self.c.check("no update once every feature satisfies the tolerance", Cond::B(!self.done.get()));
        self.c.check("no update of a feature without curvature", nz(self.lips[j]));
        self.c.check("step is 1/L_j", eq(step * self.lips[j], one()));
        let old = self.w.borrow().row(j).to_vec();
        self.c.check("length", Cond::B(v.len() == self.t));
        for k in 0..self.t {
            self.c.check("argument is w_j - grad_j/L_j", eq(v[k] * self.lips[j], old[k] * self.lips[j] - g[k]));
        }
        let zero_row = matches!(self.prox, Prox::FreshOrZero) && self.c.choose("zero", 2) == 1;
        let new: Vec<C::F> = (0..self.t)
            .map(|_| match &self.prox {
                Prox::Fixed(x) => *x,
                Prox::Count => {
                    self.count.set(self.count.get() + 1);
                    C::F::rat(self.count.get() as i64, 1)
                }
                _ if zero_row => zero(),
                _ => self.c.var(&self.name("u")),
            })
            .collect();
        let mut w = self.w.borrow_mut();
        for k in 0..self.t {
            w[[j, k]] = new[k];
        }
        new
    }
    pub fn on_subdiff(&self, w: ArrayView2<C::F>, grad: ArrayView2<C::F>, ws: ArrayView1<usize>) -> (Array1<C::F>, C::F) {
        let c = self.c;
        let mut seen = vec![false; self.e()];
        for &j in ws.iter() {
            c.check("violations of valid features, each once", Cond::B(j < self.e() && !seen[j]));
            seen[j] = true;
        }
        let full = seen.iter().all(|b| *b);
        c.check("one gradient per listed feature", Cond::B(grad.dim() == (ws.len(), self.t) && w.dim() == (self.e(), self.t)));
        self.settle(w);
        // the gradients handed over are those of the listed features at the current fit
        let here = flat(self.w.borrow().view());
        for (r, &j) in grad.rows().into_iter().zip(ws.iter()) {
            let g = self.grad(here.clone(), j);
            c.check("gradient of the listed feature at the current fit", all_eq(&r.to_vec(), &g));
        }
        let wf = flat(w);
        let all = self.kkt_at(&wf);
        let v: Vec<C::F> = ws.iter().map(|&j| all[j]).collect();
        let mut mx = v[0];
        for k in &v {
            if *k > mx {
                mx = *k;
            }
        }
        self.ev.borrow_mut().push(if full { Ev::Full } else { Ev::Part });
        if full {
            self.full_states.borrow_mut().push((wf, v.clone()));
            self.done.set(mx <= self.tol);
        }
        *self.last.borrow_mut() = None;
        (Array1::from_vec(v), mx)
    }
    /// the weights the solver shows are the ones its updates lead to
    pub fn settle(&self, w: ArrayView2<C::F>) {
        let mine = self.w.borrow().clone();
        if same_all(self.c, &flat(w), &flat(mine.view())) {
            return;
        }
        let cand = self.cand.borrow_mut().take();
        if let Some(k) = cand {
            if same_all(self.c, &flat(w), &flat(k.view())) {
                self.moved(&k);
                return;
            }
        }
        self.c.check("weights are what the proximal steps returned", eq2(w, mine.view()));
    }
    pub fn on_value(&self, fit: ArrayView2<C::F>) -> C::F {
        self.val(true, flat(fit))
    }
    pub fn on_penalty(&self, w: ArrayView2<C::F>) -> C::F {
        if !same_all(self.c, &flat(w), &flat(self.w.borrow().view())) {
            *self.cand.borrow_mut() = Some(w.to_owned());
        }
        self.val(false, flat(w))
    }
    /// what the solver returned
    pub fn finish(&self, w: ArrayView2<C::F>) {
        self.c.check("shape of the result", Cond::B(w.dim() == (self.e(), self.t)));
        self.settle(w);
        let ev = self.ev.borrow();
        for j in 0..self.e() {
            if !ev.contains(&Ev::Prox(j)) {
                self.c.check("a feature never updated keeps weight zero", and((0..self.t).map(|k| is0(w[[j, k]])).collect()));
            }
        }
    }
    /// returned weights of a run that had unlimited budget
    pub fn optimal(&self, w: ArrayView2<C::F>) {
        let k = self.kkt_at(&flat(w));
        for v in k {
            self.c.check("every feature satisfies the tolerance", le(v, self.tol));
        }
    }
    /// per round (between full checks): the sequence of features updated
    pub fn rounds(&self) -> Vec<Vec<usize>> {
        let mut out: Vec<Vec<usize>> = vec![];
        for e in self.ev.borrow().iter() {
            match e {
                Ev::Full => out.push(vec![]),
                Ev::Prox(j) => match out.last_mut() {
                    Some(r) => r.push(*j),
                    None => out.push(vec![*j]),
                },
                Ev::Part => {}
            }
        }
        out
    }
}

pub struct Df<'r, 'a, C: Ctx>(pub &'r Rec<'a, C>);
pub struct Pn<'r, 'a, C: Ctx>(pub &'r Rec<'a, C>);

impl<'r, 'a, C: Ctx, DM: DesignMatrix<Elem = C::F>, T: AsSingleTargets<Elem = C::F>> Datafit<C::F, DM, T> for Df<'r, 'a, C> {
    fn initialize(&mut self, _d: &DatasetBase<DM, T>) {
        self.0.inits.set(self.0.inits.get() + 1);
    }
    fn value(&self, _d: &DatasetBase<DM, T>, f: ArrayView1<C::F>) -> C::F {
        self.0.on_value(f.insert_axis(Axis(1)))
    }
    fn gradient_j(&self, _d: &DatasetBase<DM, T>, f: ArrayView1<C::F>, j: usize) -> C::F {
        self.0.on_grad(f.insert_axis(Axis(1)), j)[0]
    }
    fn full_grad(&self, d: &DatasetBase<DM, T>, f: ArrayView1<C::F>) -> Array1<C::F> {
        Array1::from_vec((0..self.0.e()).map(|j| <Self as Datafit<C::F, DM, T>>::gradient_j(self, d, f, j)).collect())
    }
    fn step_size(&self) -> ArrayView1<'_, C::F> {
        self.0.c.check("datafit initialised before use", Cond::B(self.0.inits.get() > 0));
        self.0.lips.view()
    }
}
impl<'r, 'a, C: Ctx, DM: DesignMatrix<Elem = C::F>, T: AsMultiTargets<Elem = C::F>> MultiTaskDatafit<C::F, DM, T> for Df<'r, 'a, C> {
    fn initialize(&mut self, _d: &DatasetBase<DM, T>) {
        self.0.inits.set(self.0.inits.get() + 1);
    }
    fn value(&self, _d: &DatasetBase<DM, T>, f: ArrayView2<C::F>) -> C::F {
        self.0.on_value(f)
    }
    fn gradient_j(&self, _d: &DatasetBase<DM, T>, f: ArrayView2<C::F>, j: usize) -> Array1<C::F> {
        Array1::from_vec(self.0.on_grad(f, j))
    }
    fn full_grad(&self, d: &DatasetBase<DM, T>, f: ArrayView2<C::F>) -> Array2<C::F> {
        let v: Vec<C::F> = (0..self.0.e())
            .flat_map(|j| <Self as MultiTaskDatafit<C::F, DM, T>>::gradient_j(self, d, f, j).to_vec())
            .collect();
        Array2::from_shape_vec((self.0.e(), self.0.t), v).unwrap()
    }
    fn step_size(&self) -> ArrayView1<'_, C::F> {
        self.0.c.check("datafit initialised before use", Cond::B(self.0.inits.get() > 0));
        self.0.lips.view()
    }
}
impl<'r, 'a, C: Ctx> Penalty<C::F> for Pn<'r, 'a, C> {
    fn value(&self, w: ArrayView1<C::F>) -> C::F {
        self.0.on_penalty(w.insert_axis(Axis(1)))
    }
    fn prox(&self, v: C::F, s: C::F) -> C::F {
        self.0.on_prox(&[v], s)[0]
    }
    fn subdiff_distance(&self, w: ArrayView1<C::F>, g: ArrayView1<C::F>, ws: ArrayView1<usize>) -> (Array1<C::F>, C::F) {
        self.0.on_subdiff(w.insert_axis(Axis(1)), g.insert_axis(Axis(1)), ws)
    }
}
impl<'r, 'a, C: Ctx> MultiTaskPenalty<C::F> for Pn<'r, 'a, C> {
    fn value(&self, w: ArrayView2<C::F>) -> C::F {
        self.0.on_penalty(w)
    }
    fn prox(&self, v: ArrayView1<C::F>, s: C::F) -> Array1<C::F> {
        Array1::from_vec(self.0.on_prox(&v.to_vec(), s))
    }
    fn subdiff_distance(&self, w: ArrayView2<C::F>, g: ArrayView2<C::F>, ws: ArrayView1<usize>) -> (Array1<C::F>, C::F) {
        self.0.on_subdiff(w, g, ws)
    }
}
