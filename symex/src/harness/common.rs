//! shared pieces of the harnesses
use crate::ctx::*;
use ndarray::{Array1, Array2, ArrayView1, ArrayView2, ShapeBuilder};
use num_traits::Float as _;
use num_traits::{One, Zero};
use sparseglm::datasets::csc_array::CSCArray;

pub fn q<F: Num>(n: i64, d: i64) -> F {
    F::rat(n, d)
}
pub fn zero<F: Num>() -> F {
    F::zero()
}

pub fn vecv<C: Ctx>(c: &C, name: &str, n: usize) -> Array1<C::F> {
    Array1::from_vec((0..n).map(|i| c.var(&format!("{}{}", name, i))).collect())
}
pub fn mat<C: Ctx>(c: &C, name: &str, m: usize, n: usize) -> Array2<C::F> {
    let v = (0..m * n).map(|k| c.var(&format!("{}{}_{}", name, k / n, k % n))).collect();
    Array2::from_shape_vec((m, n), v).unwrap()
}
/// a matrix whose entries outside the pattern (bit i*n+j) are zero
pub fn mat_pat<C: Ctx>(c: &C, name: &str, m: usize, n: usize, pat: usize) -> Array2<C::F> {
    let v = (0..m * n)
        .map(|k| if pat >> k & 1 == 1 { c.var(&format!("{}{}_{}", name, k / n, k % n)) } else { zero() })
        .collect();
    Array2::from_shape_vec((m, n), v).unwrap()
}

pub struct Csc<F> {
    pub data: Array1<F>,
    pub indices: Array1<i32>,
    pub indptr: Array1<i32>,
}
impl<F: Num> Csc<F> {
    /// stores exactly the entries of the pattern; `rev` lists the rows of a column in descending order
    pub fn new(x: &Array2<F>, pat: usize, rev: bool) -> Csc<F> {
        let n = x.ncols();
        Csc::keep(x, |i, j| pat >> (i * n + j) & 1 == 1, rev)
    }
    pub fn keep(x: &Array2<F>, keep: impl Fn(usize, usize) -> bool, rev: bool) -> Csc<F> {
        let (m, n) = x.dim();
        let (mut d, mut r, mut p) = (vec![], vec![], vec![0i32]);
        for j in 0..n {
            let rows: Vec<usize> = if rev { (0..m).rev().collect() } else { (0..m).collect() };
            for i in rows {
                if keep(i, j) {
                    d.push(x[[i, j]]);
                    r.push(i as i32);
                }
            }
            p.push(d.len() as i32);
        }
        Csc { data: d.into(), indices: r.into(), indptr: p.into() }
    }
    pub fn full(x: &Array2<F>) -> Csc<F> {
        Csc::keep(x, |_, _| true, false)
    }
    /// leaves out the zeros, as sparse data usually come
    pub fn thin<C: Ctx<F = F>>(c: &C, x: &Array2<F>) -> Csc<F> {
        Csc::keep(x, |i, j| !c.same(x[[i, j]], zero()), false)
    }
    pub fn view(&self) -> CSCArray<'_, F> {
        CSCArray::new(self.data.view(), self.indices.view(), self.indptr.view())
    }
}

/// the same matrix in another memory layout: 0 row-major, 1 column-major, 2 every second row/column of a larger
/// matrix, 3 reversed strides
pub struct Lay<F> {
    store: Array2<F>,
    kind: usize,
}
impl<F: Num> Lay<F> {
    pub fn new(x: ArrayView2<F>, kind: usize) -> Lay<F> {
        let (m, n) = x.dim();
        let store = match kind {
            0 => Array2::from_shape_fn((m, n), |i| x[i]),
            1 => Array2::from_shape_fn((m, n).f(), |i| x[i]),
            2 => Array2::from_shape_fn((2 * m, 2 * n), |(i, j)| {
                if i % 2 == 0 && j % 2 == 0 {
                    x[[i / 2, j / 2]]
                } else {
                    F::rat(77, 1)
                }
            }),
            _ => Array2::from_shape_fn((m, n), |(i, j)| x[[m - 1 - i, n - 1 - j]]),
        };
        Lay { store, kind }
    }
    pub fn view(&self) -> ArrayView2<'_, F> {
        use ndarray::s;
        match self.kind {
            2 => self.store.slice(s![..;2, ..;2]),
            3 => self.store.slice(s![..;-1, ..;-1]),
            _ => self.store.view(),
        }
    }
}

pub fn dot<F: Num>(a: &[F], b: &[F]) -> F {
    let mut s = F::zero();
    for i in 0..a.len() {
        s = s + a[i] * b[i];
    }
    s
}
pub fn xw<F: Num>(x: &Array2<F>, w: &[F]) -> Vec<F> {
    (0..x.nrows()).map(|i| dot(&x.row(i).to_vec(), w)).collect()
}
pub fn xw2<F: Num>(x: &Array2<F>, w: &Array2<F>) -> Array2<F> {
    let mut r = Array2::from_elem((x.nrows(), w.ncols()), F::zero());
    for i in 0..x.nrows() {
        for t in 0..w.ncols() {
            for j in 0..x.ncols() {
                r[[i, t]] = r[[i, t]] + x[[i, j]] * w[[j, t]];
            }
        }
    }
    r
}
pub fn same_all<C: Ctx>(c: &C, a: &[C::F], b: &[C::F]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| c.same(*x, *y))
}
pub fn eq1<F: Num>(a: ArrayView1<F>, b: ArrayView1<F>) -> Cond<F> {
    all_eq(&a.to_vec(), &b.to_vec())
}
pub fn eq2<F: Num>(a: ArrayView2<F>, b: ArrayView2<F>) -> Cond<F> {
    if a.dim() != b.dim() {
        return Cond::B(false);
    }
    all_eq(&a.iter().cloned().collect::<Vec<_>>(), &b.iter().cloned().collect::<Vec<_>>())
}
pub fn fin_all<F: Num>(a: &[F]) -> Cond<F> {
    and(a.iter().map(|x| finite(*x)).collect())
}
pub fn sq<F: Num>(x: F) -> F {
    x * x
}
pub fn nrm<F: Num>(v: &[F]) -> F {
    dot(v, v).sqrt()
}
pub fn one<F: Num>() -> F {
    F::one()
}
/// all ordered selections of k out of n
pub fn selections(n: usize, k: usize) -> Vec<Vec<usize>> {
    if k == 0 {
        return vec![vec![]];
    }
    let mut r = vec![];
    for p in selections(n, k - 1) {
        for i in 0..n {
            if !p.contains(&i) {
                let mut z = p.clone();
                z.push(i);
                r.push(z);
            }
        }
    }
    r
}
pub fn all_selections(n: usize) -> Vec<Vec<usize>> {
    (1..=n).flat_map(|k| selections(n, k)).collect()
}

/// the k-th of a fixed sequence of small rationals, zeros and repeated magnitudes included
pub fn fixed<F: Num>(k: usize) -> F {
    const V: [(i64, i64); 17] =
        [(3, 1), (-2, 1), (0, 1), (1, 2), (5, 3), (-7, 2), (1, 1), (0, 1), (-1, 4), (4, 1), (-5, 1), (2, 3), (9, 4), (-3, 1), (0, 1), (6, 1), (-1, 1)];
    let (a, b) = V[k % V.len()];
    F::rat(a, b)
}
/// fixed entries, except the listed ones, which are free
pub fn mostly<C: Ctx>(c: &C, name: &str, n: usize, from: usize, free: &[usize]) -> Array1<C::F> {
    Array1::from_shape_fn(n, |i| if free.contains(&i) { c.var(&format!("{}{}", name, i)) } else { fixed(from + i) })
}
/// a fixed matrix, `pat` (if any) as in `Csc::new`
pub fn fixed_mat<F: Num>(m: usize, n: usize, from: usize) -> Array2<F> {
    Array2::from_shape_fn((m, n), |(i, j)| fixed(from + i * n + j * 5 + i * j))
}
/// the pattern of the non-zero entries; `c.choose`-able extras keep some explicit zeros
pub fn pattern_of<C: Ctx>(c: &C, x: &Array2<C::F>) -> usize {
    let mut p = 0;
    for (k, v) in x.iter().enumerate() {
        if !c.same(*v, zero()) {
            p |= 1 << k;
        }
    }
    p
}
