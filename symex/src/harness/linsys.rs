//! P16: the linear solver
use super::common::*;
use crate::ctx::*;
use crate::engine::H;
use crate::h;
use num_traits::Float as _;
use ndarray::{Array1, Array2};
use sparseglm::utils::helpers::solve_lin_sys;

/// determinant by cofactor expansion
pub fn det<F: Num>(a: &Array2<F>) -> F {
    let n = a.nrows();
    if n == 0 {
        return one();
    }
    let mut d = zero::<F>();
    for j in 0..n {
        let m = Array2::from_shape_fn((n - 1, n - 1), |(r, c)| a[[r + 1, if c < j { c } else { c + 1 }]]);
        let t = a[[0, j]] * det(&m);
        d = if j % 2 == 0 { d + t } else { d - t };
    }
    d
}

/// the same by elimination, for constants
fn det_const<C: Ctx>(c: &C, a: &Array2<C::F>) -> C::F {
    let n = a.nrows();
    let mut a = a.clone();
    let mut d = one::<C::F>();
    for i in 0..n {
        let Some(p) = (i..n).find(|p| !c.same(a[[*p, i]], zero())) else {
            return zero();
        };
        if p != i {
            d = -d;
            for k in 0..n {
                a.swap([p, k], [i, k]);
            }
        }
        d = d * a[[i, i]];
        for r in i + 1..n {
            let f = a[[r, i]] / a[[i, i]];
            for k in i..n {
                a[[r, k]] = a[[r, k]] - f * a[[i, k]];
            }
        }
    }
    d
}

fn decide<C: Ctx>(c: &C, a: &Array2<C::F>, b: &Array1<C::F>, layout: usize) {
    let n = b.len();
    let lay = Lay::new(a.view(), layout);
    match solve_lin_sys(lay.view(), b.view()) {
        Ok(x) => {
            c.cover("solved");
            c.check("length", Cond::B(x.len() == n));
            c.check("finite", fin_all(&x.to_vec()));
            for i in 0..n {
                c.check("solves the system", eq(dot(&a.row(i).to_vec(), &x.to_vec()), b[i]));
            }
        }
        Err(_) => {
            c.cover("refused");
            let d = if n > 6 { det_const(c, a) } else { det(a) };
            c.check("refused only if singular", eq(d, zero()));
        }
    }
}
fn system<C: Ctx>(c: &C, n: usize) {
    let a = mat(c, "a", n, n);
    let b = vecv(c, "b", n);
    decide(c, &a, &b, c.choose("layout", 4));
}
/// every zero pattern of the matrix, the other entries free
fn pattern<C: Ctx>(c: &C, n: usize) {
    let pat = c.choose("pattern", 1 << (n * n));
    let a = mat_pat(c, "a", n, n, pat);
    for i in 0..n * n {
        if pat >> i & 1 == 1 {
            c.assume(nz(a[[i / n, i % n]]));
        }
    }
    let b = vecv(c, "b", n);
    decide(c, &a, &b, 0);
}
/// symmetric systems with right-hand side one, the shape the solvers ask for
fn gram<C: Ctx>(c: &C, n: usize) {
    let v = vecv(c, "a", n * (n + 1) / 2);
    let ix = |i: usize, j: usize| {
        let (i, j) = if i < j { (i, j) } else { (j, i) };
        i * n - i * (i + 1) / 2 + j
    };
    let a = Array2::from_shape_fn((n, n), |(i, j)| v[ix(i, j)]);
    decide(c, &a, &Array1::from_elem(n, one()), 0);
}
/// larger systems: fixed matrices (well and badly ordered, singular, triangular, sparse), every right-hand side
fn fixed<C: Ctx>(c: &C, n: usize) {
    let kind = c.choose("kind", 12);
    let two = |e: i64| C::F::rat(2, 1).powi(e as i32);
    let a = Array2::from_shape_fn((n, n), |(i, j)| {
        let (a, b) = (i as i64, j as i64);
        let v = match kind {
            // dense, needs every elimination step
            0 => 1 + (a * a + 3 * b + a * b * b) % 7 + if i == j { 9 } else { 0 },
            // lower and upper triangular
            1 => if j <= i { 1 + (a + 2 * b) % 5 } else { 0 },
            2 => if j >= i { 1 + (2 * a + b) % 5 } else { 0 },
            // anti-diagonal: every pivot is zero until rows are swapped
            3 => if i + j + 1 == n { a + 1 } else { 0 },
            // cyclic shift plus identity
            4 => if j == i { 2 } else if j == (i + 1) % n { 1 } else { 0 },
            // rank one
            5 => (a + 1) * (b + 1),
            // two equal rows
            6 => if i + 1 == n { 1 + (b * b) % 3 } else { 1 + (a + b * b) % 3 + if i == j { 5 * a } else { 0 } },
            // symmetric tridiagonal, as from iterates moving along a line
            7 => if i == j { 2 } else if i + 1 == j || j + 1 == i { -1 } else { 0 },
            // rows in very different units
            8 => return C::F::rat(1 + (a * 3 + b * b) % 5 + if i == j { 7 } else { 0 }, 1) * two(if i % 2 == 0 { -40 } else { 30 }),
            // columns in very different units, the small ones first
            9 => return C::F::rat(1 + (a + b * b) % 4 + if i == j { 6 } else { 0 }, 1) * two(8 * b - 40),
            // nearly singular
            10 => return C::F::rat((a + 1) * (b + 1), 1) + if i == j { two(-45) } else { zero() },
            // a permutation of order n
            _ => if j == (i + n / 2) % n { 1 } else { 0 },
        };
        C::F::rat(v, 1)
    });
    decide(c, &a, &vecv(c, "b", n), if n > 6 { c.choose("layout", 4) } else { 0 });
}
/// larger systems with a few free entries
fn bordered<C: Ctx>(c: &C, n: usize) {
    let (r, s) = (c.choose("row", n), c.choose("column", n));
    let p = c.var("p");
    let a = Array2::from_shape_fn((n, n), |(i, j)| {
        if (i, j) == (r, s) {
            p
        } else {
            C::F::rat([2, -1, 0, 0, 1, 0][(j + n - i) % n % 6], 1)
        }
    });
    decide(c, &a, &vecv(c, "b", n), 0);
}
fn empty<C: Ctx>(c: &C) {
    let a = Array2::from_shape_vec((0, 0), vec![]).unwrap();
    let b = Array1::from_vec(vec![]);
    decide::<C>(c, &a, &b, 0);
}

const FN: &[&str] = &["solve_lin_sys"];
pub fn register(v: &mut Vec<H>) {
    h!(v, "P16", "size_0", "empty system", funcs: FN, bounds: "0 unknowns", |c| empty(c));
    h!(v, "P16", "size_1", "one unknown", funcs: FN, bounds: "all reals", |c| system(c, 1), need: &["solved", "refused"]);
    h!(v, "P16", "size_2", "two unknowns", funcs: FN, bounds: "all 2x2 matrices and right-hand sides, four layouts", |c| system(c, 2), need: &["solved", "refused"]);
    h!(v, "P16", "size_3", "three unknowns", funcs: FN, bounds: "all 3x3 matrices and right-hand sides", |c| { let a = mat(c, "a", 3, 3); let b = vecv(c, "b", 3); decide(c, &a, &b, 0) }, need: &["solved", "refused"]);
    h!(v, "P16", "size_3_patterns", "three unknowns, every zero pattern", funcs: FN, bounds: "all 512 zero patterns of a 3x3 matrix", |c| pattern(c, 3), deep: true);
    h!(v, "P16", "fixed_4", "four unknowns", funcs: FN, bounds: "twelve fixed 4x4 matrices, every right-hand side", |c| fixed(c, 4), need: &["solved", "refused"]);
    h!(v, "P16", "fixed_5", "five unknowns", funcs: FN, bounds: "twelve fixed 5x5 matrices, every right-hand side", |c| fixed(c, 5), need: &["solved", "refused"]);
    h!(v, "P16", "fixed_6", "six unknowns", funcs: FN, bounds: "twelve fixed 6x6 matrices, every right-hand side", |c| fixed(c, 6), need: &["solved", "refused"]);
    h!(v, "P16", "fixed_8", "eight unknowns", funcs: FN, bounds: "twelve fixed 8x8 matrices, four layouts, every right-hand side", |c| fixed(c, 8), need: &["solved", "refused"]);
    h!(v, "P16", "fixed_12", "twelve unknowns", funcs: FN, bounds: "twelve fixed 12x12 matrices, four layouts, every right-hand side", |c| fixed(c, 12), need: &["solved", "refused"]);
    h!(v, "P16", "bordered_4", "four unknowns, one entry of the matrix free", funcs: FN, bounds: "a circulant 4x4 matrix with any entry replaced by any real", |c| bordered(c, 4), need: &["solved", "refused"]);
    h!(v, "P16", "bordered_5", "five unknowns, one entry of the matrix free", funcs: FN, bounds: "a circulant 5x5 matrix with any entry replaced by any real", |c| bordered(c, 5), need: &["solved", "refused"]);
    h!(v, "P16", "gram_3", "symmetric systems", funcs: FN, bounds: "all symmetric 3x3 matrices", |c| gram(c, 3));
    h!(v, "P16", "gram_2", "symmetric systems", funcs: FN, bounds: "all symmetric 2x2 matrices", |c| gram(c, 2));
}
