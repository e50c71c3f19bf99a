//! `Sym`: a symbolic extended real implementing `sparseglm::Float`.
//! Running the crate's generic code at `F = Sym` executes the real implementation symbolically.
use crate::poly::*;
use crate::state::*;
use num_traits::{AsPrimitive, FromPrimitive, Num, NumCast, One, Signed, ToPrimitive, Zero};
use std::cell::RefCell;
use std::cmp::Ordering;
use std::fmt;
use std::num::FpCategory;
use std::ops::*;
use std::rc::Rc;

thread_local! {
    pub static ST: RefCell<Option<State>> = const { RefCell::new(None) };
}

pub fn st<R>(f: impl FnOnce(&mut State) -> R) -> R {
    ST.with(|s| f(s.borrow_mut().as_mut().expect("symbolic value used outside a symbolic run")))
}

#[derive(Clone, Copy, Default)]
pub struct Sym(pub u32);

impl Sym {
    pub fn val(self) -> Val {
        st(|s| s.val(self.0))
    }
    pub fn of(v: Val) -> Sym {
        Sym(st(|s| s.push(v)))
    }
    pub fn poly(p: Poly) -> Sym {
        Sym(st(|s| s.fin(p)))
    }
    pub fn rat(n: i64, d: i64) -> Sym {
        Sym::poly(Poly::cst(Q::new(n.into(), d.into())))
    }
    pub fn f(x: f64) -> Sym {
        if x.is_nan() {
            let b = x.to_bits();
            if b & TAGMASK == TAG {
                return Sym((b & 0xFFFF_FFFF) as u32);
            }
            if b >> 49 == 0x7FFE_0000_0000_0000 >> 49 && b & 0x1FFF_FFFF == 0 {
                return Sym((b >> 29 & 0xF_FFFF) as u32);
            }
            Sym::of(Val::NaN)
        } else if x == f64::INFINITY {
            Sym::of(Val::PInf)
        } else if x == f64::NEG_INFINITY {
            Sym::of(Val::NInf)
        } else {
            Sym::poly(Poly::cst(rationalise(x)))
        }
    }
    fn p(self) -> Option<Rc<Poly>> {
        match self.val() {
            Val::Fin(p) => Some(p),
            _ => None,
        }
    }
    pub fn show(self) -> String {
        st(|s| match s.val(self.0) {
            Val::Fin(p) => s.show(&p),
            Val::PInf => "inf".into(),
            Val::NInf => "-inf".into(),
            Val::NaN => "NaN".into(),
        })
    }
}

// symbolic values survive a round trip through f64 (NumCast) inside a NaN payload
const TAG: u64 = 0x7FFC_5A00_0000_0000;
const TAG32: u32 = 0x7FF0_0000;
const TAGMASK: u64 = 0xFFFF_FF00_0000_0000;

#[derive(PartialEq, Clone, Copy)]
enum S3 {
    N,
    Z,
    P,
}

/// sign of a finite polynomial, forking
fn sgn(s: &mut State, p: &Poly) -> S3 {
    if s.decide(p, ZER) {
        S3::Z
    } else if s.decide(p, POS) {
        S3::P
    } else {
        S3::N
    }
}

fn neg_val(v: &Val) -> Val {
    match v {
        Val::Fin(p) => Val::Fin(Rc::new(p.neg())),
        Val::PInf => Val::NInf,
        Val::NInf => Val::PInf,
        Val::NaN => Val::NaN,
    }
}

fn add_val(s: &mut State, a: &Val, b: &Val) -> Val {
    match (a, b) {
        (Val::Fin(p), Val::Fin(q)) => Val::Fin(Rc::new(s.add(p, q))),
        (Val::NaN, _) | (_, Val::NaN) => Val::NaN,
        (Val::PInf, Val::NInf) | (Val::NInf, Val::PInf) => Val::NaN,
        (Val::PInf, _) | (_, Val::PInf) => Val::PInf,
        _ => Val::NInf,
    }
}

fn inf_of(pos: bool) -> Val {
    if pos {
        Val::PInf
    } else {
        Val::NInf
    }
}

fn mul_val(s: &mut State, a: &Val, b: &Val) -> Val {
    match (a, b) {
        (Val::Fin(p), Val::Fin(q)) => Val::Fin(Rc::new(s.mul(p, q))),
        (Val::NaN, _) | (_, Val::NaN) => Val::NaN,
        (Val::Fin(p), i) | (i, Val::Fin(p)) => {
            let pos = matches!(i, Val::PInf);
            match sgn(s, p) {
                S3::Z => Val::NaN,
                S3::P => inf_of(pos),
                S3::N => inf_of(!pos),
            }
        }
        (x, y) => inf_of(matches!(x, Val::PInf) == matches!(y, Val::PInf)),
    }
}

fn div_val(s: &mut State, a: &Val, b: &Val) -> Val {
    match (a, b) {
        (Val::NaN, _) | (_, Val::NaN) => Val::NaN,
        (Val::Fin(p), Val::Fin(q)) => {
            if s.decide(q, ZER) {
                match sgn(s, p) {
                    S3::Z => Val::NaN,
                    S3::P => Val::PInf,
                    S3::N => Val::NInf,
                }
            } else {
                Val::Fin(Rc::new(s.div(p, q)))
            }
        }
        (Val::Fin(_), _) => Val::Fin(Rc::new(Poly::zero())),
        (i, Val::Fin(q)) => {
            let pos = matches!(i, Val::PInf);
            match sgn(s, q) {
                S3::N => inf_of(!pos),
                _ => inf_of(pos),
            }
        }
        _ => Val::NaN,
    }
}

macro_rules! binop {
    ($tr:ident, $m:ident, $tra:ident, $ma:ident, $f:expr) => {
        impl $tr for Sym {
            type Output = Sym;
            fn $m(self, o: Sym) -> Sym {
                st(|s| {
                    let (a, b) = (s.val(self.0), s.val(o.0));
                    let r = $f(s, &a, &b);
                    Sym(s.push(r))
                })
            }
        }
        impl<'a> $tr<&'a Sym> for Sym {
            type Output = Sym;
            fn $m(self, o: &'a Sym) -> Sym {
                self.$m(*o)
            }
        }
        impl $tra for Sym {
            fn $ma(&mut self, o: Sym) {
                *self = (*self).$m(o);
            }
        }
        impl<'a> $tra<&'a Sym> for Sym {
            fn $ma(&mut self, o: &'a Sym) {
                *self = (*self).$m(*o);
            }
        }
    };
}
binop!(Add, add, AddAssign, add_assign, add_val);
binop!(Sub, sub, SubAssign, sub_assign, |s: &mut State, a: &Val, b: &Val| add_val(s, a, &neg_val(b)));
binop!(Mul, mul, MulAssign, mul_assign, mul_val);
binop!(Div, div, DivAssign, div_assign, div_val);
binop!(Rem, rem, RemAssign, rem_assign, |s: &mut State, _a: &Val, _b: &Val| -> Val { s.abort("remainder") });

impl Neg for Sym {
    type Output = Sym;
    fn neg(self) -> Sym {
        Sym::of(neg_val(&self.val()))
    }
}

/// comparison of extended reals; None when unordered
fn cmp_mask(a: Sym, b: Sym, mask: u8) -> bool {
    st(|s| {
        let (x, y) = (s.val(a.0), s.val(b.0));
        let r = |v: &Val| match v {
            Val::PInf => 1,
            Val::NInf => -1,
            _ => 0,
        };
        match (&x, &y) {
            (Val::NaN, _) | (_, Val::NaN) => false,
            (Val::Fin(p), Val::Fin(q)) => {
                let d = s.add(p, &q.neg());
                s.decide(&d, mask)
            }
            _ => {
                let m = match r(&x).cmp(&r(&y)) {
                    Ordering::Less => NEG,
                    Ordering::Equal => ZER,
                    Ordering::Greater => POS,
                };
                m & mask != 0
            }
        }
    })
}

impl PartialEq for Sym {
    fn eq(&self, o: &Sym) -> bool {
        cmp_mask(*self, *o, ZER)
    }
    fn ne(&self, o: &Sym) -> bool {
        !cmp_mask(*self, *o, ZER)
    }
}

impl PartialOrd for Sym {
    fn partial_cmp(&self, o: &Sym) -> Option<Ordering> {
        if matches!(self.val(), Val::NaN) || matches!(o.val(), Val::NaN) {
            return None;
        }
        Some(if cmp_mask(*self, *o, NEG) {
            Ordering::Less
        } else if cmp_mask(*self, *o, ZER) {
            Ordering::Equal
        } else {
            Ordering::Greater
        })
    }
    fn lt(&self, o: &Sym) -> bool {
        cmp_mask(*self, *o, NEG)
    }
    fn le(&self, o: &Sym) -> bool {
        cmp_mask(*self, *o, LE)
    }
    fn gt(&self, o: &Sym) -> bool {
        cmp_mask(*self, *o, POS)
    }
    fn ge(&self, o: &Sym) -> bool {
        cmp_mask(*self, *o, GE)
    }
}

impl fmt::Debug for Sym {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "sym")
    }
}
impl fmt::Display for Sym {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "sym")
    }
}

impl Zero for Sym {
    fn zero() -> Sym {
        Sym(0)
    }
    fn is_zero(&self) -> bool {
        *self == Sym(0)
    }
}
impl One for Sym {
    fn one() -> Sym {
        Sym(1)
    }
}
impl Num for Sym {
    type FromStrRadixErr = ();
    fn from_str_radix(s: &str, r: u32) -> Result<Sym, ()> {
        f64::from_str_radix(s, r).map(Sym::f).map_err(|_| ())
    }
}
impl ToPrimitive for Sym {
    fn to_i64(&self) -> Option<i64> {
        self.p().and_then(|p| p.as_const()).and_then(|q| q.to_i64())
    }
    fn to_u64(&self) -> Option<u64> {
        self.p().and_then(|p| p.as_const()).and_then(|q| q.to_u64())
    }
    fn to_f64(&self) -> Option<f64> {
        Some(match self.val() {
            Val::PInf => f64::INFINITY,
            Val::NInf => f64::NEG_INFINITY,
            Val::NaN => f64::NAN,
            Val::Fin(p) => {
                if let Some(q) = p.as_const() {
                    let x = q_to_f64(&q);
                    if rationalise(x) == q {
                        return Some(x);
                    }
                }
                f64::from_bits(TAG | self.0 as u64)
            }
        })
    }
    fn to_f32(&self) -> Option<f32> {
        let x = self.to_f64().unwrap();
        if !x.is_nan() && (x as f32) as f64 == x || matches!(self.val(), Val::NaN) {
            return Some(x as f32);
        }
        // a tagged NaN: only error messages hold these; converting back gives the same number
        if self.0 >> 20 != 0 {
            st(|s| s.abort("f32 conversion"))
        }
        Some(f32::from_bits(TAG32 | self.0))
    }
}
impl NumCast for Sym {
    fn from<T: ToPrimitive>(n: T) -> Option<Sym> {
        n.to_f64().map(Sym::f)
    }
}
impl FromPrimitive for Sym {
    fn from_i64(n: i64) -> Option<Sym> {
        Some(Sym::rat(n, 1))
    }
    fn from_u64(n: u64) -> Option<Sym> {
        Some(Sym::rat(n as i64, 1))
    }
    fn from_f64(n: f64) -> Option<Sym> {
        Some(Sym::f(n))
    }
    fn from_f32(n: f32) -> Option<Sym> {
        Some(Sym::f(n as f64))
    }
}
impl AsPrimitive<usize> for Sym {
    fn as_(self) -> usize {
        match self.to_u64() {
            Some(x) => x as usize,
            None => st(|s| s.abort("symbolic value used as an index")),
        }
    }
}

fn unary(a: Sym, f: impl FnOnce(&mut State, &Val) -> Val) -> Sym {
    st(|s| {
        let v = s.val(a.0);
        let r = f(s, &v);
        Sym(s.push(r))
    })
}
fn fin(p: Poly) -> Val {
    Val::Fin(Rc::new(p))
}

impl Signed for Sym {
    fn abs(&self) -> Sym {
        num_traits::Float::abs(*self)
    }
    fn abs_sub(&self, o: &Sym) -> Sym {
        if *self <= *o {
            Sym(0)
        } else {
            *self - *o
        }
    }
    fn signum(&self) -> Sym {
        num_traits::Float::signum(*self)
    }
    fn is_positive(&self) -> bool {
        num_traits::Float::is_sign_positive(*self)
    }
    fn is_negative(&self) -> bool {
        num_traits::Float::is_sign_negative(*self)
    }
}
impl std::iter::Sum for Sym {
    fn sum<I: Iterator<Item = Sym>>(it: I) -> Sym {
        it.fold(Sym(0), |a, b| a + b)
    }
}
impl<'a> std::iter::Sum<&'a Sym> for Sym {
    fn sum<I: Iterator<Item = &'a Sym>>(it: I) -> Sym {
        it.fold(Sym(0), |a, b| a + *b)
    }
}
impl num_traits::MulAdd for Sym {
    type Output = Sym;
    fn mul_add(self, a: Sym, b: Sym) -> Sym {
        self * a + b
    }
}
impl ndarray::ScalarOperand for Sym {}
impl approx::AbsDiffEq for Sym {
    type Epsilon = Sym;
    fn default_epsilon() -> Sym {
        Sym::f(f64::EPSILON)
    }
    fn abs_diff_eq(&self, o: &Sym, e: Sym) -> bool {
        num_traits::Float::abs(*self - *o) <= e
    }
}
impl sparseglm::Float for Sym {
    type Lapack = Sym;
}

fn unsup(name: &str) -> ! {
    st(|s| s.abort(name))
}

impl num_traits::Float for Sym {
    fn nan() -> Sym {
        Sym::of(Val::NaN)
    }
    fn infinity() -> Sym {
        Sym::of(Val::PInf)
    }
    fn neg_infinity() -> Sym {
        Sym::of(Val::NInf)
    }
    fn neg_zero() -> Sym {
        Sym(0)
    }
    fn min_value() -> Sym {
        Sym::f(f64::MIN)
    }
    fn min_positive_value() -> Sym {
        Sym::f(f64::MIN_POSITIVE)
    }
    fn epsilon() -> Sym {
        Sym::f(f64::EPSILON)
    }
    fn max_value() -> Sym {
        Sym::f(f64::MAX)
    }
    fn is_nan(self) -> bool {
        matches!(self.val(), Val::NaN)
    }
    fn is_infinite(self) -> bool {
        matches!(self.val(), Val::PInf | Val::NInf)
    }
    fn is_finite(self) -> bool {
        matches!(self.val(), Val::Fin(_))
    }
    fn is_normal(self) -> bool {
        self.is_finite() && self != Sym(0)
    }
    fn classify(self) -> FpCategory {
        match self.val() {
            Val::NaN => FpCategory::Nan,
            Val::PInf | Val::NInf => FpCategory::Infinite,
            _ => {
                if self == Sym(0) {
                    FpCategory::Zero
                } else {
                    FpCategory::Normal
                }
            }
        }
    }
    fn floor(self) -> Sym {
        unsup("floor")
    }
    fn ceil(self) -> Sym {
        unsup("ceil")
    }
    fn round(self) -> Sym {
        unsup("round")
    }
    fn trunc(self) -> Sym {
        unsup("trunc")
    }
    fn fract(self) -> Sym {
        unsup("fract")
    }
    fn abs(self) -> Sym {
        unary(self, |s, v| match v {
            Val::Fin(p) => fin(s.abs(p)),
            Val::NaN => Val::NaN,
            _ => Val::PInf,
        })
    }
    fn signum(self) -> Sym {
        unary(self, |s, v| match v {
            Val::Fin(p) => fin(Poly::int(if s.decide(p, GE) { 1 } else { -1 })),
            Val::NaN => Val::NaN,
            Val::PInf => fin(Poly::int(1)),
            Val::NInf => fin(Poly::int(-1)),
        })
    }
    fn is_sign_positive(self) -> bool {
        match self.val() {
            Val::Fin(p) => st(|s| s.decide(&p, GE)),
            Val::NInf => false,
            _ => true,
        }
    }
    fn is_sign_negative(self) -> bool {
        !self.is_sign_positive()
    }
    fn mul_add(self, a: Sym, b: Sym) -> Sym {
        self * a + b
    }
    fn recip(self) -> Sym {
        Sym(1) / self
    }
    fn powi(self, n: i32) -> Sym {
        if n < 0 {
            return Sym(1) / num_traits::Float::powi(self, -n);
        }
        let mut r = Sym(1);
        for _ in 0..n {
            r = r * self;
        }
        r
    }
    fn powf(self, e: Sym) -> Sym {
        let q = match e.p().and_then(|p| p.as_const()) {
            Some(q) => q,
            None => unsup("symbolic exponent"),
        };
        let a = q.numer().to_i32().unwrap_or_else(|| unsup("large exponent"));
        let b = q.denom().to_u32().unwrap_or_else(|| unsup("large exponent"));
        if b > 12 {
            unsup("exponent with a large denominator");
        }
        if b == 1 {
            return num_traits::Float::powi(self, a);
        }
        let r = unary(self, |s, v| match v {
            Val::Fin(p) => {
                if s.decide(p, GE) {
                    fin(s.root(p, b))
                } else {
                    Val::NaN
                }
            }
            Val::PInf => Val::PInf,
            _ => Val::NaN,
        });
        num_traits::Float::powi(r, a)
    }
    fn sqrt(self) -> Sym {
        unary(self, |s, v| match v {
            Val::Fin(p) => {
                if s.decide(p, GE) {
                    fin(s.sqrt(p))
                } else {
                    Val::NaN
                }
            }
            Val::PInf => Val::PInf,
            _ => Val::NaN,
        })
    }
    fn exp(self) -> Sym {
        unary(self, |s, v| match v {
            Val::Fin(p) => fin(s.exp(p)),
            Val::PInf => Val::PInf,
            Val::NInf => fin(Poly::zero()),
            Val::NaN => Val::NaN,
        })
    }
    fn exp2(self) -> Sym {
        unsup("exp2")
    }
    fn ln(self) -> Sym {
        unary(self, |s, v| match v {
            Val::Fin(p) => {
                if s.decide(p, POS) {
                    fin(s.ln(p))
                } else if s.decide(p, ZER) {
                    Val::NInf
                } else {
                    Val::NaN
                }
            }
            Val::PInf => Val::PInf,
            _ => Val::NaN,
        })
    }
    fn log(self, base: Sym) -> Sym {
        num_traits::Float::ln(self) / num_traits::Float::ln(base)
    }
    fn log2(self) -> Sym {
        unsup("log2")
    }
    fn log10(self) -> Sym {
        unsup("log10")
    }
    fn max(self, o: Sym) -> Sym {
        if self.is_nan() {
            o
        } else if o.is_nan() {
            self
        } else if self >= o {
            self
        } else {
            o
        }
    }
    fn min(self, o: Sym) -> Sym {
        if self.is_nan() {
            o
        } else if o.is_nan() {
            self
        } else if self <= o {
            self
        } else {
            o
        }
    }
    fn abs_sub(self, o: Sym) -> Sym {
        Signed::abs_sub(&self, &o)
    }
    fn cbrt(self) -> Sym {
        let neg = self < Sym(0);
        let r = num_traits::Float::powf(num_traits::Float::abs(self), Sym::rat(1, 3));
        if neg {
            -r
        } else {
            r
        }
    }
    fn hypot(self, o: Sym) -> Sym {
        num_traits::Float::sqrt(self * self + o * o)
    }
    fn sin(self) -> Sym {
        unsup("sin")
    }
    fn cos(self) -> Sym {
        unary(self, |s, v| match v {
            Val::Fin(p) => fin(s.cos(p)),
            _ => Val::NaN,
        })
    }
    fn tan(self) -> Sym {
        unsup("tan")
    }
    fn asin(self) -> Sym {
        unsup("asin")
    }
    fn acos(self) -> Sym {
        unary(self, |s, v| match v {
            Val::Fin(p) => {
                let lo = s.add(p, &Poly::int(1));
                let hi = s.add(p, &Poly::int(-1));
                if s.decide(&lo, GE) && s.decide(&hi, LE) {
                    let a = s.intern(Atom::Acos((**p).clone()));
                    fin(Poly::atom(a))
                } else {
                    Val::NaN
                }
            }
            _ => Val::NaN,
        })
    }
    fn atan(self) -> Sym {
        unsup("atan")
    }
    fn atan2(self, _: Sym) -> Sym {
        unsup("atan2")
    }
    fn sin_cos(self) -> (Sym, Sym) {
        unsup("sin_cos")
    }
    fn exp_m1(self) -> Sym {
        num_traits::Float::exp(self) - Sym(1)
    }
    fn ln_1p(self) -> Sym {
        num_traits::Float::ln(self + Sym(1))
    }
    fn sinh(self) -> Sym {
        let e = num_traits::Float::exp(self);
        (e - Sym(1) / e) / Sym::rat(2, 1)
    }
    fn cosh(self) -> Sym {
        let e = num_traits::Float::exp(self);
        (e + Sym(1) / e) / Sym::rat(2, 1)
    }
    fn tanh(self) -> Sym {
        let e = num_traits::Float::exp(self + self);
        (e - Sym(1)) / (e + Sym(1))
    }
    fn asinh(self) -> Sym {
        unsup("asinh")
    }
    fn acosh(self) -> Sym {
        unsup("acosh")
    }
    fn atanh(self) -> Sym {
        unsup("atanh")
    }
    fn integer_decode(self) -> (u64, i16, i8) {
        unsup("integer_decode")
    }
    fn to_degrees(self) -> Sym {
        unsup("to_degrees")
    }
    fn to_radians(self) -> Sym {
        unsup("to_radians")
    }
}
