//! what code written for `f64` expects of its numbers, for `Sym` (the Python bindings are not generic)
use crate::sym::Sym;
use num_traits::Float;
use std::ops::*;

pub trait ToSym {
    fn to_sym(self) -> Sym;
}
impl ToSym for Sym {
    fn to_sym(self) -> Sym {
        self
    }
}
macro_rules! conv {
    ($($t:ty),*) => { $( impl ToSym for $t { fn to_sym(self) -> Sym { Sym::f(self as f64) } } )* };
}
conv!(f64, f32, usize, isize, u64, i64, u32, i32, u16, i16, u8, i8);
impl ToSym for bool {
    fn to_sym(self) -> Sym {
        Sym(self as u32)
    }
}
macro_rules! same {
    ($($n:ident($($a:ident: $t:ty),*) -> $r:ty;)*) => {
        impl Sym {
            pub const INFINITY: Sym = Sym(2);
            pub const NEG_INFINITY: Sym = Sym(3);
            pub const NAN: Sym = Sym(4);
            pub const EPSILON: Sym = Sym(5);
            pub const MAX: Sym = Sym(6);
            pub const MIN: Sym = Sym(7);
            pub const MIN_POSITIVE: Sym = Sym(8);
            $( pub fn $n(self $(, $a: $t)*) -> $r { Float::$n(self $(, $a)*) } )*
        }
    };
}
same! {
    is_nan() -> bool; is_infinite() -> bool; is_finite() -> bool; is_normal() -> bool;
    is_sign_positive() -> bool; is_sign_negative() -> bool;
    floor() -> Sym; ceil() -> Sym; round() -> Sym; trunc() -> Sym; fract() -> Sym;
    abs() -> Sym; signum() -> Sym; recip() -> Sym; sqrt() -> Sym; cbrt() -> Sym;
    exp() -> Sym; exp2() -> Sym; ln() -> Sym; log2() -> Sym; log10() -> Sym; exp_m1() -> Sym; ln_1p() -> Sym;
    powi(n: i32) -> Sym; powf(e: Sym) -> Sym; log(b: Sym) -> Sym;
    max(o: Sym) -> Sym; min(o: Sym) -> Sym; hypot(o: Sym) -> Sym; mul_add(a: Sym, b: Sym) -> Sym;
}
impl Sym {
    pub fn clamp(self, lo: Sym, hi: Sym) -> Sym {
        if self < lo {
            lo
        } else if self > hi {
            hi
        } else {
            self
        }
    }
    pub fn total_cmp(&self, o: &Sym) -> std::cmp::Ordering {
        self.partial_cmp(o).expect("total_cmp of NaN")
    }
}
impl std::iter::Product for Sym {
    fn product<I: Iterator<Item = Sym>>(it: I) -> Sym {
        it.fold(Sym(1), |a, b| a * b)
    }
}
impl<'a> std::iter::Product<&'a Sym> for Sym {
    fn product<I: Iterator<Item = &'a Sym>>(it: I) -> Sym {
        it.fold(Sym(1), |a, b| a * *b)
    }
}
macro_rules! refs {
    ($($tr:ident $f:ident),*) => { $(
        impl<'a> $tr<Sym> for &'a Sym { type Output = Sym; fn $f(self, o: Sym) -> Sym { $tr::$f(*self, o) } }
        impl<'a, 'b> $tr<&'b Sym> for &'a Sym { type Output = Sym; fn $f(self, o: &'b Sym) -> Sym { $tr::$f(*self, *o) } }
    )* };
}
refs!(Add add, Sub sub, Mul mul, Div div);
impl<'a> Neg for &'a Sym {
    type Output = Sym;
    fn neg(self) -> Sym {
        -*self
    }
}
