//! Laurent polynomials with rational coefficients over "atoms".
//! Pure data structure part: no knowledge of what an atom means.
use num_bigint::BigInt;
use num_integer::Integer;
use num_rational::BigRational;
use num_traits::{One, Signed, Zero};
use std::cmp::Ordering;
use std::collections::HashMap;

pub type Q = BigRational;
pub type Mono = Vec<(u32, i32)>;

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Poly {
    /// sorted by descending lexicographic order, no zero coefficients
    pub t: Vec<(Mono, Q)>,
}

/// lexicographic monomial order, the atom with the smallest id being the most significant
pub fn lex(a: &Mono, b: &Mono) -> Ordering {
    let (mut i, mut j) = (0, 0);
    loop {
        match (a.get(i), b.get(j)) {
            (None, None) => return Ordering::Equal,
            (Some(&(_, e)), None) => return e.cmp(&0),
            (None, Some(&(_, e))) => return 0.cmp(&e),
            (Some(&(x, e)), Some(&(y, f))) => {
                if x == y {
                    if e != f {
                        return e.cmp(&f);
                    }
                    i += 1;
                    j += 1;
                } else if x < y {
                    return e.cmp(&0);
                } else {
                    return 0.cmp(&f);
                }
            }
        }
    }
}

pub fn mono_mul(a: &Mono, b: &Mono) -> Mono {
    let mut r = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        if j >= b.len() || (i < a.len() && a[i].0 < b[j].0) {
            r.push(a[i]);
            i += 1;
        } else if i >= a.len() || b[j].0 < a[i].0 {
            r.push(b[j]);
            j += 1;
        } else {
            let e = a[i].1 + b[j].1;
            if e != 0 {
                r.push((a[i].0, e));
            }
            i += 1;
            j += 1;
        }
    }
    r
}

pub fn mono_pow(a: &Mono, k: i32) -> Mono {
    if k == 0 {
        return vec![];
    }
    a.iter().map(|&(x, e)| (x, e * k)).collect()
}

pub fn mono_exp(m: &Mono, a: u32) -> i32 {
    m.iter().find(|x| x.0 == a).map(|x| x.1).unwrap_or(0)
}

impl Poly {
    pub fn zero() -> Poly {
        Poly { t: vec![] }
    }
    pub fn cst(q: Q) -> Poly {
        if q.is_zero() {
            Poly::zero()
        } else {
            Poly { t: vec![(vec![], q)] }
        }
    }
    pub fn int(n: i64) -> Poly {
        Poly::cst(Q::from_integer(BigInt::from(n)))
    }
    pub fn atom(a: u32) -> Poly {
        Poly { t: vec![(vec![(a, 1)], Q::one())] }
    }
    pub fn is_zero(&self) -> bool {
        self.t.is_empty()
    }
    pub fn as_const(&self) -> Option<Q> {
        match self.t.len() {
            0 => Some(Q::zero()),
            1 if self.t[0].0.is_empty() => Some(self.t[0].1.clone()),
            _ => None,
        }
    }
    pub fn from_map(m: HashMap<Mono, Q>) -> Poly {
        let mut t: Vec<(Mono, Q)> = m.into_iter().filter(|(_, q)| !q.is_zero()).collect();
        t.sort_by(|a, b| lex(&b.0, &a.0));
        Poly { t }
    }
    pub fn scale(&self, q: &Q) -> Poly {
        if q.is_zero() {
            return Poly::zero();
        }
        Poly { t: self.t.iter().map(|(m, c)| (m.clone(), c * q)).collect() }
    }
    pub fn neg(&self) -> Poly {
        Poly { t: self.t.iter().map(|(m, c)| (m.clone(), -c)).collect() }
    }
    pub fn add(&self, o: &Poly) -> Poly {
        let mut r = Vec::with_capacity(self.t.len() + o.t.len());
        let (mut i, mut j) = (0, 0);
        while i < self.t.len() || j < o.t.len() {
            if j >= o.t.len() {
                r.push(self.t[i].clone());
                i += 1;
                continue;
            }
            if i >= self.t.len() {
                r.push(o.t[j].clone());
                j += 1;
                continue;
            }
            match lex(&self.t[i].0, &o.t[j].0) {
                Ordering::Greater => {
                    r.push(self.t[i].clone());
                    i += 1;
                }
                Ordering::Less => {
                    r.push(o.t[j].clone());
                    j += 1;
                }
                Ordering::Equal => {
                    let c = &self.t[i].1 + &o.t[j].1;
                    if !c.is_zero() {
                        r.push((self.t[i].0.clone(), c));
                    }
                    i += 1;
                    j += 1;
                }
            }
        }
        Poly { t: r }
    }
    pub fn sub(&self, o: &Poly) -> Poly {
        self.add(&o.neg())
    }
    /// multiplication without any rewriting of atoms
    pub fn mul_raw(&self, o: &Poly) -> Poly {
        if let Some(c) = o.as_const() {
            return self.scale(&c);
        }
        if let Some(c) = self.as_const() {
            return o.scale(&c);
        }
        let mut m: HashMap<Mono, Q> = HashMap::new();
        for (a, x) in &self.t {
            for (b, y) in &o.t {
                *m.entry(mono_mul(a, b)).or_insert_with(Q::zero) += x * y;
            }
        }
        Poly::from_map(m)
    }
    pub fn mul_mono(&self, mono: &Mono, q: &Q) -> Poly {
        let mut t: Vec<(Mono, Q)> = self.t.iter().map(|(m, c)| (mono_mul(m, mono), c * q)).collect();
        t.sort_by(|a, b| lex(&b.0, &a.0));
        Poly { t }
    }
    /// atoms occurring in the polynomial
    pub fn atoms(&self) -> Vec<u32> {
        let mut v: Vec<u32> = self.t.iter().flat_map(|(m, _)| m.iter().map(|x| x.0)).collect();
        v.sort();
        v.dedup();
        v
    }
    pub fn has_neg(&self) -> bool {
        self.t.iter().any(|(m, _)| m.iter().any(|x| x.1 < 0))
    }
    /// (c, p) with self = c * p, p with coprime integer coefficients and a positive leading one
    pub fn primitive(&self) -> (Q, Poly) {
        if self.is_zero() {
            return (Q::one(), Poly::zero());
        }
        let mut l = BigInt::one();
        for (_, c) in &self.t {
            l = l.lcm(c.denom());
        }
        let mut g = BigInt::zero();
        for (_, c) in &self.t {
            g = g.gcd(&(c.numer() * (&l / c.denom())));
        }
        let mut c = Q::new(g, l);
        if self.t[0].1.is_negative() {
            c = -c;
        }
        let inv = c.recip();
        (c, self.scale(&inv))
    }
    /// the monomial of the minimum exponent of every atom
    pub fn content(&self) -> Mono {
        if self.t.is_empty() {
            return vec![];
        }
        let mut r = vec![];
        for a in self.atoms() {
            let e = self.t.iter().map(|(m, _)| mono_exp(m, a)).min().unwrap();
            if e != 0 {
                r.push((a, e));
            }
        }
        r
    }
    /// exact division (both without negative exponents); None if not exact
    pub fn exact_div(&self, d: &Poly) -> Option<Poly> {
        if d.is_zero() || self.has_neg() || d.has_neg() {
            return None;
        }
        if self.is_zero() {
            return Some(Poly::zero());
        }
        let (lm, lc) = &d.t[0];
        let mut r = self.clone();
        let mut q: Vec<(Mono, Q)> = vec![];
        let inv = mono_pow(lm, -1);
        for _ in 0..400 {
            if r.is_zero() {
                let mut t = q;
                t.sort_by(|a, b| lex(&b.0, &a.0));
                return Some(Poly { t });
            }
            let m = mono_mul(&r.t[0].0, &inv);
            if m.iter().any(|x| x.1 < 0) {
                return None;
            }
            let c = &r.t[0].1 / lc;
            r = r.sub(&d.mul_mono(&m, &c));
            q.push((m, c));
        }
        None
    }
    /// exact square root (up to sign) if self is the square of a polynomial
    pub fn square_root(&self) -> Option<Poly> {
        if self.is_zero() {
            return Some(Poly::zero());
        }
        if self.has_neg() {
            return None;
        }
        let (m, c) = &self.t[0];
        if m.iter().any(|x| x.1 % 2 != 0) {
            return None;
        }
        let lc = qsqrt(c)?;
        let lm: Mono = m.iter().map(|&(a, e)| (a, e / 2)).collect();
        let mut root = Poly { t: vec![(lm.clone(), lc.clone())] };
        let inv = mono_pow(&lm, -1);
        let two = Q::from_integer(BigInt::from(2));
        for _ in 0..60 {
            let r = self.sub(&root.mul_raw(&root));
            if r.is_zero() {
                return Some(root);
            }
            let mm = mono_mul(&r.t[0].0, &inv);
            if mm.iter().any(|x| x.1 < 0) {
                return None;
            }
            if lex(&mm, &root.t[root.t.len() - 1].0) != Ordering::Less {
                return None;
            }
            let cc = &r.t[0].1 / (&two * &lc);
            root.t.push((mm, cc));
        }
        None
    }
    pub fn degree(&self) -> i32 {
        self.t.iter().map(|(m, _)| m.iter().map(|x| x.1.abs()).sum::<i32>()).max().unwrap_or(0)
    }
}

fn isqrt(n: &BigInt) -> Option<BigInt> {
    if n.is_negative() {
        return None;
    }
    let r = n.sqrt();
    if &(&r * &r) == n {
        Some(r)
    } else {
        None
    }
}

pub fn qsqrt(q: &Q) -> Option<Q> {
    Some(Q::new(isqrt(q.numer())?, isqrt(q.denom())?))
}

/// n = s^k * rest with s maximal for small prime factors
pub fn extract_power(n: &BigInt, k: u32) -> (BigInt, BigInt) {
    let mut s = BigInt::one();
    let mut r = n.clone();
    let mut p = 2u32;
    while p < 200 {
        let pk = BigInt::from(p).pow(k);
        while (&r % &pk).is_zero() && !r.is_zero() {
            r /= &pk;
            s *= p;
        }
        p += 1;
    }
    let root = r.nth_root(k);
    if root.pow(k) == r {
        return (s * root, BigInt::one());
    }
    (s, r)
}

/// simplest rational within half an ulp of a finite double
pub fn rationalise(x: f64) -> Q {
    if x == 0.0 {
        return Q::zero();
    }
    let exact = Q::from_float(x).unwrap();
    if exact.is_integer() {
        return exact;
    }
    let neg = x < 0.0;
    let a = x.abs();
    let bits = a.to_bits();
    let up = Q::from_float(f64::from_bits(bits + 1)).unwrap_or_else(|| Q::from_float(a).unwrap());
    let dn = Q::from_float(f64::from_bits(bits - 1)).unwrap();
    let e = Q::from_float(a).unwrap();
    let two = Q::from_integer(BigInt::from(2));
    let lo = (&e + &dn) / &two;
    let hi = (&e + &up) / &two;
    let r = simplest(&lo, &hi);
    if neg {
        -r
    } else {
        r
    }
}

fn simplest(lo: &Q, hi: &Q) -> Q {
    // 0 < lo < hi
    let f = lo.floor();
    if &f == lo {
        return f;
    }
    if f.to_integer() < hi.floor().to_integer() {
        return f + Q::one();
    }
    let l = (hi - &f).recip();
    let h = (lo - &f).recip();
    f + simplest(&l, &h).recip()
}

pub fn q_to_f64(q: &Q) -> f64 {
    use num_traits::ToPrimitive;
    q.to_f64().unwrap_or(f64::NAN)
}
