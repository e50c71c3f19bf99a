//! Per-path symbolic state: meaning of atoms, rewriting, sign decisions (path forking), encoding to SMT.
use crate::poly::*;
use crate::smt::{Query, Res, Solver};
use num_bigint::BigInt;
use num_traits::{One, Signed, ToPrimitive, Zero};
use std::collections::{HashMap, HashSet};
use std::fmt::Write;
use std::rc::Rc;

pub const NEG: u8 = 1;
pub const ZER: u8 = 2;
pub const POS: u8 = 4;
pub const LE: u8 = NEG | ZER;
pub const GE: u8 = POS | ZER;
pub const NZ: u8 = NEG | POS;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Atom {
    Var(String),
    Den(Poly),
    Root(Poly, u32),
    Exp(Poly),
    Ln(Poly),
    Acos(Poly),
    /// cos(acos(a)/3), in [1/2, 1], 4u^3 - 3u = a
    Tri(Poly),
}

#[derive(Clone, Debug)]
pub enum Val {
    Fin(Rc<Poly>),
    PInf,
    NInf,
    NaN,
}

/// sign(product of f) is in mask
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Lit {
    pub f: Vec<Poly>,
    pub mask: u8,
}

#[derive(Clone, Debug)]
pub enum Form {
    T,
    F,
    L(Lit),
    And(Vec<Form>),
    Or(Vec<Form>),
}

pub enum Abort {
    Infeasible,
    Unsupported(String),
    Stop,
}

#[derive(Clone, Debug)]
pub struct VarInfo {
    pub name: String,
    pub atom: u32,
    pub lo: Option<f64>,
    pub hi: Option<f64>,
}

#[derive(Clone)]
pub struct Limits {
    pub branch_ms: u64,
    pub check_ms: u64,
    pub max_depth: usize,
}

pub struct State {
    pub vals: Vec<Val>,
    pub atoms: Vec<Atom>,
    atom_ix: HashMap<Atom, u32>,
    pub pc: Vec<Form>,
    pub facts: HashMap<Poly, u8>,
    prod_facts: HashMap<Vec<Poly>, u8>,
    pub prefix: Vec<u8>,
    pub trace: Vec<u8>,
    pub forks: Vec<Vec<u8>>,
    pub vars: Vec<VarInfo>,
    pub choices: Vec<(String, usize)>,
    pub solver: Solver,
    pub lim: Limits,
    pub n_decisions: u64,
    pub n_forced: u64,
    pub n_retries: u64,
    pub n_unknown: u64,
    pub syntactic: u64,
    pub discharged: u64,
    pub covers: Vec<String>,
    pub cands: Vec<Cand>,
    pub undecided: Vec<String>,
    pub samples: Vec<Query>,
    /// inputs fixed to these values (exact re-execution of a counterexample)
    pub pins: Option<HashMap<String, f64>>,
    pub pin_choices: Vec<usize>,
}

/// a failed check: everything needed to extract models from it
#[derive(Clone)]
pub struct Cand {
    pub label: String,
    pub attempts: Vec<HashMap<String, f64>>,
    pub choices: Vec<(String, usize)>,
}

pub fn flip(m: u8) -> u8 {
    (m & ZER) | if m & NEG != 0 { POS } else { 0 } | if m & POS != 0 { NEG } else { 0 }
}
fn mask_mul(a: u8, b: u8) -> u8 {
    let mut r = 0;
    for x in [NEG, ZER, POS] {
        for y in [NEG, ZER, POS] {
            if a & x != 0 && b & y != 0 {
                r |= if x == ZER || y == ZER {
                    ZER
                } else if x == y {
                    POS
                } else {
                    NEG
                };
            }
        }
    }
    r
}
fn mask_add(a: u8, b: u8) -> u8 {
    let mut r = 0;
    for x in [NEG, ZER, POS] {
        for y in [NEG, ZER, POS] {
            if a & x != 0 && b & y != 0 {
                r |= if x == ZER {
                    y
                } else if y == ZER {
                    x
                } else if x == y {
                    x
                } else {
                    7
                };
            }
        }
    }
    r
}

impl State {
    pub fn new(prefix: Vec<u8>, solver: Solver, lim: Limits) -> State {
        State {
            vals: {
                let f = |x: f64| Val::Fin(Rc::new(Poly::cst(rationalise(x))));
                // the constants `Sym` has names for; see f64like.rs
                vec![
                    Val::Fin(Rc::new(Poly::zero())),
                    Val::Fin(Rc::new(Poly::int(1))),
                    Val::PInf,
                    Val::NInf,
                    Val::NaN,
                    f(f64::EPSILON),
                    f(f64::MAX),
                    f(f64::MIN),
                    f(f64::MIN_POSITIVE),
                ]
            },
            atoms: vec![],
            atom_ix: HashMap::new(),
            pc: vec![],
            facts: HashMap::new(),
            prod_facts: HashMap::new(),
            prefix,
            trace: vec![],
            forks: vec![],
            vars: vec![],
            choices: vec![],
            solver,
            lim,
            n_decisions: 0,
            n_forced: 0,
            n_retries: 0,
            n_unknown: 0,
            syntactic: 0,
            discharged: 0,
            covers: vec![],
            cands: vec![],
            undecided: vec![],
            samples: vec![],
            pins: None,
            pin_choices: vec![],
        }
    }

    pub fn abort(&self, why: &str) -> ! {
        std::panic::panic_any(Abort::Unsupported(why.to_string()))
    }

    pub fn push(&mut self, v: Val) -> u32 {
        self.vals.push(v);
        (self.vals.len() - 1) as u32
    }
    pub fn fin(&mut self, p: Poly) -> u32 {
        if p.t.is_empty() {
            return 0;
        }
        self.push(Val::Fin(Rc::new(p)))
    }
    pub fn val(&self, i: u32) -> Val {
        self.vals[i as usize].clone()
    }

    pub fn intern(&mut self, a: Atom) -> u32 {
        if let Some(&i) = self.atom_ix.get(&a) {
            return i;
        }
        let i = self.atoms.len() as u32;
        self.atoms.push(a.clone());
        self.atom_ix.insert(a, i);
        i
    }

    // ------------------------------------------------------------------ algebra

    fn norm_mono(&mut self, m: &Mono) -> Option<Poly> {
        for k in 0..m.len() {
            let (a, e) = m[k];
            match self.atoms[a as usize].clone() {
                Atom::Den(d) if e > 0 => {
                    let mut rest = m.clone();
                    rest.remove(k);
                    let mut r = Poly { t: vec![(rest, Q::one())] };
                    for _ in 0..e {
                        r = self.mul(&r, &d);
                    }
                    return Some(r);
                }
                Atom::Root(p, q) => {
                    let q = q as i32;
                    if e >= q {
                        let mut rest = m.clone();
                        if e == q {
                            rest.remove(k);
                        } else {
                            rest[k].1 = e - q;
                        }
                        let r = Poly { t: vec![(rest, Q::one())] };
                        return Some(self.mul(&r, &p));
                    }
                    if e <= -q {
                        let mut rest = m.clone();
                        if e == -q {
                            rest.remove(k);
                        } else {
                            rest[k].1 = e + q;
                        }
                        let r = Poly { t: vec![(rest, Q::one())] };
                        let inv = self.inverse(&p);
                        return Some(self.mul(&r, &inv));
                    }
                    if e > 0 {
                        if let Some(&da) = self.atom_ix.get(&Atom::Den(p.clone())) {
                            let de = mono_exp(m, da);
                            if de < 0 {
                                let r = mono_mul(m, &vec![(a, -q)]);
                                let r = mono_mul(&r, &vec![(da, 1)]);
                                let r = Poly { t: vec![(r, Q::one())] };
                                let one = Poly::int(1);
                                return Some(self.mul(&r, &one));
                            }
                        }
                    }
                }
                Atom::Tri(x) if e >= 3 => {
                    let mut rest = m.clone();
                    if e == 3 {
                        rest.remove(k);
                    } else {
                        rest[k].1 = e - 3;
                    }
                    let r = Poly { t: vec![(rest, Q::one())] };
                    let q4 = Q::new(BigInt::one(), BigInt::from(4));
                    let u3 = Poly::atom(a).scale(&Q::from_integer(BigInt::from(3))).add(&x).scale(&q4);
                    return Some(self.mul(&r, &u3));
                }
                _ => {}
            }
        }
        None
    }

    pub fn mul(&mut self, a: &Poly, b: &Poly) -> Poly {
        if a.is_zero() || b.is_zero() {
            return Poly::zero();
        }
        if a.t.len() * b.t.len() > 60_000 {
            self.abort("polynomial blow-up");
        }
        let special = a.t.iter().chain(b.t.iter()).any(|(m, _)| {
            m.iter().any(|&(x, _)| !matches!(self.atoms[x as usize], Atom::Var(_)))
        });
        if !special {
            return a.mul_raw(b);
        }
        let mut acc: HashMap<Mono, Q> = HashMap::new();
        let mut extra: Vec<Poly> = vec![];
        let mut den = false;
        for (m, x) in &a.t {
            for (n, y) in &b.t {
                let mm = mono_mul(m, n);
                let c = x * y;
                match self.norm_mono(&mm) {
                    None => {
                        den |= mm.iter().any(|z| z.1 < 0);
                        *acc.entry(mm).or_insert_with(Q::zero) += c
                    }
                    Some(p) => extra.push(p.scale(&c)),
                }
            }
        }
        let mut r = Poly::from_map(acc);
        for p in extra {
            den = true;
            r = r.add(&p);
        }
        if den {
            self.reduce(r)
        } else {
            r
        }
    }

    pub fn add(&mut self, a: &Poly, b: &Poly) -> Poly {
        let r = a.add(b);
        if r.t.len() > 1 && r.has_neg() {
            self.reduce(r)
        } else {
            r
        }
    }

    pub fn pow(&mut self, a: &Poly, n: u32) -> Poly {
        let mut r = Poly::int(1);
        for _ in 0..n {
            r = self.mul(&r, a);
        }
        r
    }

    /// cancel denominators dividing the terms they occur in
    fn reduce(&mut self, p: Poly) -> Poly {
        if p.t.len() > 300 || p.t.len() < 2 {
            return p;
        }
        let mut p = p;
        for a in p.atoms() {
            let d = match &self.atoms[a as usize] {
                Atom::Den(d) => d.clone(),
                _ => continue,
            };
            let mut k = p.t.iter().map(|(m, _)| mono_exp(m, a)).min().unwrap_or(0);
            while k < 0 {
                let mut ck = vec![];
                let mut rest = vec![];
                for (m, c) in &p.t {
                    if mono_exp(m, a) == k {
                        ck.push((mono_mul(m, &vec![(a, -k)]), c.clone()));
                    } else {
                        rest.push((m.clone(), c.clone()));
                    }
                }
                if ck.len() >= d.t.len() {
                    ck.sort_by(|x, y| lex(&y.0, &x.0));
                    let ckp = Poly { t: ck };
                    // remove negative content so that division applies
                    let cont: Mono = ckp.content().into_iter().filter(|x| x.1 < 0).collect();
                    let base = ckp.mul_mono(&mono_pow(&cont, -1), &Q::one());
                    if let Some(q) = base.exact_div(&d) {
                        let mut shift = cont.clone();
                        if k + 1 != 0 {
                            shift = mono_mul(&shift, &vec![(a, k + 1)]);
                        }
                        let q = q.mul_mono(&shift, &Q::one());
                        let one = Poly::int(1);
                        let q = self.mul(&q, &one);
                        p = Poly { t: rest }.add(&q);
                    }
                }
                k += 1;
            }
        }
        p
    }

    /// 1/d; the caller has established d != 0
    pub fn inverse(&mut self, d: &Poly) -> Poly {
        if d.t.len() == 1 {
            let (m, c) = &d.t[0];
            let r = Poly { t: vec![(mono_pow(m, -1), c.recip())] };
            let one = Poly::int(1);
            return self.mul(&r, &one);
        }
        let (c, m, rest) = self.split_content(d);
        let (c2, prim) = rest.primitive();
        let cc = (c * c2).recip();
        if let Some(k) = prim.as_const() {
            let r = Poly { t: vec![(mono_pow(&m, -1), cc / k)] };
            let one = Poly::int(1);
            return self.mul(&r, &one);
        }
        if prim.t.len() == 1 {
            let (pm, pc) = prim.t[0].clone();
            let r = Poly { t: vec![(mono_pow(&mono_mul(&m, &pm), -1), cc / pc)] };
            let one = Poly::int(1);
            return self.mul(&r, &one);
        }
        let a = self.intern(Atom::Den(prim));
        let mm = mono_mul(&mono_pow(&m, -1), &vec![(a, -1)]);
        let r = Poly { t: vec![(mm, cc)] };
        let one = Poly::int(1);
        self.mul(&r, &one)
    }

    /// p = c * m * rest with rest free of negative exponents and of monomial content
    fn split_content(&mut self, p: &Poly) -> (Q, Mono, Poly) {
        let mut m: Mono = vec![];
        let mut r = p.clone();
        for _ in 0..12 {
            let cont = r.content();
            if cont.is_empty() {
                break;
            }
            r = r.mul_mono(&mono_pow(&cont, -1), &Q::one());
            m = mono_mul(&m, &cont);
            let one = Poly::int(1);
            r = self.mul(&r, &one);
        }
        if r.has_neg() {
            self.abort("content extraction does not terminate");
        }
        (Q::one(), m, r)
    }

    pub fn div(&mut self, p: &Poly, d: &Poly) -> Poly {
        if let Some(c) = d.as_const() {
            return p.scale(&c.recip());
        }
        if p.is_zero() {
            return Poly::zero();
        }
        if d.t.len() > 1 && p.t.len() > 1 {
            let (_, mp, rp) = self.split_content(p);
            let (_, md, rd) = self.split_content(d);
            if let Some(q) = rp.exact_div(&rd) {
                let sh = mono_mul(&mp, &mono_pow(&md, -1));
                let q = q.mul_mono(&sh, &Q::one());
                let one = Poly::int(1);
                return self.mul(&q, &one);
            }
        }
        let i = self.inverse(d);
        self.mul(p, &i)
    }

    /// derivative with respect to the variable atom `v`
    pub fn diff(&mut self, p: &Poly, v: u32) -> Poly {
        let mut out = Poly::zero();
        for (m, c) in &p.t {
            for k in 0..m.len() {
                let (a, e) = m[k];
                let mut rest = m.clone();
                rest.remove(k);
                let rest = Poly { t: vec![(rest, c.clone())] };
                // d(atom^e)
                let pw = |x: i32| -> Poly {
                    if x == 0 {
                        Poly::int(1)
                    } else {
                        Poly { t: vec![(vec![(a, x)], Q::one())] }
                    }
                };
                let es = Q::from_integer(BigInt::from(e));
                let d = match self.atoms[a as usize].clone() {
                    Atom::Var(_) => {
                        if a != v {
                            continue;
                        }
                        pw(e - 1).scale(&es)
                    }
                    Atom::Den(d) => {
                        let dd = self.diff(&d, v);
                        self.mul(&pw(e - 1), &dd).scale(&es)
                    }
                    Atom::Root(x, q) => {
                        let dx = self.diff(&x, v);
                        let t = self.mul(&pw(e - q as i32), &dx);
                        t.scale(&(es / Q::from_integer(BigInt::from(q))))
                    }
                    Atom::Exp(x) => {
                        let dx = self.diff(&x, v);
                        self.mul(&pw(e), &dx).scale(&es)
                    }
                    Atom::Ln(x) => {
                        let dx = self.diff(&x, v);
                        let ix = self.div(&dx, &x);
                        self.mul(&pw(e - 1), &ix).scale(&es)
                    }
                    _ => self.abort("derivative of an unsupported function"),
                };
                let t = self.mul(&rest, &d);
                out = self.add(&out, &t);
            }
        }
        out
    }

    // ------------------------------------------------------------------ signs

    pub fn fact(&self, p: &Poly) -> u8 {
        let (c, prim) = p.primitive();
        let m = *self.facts.get(&prim).unwrap_or(&7);
        if c.is_negative() {
            flip(m)
        } else {
            m
        }
    }

    fn atom_sign(&self, a: u32) -> u8 {
        let f = *self.facts.get(&Poly::atom(a)).unwrap_or(&7);
        f & match &self.atoms[a as usize] {
            Atom::Var(_) | Atom::Ln(_) => 7,
            Atom::Exp(_) | Atom::Tri(_) => POS,
            Atom::Acos(_) => GE,
            Atom::Den(d) => {
                let s = self.quick_sign(d) & NZ;
                if s == 0 {
                    NZ
                } else {
                    s
                }
            }
            Atom::Root(p, _) => {
                if self.quick_sign(p) & ZER == 0 {
                    POS
                } else {
                    GE
                }
            }
        }
    }

    pub fn quick_sign(&self, p: &Poly) -> u8 {
        if p.is_zero() {
            return ZER;
        }
        let mut tot = ZER;
        for (m, c) in &p.t {
            let mut s = if c.is_negative() { NEG } else { POS };
            for &(a, e) in m {
                let mut x = self.atom_sign(a);
                if e % 2 == 0 {
                    x = (x & ZER) | if x & NZ != 0 { POS } else { 0 };
                }
                if e < 0 {
                    x &= NZ;
                }
                s = mask_mul(s, x);
            }
            tot = mask_add(tot, s);
            if tot == 7 {
                break;
            }
        }
        let f = self.fact(p);
        if tot & f == 0 {
            f
        } else {
            tot & f
        }
    }

    /// p = N / D: numerator and the factors whose product has the sign of D
    fn clear(&mut self, p: &Poly) -> (Poly, Vec<Poly>) {
        let mut r = p.clone();
        let mut fac = vec![];
        for _ in 0..40 {
            let mut neg: Option<(u32, i32)> = None;
            for a in r.atoms() {
                let e = r.t.iter().map(|(m, _)| mono_exp(m, a)).min().unwrap();
                if e < 0 {
                    // clear denominators before roots
                    match (&neg, &self.atoms[a as usize]) {
                        (None, _) => neg = Some((a, e)),
                        (Some(_), Atom::Den(_)) => neg = Some((a, e)),
                        _ => {}
                    }
                }
            }
            match neg {
                None => return (r, fac),
                Some((a, e)) => {
                    let k = -e;
                    if k % 2 != 0 {
                        match &self.atoms[a as usize] {
                            Atom::Den(d) => fac.push(d.clone()),
                            _ => fac.push(Poly::atom(a)),
                        }
                    }
                    // no `mul` on the way: it would cancel/reduce back; terms are renormalised below
                    let sh = r.mul_mono(&vec![(a, k)], &Q::one());
                    let mut out = Poly::zero();
                    for (m, c) in &sh.t {
                        match self.norm_mono(m) {
                            None => out = out.add(&Poly { t: vec![(m.clone(), c.clone())] }),
                            Some(q) => out = out.add(&q.scale(c)),
                        }
                    }
                    if out.t.len() > 20_000 {
                        self.abort("blow-up while clearing denominators");
                    }
                    r = out;
                }
            }
        }
        self.abort("denominators do not clear")
    }

    /// sign(p) in mask, simplified
    pub fn lit(&mut self, p: &Poly, mask: u8) -> Form {
        let (n, mut fac) = self.clear(p);
        fac.push(n);
        self.lit_prod(fac, mask)
    }

    fn lit_prod(&mut self, fac: Vec<Poly>, mask: u8) -> Form {
        let mut mask = mask & 7;
        let mut fs: Vec<Poly> = vec![];
        for p in fac {
            if p.is_zero() {
                return if mask & ZER != 0 { Form::T } else { Form::F };
            }
            let cont = p.content();
            let q = p.mul_mono(&mono_pow(&cont, -1), &Q::one());
            for (a, e) in cont {
                let s = self.atom_sign(a);
                if s == ZER {
                    return if mask & ZER != 0 { Form::T } else { Form::F };
                }
                if e % 2 == 0 {
                    if s & ZER != 0 {
                        fs.push(Poly::atom(a));
                        fs.push(Poly::atom(a));
                    }
                } else {
                    fs.push(Poly::atom(a));
                }
            }
            let (c, prim) = q.primitive();
            if c.is_negative() {
                mask = flip(mask);
            }
            if prim.as_const().is_none() {
                fs.push(prim);
            }
        }
        // factors of known sign
        let mut rest: Vec<Poly> = vec![];
        let mut acc: Vec<Poly> = vec![];
        for p in fs {
            let s = self.quick_sign(&p);
            match s {
                POS => {}
                NEG => mask = flip(mask),
                ZER => return if mask & ZER != 0 { Form::T } else { Form::F },
                _ => acc.push(p),
            }
        }
        acc.sort_by(|a, b| format!("{:?}", a).cmp(&format!("{:?}", b)));
        // pairs of equal factors that cannot be zero
        let mut i = 0;
        while i < acc.len() {
            if i + 1 < acc.len() && acc[i] == acc[i + 1] && self.quick_sign(&acc[i]) & ZER == 0 {
                i += 2;
            } else {
                rest.push(acc[i].clone());
                i += 1;
            }
        }
        if rest.is_empty() {
            return if mask & POS != 0 { Form::T } else { Form::F };
        }
        let mut known = ZER;
        let mut first = true;
        for p in &rest {
            let s = self.quick_sign(p);
            known = if first { s } else { mask_mul(known, s) };
            first = false;
        }
        if rest.len() == 2 && rest[0] == rest[1] {
            known &= GE;
        }
        if let Some(k) = self.prod_facts.get(&rest) {
            if known & k != 0 {
                known &= k;
            }
        }
        if known & mask == 0 {
            return Form::F;
        }
        if known & !mask == 0 {
            return Form::T;
        }
        Form::L(Lit { f: rest, mask })
    }

    pub fn neg_form(f: &Form) -> Form {
        match f {
            Form::T => Form::F,
            Form::F => Form::T,
            Form::L(l) => Form::L(Lit { f: l.f.clone(), mask: 7 ^ l.mask }),
            Form::And(v) => Form::Or(v.iter().map(State::neg_form).collect()),
            Form::Or(v) => Form::And(v.iter().map(State::neg_form).collect()),
        }
    }

    fn record_fact(&mut self, l: &Lit) {
        if l.f.len() == 1 {
            let e = self.facts.entry(l.f[0].clone()).or_insert(7);
            *e &= l.mask;
        } else {
            let e = self.prod_facts.entry(l.f.clone()).or_insert(7);
            *e &= l.mask;
            if l.mask & ZER == 0 {
                for p in &l.f {
                    let e = self.facts.entry(p.clone()).or_insert(7);
                    *e &= NZ;
                }
            }
        }
    }

    /// conjoin to the path condition
    pub fn constrain(&mut self, f: Form) {
        match f {
            Form::T => {}
            Form::And(v) => {
                for x in v {
                    self.constrain(x);
                }
            }
            Form::L(l) => {
                self.record_fact(&l);
                self.pc.push(Form::L(l));
            }
            f => self.pc.push(f),
        }
    }

    // ------------------------------------------------------------------ solver

    fn form_atoms(f: &Form, out: &mut HashSet<u32>) {
        match f {
            Form::L(l) => {
                for p in &l.f {
                    for (m, _) in &p.t {
                        for x in m {
                            out.insert(x.0);
                        }
                    }
                }
            }
            Form::And(v) | Form::Or(v) => v.iter().for_each(|x| State::form_atoms(x, out)),
            _ => {}
        }
    }

    fn closure(&self, s: &mut HashSet<u32>) {
        let mut work: Vec<u32> = s.iter().cloned().collect();
        while let Some(a) = work.pop() {
            let deps = match &self.atoms[a as usize] {
                Atom::Var(_) => vec![],
                Atom::Den(p) | Atom::Root(p, _) | Atom::Exp(p) | Atom::Ln(p) | Atom::Acos(p) | Atom::Tri(p) => p.atoms(),
            };
            for d in deps {
                if s.insert(d) {
                    work.push(d);
                }
            }
        }
    }

    fn poly_smt(p: &Poly, out: &mut String, linear: &mut bool) {
        if p.t.is_empty() {
            out.push_str("0.0");
            return;
        }
        if p.t.len() > 1 {
            out.push_str("(+ ");
        }
        for (m, c) in &p.t {
            let deg: i32 = m.iter().map(|x| x.1).sum();
            if deg > 1 {
                *linear = false;
            }
            let one = c.is_one() && deg > 0;
            let n = deg + if one { 0 } else { 1 };
            if n > 1 {
                out.push_str("(* ");
            }
            if !one {
                q_smt(c, out);
                out.push(' ');
            }
            for &(a, e) in m {
                for _ in 0..e {
                    let _ = write!(out, "a{} ", a);
                }
            }
            if n > 1 {
                out.push_str(") ");
            }
        }
        if p.t.len() > 1 {
            out.push(')');
        }
    }

    fn form_smt(f: &Form, out: &mut String, linear: &mut bool) {
        match f {
            Form::T => out.push_str("true"),
            Form::F => out.push_str("false"),
            Form::And(v) if v.is_empty() => out.push_str("true"),
            Form::Or(v) if v.is_empty() => out.push_str("false"),
            Form::And(v) | Form::Or(v) => {
                out.push_str(if matches!(f, Form::And(_)) { "(and " } else { "(or " });
                for x in v {
                    State::form_smt(x, out, linear);
                    out.push(' ');
                }
                out.push(')');
            }
            Form::L(l) => {
                let op = match l.mask {
                    NEG => "<",
                    LE => "<=",
                    ZER => "=",
                    GE => ">=",
                    POS => ">",
                    NZ => "distinct",
                    7 => {
                        out.push_str("true");
                        return;
                    }
                    _ => {
                        out.push_str("false");
                        return;
                    }
                };
                let _ = write!(out, "({} ", op);
                if l.f.len() > 1 {
                    *linear = false;
                    out.push_str("(* ");
                }
                for p in &l.f {
                    State::poly_smt(p, out, linear);
                    out.push(' ');
                }
                if l.f.len() > 1 {
                    out.push(')');
                }
                out.push_str(" 0.0)");
            }
        }
    }

    /// definitional constraints of an atom
    fn atom_axioms(&mut self, a: u32) -> Vec<Form> {
        let at = self.atoms[a as usize].clone();
        let me = Poly::atom(a);
        let raw = |p: Poly, mask: u8| Form::L(Lit { f: vec![p], mask });
        match at {
            Atom::Root(p, q) => {
                // a >= 0 and a^q * D = N
                let (n, fac) = self.clear_full(&p);
                let lhs = Poly { t: vec![(vec![(a, q as i32)], Q::one())] }.mul_raw(&fac);
                vec![raw(me, GE), raw(lhs.sub(&n), ZER)]
            }
            Atom::Exp(p) => {
                let mut v = vec![raw(me.clone(), POS)];
                // e >= 1 + p, tight only at p = 0
                let lower = me.sub(&Poly::int(1)).sub(&p);
                v.push(self.lit_nofact(&lower, GE));
                let neg = self.lit_nofact(&p, NEG);
                let zer = self.lit_nofact(&p, ZER);
                let pos = self.lit_nofact(&p, POS);
                let e1 = me.sub(&Poly::int(1));
                v.push(Form::Or(vec![
                    Form::And(vec![neg, raw(e1.clone(), NEG)]),
                    Form::And(vec![zer, raw(e1.clone(), ZER)]),
                    Form::And(vec![pos, raw(e1, POS)]),
                ]));
                v
            }
            Atom::Ln(p) => {
                let upper = p.sub(&Poly::int(1)).sub(&me);
                let mut v = vec![self.lit_nofact(&upper, GE), self.lit_nofact(&p, POS)];
                let p1 = p.sub(&Poly::int(1));
                let neg = self.lit_nofact(&p1, NEG);
                let zer = self.lit_nofact(&p1, ZER);
                let pos = self.lit_nofact(&p1, POS);
                v.push(Form::Or(vec![
                    Form::And(vec![neg, raw(me.clone(), NEG)]),
                    Form::And(vec![zer, raw(me.clone(), ZER)]),
                    Form::And(vec![pos, raw(me, POS)]),
                ]));
                v
            }
            Atom::Tri(x) => {
                let half = Poly::cst(Q::new(BigInt::one(), BigInt::from(2)));
                let u3 = Poly { t: vec![(vec![(a, 3)], Q::from_integer(BigInt::from(4)))] };
                let e = u3.sub(&me.scale(&Q::from_integer(BigInt::from(3)))).sub(&x);
                let (n, fac) = self.clear_raw(&e);
                let _ = fac;
                vec![raw(me.sub(&half), GE), raw(me.sub(&Poly::int(1)), LE), raw(n, ZER)]
            }
            Atom::Acos(_) => vec![
                raw(me.clone(), GE),
                raw(me.sub(&Poly::cst(rationalise(3.1415926536))), LE),
            ],
            _ => vec![],
        }
    }

    /// like `lit`, but without using path facts (the result may be used anywhere)
    fn lit_nofact(&mut self, p: &Poly, mask: u8) -> Form {
        let f = std::mem::take(&mut self.facts);
        let g = std::mem::take(&mut self.prod_facts);
        let r = self.lit(p, mask);
        self.facts = f;
        self.prod_facts = g;
        r
    }

    /// numerator and full denominator (as a polynomial)
    fn clear_full(&mut self, p: &Poly) -> (Poly, Poly) {
        if !p.has_neg() {
            return (p.clone(), Poly::int(1));
        }
        let (_, m, rest) = self.split_content(p);
        let mut num = rest;
        let mut den = Poly::int(1);
        for (a, e) in m {
            let base = match &self.atoms[a as usize] {
                Atom::Den(d) => d.clone(),
                _ => Poly::atom(a),
            };
            for _ in 0..e.abs() {
                if e > 0 {
                    num = num.mul_raw(&base);
                } else {
                    den = den.mul_raw(&base);
                }
            }
        }
        (num, den)
    }

    fn clear_raw(&mut self, p: &Poly) -> (Poly, Vec<Poly>) {
        // multiply out negative exponents without applying rewrite rules
        let mut r = p.clone();
        for _ in 0..20 {
            let mut done = true;
            for a in r.atoms() {
                let e = r.t.iter().map(|(m, _)| mono_exp(m, a)).min().unwrap();
                if e < 0 {
                    done = false;
                    let base = match &self.atoms[a as usize] {
                        Atom::Den(d) => d.clone(),
                        _ => Poly::atom(a),
                    };
                    let mut out = Poly::zero();
                    for (m, c) in &r.t {
                        let x = mono_exp(m, a);
                        let mm = mono_mul(m, &vec![(a, -x)]);
                        let mut q = Poly { t: vec![(mm, c.clone())] };
                        for _ in 0..(x - e) {
                            q = q.mul_raw(&base);
                        }
                        out = out.add(&q);
                    }
                    r = out;
                    break;
                }
            }
            if done {
                break;
            }
        }
        (r, vec![])
    }

    /// Build the query for `goals` under the part of the path condition connected to them.
    pub fn query(&mut self, goals: &[Form], slice: bool) -> Query {
        let mut rel: HashSet<u32> = HashSet::new();
        for g in goals {
            State::form_atoms(g, &mut rel);
        }
        if !slice {
            for v in &self.vars {
                rel.insert(v.atom);
            }
        }
        self.closure(&mut rel);
        let pcs: Vec<HashSet<u32>> = self
            .pc
            .iter()
            .map(|f| {
                let mut s = HashSet::new();
                State::form_atoms(f, &mut s);
                self.closure(&mut s);
                s
            })
            .collect();
        let mut used = vec![!slice; self.pc.len()];
        if slice {
            loop {
                let mut ch = false;
                for i in 0..pcs.len() {
                    if !used[i] && (pcs[i].is_empty() || !pcs[i].is_disjoint(&rel)) {
                        used[i] = true;
                        ch = true;
                        rel.extend(pcs[i].iter());
                    }
                }
                if !ch {
                    break;
                }
            }
        } else {
            for s in &pcs {
                rel.extend(s.iter());
            }
        }
        let mut linear = true;
        let mut asserts = String::new();
        let mut emit = |f: &Form, linear: &mut bool| {
            if matches!(f, Form::T) {
                return;
            }
            asserts.push_str("(assert ");
            State::form_smt(f, &mut asserts, linear);
            asserts.push_str(")\n");
        };
        let mut ats: Vec<u32> = rel.iter().cloned().collect();
        ats.sort();
        let mut decl_atoms: HashSet<u32> = ats.iter().cloned().collect();
        let mut ax = vec![];
        for &a in &ats {
            ax.extend(self.atom_axioms(a));
        }
        // pairwise monotonicity of exp / ln
        let exps: Vec<(u32, Poly, bool)> = ats
            .iter()
            .filter_map(|&a| match &self.atoms[a as usize] {
                Atom::Exp(p) => Some((a, p.clone(), true)),
                Atom::Ln(p) => Some((a, p.clone(), false)),
                _ => None,
            })
            .collect();
        for i in 0..exps.len() {
            for j in 0..i {
                if exps[i].2 == exps[j].2 {
                    let d = exps[i].1.sub(&exps[j].1);
                    let e = Poly::atom(exps[i].0).sub(&Poly::atom(exps[j].0));
                    let mut alts = vec![];
                    for s in [NEG, ZER, POS] {
                        let x = self.lit_nofact(&d, s);
                        alts.push(Form::And(vec![x, Form::L(Lit { f: vec![e.clone()], mask: s })]));
                    }
                    ax.push(Form::Or(alts));
                }
            }
        }
        for f in &ax {
            emit(f, &mut linear);
            State::form_atoms(f, &mut decl_atoms);
        }
        for i in 0..self.pc.len() {
            if used[i] {
                emit(&self.pc[i], &mut linear);
                State::form_atoms(&self.pc[i], &mut decl_atoms);
            }
        }
        for g in goals {
            emit(g, &mut linear);
        }
        let mut decls = String::new();
        let mut da: Vec<u32> = decl_atoms.into_iter().collect();
        da.sort();
        for a in da {
            if !matches!(self.atoms[a as usize], Atom::Den(_)) {
                let _ = writeln!(decls, "(declare-const a{} Real)", a);
            }
        }
        Query { decls, asserts, linear }
    }

    pub fn solve(&mut self, goals: &[Form], ms: u64, deep: bool) -> Res {
        if goals.iter().any(|g| matches!(g, Form::F)) {
            return Res::Unsat;
        }
        let q = self.query(goals, true);
        if q.asserts.is_empty() {
            return Res::Sat;
        }
        let mut s = std::mem::take(&mut self.solver);
        let r = s.check(&q, ms, deep);
        self.solver = s;
        r
    }

    /// the goals with the whole path condition
    pub fn solve_all(&mut self, goals: &[Form], ms: u64) -> Res {
        let q = self.query(goals, false);
        let mut s = std::mem::take(&mut self.solver);
        let r = s.check(&q, ms, true);
        self.solver = s;
        r
    }

    /// is sign(p) in mask?  Forks when both answers are feasible.
    pub fn decide(&mut self, p: &Poly, mask: u8) -> bool {
        let f = self.lit(p, mask);
        self.decide_form(f)
    }

    /// feasibility of one side of a branch; a query that runs out of time (a busy machine, a hard
    /// instance) is asked again with more of it and with the other back ends
    fn branch(&mut self, f: &Form, ms: u64) -> Res {
        match self.solve(&[f.clone()], ms, false) {
            Res::Unknown if self.n_retries < 60 => {
                self.n_retries += 1;
                self.solve(&[f.clone()], ms * 6, true)
            }
            r => r,
        }
    }

    pub fn decide_form(&mut self, f: Form) -> bool {
        match &f {
            Form::T => return true,
            Form::F => return false,
            _ => {}
        }
        self.n_decisions += 1;
        let pos = self.trace.len();
        if pos > self.lim.max_depth {
            std::panic::panic_any(Abort::Unsupported("decision depth".into()));
        }
        if pos < self.prefix.len() {
            let v = self.prefix[pos];
            self.trace.push(v);
            let b = v & 1 == 1;
            let g = if b { f } else { State::neg_form(&f) };
            if v & 2 == 0 {
                self.constrain(g);
            } else if let Form::L(l) = &g {
                self.record_fact(l);
            }
            return b;
        }
        let nf = State::neg_form(&f);
        let ms = self.lim.branch_ms;
        let rt = self.branch(&f, ms);
        if rt == Res::Unsat {
            // forced false (entailed: recorded as a fact, not as a constraint)
            self.n_forced += 1;
            self.trace.push(2);
            if let Form::L(l) = &nf {
                self.record_fact(l);
            }
            return false;
        }
        let rf = self.branch(&nf, ms);
        if rf == Res::Unsat {
            self.n_forced += 1;
            self.trace.push(3);
            if let Form::L(l) = &f {
                self.record_fact(l);
            }
            return true;
        }
        if rt == Res::Unknown || rf == Res::Unknown {
            self.n_unknown += 1;
        }
        let mut alt = self.trace.clone();
        alt.push(0);
        self.forks.push(alt);
        self.trace.push(1);
        self.constrain(f);
        true
    }

    pub fn choose(&mut self, name: &str, n: usize) -> usize {
        let pos = self.trace.len();
        let k = if pos < self.prefix.len() {
            self.prefix[pos] as usize
        } else if self.pins.is_some() {
            self.pin_choices.get(self.choices.len()).cloned().unwrap_or(0)
        } else {
            for k in 1..n {
                let mut alt = self.trace.clone();
                alt.push(k as u8);
                self.forks.push(alt);
            }
            0
        };
        self.trace.push(k as u8);
        self.choices.push((name.to_string(), k));
        k
    }

    // ------------------------------------------------------------------ functions

    pub fn abs(&mut self, p: &Poly) -> Poly {
        if self.decide(p, GE) {
            p.clone()
        } else {
            p.neg()
        }
    }

    /// square root of a polynomial known to be >= 0
    pub fn sqrt(&mut self, p: &Poly) -> Poly {
        if p.is_zero() {
            return Poly::zero();
        }
        let (_, m, rest) = self.split_content(p);
        let (mut c, mut rest) = rest.primitive();
        if c.is_negative() {
            c = -c;
            rest = rest.neg();
        }
        let mut res = Poly::int(1);
        let mut inner = rest;
        for (a, e) in m {
            let k = e.div_euclid(2);
            let odd = e.rem_euclid(2);
            if k != 0 {
                let base = if k % 2 != 0 && self.atom_sign(a) & NEG != 0 {
                    let pa = match &self.atoms[a as usize] {
                        Atom::Den(d) => d.clone(),
                        _ => Poly::atom(a),
                    };
                    if self.decide(&pa, GE) {
                        Q::one()
                    } else {
                        -Q::one()
                    }
                } else {
                    Q::one()
                };
                res = Poly { t: vec![(mono_mul(&res.t[0].0, &vec![(a, k)]), &res.t[0].1 * base)] };
            }
            if odd == 1 {
                inner = inner.mul_mono(&vec![(a, 1)], &Q::one());
            }
        }
        let one = Poly::int(1);
        res = self.mul(&res, &one);
        inner = self.mul(&inner, &one);
        // constant factor
        let n = c.numer() * c.denom();
        let (s, r) = extract_power(&n, 2);
        res = res.scale(&Q::new(s, c.denom().clone()));
        if !r.is_one() {
            let a = self.intern(Atom::Root(Poly::cst(Q::from_integer(r)), 2));
            res = self.mul(&res, &Poly::atom(a));
        }
        if inner.as_const().map(|k| k.is_one()).unwrap_or(false) {
            return res;
        }
        if let Some(q) = inner.square_root() {
            let q = self.abs(&q);
            return self.mul(&res, &q);
        }
        let a = self.intern(Atom::Root(inner, 2));
        self.mul(&res, &Poly::atom(a))
    }

    /// q-th root of a polynomial known to be >= 0
    pub fn root(&mut self, p: &Poly, q: u32) -> Poly {
        match q {
            1 => return p.clone(),
            2 => return self.sqrt(p),
            _ => {}
        }
        if p.t.len() == 1 {
            let (m, c) = p.t[0].clone();
            let (s, r) = extract_power(&(c.numer() * num_traits::pow(c.denom().clone(), q as usize - 1)), q);
            if r.is_one()
                && m.iter().all(|x| x.1 % q as i32 == 0 && self.atom_sign(x.0) & NEG == 0)
            {
                let mm: Mono = m.iter().map(|&(a, e)| (a, e / q as i32)).collect();
                return Poly { t: vec![(mm, Q::new(s, c.denom().clone()))] };
            }
        }
        let a = self.intern(Atom::Root(p.clone(), q));
        Poly::atom(a)
    }

    pub fn exp(&mut self, p: &Poly) -> Poly {
        if p.is_zero() {
            return Poly::int(1);
        }
        if p.t.len() == 1 && p.t[0].0.len() == 1 && p.t[0].0[0].1 == 1 && p.t[0].1.is_integer() {
            if let Atom::Ln(x) = self.atoms[p.t[0].0[0].0 as usize].clone() {
                if let Some(k) = p.t[0].1.to_integer().to_i32() {
                    let b = self.pow(&x, k.unsigned_abs());
                    return if k < 0 { self.inverse(&b) } else { b };
                }
            }
        }
        if p.t[0].1.is_negative() {
            let a = self.intern(Atom::Exp(p.neg()));
            Poly { t: vec![(vec![(a, -1)], Q::one())] }
        } else {
            let a = self.intern(Atom::Exp(p.clone()));
            Poly::atom(a)
        }
    }

    /// natural logarithm of a polynomial known to be > 0
    pub fn ln(&mut self, p: &Poly) -> Poly {
        let (_, m, rest) = self.split_content(p);
        let (c, mut rest) = rest.primitive();
        let mut res = Poly::zero();
        let mut c = c;
        if c.is_negative() {
            c = -c;
            rest = rest.neg();
        }
        for (a, e) in m {
            match self.atoms[a as usize].clone() {
                Atom::Exp(x) => res = res.add(&x.scale(&Q::from_integer(BigInt::from(e)))),
                Atom::Den(d) if self.quick_sign(&d) == POS => {
                    let l = self.ln(&d);
                    res = res.add(&l.scale(&Q::from_integer(BigInt::from(e))));
                }
                _ => {
                    // keep inside
                    let f = Poly { t: vec![(vec![(a, e)], Q::one())] };
                    rest = self.mul(&rest, &f);
                }
            }
        }
        if !c.is_one() {
            if c == rationalise(std::f64::consts::E) {
                res = res.add(&Poly::int(1));
            } else {
                let a = self.intern(Atom::Ln(Poly::cst(c)));
                res = res.add(&Poly::atom(a));
            }
        }
        if rest.as_const().map(|k| k.is_one()).unwrap_or(false) {
            return res;
        }
        let a = self.intern(Atom::Ln(rest));
        res.add(&Poly::atom(a))
    }

    pub fn cos(&mut self, p: &Poly) -> Poly {
        if p.is_zero() {
            return Poly::int(1);
        }
        if p.t.len() == 1 && p.t[0].0.len() == 1 && p.t[0].0[0].1 == 1 {
            if let Atom::Acos(x) = self.atoms[p.t[0].0[0].0 as usize].clone() {
                let c = p.t[0].1.abs();
                let third = Q::new(BigInt::one(), BigInt::from(3));
                if c.is_one() {
                    return x;
                }
                let k = &c / &third;
                if k == Q::one() || k == Q::from_integer(BigInt::from(2)) {
                    let u = self.intern(Atom::Tri(x));
                    let u = Poly::atom(u);
                    if k.is_one() {
                        return u;
                    }
                    let u2 = self.mul(&u, &u);
                    return u2.scale(&Q::from_integer(BigInt::from(2))).sub(&Poly::int(1));
                }
            }
        }
        self.abort("cos of a general argument")
    }

    pub fn show(&self, p: &Poly) -> String {
        let mut s = String::new();
        if p.t.is_empty() {
            return "0".into();
        }
        for (k, (m, c)) in p.t.iter().enumerate() {
            if k > 0 {
                s.push_str(" + ");
            }
            if k > 12 {
                s.push_str("...");
                break;
            }
            let _ = write!(s, "{}", c);
            for &(a, e) in m {
                let n = match &self.atoms[a as usize] {
                    Atom::Var(n) => n.clone(),
                    Atom::Den(d) => format!("({})", self.show(d)),
                    Atom::Root(d, q) => format!("root{}({})", q, self.show(d)),
                    Atom::Exp(d) => format!("exp({})", self.show(d)),
                    Atom::Ln(d) => format!("ln({})", self.show(d)),
                    Atom::Acos(d) => format!("acos({})", self.show(d)),
                    Atom::Tri(d) => format!("tri({})", self.show(d)),
                };
                if e == 1 {
                    let _ = write!(s, "*{}", n);
                } else {
                    let _ = write!(s, "*{}^{}", n, e);
                }
            }
        }
        s
    }
}

fn q_smt(c: &Q, out: &mut String) {
    let n = c.numer().abs();
    let neg = c.is_negative();
    if neg {
        out.push_str("(- ");
    }
    if c.denom().is_one() {
        let _ = write!(out, "{}.0", n);
    } else {
        let _ = write!(out, "(/ {}.0 {}.0)", n, c.denom());
    }
    if neg {
        out.push(')');
    }
}
