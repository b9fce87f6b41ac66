//! Reference models: a polynomial ring, univariate F_p[x], affine curves, q-series. Written
//! independently of the library (only big-integer arithmetic is shared).
use crate::gen::{bi, Spec};
use crate::engine::{clip, Res};
use ellipticcurve::polynomial::Polynomial;
use ellipticcurve::subscripted_variable::SubscriptedVariable;
use ellipticcurve::term::{Monomial, Term};
use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::{One, Signed, Zero};
use std::collections::BTreeMap;

pub type Var = Option<(i32, i32)>;
pub type Mono = (i32, i32, i32, Var);
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct MP(pub BTreeMap<Mono, BigInt>);

pub fn cvar(v: Var) -> SubscriptedVariable {
    match v { None => SubscriptedVariable { i: 0, j: 0, empty: true }, Some((i, j)) => SubscriptedVariable { i, j, empty: false } }
}
pub fn mvar(v: SubscriptedVariable) -> Var { if v.empty { None } else { Some((v.i, v.j)) } }
pub fn cmono(m: &Mono) -> Monomial { Monomial { xpow: m.0, ypow: m.1, qpow: m.2, variable: cvar(m.3) } }
pub fn mmono(m: &Monomial) -> Mono { (m.xpow, m.ypow, m.qpow, mvar(m.variable)) }
pub fn cterm(m: &Mono, c: &BigInt) -> Term { Term { coef: c.clone(), monomial: cmono(m) } }

impl MP {
    pub fn zero() -> MP { MP::default() }
    pub fn one() -> MP { MP::mono((0, 0, 0, None), BigInt::one()) }
    pub fn mono(m: Mono, c: BigInt) -> MP { let mut r = MP::zero(); r.acc(m, &c); r }
    pub fn of(s: &Spec) -> MP {
        let mut r = MP::zero();
        for t in s { r.acc((t.1, t.2, t.3, t.4), &t.0); }
        r
    }
    pub fn acc(&mut self, m: Mono, c: &BigInt) {
        let e = self.0.entry(m).or_insert_with(BigInt::zero);
        *e += c;
        if e.is_zero() { self.0.remove(&m); }
    }
    pub fn crate_pol(&self) -> Polynomial {
        let mut p = Polynomial::new();
        for (m, c) in &self.0 { p.terms.insert(cmono(m), c.clone()); }
        p
    }
    /// raw view of a library polynomial, stored zeros included
    pub fn raw(p: &Polynomial) -> MP { MP(p.terms.iter().map(|(m, c)| (mmono(m), c.clone())).collect()) }
    pub fn add(&self, o: &MP) -> MP { let mut r = self.clone(); for (m, c) in &o.0 { r.acc(*m, c); } r }
    pub fn neg(&self) -> MP { MP(self.0.iter().map(|(m, c)| (*m, -c)).collect()) }
    pub fn sub(&self, o: &MP) -> MP { self.add(&o.neg()) }
    pub fn mul(&self, o: &MP) -> MP {
        let mut r: BTreeMap<Mono, BigInt> = BTreeMap::new();
        for (a, c) in &self.0 {
            for (b, d) in &o.0 {
                assert!(a.3.is_none() || b.3.is_none(), "model: product of variables");
                *r.entry((a.0 + b.0, a.1 + b.1, a.2 + b.2, a.3.or(b.3))).or_insert_with(BigInt::zero) += c * d;
            }
        }
        r.retain(|_, c| !c.is_zero());
        MP(r)
    }
    pub fn pow(&self, n: u32) -> MP { let mut r = MP::one(); for _ in 0..n { r = r.mul(self); } r }
    pub fn scale(&self, k: &BigInt) -> MP { let mut r = MP::zero(); for (m, c) in &self.0 { r.acc(*m, &(c * k)); } r }
    pub fn modp(&self, p: &BigInt) -> MP { let mut r = MP::zero(); for (m, c) in &self.0 { r.acc(*m, &modf(c, p)); } r }
    pub fn map(&self, f: impl Fn(&Mono, &BigInt) -> Option<(Mono, BigInt)>) -> MP {
        let mut r = MP::zero();
        for (m, c) in &self.0 { if let Some((m, c)) = f(m, c) { r.acc(m, &c); } }
        r
    }
    pub fn is_zero(&self) -> bool { self.0.is_empty() }
    pub fn vars(&self) -> bool { self.0.keys().any(|m| m.3.is_some()) }
}
/// least non-negative residue, from truncated division only
pub fn modf(a: &BigInt, p: &BigInt) -> BigInt {
    let r = a % p;
    if r.is_negative() { r + p.abs() } else { r }
}
pub fn floor_div(a: &BigInt, b: &BigInt) -> BigInt {
    let (q, r) = (a / b, a % b);
    if !r.is_zero() && (r.is_negative() != b.is_negative()) { q - 1 } else { q }
}
pub fn show(p: &MP) -> String {
    if p.is_zero() { return "0".into(); }
    clip(&p.0.iter().map(|(m, c)| format!("{}*x^{}y^{}q^{}{}", c, m.0, m.1, m.2, m.3.map(|v| format!("c{:?}", v)).unwrap_or_default())).collect::<Vec<_>>().join(" + "), 700)
}
/// exact equality with the model, including canonical storage
pub fn same(what: &str, got: &Polynomial, want: &MP) -> Res {
    let g = MP::raw(got);
    if g != *want || *got != want.crate_pol() || got.terms.len() != want.0.len() {
        return Err(format!("{}: got {} want {}", what, show(&g), show(want)));
    }
    Ok(())
}
pub fn same_term(what: &str, got: &Term, m: &Mono, c: &BigInt) -> Res {
    if mmono(&got.monomial) != *m || got.coef != *c { return Err(format!("{}: got {:?} {} want {:?} {}", what, mmono(&got.monomial), got.coef, m, c)); }
    Ok(())
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}
pub fn eq<T: PartialEq + std::fmt::Display>(what: &str, got: T, want: T) -> Res {
    if got != want { return Err(format!("{}: got {} want {}", what, got, want)); }
    Ok(())
}

// ---------------------------------------------------------------- integers
pub fn egcd(a: &BigInt, b: &BigInt) -> (BigInt, BigInt) {
    // iterative: returns (g, x) with a x = g mod b
    let (mut r0, mut r1) = (a.clone(), b.clone());
    let (mut s0, mut s1) = (BigInt::one(), BigInt::zero());
    while !r1.is_zero() {
        let q = &r0 / &r1;
        let t = &r0 - &q * &r1; r0 = r1; r1 = t;
        let t = &s0 - &q * &s1; s0 = s1; s1 = t;
    }
    (r0, s0)
}
pub fn inv(a: &BigInt, p: &BigInt) -> Option<BigInt> {
    let a = modf(a, p);
    if a.is_zero() { return None; }
    let (g, x) = egcd(&a, p);
    if g.is_one() { Some(modf(&x, p)) } else if (-g).is_one() { Some(modf(&-x, p)) } else { None }
}
pub fn pow(b: &BigInt, n: u64) -> BigInt {
    // right-to-left by halving the exponent recursively
    if n == 0 { return BigInt::one(); }
    let h = pow(b, n / 2);
    let s = &h * &h;
    if n % 2 == 1 { s * b } else { s }
}
pub fn powmod(b: &BigInt, n: &BigInt, p: &BigInt) -> BigInt {
    let mut r = modf(&BigInt::one(), p);
    let b = modf(b, p);
    for d in n.to_str_radix(2).bytes() {
        r = modf(&(&r * &r), p);
        if d == b'1' { r = modf(&(&r * &b), p); }
    }
    r
}

// ---------------------------------------------------------------- F_p[x], dense, little endian
pub type U = Vec<BigInt>;
pub fn utrim(mut a: U) -> U { while a.last().map_or(false, |c| c.is_zero()) { a.pop(); } a }
pub fn umod(a: &U, p: &BigInt) -> U { utrim(a.iter().map(|c| modf(c, p)).collect()) }
pub fn uof(s: &MP) -> U {
    let d = s.0.keys().map(|m| m.0).max().unwrap_or(-1);
    let mut v = vec![BigInt::zero(); (d + 1) as usize];
    for (m, c) in &s.0 { assert!(m.1 == 0 && m.2 == 0 && m.3.is_none()); v[m.0 as usize] += c; }
    utrim(v)
}
pub fn uto(a: &U) -> MP { let mut r = MP::zero(); for (i, c) in a.iter().enumerate() { r.acc((i as i32, 0, 0, None), c); } r }
pub fn umul(a: &U, b: &U) -> U {
    if a.is_empty() || b.is_empty() { return vec![]; }
    let mut r = vec![BigInt::zero(); a.len() + b.len() - 1];
    for (i, x) in a.iter().enumerate() { if x.is_zero() { continue; } for (j, y) in b.iter().enumerate() { r[i + j] += x * y; } }
    utrim(r)
}
pub fn urem(a: &U, b: &U, p: &BigInt) -> U {
    let (mut a, b) = (umod(a, p), umod(b, p));
    let li = inv(b.last().expect("urem by 0"), p).expect("unit");
    while a.len() >= b.len() {
        let k = modf(&(a.last().unwrap() * &li), p);
        let off = a.len() - b.len();
        for (i, c) in b.iter().enumerate() { a[off + i] = modf(&(&a[off + i] - &k * c), p); }
        a = utrim(a);
        if a.is_empty() { break; }
    }
    a
}
pub fn umonic(a: &U, p: &BigInt) -> U {
    let a = umod(a, p);
    match a.last() { None => a, Some(l) => { let li = inv(l, p).unwrap(); umod(&a.iter().map(|c| c * &li).collect(), p) } }
}
pub fn ugcd(a: &U, b: &U, p: &BigInt) -> U {
    let (mut a, mut b) = (umod(a, p), umod(b, p));
    while !b.is_empty() { let r = urem(&a, &b, p); a = b; b = r; }
    umonic(&a, p)
}
pub fn ueval(a: &U, x: &BigInt, p: &BigInt) -> BigInt {
    let mut r = BigInt::zero();
    for c in a.iter().rev() { r = modf(&(r * x + c), p); }
    r
}

// ---------------------------------------------------------------- curves
pub type Pt = Option<(BigInt, BigInt)>;
#[derive(Clone, Debug)]
pub struct Cv { pub a: BigInt, pub b: BigInt, pub p: BigInt }
impl Cv {
    pub fn new(a: &BigInt, b: &BigInt, p: &BigInt) -> Cv { Cv { a: modf(a, p), b: modf(b, p), p: p.clone() } }
    pub fn f(&self, x: &BigInt) -> BigInt { modf(&(x * x * x + &self.a * x + &self.b), &self.p) }
    pub fn on(&self, x: &BigInt, y: &BigInt) -> bool { modf(&(y * y), &self.p) == self.f(x) }
    pub fn disc_zero(&self) -> bool { modf(&(bi(4) * &self.a * &self.a * &self.a + bi(27) * &self.b * &self.b), &self.p).is_zero() || self.p == bi(2) }
    pub fn neg(&self, a: &Pt) -> Pt { a.as_ref().map(|(x, y)| (x.clone(), modf(&-y, &self.p))) }
    pub fn add(&self, a: &Pt, b: &Pt) -> Pt {
        let (x1, y1) = match a { None => return b.clone(), Some(v) => v };
        let (x2, y2) = match b { None => return a.clone(), Some(v) => v };
        let p = &self.p;
        let l = if x1 == x2 {
            if modf(&(y1 + y2), p).is_zero() { return None; }
            (bi(3) * x1 * x1 + &self.a) * inv(&(bi(2) * y1), p).unwrap()
        } else { (y2 - y1) * inv(&(x2 - x1), p).unwrap() };
        let l = modf(&l, p);
        let x3 = modf(&(&l * &l - x1 - x2), p);
        let y3 = modf(&(&l * (x1 - &x3) - y1), p);
        Some((x3, y3))
    }
    /// most significant bit first
    pub fn mul(&self, a: &Pt, n: &BigInt) -> Pt {
        let base = if n.is_negative() { self.neg(a) } else { a.clone() };
        let mut r = None;
        for d in n.abs().to_str_radix(2).bytes() {
            r = self.add(&r, &r);
            if d == b'1' { r = self.add(&r, &base); }
        }
        r
    }
    /// all affine points, by squares table (small p only)
    pub fn points(&self) -> Vec<(BigInt, BigInt)> {
        use num_traits::ToPrimitive;
        let p = self.p.to_u64().unwrap();
        let mut roots: Vec<Vec<u64>> = vec![vec![]; p as usize];
        for y in 0..p { roots[(y * y % p) as usize].push(y); }
        let (a, b) = (self.a.to_u64().unwrap(), self.b.to_u64().unwrap());
        let mut v = Vec::new();
        for x in 0..p {
            let r = ((x * x % p) * x % p + a * x % p + b) % p;
            for y in &roots[r as usize] { v.push((BigInt::from(x), BigInt::from(*y))); }
        }
        v
    }
}
/// #E by Euler's criterion (small p)
pub fn count(a: u64, b: u64, p: u64) -> u64 {
    let mut sq = vec![0u64; p as usize];
    for y in 0..p { sq[(y * y % p) as usize] += 1; }
    let mut n = 1;
    for x in 0..p { n += sq[(((x * x % p) * x + a * x + b) % p) as usize]; }
    n
}

// ---------------------------------------------------------------- q-series (index = power of q), length n+1
pub type S = Vec<BigInt>;
pub fn smul(a: &S, b: &S, n: usize) -> S {
    let mut r = vec![BigInt::zero(); n + 1];
    for i in 0..a.len().min(n + 1) { if a[i].is_zero() { continue; } for j in 0..b.len().min(n + 1 - i) { r[i + j] += &a[i] * &b[j]; } }
    r
}
pub fn sinv(a: &S, n: usize) -> S {
    assert!(a[0].is_one());
    let mut r = vec![BigInt::zero(); n + 1];
    r[0] = BigInt::one();
    for k in 1..=n {
        let mut t = BigInt::zero();
        for i in 1..=k.min(a.len() - 1) { t += &a[i] * &r[k - i]; }
        r[k] = -t;
    }
    r
}
pub fn sigma(n: u64, k: u32) -> BigInt {
    // product over prime powers
    let mut n = n;
    let mut r = BigInt::one();
    let mut f = 2;
    while n > 1 {
        if f * f > n { f = n; }
        if n % f == 0 {
            let mut s = BigInt::one();
            let mut pk = BigInt::one();
            while n % f == 0 { n /= f; pk = pk * pow(&BigInt::from(f), k as u64); s += &pk; }
            r *= s;
        }
        f += 1;
    }
    r
}
pub fn e4(n: usize) -> S { (0..=n).map(|i| if i == 0 { bi(1) } else { bi(240) * sigma(i as u64, 3) }).collect() }
/// prod (1-q^n)^24 by the logarithmic-derivative recurrence: n a_n = -24 sum sigma_1(k) a_{n-k}
pub fn eta24(n: usize) -> S {
    let mut a: S = vec![BigInt::one()];
    for m in 1..=n {
        let mut t = BigInt::zero();
        for k in 1..=m { t += sigma(k as u64, 1) * &a[m - k]; }
        let v = bi(-24) * t;
        assert!(v.mod_floor(&bi(m as i64)).is_zero());
        a.push(v / bi(m as i64));
    }
    a
}
pub fn qj(n: usize) -> S {
    let e = e4(n);
    let e3 = smul(&smul(&e, &e, n), &e, n);
    smul(&e3, &sinv(&eta24(n), n), n)
}
pub fn sto(a: &S, shift: i32) -> MP { let mut r = MP::zero(); for (i, c) in a.iter().enumerate() { r.acc((0, 0, i as i32 + shift, None), c); } r }
