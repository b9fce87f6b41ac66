//! C05..C19: the polynomial ring, against the model ring of model.rs.
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use ellipticcurve::bigint::Power;
use ellipticcurve::polynomial::Polynomial;
use ellipticcurve::term::Term;
use num_bigint::BigInt;
use num_traits::{One, Signed, ToPrimitive, Zero};
use proptest::collection::vec;
use proptest::prelude::*;

pub fn ct(t: &Tm) -> Term { cterm(&(t.1, t.2, t.3, t.4), &t.0) }
fn mt(t: &Tm) -> MP { MP::mono((t.1, t.2, t.3, t.4), t.0.clone()) }
fn pl(s: &Spec) -> (Polynomial, MP) { let m = MP::of(s); (m.crate_pol(), m) }
fn set1(s: &Spec) -> bool { MP::of(s).0.len() >= 2 }

/// all operand forms of a binary operator giving a polynomial; borrowed operands must not change
macro_rules! bin {
    ($what:expr, $a:expr, $b:expr, $want:expr, $op:tt) => {{
        let (a, b) = ($a, $b);
        let (a0, b0) = (a.clone(), b.clone());
        let w = $want;
        same(concat!($what, " (borrowed, borrowed)"), &(&a $op &b), w)?;
        same(concat!($what, " (owned, borrowed)"), &(a.clone() $op &b), w)?;
        same(concat!($what, " (borrowed, owned)"), &(&a $op b.clone()), w)?;
        same(concat!($what, " (owned, owned)"), &(a.clone() $op b.clone()), w)?;
        ensure!(a == a0 && b == b0, "{}: a borrowed operand changed", $what);
    }};
}
macro_rules! asg {
    ($what:expr, $a:expr, $b:expr, $want:expr, $op:tt) => {{
        let (a, b) = ($a, $b);
        let b0 = b.clone();
        let mut t = a.clone();
        t $op &b;
        same(concat!($what, " (borrowed)"), &t, $want)?;
        let mut t = a.clone();
        t $op b.clone();
        same(concat!($what, " (owned)"), &t, $want)?;
        ensure!(b == b0, "{}: the borrowed operand changed", $what);
    }};
}

/// a term correlated with a polynomial
fn tie(s: &Spec, t: &Tm, how: u8) -> Tm {
    let m = MP::of(s);
    match (how % 8, m.0.iter().nth(how as usize % m.0.len().max(1))) {
        (0, Some((k, c))) => (-c.clone(), k.0, k.1, k.2, k.3),
        (1, Some((k, c))) => (c.clone(), k.0, k.1, k.2, k.3),
        (2, Some((k, _))) => (BigInt::zero(), k.0, k.1, k.2, k.3),
        (3, Some((k, _))) => (t.0.clone(), k.0, k.1, k.2, k.3),
        (4, _) => (BigInt::zero(), t.1, t.2, t.3, t.4),
        _ => t.clone(),
    }
}

// ---------------------------------------------------------------- C05
pub fn c05() -> Vec<Sub> {
    let strat = |k: PK| (poly_pair(k.clone()), tm(k.clone()), tm(k), any::<u8>(), any::<u8>());
    vec![
        random("add_sub_neg", "both polynomials have terms, and at least one monomial in common", 40_000, 2_000_000, &STD,
            move |t| {
                let big = PK { n: 40, x: (-2, 3), y: (-2, 3), ..LAURENT };
                let n = if t == Tier::Quick { 1 } else { 3 };
                let strat2 = |k: PK| (many_pair(k.clone()), tm(k.clone()), tm(k), any::<u8>(), any::<u8>());
                prop_oneof![1 => strat2(LAURENT), 1 => strat(WIDE), 10 => strat(LAURENT), 3 => strat(PK { x: (0, 2), y: (0, 2), q: (0, 1), ..LAURENT }), n => strat(big), 1 => strat(PK { x: (-2_000_000_000, 2_000_000_000), y: (-2_000_000_000, 2_000_000_000), q: (-2_000_000_000, 2_000_000_000), ..LAURENT })].boxed()
            },
            |((a, b), t, u, h, k), o| {
                let t = tie(a, t, *h);
                let u = if k % 4 == 0 { (-t.0.clone(), t.1, t.2, t.3, t.4) } else if k % 4 == 1 { (u.0.clone(), t.1, t.2, t.3, t.4) } else { tie(a, u, *k) };
                let (pa, ma) = pl(a);
                let (pb, mb) = pl(b);
                let (ta, tb) = (ct(&t), ct(&u));
                let (ua, ub) = (mt(&t), mt(&u));
                let (sum, dif) = (ma.add(&mb), ma.sub(&mb));
                bin!("poly + poly", pa.clone(), pb.clone(), &sum, +);
                bin!("poly - poly", pa.clone(), pb.clone(), &dif, -);
                asg!("poly += poly", pa.clone(), pb.clone(), &sum, +=);
                asg!("poly -= poly", pa.clone(), pb.clone(), &dif, -=);
                bin!("poly + term", pa.clone(), ta.clone(), &ma.add(&ua), +);
                bin!("poly - term", pa.clone(), ta.clone(), &ma.sub(&ua), -);
                bin!("term + poly", ta.clone(), pa.clone(), &ua.add(&ma), +);
                bin!("term - poly", ta.clone(), pa.clone(), &ua.sub(&ma), -);
                asg!("poly += term", pa.clone(), ta.clone(), &ma.add(&ua), +=);
                bin!("term + term", ta.clone(), tb.clone(), &ua.add(&ub), +);
                bin!("term - term", ta.clone(), tb.clone(), &ua.sub(&ub), -);
                same("- poly", &-&pa, &ma.neg())?;
                same("- poly (owned)", &-pa.clone(), &ma.neg())?;
                same("to_pol", &ta.to_pol(), &ua)?;
                let m = (t.1, t.2, t.3, t.4);
                same_term("- term", &-&ta, &m, &-&t.0)?;
                same_term("- term (owned)", &-ta.clone(), &m, &-&t.0)?;
                // the same object on both sides
                same("p + p", &(&pa + &pa), &ma.scale(&bi(2)))?;
                same("p - p", &(&pa - &pa), &MP::zero())?;
                let common = ma.0.keys().any(|k| mb.0.contains_key(k));
                o.nt(common);
                o.when(sum.0.len() + 1 < ma.0.len() + mb.0.len() && sum.0.len() < ma.0.len().max(mb.0.len()), "cancellation in the sum");
                o.when(dif.0.len() < ma.0.len(), "cancellation in the difference");
                o.when(sum.is_zero() && !ma.is_zero(), "sum is 0");
                o.when(t.0.is_zero(), "zero term");
                o.when(ua.add(&ub).is_zero() && !ua.is_zero(), "terms cancel");
                o.when(ma.vars(), "variables");
                o.when(ma.is_zero() || mb.is_zero(), "a zero operand");
                o.when(ma.0.len() > 12, "more than 12 terms");
                Ok(())
            }),
    ]
}

// ---------------------------------------------------------------- C06
pub fn c06() -> Vec<Sub> {
    let pair = |k: PK| (poly_pair(k.clone()), tm(k.clone()), tm(k), any::<u8>(), 0u8..4);
    vec![
        random("mul", "both factors have at least two terms", 10_000, 1_000_000, &STD,
            move |_| prop_oneof![
                50 => pair(LAURENT),
                30 => pair(PK { x: (0, 3), y: (0, 2), q: (0, 1), vars: false, bits: 8, n: 10 }),
                20 => pair(PK { x: (0, 12), y: (0, 0), q: (0, 0), vars: false, bits: 200, n: 16 }),
                10 => pair(PK { x: (0, 0), y: (0, 0), q: (-3, 20), vars: true, bits: 80, n: 12 }),
                10 => pair(WIDE),
                1 => (many_pair(PK { x: (0, 200), y: (0, 0), q: (0, 0), vars: false, bits: 20, n: 0 }), tm(LAURENT), tm(LAURENT), any::<u8>(), 2u8..3),
                1 => (many_pair(PK { x: (-3, 40), y: (-3, 3), bits: 20, ..LAURENT }), tm(LAURENT), tm(LAURENT), any::<u8>(), 0u8..4),
                3 => ((many(PK { bits: 20, ..LAURENT }), poly(LAURENT)), tm(LAURENT), tm(LAURENT), any::<u8>(), 0u8..4),
            ].boxed(),
            |((a, b), t, u, h, side), o| {
                let (a, b) = match side { 0 => (strip_vars(a), b.clone()), 1 => (a.clone(), strip_vars(b)), _ => (strip_vars(a), strip_vars(b)) };
                let mut t = tie(&a, t, *h);
                if MP::of(&a).vars() { t.4 = None; }
                let (pa, ma) = pl(&a);
                let (pb, mb) = pl(&b);
                let w = ma.mul(&mb);
                bin!("poly * poly", pa.clone(), pb.clone(), &w, *);
                asg!("poly *= poly", pa.clone(), pb.clone(), &w, *=);
                if !(ma.vars() && t.4.is_some()) {
                    let w = ma.mul(&mt(&t));
                    bin!("poly * term", pa.clone(), ct(&t), &w, *);
                    bin!("term * poly", ct(&t), pa.clone(), &w, *);
                }
                if !(u.4.is_some() && t.4.is_some()) {
                    let (x, y) = (ct(&t), ct(u));
                    let m = (t.1 + u.1, t.2 + u.2, t.3 + u.3, t.4.or(u.4));
                    let c = &t.0 * &u.0;
                    same_term("term * term", &(&x * &y), &m, &c)?;
                    same_term("term * term (owned, borrowed)", &(x.clone() * &y), &m, &c)?;
                    same_term("term * term (borrowed, owned)", &(&x * y.clone()), &m, &c)?;
                    same_term("term * term (owned)", &(x.clone() * y.clone()), &m, &c)?;
                    same_term("term * term (reversed)", &(&y * &x), &m, &c)?;
                }
                if !ma.vars() { same("p * p", &(&pa * &pa), &ma.mul(&ma))?; }
                o.nt(ma.0.len() >= 2 && mb.0.len() >= 2);
                let pairs = ma.0.len() * mb.0.len();
                o.when(w.0.len() < pairs, "monomials meet in the product");
                o.when(w.0.len() + 2 <= pairs && ma.0.keys().flat_map(|m| mb.0.keys().map(move |n| (m.0 + n.0, m.1 + n.1, m.2 + n.2, m.3.or(n.3)))).any(|m| !w.0.contains_key(&m)), "terms cancel in the product");
                o.when(ma.is_zero() || mb.is_zero(), "a zero factor");
                o.when(ma.vars() || mb.vars(), "variables");
                Ok(())
            }),
        random("mul_long", "both factors have at least 100 terms", 24, 400, &STD,
            |_| prop_oneof![
                (dense(PK { x: (0, 1500), y: (0, 0), q: (0, 0), vars: false, bits: 30, n: 0 }, 300..700), dense(PK { x: (0, 1500), y: (0, 0), q: (0, 0), vars: false, bits: 30, n: 0 }, 200..500)),
                // every power of one letter
                (vec(int(40), 100..600), vec(int(40), 100..600), 0u8..3).prop_map(|(a, b, v)| {
                    let f = |c: Vec<BigInt>| -> Spec { c.into_iter().enumerate().map(|(i, c)| { let i = i as i32; match v { 0 => (c, i, 0, 0, None), 1 => (c, 0, 0, i - 50, None), _ => (c, i % 29, i / 29, 0, None) } }).collect() };
                    (f(a), f(b))
                }),
                (dense(PK { x: (-20, 40), y: (-9, 9), q: (-2, 2), vars: true, bits: 90, n: 0 }, 300..600), dense(PK { x: (-20, 40), y: (-9, 9), q: (-2, 2), vars: false, bits: 90, n: 0 }, 100..300)),
            ].boxed(),
            |(a, b), o| {
                let (pa, ma) = pl(a);
                let (pb, mb) = pl(b);
                let w = ma.mul(&mb);
                same("product", &(&pa * &pb), &w)?;
                let mut d = pb.clone();
                d *= &pa;
                same("*=, other order", &d, &w)?;
                if !ma.vars() { same("square", &pa.square(), &ma.mul(&ma))?; }
                o.nt(ma.0.len() >= 100 && mb.0.len() >= 100);
                o.when(w.0.len() < ma.0.len() * mb.0.len(), "monomials meet in the product");
                Ok(())
            }),
        random("power", "at least two terms and exponent at least 2", 8_000, 400_000, &STD,
            |t| {
                let e = if t == Tier::Quick { 7 } else { 10 };
                let k = PK { vars: false, bits: 40, n: 4, ..LAURENT };
                prop_oneof![
                    4 => (poly(k.clone()), 0..e),
                    3 => (poly(PK { x: (0, 2), y: (0, 1), q: (0, 0), vars: false, bits: 3, n: 4 }), 0..e + 3),
                    2 => (vec(tm(PK { bits: 8, ..k.clone() }), 2), 0i32..40),
                    2 => (vec(tm(PK { bits: 20, ..k.clone() }), 1), ex(0, 200)),
                    1 => (vec(tm(PK { bits: 20, vars: true, ..k }), 1..4), 0i32..2),
                ].boxed()
            },
            |(s, n), o| {
                let (p, m) = pl(s);
                let w = m.pow(*n as u32);
                same("power(i32)", &p.power(*n), &w)?;
                same("power(&BigInt)", &p.power(&BigInt::from(*n)), &w)?;
                same("power(BigInt)", &p.power(BigInt::from(*n)), &w)?;
                if !m.vars() && m.0.len() <= 5 {
                    same("square", &p.square(), &m.pow(2))?;
                    same("cube", &p.cube(), &m.pow(3))?;
                }
                if s.len() == 1 && s[0].4.is_none() {
                    let t = ct(&s[0]);
                    let k = (s[0].1 * n, s[0].2 * n, s[0].3 * n, None);
                    let c = pow(&s[0].0, *n as u64);
                    same_term("term power(i32)", &t.power(*n), &k, &c)?;
                    same_term("term power(BigInt)", &t.power(BigInt::from(*n)), &k, &c)?;
                    same_term("term power(&BigInt)", &t.power(&BigInt::from(*n)), &k, &c)?;
                }
                o.nt(m.0.len() >= 2 && *n >= 2);
                o.when(*n == 0, "exponent 0");
                o.when(m.is_zero(), "zero base");
                o.when(m.is_zero() && *n == 0, "0^0");
                o.when(*n > 10, "exponent > 10");
                Ok(())
            }),
        random("power_huge_exponent", "exponent above 1000, base not 1", 6_000, 200_000, &STD,
            |_| prop_oneof![
                // constants 0, 1, -1: any exponent has a small answer
                2 => ((-1i64..=1).prop_map(bi), (0i32..1, 0i32..1, 0i32..1), prop_oneof![nat(300), nat(70), nat(33)]),
                // +-monomials: any exponent whose result fits an exponent
                3 => (any::<bool>().prop_map(|n| bi(if n { -1 } else { 1 })), (-6i32..7, -6i32..7, -6i32..7), prop_oneof![nat(28), nat(15)]),
            ].boxed(),
            |(c, (x, y, q), n), o| {
                use num_traits::ToPrimitive;
                let k = n.to_i32().unwrap_or(0);
                let w = if n.is_zero() { MP::one() } else { MP::mono((x * k, y * k, q * k, None), if num_integer::Integer::is_even(n) { c * c } else { c.clone() }) };
                let p = MP::mono((*x, *y, *q, None), c.clone()).crate_pol();
                same("power(&BigInt)", &p.power(n), &w)?;
                same("power(BigInt)", &p.power(n.clone()), &w)?;
                if let Some(k) = n.to_i32() { same("power(i32)", &p.power(k), &w)?; }
                o.nt(*n > bi(1000) && !(c.is_one() && (*x, *y, *q) == (0, 0, 0)));
                o.when(n.bits() > 31, "exponent above 2^31");
                o.when(c.is_zero(), "zero polynomial");
                Ok(())
            }),
        random("two_variables_refused", "every case", 4_000, 100_000, &STD,
            |_| (poly(LAURENT), poly(LAURENT), tm(LAURENT), tm(LAURENT), (0i32..4, 0i32..4), (0i32..4, 0i32..4)).boxed(),
            |(a, b, t, u, v, w), o| {
                let (mut a, mut b) = (strip_vars(a), strip_vars(b));
                a.push((t.0.clone(), t.1, t.2, t.3, Some(*v)));
                b.push((u.0.clone(), u.1, u.2, u.3, Some(*w)));
                let (pa, pb) = (pl(&a).0, pl(&b).0);
                let (ta, tb) = (ct(a.last().unwrap()), ct(b.last().unwrap()));
                ensure!(refuses(|| &ta * &tb), "term * term with two variables answered");
                ensure!(refuses(|| &pa * &pb), "poly * poly with two variables answered");
                ensure!(refuses(|| &pa * &tb), "poly * term with two variables answered");
                ensure!(refuses(|| &ta * &pb), "term * poly with two variables answered");
                ensure!(refuses(|| { let mut x = pa.clone(); x *= &pb; x }), "poly *= poly with two variables answered");
                o.nt(true);
                o.when(v == w, "the same variable twice");
                Ok(())
            }),
    ]
}

// ---------------------------------------------------------------- model maps
fn m_frob(m: &MP, n: i32) -> MP { m.map(|k, c| Some(((k.0 * n, k.1 * n, k.2, k.3), c.clone()))) }
fn m_ypow(m: &MP, n: i32) -> MP { m.map(|k, c| Some(((k.0, k.1 * n, k.2, k.3), c.clone()))) }
fn m_qpow(m: &MP, n: i32) -> MP { m.map(|k, c| Some(((k.0, k.1, k.2 * n, k.3), c.clone()))) }
fn m_dx(m: &MP) -> MP { m.map(|k, c| Some(((k.0 - 1, k.1, k.2, k.3), c * k.0))) }
fn m_dy(m: &MP) -> MP { m.map(|k, c| Some(((k.0, k.1 - 1, k.2, k.3), c * k.1))) }
fn m_evx(m: &MP, x: &BigInt) -> MP { m.map(|k, c| Some(((0, k.1, k.2, k.3), c * pow(x, k.0 as u64)))) }
fn m_evy(m: &MP, y: &BigInt) -> MP { m.map(|k, c| Some(((k.0, 0, k.2, k.3), c * pow(y, k.1 as u64)))) }
fn m_div(m: &MP, t: &Tm) -> MP { m.map(|k, c| Some(((k.0 - t.1, k.1 - t.2, k.2 - t.3, k.3), floor_div(c, &t.0)))) }
fn m_trunc(m: &MP, n: i32) -> MP { m.map(|k, c| if k.2 <= n { Some((*k, c.clone())) } else { None }) }
fn m_subst(m: &MP, g: &MP, isx: bool) -> MP {
    let mut r = MP::zero();
    let mut pw: Vec<MP> = vec![MP::one()];
    for (k, c) in &m.0 {
        let e = if isx { k.0 } else { k.1 } as usize;
        while pw.len() <= e { let n = pw.last().unwrap().mul(g); pw.push(n); }
        let rest = if isx { (0, k.1, k.2, k.3) } else { (k.0, 0, k.2, k.3) };
        r = r.add(&pw[e].mul(&MP::mono(rest, c.clone())));
    }
    r
}
fn cubic(a: &BigInt, b: &BigInt) -> MP { MP::of(&vec![(bi(1), 3, 0, 0, None), (a.clone(), 1, 0, 0, None), (b.clone(), 0, 0, 0, None)]) }
fn m_red(m: &MP, a: &BigInt, b: &BigInt, p: Option<&BigInt>) -> MP {
    let f = cubic(a, b);
    let mut pw: Vec<MP> = vec![MP::one()];
    let mut r = MP::zero();
    for (k, c) in &m.0 {
        let h = (k.1 / 2) as usize;
        while pw.len() <= h { let mut n = pw.last().unwrap().mul(&f); if let Some(p) = p { n = n.modp(p); } pw.push(n); }
        r = r.add(&pw[h].mul(&MP::mono((k.0, k.1 % 2, k.2, k.3), c.clone())));
    }
    match p { Some(p) => r.modp(p), None => r }
}
/// remainder by g (in x) modulo p, coefficient of each y^j q^k apart
fn m_rem(m: &MP, g: &MP, p: &BigInt) -> MP {
    use std::collections::BTreeMap;
    let gd = uof(g);
    let mut by: BTreeMap<(i32, i32), MP> = BTreeMap::new();
    for (k, c) in &m.0 { assert!(k.3.is_none()); by.entry((k.1, k.2)).or_default().acc((k.0, 0, 0, None), c); }
    let mut r = MP::zero();
    for ((y, q), f) in by { for (k, c) in uto(&urem(&uof(&f), &gd, p)).0 { r.acc((k.0, y, q, None), &c); } }
    r
}
fn nonneg(m: &MP) -> bool { m.0.keys().all(|k| k.0 >= 0 && k.1 >= 0) }
fn xonly(m: &MP) -> bool { m.0.keys().all(|k| k.1 == 0 && k.2 == 0 && k.3.is_none()) }
fn cost(m: &MP) -> usize { m.0.len() + m.0.values().map(|c| c.bits()).max().unwrap_or(0) / 40 }
fn span(m: &MP) -> i32 { m.0.keys().map(|k| k.0.abs().max(k.1.abs()).max(k.2.abs())).max().unwrap_or(0) }

// ---------------------------------------------------------------- C07
type Op = (u8, usize, usize, usize, i32, Tm, BigInt);
const OPS: u8 = 40;
fn run_history(init: &Vec<Spec>, ops: &Vec<Op>, o: &mut Obs) -> Res {
    const R: usize = 4;
    let mut regs: Vec<(Polynomial, MP)> = (0..R).map(|i| pl(init.get(i).unwrap_or(&vec![]))).collect();
    let primes = [2i64, 3, 5, 7, 13, 101];
    let mut done = 0;
    let mut cancelled = 0;
    for (step, (op, d, i, j, n, t, c)) in ops.iter().enumerate() {
        let (d, i, j) = (d % R, i % R, j % R);
        let before: Vec<Polynomial> = regs.iter().map(|r| r.0.clone()).collect();
        let (pi, mi) = regs[i].clone();
        let (pj, mj) = regs[j].clone();
        let k = n.rem_euclid(5);
        let p = bi(primes[n.rem_euclid(6) as usize]);
        let small = cost(&mi) <= 40 && cost(&mj) <= 40 && span(&mi) <= 60 && span(&mj) <= 60;
        let tt = ct(t);
        let mut inplace = false;
        let r: Option<(&str, Polynomial, MP)> = match op % OPS {
            0 => Some(("+", &pi + &pj, mi.add(&mj))),
            1 => Some(("-", &pi - &pj, mi.sub(&mj))),
            2 if small && !(mi.vars() && mj.vars()) => Some(("*", &pi * &pj, mi.mul(&mj))),
            3 => Some(("neg", -&pi, mi.neg())),
            4 => { inplace = true; let (q, _) = &mut regs[i]; *q += &pj; Some(("+=", q.clone(), mi.add(&mj))) }
            5 => { inplace = true; let (q, _) = &mut regs[i]; *q -= &pj; Some(("-=", q.clone(), mi.sub(&mj))) }
            6 if small && !(mi.vars() && mj.vars()) => { inplace = true; let (q, _) = &mut regs[i]; *q *= &pj; Some(("*=", q.clone(), mi.mul(&mj))) }
            7 if !t.0.is_zero() && span(&mi) <= 60 => { let t = (t.0.clone(), t.1, t.2, t.3, None); Some(("/ term", &pi / ct(&t), m_div(&mi, &t))) }
            8 if !t.0.is_zero() && span(&mi) <= 60 => { inplace = true; let t = (bi(n.rem_euclid(7) as i64 + 1), t.1, t.2, t.3, None); let (q, _) = &mut regs[i]; *q /= ct(&t); Some(("/= term", q.clone(), m_div(&mi, &t))) }
            9 => { let m = bi(n.rem_euclid(9) as i64 + 1); Some(("%", &pi % &m, mi.modp(&m))) }
            10 => { inplace = true; let m = bi(n.rem_euclid(9) as i64 + 1); let (q, _) = &mut regs[i]; q.modular_assign(&m); Some(("modular_assign", q.clone(), mi.modp(&m))) }
            11 if small && mi.0.len() <= 5 && (!mi.vars() || k <= 1) => Some(("power", pi.power(k), mi.pow(k as u32))),
            12 if small && mi.0.len() <= 5 && (!mi.vars() || k <= 1) => Some(("power_modulo", pi.power_modulo(&BigInt::from(k), &p), mi.pow(k as u32).modp(&p))),
            13 if nonneg(&mi) => Some(("derivative_x", pi.derivative_x(), m_dx(&mi))),
            14 if nonneg(&mi) => Some(("derivative_y", pi.derivative_y(), m_dy(&mi))),
            15 if span(&mi) <= 60 => Some(("to_frob", pi.to_frob(k), m_frob(&mi, k))),
            16 if span(&mi) <= 60 => Some(("to_y_power", pi.to_y_power(k), m_ypow(&mi, k))),
            17 if span(&mi) <= 60 => Some(("to_q_power", pi.to_q_power(k), m_qpow(&mi, k))),
            18 if small && nonneg(&mi) && mi.0.len() <= 6 && mj.0.len() <= 3 && span(&mi) <= 4 && !(mi.vars() || mj.vars()) => Some(("eval_x_polynomial", pi.eval_x_polynomial(&pj), m_subst(&mi, &mj, true))),
            19 if small && nonneg(&mi) && mi.0.len() <= 6 && mj.0.len() <= 3 && span(&mi) <= 4 && !(mi.vars() || mj.vars()) => Some(("eval_y_polynomial", pi.eval_y_polynomial(&pj), m_subst(&mi, &mj, false))),
            20 if small && nonneg(&mi) && span(&mi) <= 12 => Some(("eval_x", pi.eval_x(&bi((n % 3) as i64)), m_evx(&mi, &bi((n % 3) as i64)))),
            21 if small && nonneg(&mi) && span(&mi) <= 12 => Some(("eval_y", pi.eval_y(&bi((n % 3) as i64)), m_evy(&mi, &bi((n % 3) as i64)))),
            22 if small && nonneg(&mi) && span(&mi) <= 8 => { let (a, b) = (bi((n % 4) as i64), bi((n % 3) as i64)); Some(("reduction", pi.reduction(&a, &b), m_red(&mi, &a, &b, None))) }
            23 => { let t = tie(&mi.0.iter().map(|(k, c)| (c.clone(), k.0, k.1, k.2, k.3)).collect(), t, *n as u8); Some(("+ term", &pi + ct(&t), mi.add(&mt(&t)))) }
            24 => { inplace = true; let t = tie(&mi.0.iter().map(|(k, c)| (c.clone(), k.0, k.1, k.2, k.3)).collect(), t, *n as u8); let (q, _) = &mut regs[i]; *q += ct(&t); Some(("+= term", q.clone(), mi.add(&mt(&t)))) }
            25 => { let s = MP::mono((0, 0, 0, None), c.clone()); Some(("constant", tt.to_pol() - tt.to_pol() + Term { coef: c.clone(), ..Term::new() }, s)) }
            26 if xonly(&mi) && xonly(&mj) && nonneg(&mi) && nonneg(&mj) && !mj.modp(&p).is_zero() => Some(("polynomial_modular", pi.polynomial_modular(&pj, &p), m_rem(&mi, &mj, &p))),
            27 if !mi.is_zero() && xonly(&mi) && nonneg(&mi) && !mi.modp(&p).is_zero() => Some(("to_monic", pi.to_monic(&p), uto(&umonic(&uof(&mi), &p)))),
            28 if small && nonneg(&mi) && span(&mi) <= 8 => { let (a, b) = (bi((n % 4) as i64), bi((n % 3) as i64)); Some(("reduction_modular", pi.reduction_modular(&a, &b, p.to_i32().unwrap()), m_red(&mi, &a, &b, Some(&p)))) }
            29 if !mi.0.keys().any(|k| k.0 != 0 || k.1 != 0) => { inplace = true; let (q, _) = &mut regs[i]; q.omit_high_order_q(k - 2); Some(("omit_high_order_q", q.clone(), m_trunc(&mi, k - 2))) }
            30 if small && !mi.vars() && mi.0.len() <= 6 => Some(("square", pi.square(), mi.pow(2))),
            31 if small && !mi.vars() && mi.0.len() <= 4 => Some(("cube", pi.cube(), mi.pow(3))),
            32 if small && !(mi.vars() && t.4.is_some()) => Some(("* term", &pi * &tt, mi.mul(&mt(t)))),
            33 => { let t = tie(&mi.0.iter().map(|(k, c)| (c.clone(), k.0, k.1, k.2, k.3)).collect(), t, *n as u8); Some(("- term", &pi - &ct(&t), mi.sub(&mt(&t)))) }
            34 => { let t = tie(&mi.0.iter().map(|(k, c)| (c.clone(), k.0, k.1, k.2, k.3)).collect(), t, *n as u8); Some(("term -", &ct(&t) - &pi, mt(&t).sub(&mi))) }
            35 if xonly(&mi) && xonly(&mj) && nonneg(&mi) && nonneg(&mj) && !(mi.modp(&p).is_zero() && mj.modp(&p).is_zero()) => Some(("gcd", pi.gcd(&pj, &p), uto(&ugcd(&uof(&mi), &uof(&mj), &p)))),
            36 if small && mi.0.len() <= 5 && mi.0.keys().all(|k| k.0 == 0 && k.1 == 0 && k.2 >= 0) && (!mi.vars() || k <= 1) => Some(("power_omit_high_order_q", pi.power_omit_high_order_q(k, n.rem_euclid(7)), m_trunc(&mi.pow(k as u32), n.rem_euclid(7)))),
            37 if !mi.0.keys().any(|k| k.0 != 0 || k.1 != 0) => Some(("to_q_power_coef", pi.to_q_power_coef(k - 1), mi.map(|m, c| if m.2 == k - 1 { Some(((0, 0, 0, m.3), c.clone())) } else { None }))),
            38 => Some(("% i32", &pi % (k + 1), mi.modp(&bi(k as i64 + 1)))),
            39 => Some(("copy", pi.clone(), mi.clone())),
            _ => None,
        };
        let (name, got, want) = match r { Some(x) => x, None => continue };
        done += 1;
        same(&format!("step {} {}", step, name), &got, &want)?;
        ensure!(got.is_zero() == want.is_zero(), "step {} {}: is_zero is {}", step, name, got.is_zero());
        ensure!(got.terms.values().all(|c| !c.is_zero()), "step {} {}: a stored zero coefficient", step, name);
        for (x, b) in before.iter().enumerate() {
            if !(inplace && x == i) { ensure!(regs[x].0 == *b && regs[x].0.terms.len() == b.terms.len(), "step {} {}: register {} changed", step, name, x); }
        }
        if want.0.len() < mi.0.len() { cancelled += 1; }
        let dst = if inplace { i } else { d };
        regs[dst] = (got, want);
        for x in 0..R { for y in 0..R {
            ensure!((regs[x].0 == regs[y].0) == (regs[x].1 == regs[y].1), "step {} {}: == of registers {} and {} is wrong", step, name, x, y);
            ensure!((regs[x].0 != regs[y].0) == (regs[x].1 != regs[y].1), "step {} {}: != of registers {} and {} is wrong", step, name, x, y);
        } }
        for x in 0..R { ensure!(regs[x].0.is_zero() == regs[x].1.is_zero(), "step {}: is_zero of register {}", step, x); }
        // a polynomial equals itself built another way
        let (p0, m0) = &regs[dst];
        let mut again = Polynomial::new();
        for (k, c) in m0.0.iter().rev() { again += cterm(k, c); }
        ensure!(again == *p0, "step {} {}: unequal to the same polynomial summed term by term", step, name);
        ensure!((p0 - &again).is_zero(), "step {} {}: difference with an equal polynomial is not 0", step, name);
    }
    o.nt(done >= 3 && regs.iter().filter(|r| !r.1.is_zero()).count() >= 1);
    o.when(cancelled > 0, "terms vanish during the history");
    o.when(done >= 8, "8 or more operations");
    o.when(done >= 20, "20 or more operations");
    o.when(regs.iter().any(|r| r.1.is_zero()), "a register ends at 0");
    o.when((0..R).any(|x| (0..x).any(|y| regs[x].1 == regs[y].1 && !regs[x].1.is_zero())), "equal non-zero registers");
    Ok(())
}
pub fn c07() -> Vec<Sub> {
    let st = |k: PK, lo: usize, hi: usize| (vec(poly(k.clone()), 4), vec((0..OPS, 0usize..4, 0usize..4, 0usize..4, any::<i32>().prop_map(|n| n % 1000), tm(k), (-3i64..4).prop_map(bi)), lo..hi));
    let long = |k: PK| (vec(many(k.clone()), 4), vec((0..OPS, 0usize..4, 0usize..4, 0usize..4, any::<i32>().prop_map(|n| n % 1000), tm(k), (-3i64..4).prop_map(bi)), 1..8));
    vec![
        random("history", "at least three operations applied and a non-zero register at the end", 16_000, 800_000, &STD,
            move |t| {
                let hi = if t == Tier::Quick { 26 } else { 60 };
                prop_oneof![
                    4 => st(PK { x: (0, 3), y: (0, 3), q: (0, 2), vars: false, bits: 4, n: 4 }, 1, hi),
                    2 => st(PK { x: (-2, 3), y: (-2, 3), q: (-2, 2), vars: true, bits: 6, n: 4 }, 1, hi),
                    2 => st(PK { x: (0, 5), y: (0, 0), q: (0, 0), vars: false, bits: 5, n: 5 }, 1, hi),
                    1 => st(LAURENT, 1, 12),
                    1 => long(PK { x: (-2, 4), y: (-2, 4), q: (-2, 3), vars: true, bits: 6, n: 4 }),
                ].boxed()
            },
            |(init, ops), o| run_history(init, ops, o)),
    ]
}

// ---------------------------------------------------------------- C08
pub fn c08() -> Vec<Sub> {
    let nv = |k: PK| tm(PK { vars: false, ..k });
    vec![
        random("divide", "dividend of two or more terms, divisor not 1", 30_000, 1_500_000, &STD,
            move |_| prop_oneof![
                3 => (poly(LAURENT), nv(LAURENT)),
                3 => (poly(LAURENT), nv(PK { bits: 4, ..LAURENT })),
                2 => (poly(PK { bits: 5, ..LAURENT }), nv(PK { bits: 5, ..LAURENT })),
                2 => (poly(PK { bits: 30, n: 25, ..LAURENT }), nv(PK { bits: 9, ..LAURENT })),
                1 => (many(PK { bits: 30, ..LAURENT }), nv(PK { bits: 9, ..LAURENT })),
                1 => (poly(WIDE), nv(PK { bits: 1900, ..LAURENT })),
                1 => (poly(PK { x: (-1_000_000_000, 1_000_000_000), y: (-1_000_000_000, 1_000_000_000), q: (-1_000_000_000, 1_000_000_000), ..LAURENT }), nv(PK { x: (-1_000_000_000, 1_000_000_000), y: (-1_000_000_000, 1_000_000_000), q: (-1_000_000_000, 1_000_000_000), bits: 40, ..LAURENT })),
            ].boxed(),
            |(a, t), o| {
                let (pa, ma) = pl(a);
                let (td, mdiv) = (ct(t), mt(t));
                let pd = mdiv.crate_pol();
                let w = m_div(&ma, t);
                bin!("poly / poly", pa.clone(), pd.clone(), &w, /);
                bin!("poly / term", pa.clone(), td.clone(), &w, /);
                asg!("poly /= poly", pa.clone(), pd.clone(), &w, /=);
                asg!("poly /= term", pa.clone(), td.clone(), &w, /=);
                for (m, c) in ma.0.iter().take(3) {
                    let x = cterm(m, c);
                    let q = floor_div(c, &t.0);
                    let k = (m.0 - t.1, m.1 - t.2, m.2 - t.3, m.3);
                    let wt = MP::mono(k, q.clone());
                    bin!("term / poly", x.clone(), pd.clone(), &wt, /);
                    for (what, r) in [("term / term", &x / &td), ("term / term (owned, borrowed)", x.clone() / &td), ("term / term (borrowed, owned)", &x / td.clone()), ("term / term (owned)", x.clone() / td.clone())] {
                        eq(&format!("{} coefficient", what), r.coef.clone(), q.clone())?;
                        if !q.is_zero() { same_term(what, &r, &k, &q)?; }
                    }
                }
                // exactness
                same("(a * m) / m", &((&pa * &td) / &td), &ma)?;
                same("(m * a) / poly m", &((&td * &pa) / &pd), &ma)?;
                o.nt(ma.0.len() >= 2 && mdiv != MP::one());
                o.when(ma.0.values().any(|c| c.is_negative() != t.0.is_negative() && !(c % &t.0).is_zero()), "inexact quotient of opposite signs");
                o.when(w.0.len() < ma.0.len(), "a quotient term is 0");
                o.when(t.0.is_negative(), "negative divisor");
                o.when(ma.vars(), "variables");
                Ok(())
            }),
        random("refused", "every case", 6_000, 200_000, &STD,
            |_| (poly(LAURENT), poly(LAURENT), tm(LAURENT)).boxed(),
            |(a, b, t), o| {
                let (pa, _) = pl(a);
                let (pb, mb) = pl(b);
                let x = ct(t);
                let zero = Polynomial::zero();
                let zt = Term { coef: BigInt::zero(), monomial: x.monomial };
                ensure!(refuses(|| &pa / &zero), "poly / 0 answered");
                ensure!(refuses(|| &pa / &Term::new()), "poly / zero term answered");
                ensure!(refuses(|| &pa / &zt), "poly / zero term with letters answered");
                ensure!(refuses(|| &x / &zero), "term / 0 answered");
                ensure!(refuses(|| &x / &Term::new()), "term / zero term answered");
                ensure!(refuses(|| { let mut p = pa.clone(); p /= &zero; p }), "poly /= 0 answered");
                ensure!(refuses(|| { let mut p = pa.clone(); p /= Term::new(); p }), "poly /= zero term answered");
                if mb.0.len() >= 2 {
                    ensure!(refuses(|| &pa / &pb), "poly / polynomial of {} terms answered", mb.0.len());
                    ensure!(refuses(|| &x / &pb), "term / polynomial of {} terms answered", mb.0.len());
                    ensure!(refuses(|| { let mut p = pa.clone(); p /= &pb; p }), "poly /= polynomial of {} terms answered", mb.0.len());
                    o.label("divisor of two or more terms");
                }
                o.nt(true);
                Ok(())
            }),
    ]
}

// ---------------------------------------------------------------- C09
pub fn c09() -> Vec<Sub> {
    vec![
        random("reduce", "a coefficient changes, and the modulus is above 1", 30_000, 1_500_000, &STD,
            |_| {
                let n = || prop_oneof![5 => (1i64..12).prop_map(bi), 3 => pos(31), 3 => pos(140), 1 => prime(2)].boxed();
                prop_oneof![
                    4 => (poly_pair(LAURENT), n(), 0u8..3, any::<u8>()),
                    3 => (poly_pair(PK { bits: 4, ..LAURENT }), n(), 0u8..3, any::<u8>()),
                    1 => (poly_pair(PK { bits: 12, n: 40, x: (0, 4), ..LAURENT }), n(), 0u8..3, any::<u8>()),
                    1 => (poly_pair(WIDE), prop_oneof![pos(1900), huge_prime(2)].boxed(), 0u8..3, any::<u8>()),
                    1 => ((many(PK { bits: 40, ..LAURENT }), poly(LAURENT)), n(), 0u8..3, any::<u8>()),
                ].prop_map(|((a, b), n, side, k)| {
                    // some coefficients become multiples of n, or multiples +-1
                    let f = |s: Spec, k: u8| -> Spec { s.into_iter().enumerate().map(|(i, mut t)| { match (k as usize + i) % 5 { 0 => t.0 = &t.0 * &n, 1 => t.0 = &t.0 * &n - 1, _ => {} } if t.0.is_zero() { t.0 = n.clone(); } t }).collect() };
                    let (a, b) = (f(a, k), f(b, k / 5));
                    let (a, b) = match side { 0 => (strip_vars(&a), b), 1 => (a, strip_vars(&b)), _ => (strip_vars(&a), strip_vars(&b)) };
                    (a, b, n)
                }).boxed()
            },
            |(a, b, n), o| {
                let (pa, ma) = pl(a);
                let (pb, mb) = pl(b);
                let w = ma.modp(n);
                let p0 = pa.clone();
                let r = &pa % n;
                same("poly % n", &r, &w)?;
                for c in r.terms.values() { ensure!(c.is_positive() && c < n, "coefficient {} outside (0, {})", c, n); }
                if let Some(k) = n.to_i32() { same("poly % i32", &(&pa % k), &w)?; o.label("modulus fits i32"); }
                ensure!(pa == p0, "% changed its operand");
                let mut x = pa.clone();
                x.modular_assign(n);
                same("modular_assign", &x, &w)?;
                x.modular_assign(n);
                same("modular_assign twice", &x, &w)?;
                for (m, c) in ma.0.iter().take(4) {
                    let t = cterm(m, c);
                    same_term("Term.modulo", &t.modulo(n), m, &modf(c, n))?;
                    let mut u = t.clone();
                    u.modular_assign(n);
                    same_term("Term.modular_assign", &u, m, &modf(c, n))?;
                }
                same("(a + b) % n", &(&(&pa + &pb) % n), &(&(&pa % n) + &(&pb % n)).let_mod(n))?;
                same("(a * b) % n", &(&(&pa * &pb) % n), &(&(&pa % n) * &(&pb % n)).let_mod(n))?;
                same("(a * b) % n against the model", &(&(&pa * &pb) % n), &ma.mul(&mb).modp(n))?;
                o.nt(w != ma && *n > bi(1));
                o.when(w.0.len() < ma.0.len(), "a term vanishes");
                o.when(ma.0.values().any(|c| c.is_negative()), "negative coefficient");
                o.when(n.bits() > 64, "multi-limb modulus");
                o.when(n.is_one(), "modulus 1");
                o.when(ma.vars(), "variables");
                Ok(())
            }),
    ]
}
trait LetMod { fn let_mod(&self, n: &BigInt) -> MP; }
impl LetMod for Polynomial { fn let_mod(&self, n: &BigInt) -> MP { MP::raw(self).modp(n) } }

// ---------------------------------------------------------------- C10
fn m_powmod(m: &MP, n: u64, p: &BigInt) -> MP {
    // left to right, unlike the library
    let mut r = MP::one().modp(p);
    for i in (0..64 - n.leading_zeros()).rev() {
        r = r.mul(&r).modp(p);
        if n >> i & 1 == 1 { r = r.mul(m).modp(p); }
    }
    r
}
pub fn c10() -> Vec<Sub> {
    vec![
        random("poly_power_modulo", "two or more terms modulo p, exponent at least 2", 9_000, 500_000, &STD,
            |t| {
                let e = if t == Tier::Quick { 9u64 } else { 14 };
                let m = || prop_oneof![4 => (1i64..20).prop_map(bi), 3 => prime(2), 2 => pos(100)];
                prop_oneof![
                    4 => (poly(PK { n: 4, ..LAURENT_NV }), 0..e, m()),
                    3 => (vec(tm(PK { x: (0, 2), y: (0, 1), q: (0, 0), vars: false, bits: 5, n: 3 }), 1..4), 0..e + 10, m()),
                    2 => (vec(tm(PK { x: (0, 1), y: (0, 0), q: (0, 0), vars: false, bits: 20, n: 2 }), 2), 0u64..90, m()),
                    1 => (vec(tm(PK { x: (0, 0), y: (0, 0), q: (0, 0), vars: false, bits: 90, n: 2 }), 0..2), any::<u64>(), m()),
                    1 => (vec(tm(PK { x: (0, 1), y: (0, 0), q: (0, 0), vars: false, bits: 20, n: 2 }), 2), prop_oneof![90u64..300, (4u32..9, 0u64..3).prop_map(|(k, d)| (1 << k) + d - 1)], m()),
                    1 => (many(PK { bits: 40, ..LAURENT_NV }), 0u64..3, m()),
                    1 => (vec(tm(PK { n: 3, ..LAURENT }), 1..3), 0u64..2, m()),
                    // Frobenius: exponent equal to the (prime) modulus
                    1 => (vec(tm(PK { x: (0, 2), y: (0, 2), q: (0, 1), vars: false, bits: 6, n: 3 }), 2..4), small_prime(2, 13)).prop_map(|(s, p)| (s, p, BigInt::from(p))),
                ].boxed()
            },
            |(s, n, p), o| {
                let (a, m) = pl(s);
                let w = if *n <= 12 && m.0.len() <= 4 { m.pow(*n as u32).modp(p) } else { m_powmod(&m, *n, p) };
                let a0 = a.clone();
                same("power_modulo", &a.power_modulo(&BigInt::from(*n), p), &w)?;
                ensure!(a == a0, "power_modulo changed its operand");
                o.nt(m.modp(p).0.len() >= 2 && *n >= 2);
                o.when(*n == 0, "exponent 0");
                o.when(*n == 1, "exponent 1");
                o.when(p.is_one(), "modulus 1");
                o.when(m.is_zero(), "zero polynomial");
                o.when(m.modp(p).is_zero() && !m.is_zero(), "0 modulo p");
                o.when(BigInt::from(*n) == *p && w.0.len() < 8, "Frobenius exponent");
                o.when(*n > 100, "exponent > 100");
                Ok(())
            }),
        random("poly_power_modulo_huge_exponent", "exponent above 1000, base not 0 or 1 mod p", 6_000, 200_000, &STD,
            |_| (int(90), prop_oneof![2 => nat(300), 1 => nat(64), 1 => nat(33)], prop_oneof![(1i64..20).prop_map(bi), prime(2), pos(100)],
                 (-3i32..4, -3i32..4, -3i32..4), nat(28)).boxed(),
            |(c, n, p, (x, y, q), k), o| {
                use num_traits::ToPrimitive;
                let a = MP::mono((0, 0, 0, None), c.clone()).crate_pol();
                same("power_modulo of a constant", &a.power_modulo(n, p), &MP::mono((0, 0, 0, None), powmod(c, n, p)))?;
                let e = k.to_i32().unwrap();
                let m = MP::mono((*x, *y, *q, None), c.clone());
                let w = if e == 0 { MP::one().modp(p) } else { MP::mono((x * e, y * e, q * e, None), powmod(c, k, p)) };
                same("power_modulo of a monomial", &m.crate_pol().power_modulo(k, p), &if m.is_zero() && e > 0 { MP::zero() } else { w })?;
                o.nt(*n > bi(1000) && modf(c, p) > bi(1));
                o.when(n.bits() > 64, "multi-limb exponent");
                o.when(modf(c, p).is_zero() && !c.is_zero(), "0 modulo p");
                Ok(())
            }),
        random("term_power_modulo", "exponent at least 2 and modulus above 1", 20_000, 600_000, &STD,
            |_| (tm(LAURENT_NV), ex(0, 400), prop_oneof![(1i64..30).prop_map(bi), pos(120)]).boxed(),
            |(t, n, p), o| {
                let r = ct(t).power_modulo(&BigInt::from(*n), p);
                same_term("Term.power_modulo", &r, &(t.1 * n, t.2 * n, t.3 * n, None), &powmod(&t.0, &BigInt::from(*n), p))?;
                o.nt(*n >= 2 && *p > bi(1));
                o.when(*n == 0, "exponent 0");
                o.when(p.is_one(), "modulus 1");
                Ok(())
            }),
        // a term can hold one variable to the first power only: any other power is refused or right
        random("term_with_variable", "exponent at least 2", 4_000, 100_000, &STD,
            |_| (tm(LAURENT_NV), (0i32..5, 0i32..5), ex(0, 40), prop_oneof![(1i64..30).prop_map(bi), pos(120)]).boxed(),
            |(t, v, n, p), o| {
                let mut tv = t.clone();
                tv.4 = Some(*v);
                let nb = BigInt::from(*n);
                let c = powmod(&t.0, &nb, p);
                if let Ok(r) = attempt(|| ct(&tv).power_modulo(&nb, p)) {
                    ensure!(*n < 2, "a term with a variable: Term.power_modulo({}) returns {}", n, r);
                    same_term("Term.power_modulo", &r, &(t.1 * n, t.2 * n, t.3 * n, if *n == 1 { Some(*v) } else { None }), &c)?;
                }
                for (what, r) in [("i32", attempt(|| ct(&tv).power(*n))), ("BigInt", attempt(|| ct(&tv).power(nb.clone()))), ("&BigInt", attempt(|| ct(&tv).power(&nb)))] {
                    if let Ok(r) = r {
                        ensure!(*n < 2, "a term with a variable: Term.power({} {}) returns {}", what, n, r);
                        same_term("Term.power", &r, &(t.1 * n, t.2 * n, t.3 * n, if *n == 1 { Some(*v) } else { None }), &pow(&t.0, *n as u64))?;
                    }
                }
                o.nt(*n >= 2);
                Ok(())
            }),
    ]
}

// ---------------------------------------------------------------- C11
fn polyx(deg: i32, bits: usize, n: usize) -> B<Spec> { vec((int(bits), 0..=deg).prop_map(|(c, e)| (c, e, 0, 0, None)), 0..=n).boxed() }
pub fn c11() -> Vec<Sub> {
    vec![
        random("remainder", "divisor of degree at least 1 modulo p, dividend of degree at least that", 20_000, 1_000_000, &STD,
            |t| {
                let d = if t == Tier::Quick { 40 } else { 120 };
                let pr = || prop_oneof![3 => small_prime(2, 13).prop_map(BigInt::from), 3 => prime(2)];
                let f = |d: i32| prop_oneof![
                    3 => polyx(d, 90, 14),
                    2 => vec((int(60), 0..=d.min(25), -3i32..6, -3i32..6).prop_map(|(c, x, y, q)| (c, x, y, q, None)), 0..10).boxed(),
                    2 => polyx(d.min(12), 5, 16),
                ];
                prop_oneof![
                    // independent
                    3 => (f(d), polyx(9, 90, 8), pr(), Just(vec![]), Just(0u8)),
                    // planted multiple plus remainder
                    3 => (f(10), polyx(6, 40, 6), pr(), polyx(5, 40, 4), Just(1u8)),
                    1 => (polyx(1500, 40, 4), polyx(6, 90, 6), pr(), Just(vec![]), Just(0u8)),
                    1 => (polyx(120, 40, 60), polyx(60, 40, 40), pr(), polyx(5, 40, 4), Just(0u8)),
                    1 => (polyx(40, 40, 30), polyx(40, 40, 30), pr(), polyx(30, 40, 20), Just(1u8)),
                    // constant divisor
                    1 => (f(d), vec(int(70).prop_map(|c| (c, 0, 0, 0, None)), 1), pr(), Just(vec![]), Just(0u8)),
                    // divisor whose formal leading coefficient vanishes modulo p
                    2 => (f(20), polyx(5, 20, 5), pr(), polyx(9, 9, 3), Just(2u8)),
                ].prop_map(|(f, g, p, h, how)| {
                    let (mut f, mut g) = (f, g);
                    match how {
                        1 => { let m = MP::of(&f).mul(&MP::of(&g)).add(&MP::of(&h)); f = m.0.into_iter().map(|(k, c)| (c, k.0, k.1, k.2, k.3)).collect(); }
                        2 => { for t in &h { g.push((&t.0 * &p, t.1, 0, 0, None)); } }
                        _ => {}
                    }
                    if MP::of(&g).modp(&p).is_zero() { g.push((bi(1), 0, 0, 0, None)); }
                    if MP::of(&g).modp(&p).is_zero() { g = vec![(bi(1), 1, 0, 0, None)]; }
                    (f, g, p)
                }).boxed()
            },
            |(f, g, p), o| {
                let (pf, mf) = pl(f);
                let (pg, mg) = pl(g);
                let (f0, g0) = (pf.clone(), pg.clone());
                let w = m_rem(&mf, &mg, p);
                same("polynomial_modular", &pf.polynomial_modular(&pg, p), &w)?;
                ensure!(pf == f0 && pg == g0, "an operand changed");
                let gd = umod(&uof(&mg), p).len();
                let fd = mf.modp(p).0.keys().map(|k| k.0).max().unwrap_or(-1);
                o.nt(gd >= 2 && fd + 1 >= gd as i32);
                o.when(gd == 1, "constant divisor");
                o.when(gd < uof(&mg).len(), "leading coefficient of the divisor is 0 modulo p");
                o.when(w.is_zero() && !mf.is_zero(), "exact multiple");
                o.when(mf.0.keys().any(|k| k.1 != 0 || k.2 != 0), "dividend with y or q");
                o.when(p.bits() > 64, "multi-limb prime");
                o.when(*p == bi(2), "p = 2");
                o.when(fd < gd as i32 - 1, "dividend of lower degree");
                Ok(())
            }),
    ]
}

// ---------------------------------------------------------------- C12
pub fn c12() -> Vec<Sub> {
    vec![
        random("gcd", "both arguments of degree at least 1 modulo p", 12_000, 600_000, &STD,
            |_| {
                let pr = || prop_oneof![4 => small_prime(2, 13).prop_map(BigInt::from), 3 => prime(2)];
                let s = |d: i32, b: usize, n: usize| (polyx(d, b, n), polyx(d, b, n), polyx(d, b, n), pr(), 0u8..9, polyx(d + 3, 9, 2));
                prop_oneof![4 => s(4, 40, 5), 2 => s(8, 90, 8), 2 => s(2, 3, 3), 1 => s(30, 40, 25), 1 => s(300, 20, 2)].prop_map(|(h, u, v, p, how, noise)| {
                    let u_small = u.len() <= 2;
                    let nz = |s: &Spec, k: i32| { let m = MP::of(s); if how != 8 && m.modp(&p).is_zero() { MP::of(&vec![(bi(1), k, 0, 0, None), (bi(k as i64), 0, 0, 0, None)]) } else { m } };
                    let (h, u, v) = (nz(&h, 1), nz(&u, 2), nz(&v, 3));
                    let (mut f, mut g) = match how {
                        0 => (u, v),
                        1 => (h.mul(&u), MP::zero()),
                        2 => (h.clone(), h.mul(&u)),
                        3 => (h.mul(&h), h.mul(&v)),
                        4 => (h.mul(&u), MP::of(&noise).scale(&p)),
                        5 => (h.mul(&u), MP::mono((0, 0, 0, None), bi(3))),
                        _ => (h.mul(&u), h.mul(&v)),
                    };
                    if how % 2 == 0 { f = f.add(&MP::of(&noise).scale(&p)); } else if how == 7 { g = g.add(&MP::of(&noise).scale(&p)); }
                    if how == 8 && u_small { (f, g) = (f.scale(&p), g.scale(&p)); }
                    else if f.modp(&p).is_zero() && g.modp(&p).is_zero() { f = MP::of(&vec![(bi(1), 2, 0, 0, None), (bi(1), 0, 0, 0, None)]); }
                    let sp = |m: MP| -> Spec { m.0.into_iter().map(|(k, c)| (c, k.0, 0, 0, None)).collect() };
                    (sp(f), sp(g), p)
                }).boxed()
            },
            |(f, g, p), o| {
                let (pf, mf) = pl(f);
                let (pg, mg) = pl(g);
                let (uf, ug) = (uof(&mf), uof(&mg));
                let d = ugcd(&uf, &ug, p);
                let w = uto(&d);
                same("gcd(f, g)", &pf.gcd(&pg, p), &w)?;
                same("gcd(g, f)", &pg.gcd(&pf, p), &w)?;
                let one = d.len() == 1;
                ensure!(pf.is_gcd_one(&pg, p) == one, "is_gcd_one(f, g) is {} but the gcd is {}", !one, show(&w));
                ensure!(pg.is_gcd_one(&pf, p) == one, "is_gcd_one(g, f) is {} but the gcd is {}", !one, show(&w));
                for (q, u) in [(&pf, &uf), (&pg, &ug)] {
                    same("to_monic", &q.to_monic(p), &if umod(u, p).is_empty() { MP::zero() } else { uto(&umonic(u, p)) })?;
                }
                let (a, b) = (umod(&uf, p).len(), umod(&ug, p).len());
                o.nt(a >= 2 && b >= 2);
                o.when(one && a >= 2 && b >= 2, "coprime, both of degree >= 1");
                o.when(d.len() >= 2 && d.len() < a.min(b), "proper common factor");
                o.when(a == 0 || b == 0, "one argument is 0 modulo p");
                o.when(a == 0 && b == 0, "both arguments are 0 modulo p");
                o.when(a != uf.len() || b != ug.len(), "a leading coefficient is 0 modulo p");
                o.when(p.bits() > 64, "multi-limb prime");
                o.when(*p == bi(2), "p = 2");
                Ok(())
            }),
        enumerate("gcd_small", "both arguments of degree at least 1 modulo p", &STD,
            |t| {
                let mut v = vec![];
                for (p, n) in if t == Tier::Quick { vec![(2u32, 4u32), (3, 3)] } else { vec![(2, 6), (3, 4), (5, 3)] } {
                    for a in 0..p.pow(n) { for b in 0..p.pow(n) { v.push((p, n, a, b)); } }
                }
                v
            },
            |&(p, n, a, b), o| {
                let dig = |mut a: u32| -> U { let mut v = vec![]; for _ in 0..n { v.push(bi((a % p) as i64)); a /= p; } utrim(v) };
                let (u, v) = (dig(a), dig(b));
                let pp = bi(p as i64);
                let (f, g) = (uto(&u).crate_pol(), uto(&v).crate_pol());
                let d = ugcd(&u, &v, &pp);
                same("gcd", &f.gcd(&g, &pp), &uto(&d))?;
                ensure!(f.is_gcd_one(&g, &pp) == (d.len() == 1), "is_gcd_one is wrong, gcd {}", show(&uto(&d)));
                o.nt(u.len() >= 2 && v.len() >= 2);
                Ok(())
            }),
    ]
}

// ---------------------------------------------------------------- C13
pub fn c13() -> Vec<Sub> {
    vec![
        random("eval_xy", "two or more terms, x and y not in {0, 1}", 25_000, 1_200_000, &STD,
            |_| prop_oneof![
                4 => (poly(XY), int(90), int(90)),
                2 => (poly(PK { x: (0, 40), y: (0, 40), ..XY }), int(30), int(30)),
                2 => (poly(XY), (-3i64..4).prop_map(bi), (-3i64..4).prop_map(bi)),
                1 => (poly(PK { x: (0, 400), y: (0, 400), ..XY }), (-2i64..3).prop_map(bi), (-2i64..3).prop_map(bi)),
                1 => (many(PK { x: (0, 20), y: (0, 20), ..XY }), int(20), int(20)),
                1 => (poly(PK { x: (0, i32::MAX), y: (0, i32::MAX), ..XY }), (-1i64..2).prop_map(bi), (-1i64..2).prop_map(bi)),
                1 => (poly(PK { x: (0, 3000), y: (0, 3000), ..XY }), int(6), (-2i64..3).prop_map(bi)),
            ].boxed(),
            |(s, x, y), o| {
                let (p, m) = pl(s);
                let mut w = BigInt::zero();
                let pow = |b: &BigInt, n: u64| if n > 5000 { if n % 2 == 0 { b * b } else { b.clone() } } else { pow(b, n) };
                for (k, c) in &m.0 { w += c * pow(x, k.0 as u64) * pow(y, k.1 as u64); }
                eq("eval_xy", p.eval_xy(x, y), w.clone())?;
                for k in m.0.keys().take(3) { eq("Monomial.eval_xy", cmono(k).eval_xy(x, y), pow(x, k.0 as u64) * pow(y, k.1 as u64))?; }
                eq("eval_x, eval_y, to_scalar", p.eval_x(x).eval_y(y).to_scalar(), w.clone())?;
                eq("eval_y, eval_x, to_scalar", p.eval_y(y).eval_x(x).to_scalar(), w.clone())?;
                o.nt(m.0.len() >= 2 && x.abs() > bi(1) && y.abs() > bi(1));
                o.when(x.is_zero() || y.is_zero(), "a value 0");
                o.when(w.is_zero() && !m.is_zero(), "value 0 of a non-zero polynomial");
                o.when(x.is_negative() || y.is_negative(), "negative value");
                Ok(())
            }),
        random("eval_one_letter", "two or more terms, value not in {0, 1}", 20_000, 900_000, &STD,
            |_| prop_oneof![
                4 => (poly(PK { x: (0, 12), y: (0, 12), ..LAURENT }), int(70)),
                1 => (many(PK { x: (0, 12), y: (0, 12), ..LAURENT }), int(20)),
                1 => (poly(PK { x: (0, 3000), y: (0, 3000), ..LAURENT }), int(5)),
                3 => (poly(PK { x: (0, 3), y: (0, 3), q: (-1, 1), bits: 6, n: 20, ..LAURENT }), (-2i64..3).prop_map(bi)),
            ].boxed(),
            |(s, x), o| {
                let (p, m) = pl(s);
                let p0 = p.clone();
                let (wx, wy) = (m_evx(&m, x), m_evy(&m, x));
                same("eval_x", &p.eval_x(x), &wx)?;
                same("eval_y", &p.eval_y(x), &wy)?;
                ensure!(p == p0, "the operand changed");
                o.nt(m.0.len() >= 2 && x.abs() > bi(1));
                o.when(wx.0.len() < m.0.len() || wy.0.len() < m.0.len(), "monomials meet");
                o.when(x.is_zero(), "value 0");
                o.when(m.vars(), "variables");
                Ok(())
            }),
        random("eval_other_letters_negative", "some other letter has a negative exponent", 6_000, 300_000, &STD,
            |_| (poly(PK { x: (0, 6), y: (-6, 6), ..LAURENT }), int(40)).boxed(),
            |(s, v), o| {
                let (p, m) = pl(s);
                same("eval_x", &p.eval_x(v), &m_evx(&m, v))?;
                let sw = m.map(|k, c| Some(((k.1, k.0, k.2, k.3), c.clone())));
                same("eval_y", &sw.crate_pol().eval_y(v), &m_evy(&sw, v))?;
                o.nt(m.0.keys().any(|k| k.1 < 0 || k.2 < 0));
                Ok(())
            }),
        random("to_scalar", "a polynomial with a letter (refused), or a non-zero constant", 12_000, 400_000, &STD,
            |_| prop_oneof![2 => poly(LAURENT_NV), 2 => vec(tm(PK { x: (-1, 1), y: (-1, 1), q: (-1, 1), vars: false, bits: 90, n: 1 }), 0..3), 2 => vec(int(200).prop_map(|c| (c, 0, 0, 0, None)), 0..2),
                1 => vec(tm(PK { x: (0, 0), y: (0, 0), q: (0, 0), ..LAURENT }), 0..3)].boxed(),
            |s, o| {
                let (p, m) = pl(s);
                if m.0.keys().all(|k| *k == (0, 0, 0, None)) {
                    eq("to_scalar", p.to_scalar(), m.0.values().next().cloned().unwrap_or_default())?;
                    o.when(!m.is_zero(), "constant");
                    o.nt(!m.is_zero());
                } else {
                    ensure!(refuses(|| p.to_scalar()), "to_scalar answered for {}", show(&m));
                    o.label("refused");
                    o.when(m.0.len() == 1 && m.vars() && m.0.keys().all(|k| k.0 == 0 && k.1 == 0 && k.2 == 0), "only a variable");
                    o.nt(true);
                }
                Ok(())
            }),
        enumerate("eval_q", "exponent at least 2", &STD,
            |_| {
                let mut v = vec![];
                for q in -12i32..=12 { for e in 0i32..=31 { if (q as i64).checked_pow(e as u32).map_or(false, |r| i32::try_from(r).is_ok()) { v.push((q, e)); } } }
                v
            },
            |&(q, e), o| {
                let m = cmono(&(3, 2, e, None));
                eq("Monomial.eval_q", bi(m.eval_q(q) as i64), pow(&bi(q as i64), e as u64))?;
                o.nt(e >= 2);
                Ok(())
            }),
    ]
}

// ---------------------------------------------------------------- C14
pub fn c14() -> Vec<Sub> {
    vec![
        random("substitute", "the replaced letter occurs with exponent at least 2 and the replacement has two or more terms", 8_000, 400_000, &STD,
            |t| {
                let e = if t == Tier::Quick { 4 } else { 6 };
                let g = PK { n: 4, bits: 40, ..LAURENT };
                prop_oneof![
                    4 => (poly(PK { x: (0, e), n: 6, bits: 60, ..LAURENT }), poly(g.clone()), any::<bool>(), any::<bool>()),
                    3 => (poly(PK { x: (0, e), y: (0, 3), q: (0, 1), vars: false, n: 6, bits: 3 }), poly(PK { x: (0, 2), y: (0, 2), q: (0, 1), vars: false, bits: 2, n: 3 }), any::<bool>(), Just(false)),
                    // large exponents, short replacement
                    2 => (poly(PK { x: (0, 30), n: 4, bits: 20, ..LAURENT }), vec(tm(PK { bits: 6, ..g.clone() }), 1..3), any::<bool>(), any::<bool>()),
                    1 => (poly(PK { x: (0, 8), n: 6, bits: 20, ..LAURENT }), vec(tm(PK { bits: 30, x: (0, 0), y: (0, 0), q: (0, 0), vars: false, n: 1 }), 0..2), any::<bool>(), any::<bool>()),
                    // one letter, exponents in progression
                    2 => (progression(PK { x: (0, 16), y: (0, 1), q: (0, 1), bits: 20, ..LAURENT }, 1..=17), vec(tm(PK { bits: 6, ..g.clone() }), 1..3), any::<bool>(), any::<bool>()),
                    // many terms; single terms to large powers
                    1 => (many(PK { x: (0, 4), bits: 20, ..LAURENT }), vec(tm(PK { bits: 6, ..g.clone() }), 1..3), any::<bool>(), any::<bool>()),
                    1 => (poly(PK { x: (0, 400), n: 4, bits: 20, ..LAURENT }), vec(tm(PK { bits: 3, ..g.clone() }), 1), any::<bool>(), any::<bool>()),
                    1 => (poly(PK { x: (0, 90), y: (0, 2), n: 3, bits: 20, ..LAURENT }), vec(tm(PK { bits: 3, x: (0, 1), y: (0, 1), q: (0, 0), vars: false, n: 2 }), 2), any::<bool>(), any::<bool>()),
                ].prop_map(|(f, g, isx, vf)| {
                    let (f, g) = if vf { (f, strip_vars(&g)) } else {
                        // a variable in the replacement: only powers up to 1 are defined
                        let has = g.iter().any(|t| t.4.is_some());
                        (strip_vars(&f).into_iter().map(|mut t| { if has { t.1 %= 2; } t }).collect(), g)
                    };
                    (f, g, isx)
                }).boxed()
            },
            |(f, g, isx), o| {
                let sw = |m: MP| if *isx { m } else { m.map(|k, c| Some(((k.1, k.0, k.2, k.3), c.clone()))) };
                let mf = sw(MP::of(f));
                let pf = mf.crate_pol();
                let (pg, mg) = pl(g);
                let (f0, g0) = (pf.clone(), pg.clone());
                let w = m_subst(&mf, &mg, *isx);
                let r = if *isx { pf.eval_x_polynomial(&pg) } else { pf.eval_y_polynomial(&pg) };
                same(if *isx { "eval_x_polynomial" } else { "eval_y_polynomial" }, &r, &w)?;
                ensure!(pf == f0 && pg == g0, "an operand changed");
                for (k, c) in mf.0.iter().take(3) {
                    let one = MP::mono(*k, bi(1));
                    let w1 = m_subst(&one, &mg, *isx);
                    let t = cterm(k, c);
                    let (a, b) = if *isx { (cmono(k).eval_x_polynomial(&pg), t.eval_x_polynomial(&pg)) } else { (cmono(k).eval_y_polynomial(&pg), t.eval_y_polynomial(&pg)) };
                    same("Monomial substitution", &a, &w1)?;
                    same("Term substitution", &b, &w1.scale(c))?;
                }
                let e = mf.0.keys().map(|k| if *isx { k.0 } else { k.1 }).max().unwrap_or(0);
                o.nt(e >= 2 && mg.0.len() >= 2);
                o.when(!*isx, "y replaced");
                o.when(*isx, "x replaced");
                o.when(mg.is_zero(), "replacement 0");
                o.when(e > 8, "exponent > 8");
                o.when(mf.vars(), "variable in the polynomial");
                o.when(mg.vars(), "variable in the replacement");
                o.when(mf.0.len() >= 2 && w.is_zero(), "composition is 0");
                Ok(())
            }),
    ]
}

// ---------------------------------------------------------------- C15
pub fn c15() -> Vec<Sub> {
    vec![
        random("exponent_maps", "two or more terms, n not 1", 25_000, 1_000_000, &STD,
            |_| prop_oneof![3 => (poly(LAURENT), ex(0, 60)), 2 => (poly(LAURENT), 0i32..3), 1 => (poly(PK { x: (0, 3), y: (0, 3), q: (0, 3), n: 25, ..LAURENT }), 0i32..2), 1 => (poly(PK { x: (-30, 30), y: (-30, 30), q: (-30, 30), ..LAURENT }), ex(0, 1_000_000)), 1 => (many(LAURENT), ex(0, 60)), 1 => (poly(WIDE), ex(0, 60))].boxed(),
            |(s, n), o| {
                let (p, m) = pl(s);
                let p0 = p.clone();
                same("to_frob", &p.to_frob(*n), &m_frob(&m, *n))?;
                same("to_y_power", &p.to_y_power(*n), &m_ypow(&m, *n))?;
                same("to_q_power", &p.to_q_power(*n), &m_qpow(&m, *n))?;
                ensure!(p == p0, "the operand changed");
                o.nt(m.0.len() >= 2 && *n != 1);
                o.when(*n == 0, "n = 0");
                o.when(*n == 0 && m_frob(&m, 0).0.len() < m.0.len(), "monomials coincide");
                o.when(m.vars(), "variables");
                Ok(())
            }),
        random("term_maps", "n not 1 and some exponent not 0", 20_000, 600_000, &STD,
            |_| (tm(LAURENT), ex(-500, 500)).boxed(),
            |(t, n), o| {
                let u = ct(t);
                same_term("to_frob", &u.to_frob(*n), &(t.1 * n, t.2 * n, t.3, t.4), &t.0)?;
                same_term("to_y_power", &u.to_y_power(*n), &(t.1, t.2 * n, t.3, t.4), &t.0)?;
                same_term("to_q_power", &u.to_q_power(*n), &(t.1, t.2, t.3 * n, t.4), &t.0)?;
                o.nt(*n != 1 && (t.1 != 0 || t.2 != 0 || t.3 != 0));
                o.when(*n < 0, "negative n");
                Ok(())
            }),
        random("frobenius_congruence", "two or more terms modulo p", 4_000, 200_000, &STD,
            |t| {
                let hi = if t == Tier::Quick { 13 } else { 31 };
                (small_prime(2, hi), vec(tm(PK { x: (0, 4), y: (0, 4), q: (0, 0), vars: false, bits: 50, n: 3 }), 0..4)).boxed()
            },
            |(p, s), o| {
                let (a, m) = pl(s);
                let n = *p as i32;
                let pp = BigInt::from(*p);
                let l = &a.to_frob(n) % &pp;
                let r = a.power_modulo(&pp, &pp);
                ensure!(l == r, "f(x^p, y^p) = {} but f^p = {} modulo {}", show(&MP::raw(&l)), show(&MP::raw(&r)), p);
                if m.0.len() <= 2 || *p <= 5 {
                    let r = &a.power(n) % &pp;
                    ensure!(l == r, "f(x^p, y^p) = {} but f^p (power) = {} modulo {}", show(&MP::raw(&l)), show(&MP::raw(&r)), p);
                }
                o.nt(m.modp(&pp).0.len() >= 2);
                Ok(())
            }),
    ]
}

// ---------------------------------------------------------------- C16
pub fn c16() -> Vec<Sub> {
    vec![
        random("derivative", "two or more terms and both derivatives non-zero", 20_000, 1_000_000, &STD,
            |_| {
                let k = PK { x: (0, 12), y: (0, 12), ..LAURENT };
                prop_oneof![
                    4 => (poly_pair(k.clone()), 0u8..3),
                    2 => (poly_pair(PK { x: (0, 2), y: (0, 2), q: (0, 1), bits: 4, ..k.clone() }), 0u8..3),
                    1 => (poly_pair(PK { x: (0, 1_000_000_000), y: (0, 1_000_000_000), ..k.clone() }), 0u8..3),
                    1 => ((many(PK { bits: 40, ..k.clone() }), poly(k.clone())), 0u8..3),
                    1 => (poly_pair(PK { bits: 2000, n: 3, ..k }), 0u8..3),
                ].boxed()
            },
            |((a, b), side), o| {
                let (a, b) = match side { 0 => (strip_vars(a), b.clone()), 1 => (a.clone(), strip_vars(b)), _ => (strip_vars(a), strip_vars(b)) };
                let (pa, ma) = pl(&a);
                let (pb, mb) = pl(&b);
                let p0 = pa.clone();
                let (dx, dy) = (pa.derivative_x(), pa.derivative_y());
                same("derivative_x", &dx, &m_dx(&ma))?;
                same("derivative_y", &dy, &m_dy(&ma))?;
                ensure!(pa == p0, "the operand changed");
                for (k, c) in ma.0.iter().take(4) {
                    let t = cterm(k, c);
                    same("Term.derivative_x", &t.derivative_x().to_pol(), &m_dx(&MP::mono(*k, c.clone())))?;
                    same("Term.derivative_y", &t.derivative_y().to_pol(), &m_dy(&MP::mono(*k, c.clone())))?;
                }
                let z = |p: Polynomial| p;
                ensure!(z(dx.derivative_y()) == dy.derivative_x(), "mixed derivatives differ");
                ensure!((&pa * &pb).derivative_x() == &dx * &pb + &pa * pb.derivative_x(), "product rule in x fails");
                ensure!((&pa * &pb).derivative_y() == &dy * &pb + &pa * pb.derivative_y(), "product rule in y fails");
                ensure!((&pa + &pb).derivative_x() == &dx + pb.derivative_x(), "linearity in x fails");
                let _ = mb;
                o.nt(ma.0.len() >= 2 && !m_dx(&ma).is_zero() && !m_dy(&ma).is_zero());
                o.when(ma.0.keys().any(|k| k.0 == 0), "a term without x");
                o.when(ma.0.keys().any(|k| k.1 == 0), "a term without y");
                o.when(m_dx(&ma).is_zero(), "x-derivative 0");
                o.when(ma.vars(), "variables");
                Ok(())
            }),
        random("other_letter_negative", "a non-zero derivative and a negative exponent of the other letter", 6_000, 300_000, &STD,
            |_| (prop_oneof![3 => poly(LAURENT), 1 => many(PK { bits: 40, ..LAURENT }), 1 => poly(PK { bits: 700, ..LAURENT })], any::<bool>()).boxed(),
            |(f, byx), o| {
                // only the letter of the derivative has to be non-negative
                let g: Vec<_> = f.iter().map(|t| { let mut t = t.clone(); if *byx { t.1 = t.1.abs() } else { t.2 = t.2.abs() }; t }).collect();
                let (p, m) = pl(&g);
                let w = if *byx { m_dx(&m) } else { m_dy(&m) };
                let d = if *byx { p.derivative_x() } else { p.derivative_y() };
                same(if *byx { "derivative_x" } else { "derivative_y" }, &d, &w)?;
                for (k, c) in m.0.iter().take(4) {
                    let t = cterm(k, c);
                    let (d, w) = if *byx { (t.derivative_x(), m_dx(&MP::mono(*k, c.clone()))) } else { (t.derivative_y(), m_dy(&MP::mono(*k, c.clone()))) };
                    same("derivative of a term", &d.to_pol(), &w)?;
                }
                o.nt(!w.is_zero() && w.0.keys().any(|k| (if *byx { k.1 } else { k.0 }) < 0));
                o.when(m.vars(), "variables");
                Ok(())
            }),
    ]
}

// ---------------------------------------------------------------- C17
pub fn c17() -> Vec<Sub> {
    let f = |n: i32| prop_oneof![
        3 => poly(PK { x: (-6, 9), y: (0, 7), n: 7, bits: 70, ..LAURENT }),
        2 => poly(PK { x: (0, 4), y: (0, 3), q: (0, 0), vars: false, n: 12, bits: 4 }),
        2 => vec(tm(PK { x: (0, 9), y: (0, n), bits: 30, ..LAURENT }), 0..3),
        1 => many(PK { x: (-6, 9), y: (0, 7), bits: 40, ..LAURENT }),
    ];
    vec![
        random("reduction", "some y exponent is at least 2 and (a, b) is not (0, 0)", 10_000, 500_000, &STD,
            move |t| (f(if t == Tier::Quick { 24 } else { 60 }), prop_oneof![int(4), int(60)], prop_oneof![int(4), int(60)]).boxed(),
            |(s, a, b), o| {
                let (p, m) = pl(s);
                let p0 = p.clone();
                let w = m_red(&m, a, b, None);
                let r = p.reduction(a, b);
                same("reduction", &r, &w)?;
                ensure!(r.terms.keys().all(|k| k.ypow <= 1), "y-degree above 1 left");
                same("reduction of a reduced polynomial", &r.reduction(a, b), &w)?;
                ensure!(p == p0, "the operand changed");
                let hi = m.0.keys().map(|k| k.1).max().unwrap_or(0);
                o.nt(hi >= 2 && !(a.is_zero() && b.is_zero()));
                o.when(hi % 2 == 1 && hi > 2, "odd y exponent above 2");
                o.when(hi > 8, "y exponent above 8");
                o.when(hi < 2, "already reduced");
                o.when(a.is_zero() || b.is_zero(), "a or b is 0");
                o.when(m.vars(), "variables");
                Ok(())
            }),
        random("reduction_high_y", "y exponent above 24 and (a, b) is not (0, 0)", 150, 15_000, &STD,
            |t| {
                let h = if t == Tier::Quick { 130 } else { 260 };
                (vec(tm(PK { x: (-3, 9), y: (0, h), bits: 30, ..LAURENT }), 1..3), prop_oneof![3 => (int(40), Just(bi(0))), 3 => (Just(bi(0)), int(40)), 2 => (int(3), int(3))],
                    prop_oneof![2 => small_prime(2, 60), 1 => Just(2147483647u64)]).boxed()
            },
            |(s, (a, b), p), o| {
                let (f, m) = pl(s);
                let pp = BigInt::from(*p);
                same("reduction", &f.reduction(a, b), &m_red(&m, a, b, None))?;
                same("reduction_modular", &f.reduction_modular(a, b, *p as i32), &m_red(&m, a, b, Some(&pp)))?;
                o.nt(m.0.keys().any(|t| t.1 > 24) && !(a.is_zero() && b.is_zero()));
                o.when(a.is_zero() && !b.is_zero(), "a = 0");
                o.when(b.is_zero() && !a.is_zero(), "b = 0");
                o.when(m.0.keys().any(|t| t.1 > 100), "y exponent above 100");
                Ok(())
            }),
        random("reduction_monomial_curve", "y exponent above 100", 3_000, 100_000, &STD,
            // on y^2 = x^3 + a x with one of a, b zero large powers stay short modulo small p
            |_| (vec(tm(PK { x: (0, 9), y: (0, 200_000), bits: 30, ..LAURENT }), 1..4), small_prime(2, 60), -3i64..4).boxed(),
            |(s, p, k), o| {
                let (f, m) = pl(s);
                let w = m.map(|t, c| Some(((t.0 + t.1 / 2 * 3, t.1 % 2, t.2, t.3), c.clone())));
                let pp = BigInt::from(*p);
                same("reduction by y^2 = x^3", &f.reduction(&bi(0), &bi(0)), &w)?;
                let z = &pp * *k;
                same("reduction_modular by y^2 = x^3", &f.reduction_modular(&z, &z, *p as i32), &w.modp(&pp))?;
                o.nt(m.0.keys().any(|t| t.1 > 100));
                Ok(())
            }),
        random("reduction_modular", "some y exponent is at least 2 and (a, b) is not (0, 0) modulo p", 10_000, 500_000, &STD,
            move |t| (f(if t == Tier::Quick { 40 } else { 120 }), prop_oneof![int(4), int(60)], prop_oneof![int(4), int(60)], prop_oneof![4 => small_prime(2, 60), 2 => small_prime(61, 2000), 1 => Just(2147483647u64), 1 => (1u64 << 30..(1u64 << 31) - 200).prop_map(next_prime)]).boxed(),
            |(s, a, b, p), o| {
                let (f, m) = pl(s);
                let f0 = f.clone();
                let pp = BigInt::from(*p);
                let w = m_red(&m, a, b, Some(&pp));
                let r = f.reduction_modular(a, b, *p as i32);
                same("reduction_modular", &r, &w)?;
                ensure!(f == f0, "the operand changed");
                let hi = m.0.keys().map(|k| k.1).max().unwrap_or(0);
                o.nt(hi >= 2 && !(modf(a, &pp).is_zero() && modf(b, &pp).is_zero()));
                o.when(hi > 8, "y exponent above 8");
                o.when(hi % 2 == 1 && hi > 2, "odd y exponent above 2");
                o.when(*p == 2 || *p == 3, "p = 2 or 3");
                o.when(w.is_zero() && !m.is_zero(), "reduces to 0");
                o.when(hi < 2 && !m.is_zero(), "already reduced in y");
                Ok(())
            }),
    ]
}

// ---------------------------------------------------------------- C18
const QV: PK = PK { x: (0, 0), y: (0, 0), q: (-12, 25), vars: true, bits: 90, n: 14 };
pub fn c18() -> Vec<Sub> {
    vec![
        random("omit_high_order_q", "some terms stay and some go", 25_000, 1_000_000, &STD,
            |_| prop_oneof![4 => (poly(QV), -14i32..28), 1 => (many(QV), -14i32..28), 1 => (poly(PK { q: (-2, 3), n: 30, ..QV }), -3i32..5), 1 => (poly(PK { q: (-2_000_000, 2_000_000), ..QV }), ex(-2_000_000, 2_000_000)),
                1 => (poly(PK { q: (i32::MAX - 2, i32::MAX), ..QV }), i32::MAX - 4..=i32::MAX), 1 => (poly(QV), prop_oneof![i32::MAX - 1..=i32::MAX, i32::MIN..=i32::MIN + 1])].boxed(),
            |(s, n), o| {
                let (mut p, m) = pl(s);
                let w = m_trunc(&m, *n);
                p.omit_high_order_q(*n);
                same("omit_high_order_q", &p, &w)?;
                o.nt(!w.is_zero() && w != m);
                o.when(m.0.keys().any(|k| k.2 as i64 == *n as i64 + 1 && k.3.is_some()), "variable at order N + 1");
                o.when(*n == i32::MAX, "largest order");
                o.when(m.0.keys().any(|k| k.2 == *n), "term at order N");
                o.when(*n < 0, "negative order");
                Ok(())
            }),
        random("power_omit_high_order_q", "exponent at least 2, truncation removes terms and keeps some", 12_000, 500_000, &STD,
            |t| {
                let e = if t == Tier::Quick { 8 } else { 14 };
                let k = PK { q: (0, 12), vars: false, bits: 40, ..QV };
                prop_oneof![
                    4 => (poly(PK { n: 5, ..k.clone() }), 0..e, 0i32..40),
                    3 => (poly(PK { q: (0, 2), bits: 3, n: 4, ..k.clone() }), 0i32..26, 0i32..30),
                    2 => (vec(tm(PK { q: (0, 3), bits: 9, ..k.clone() }), 1..3), 0i32..40, 0i32..60),
                    1 => (poly(PK { n: 5, vars: true, ..k.clone() }), 0i32..2, 0i32..14),
                    1 => (vec(tm(PK { q: (0, 2), bits: 5, ..k.clone() }), 2), 40i32..260, 0i32..12),
                    1 => (vec(tm(PK { q: (0, 2), bits: 5, ..k.clone() }), 2), 8i32..150, 0i32..=2, -3i32..20).prop_map(|(s, n, d, e)| (s, n, (d * n + e).max(0))),
                    1 => (many(PK { q: (0, 90), bits: 9, ..k }), 0i32..4, 0i32..120),
                ].boxed()
            },
            |(s, n, ord), o| {
                let (p, m) = pl(s);
                let p0 = p.clone();
                // full power, truncated once at the end
                let full = m.pow(*n as u32);
                let w = m_trunc(&full, *ord);
                same("power_omit_high_order_q", &p.power_omit_high_order_q(*n, *ord), &w)?;
                ensure!(p == p0, "the operand changed");
                o.nt(*n >= 2 && !w.is_zero() && w != full);
                o.when(*n == 0, "exponent 0");
                o.when(*n == 1, "exponent 1");
                o.when(*ord == 0, "order 0");
                o.when(m.0.contains_key(&(0, 0, 0, None)) && *n > 4, "constant term, exponent > 4");
                Ok(())
            }),
        random("refused", "every case", 4_000, 100_000, &STD,
            |_| (poly(QV), (int_nz(30), -2i32..4, -2i32..4, -3i32..5, Just(None)).prop_map(|(c, x, y, q, v): (BigInt, i32, i32, i32, Option<(i32, i32)>)| if x == 0 && y == 0 { (c, 1, y, q, v) } else { (c, x, y, q, v) }), 0i32..6, -3i32..10).boxed(),
            |(s, t, n, ord), o| {
                let mut s = strip_vars(s);
                s.push(t.clone());
                let (p, m) = pl(&s);
                if !m.0.keys().any(|k| k.0 != 0 || k.1 != 0) { return Ok(()); }
                ensure!(refuses(|| { let mut p = p.clone(); p.omit_high_order_q(*ord); p }), "omit_high_order_q answered for {}", show(&m));
                ensure!(refuses(|| p.power_omit_high_order_q(*n, (*ord).max(0))), "power_omit_high_order_q answered for {}", show(&m));
                o.nt(true);
                o.when(t.1 == 0, "only y");
                o.when(t.2 == 0, "only x");
                Ok(())
            }),
    ]
}

// ---------------------------------------------------------------- C19
pub fn c19() -> Vec<Sub> {
    vec![
        random("letters", "two or more terms", 25_000, 900_000, &STD,
            |_| prop_oneof![3 => poly(LAURENT), 3 => poly(PK { x: (-1, 1), y: (-1, 1), q: (-1, 1), ..LAURENT }), 2 => poly(PK { y: (0, 0), q: (0, 0), ..LAURENT }), 1 => poly(PK { x: (0, 0), q: (0, 0), ..LAURENT }), 2 => poly(QV), 1 => poly(PK { q: (0, 0), ..QV }), 1 => many(LAURENT),
                1 => poly(PK { x: (i32::MIN, i32::MAX), y: (i32::MIN, i32::MAX), q: (i32::MIN, i32::MAX), ..LAURENT }), 1 => poly(PK { x: (i32::MIN, i32::MAX), y: (0, 0), q: (0, 0), ..LAURENT })].boxed(),
            |s, o| {
                let (p, m) = pl(s);
                let hx = m.0.keys().any(|k| k.0 != 0);
                let hy = m.0.keys().any(|k| k.1 != 0);
                let hq = m.0.keys().any(|k| k.2 != 0);
                ensure!(p.has_x() == hx, "has_x is {} for {}", !hx, show(&m));
                ensure!(p.has_y() == hy, "has_y is {} for {}", !hy, show(&m));
                ensure!(p.has_q() == hq, "has_q is {} for {}", !hq, show(&m));
                let h = p.highest_term_x();
                if m.is_zero() {
                    ensure!(h.coef.is_zero(), "highest_term_x of 0 is {}", h);
                } else {
                    let hm = mmono(&h.monomial);
                    ensure!(m.0.get(&hm) == Some(&h.coef), "highest_term_x {} is not a term of {}", h, show(&m));
                    ensure!(m.0.keys().all(|k| k.0 <= hm.0), "highest_term_x {} is not of highest x degree in {}", h, show(&m));
                }
                if hy || hq {
                    ensure!(refuses(|| p.degree_x()), "degree_x answered for {}", show(&m));
                    o.label("degree_x refused");
                } else {
                    eq("degree_x", p.degree_x(), m.0.keys().map(|k| k.0).max().unwrap_or(0))?;
                    o.label("degree_x");
                }
                for (k, c) in m.0.iter().take(4) {
                    let t = cterm(k, c);
                    ensure!(t.has_x() == (k.0 != 0) && t.has_y() == (k.1 != 0) && t.has_q() == (k.2 != 0), "term letters of {}", t);
                    ensure!(t.xpow() == k.0 && t.ypow() == k.1 && t.qpow() == k.2 && mvar(t.variable()) == k.3, "term accessors of {}", t);
                }
                let ks: Vec<_> = m.0.iter().collect();
                for i in 0..ks.len().min(5) { for j in 0..ks.len().min(5) {
                    let (a, b) = (cterm(ks[i].0, ks[i].1), cterm(ks[j].0, ks[j].1));
                    let w = ks[i].0.0 == ks[j].0.0 && ks[i].0.1 == ks[j].0.1 && ks[i].0.2 == ks[j].0.2;
                    ensure!(a.is_equal_order(&b) == w, "is_equal_order of {} and {}", a, b);
                } }
                o.nt(m.0.len() >= 2);
                o.when(m.is_zero(), "zero polynomial");
                o.when(!hx && !hy && !hq && !m.is_zero(), "no letters");
                Ok(())
            }),
        random("coefficients", "two or more terms", 20_000, 800_000, &STD,
            |_| prop_oneof![3 => (poly(QV), -13i32..27, var()), 2 => (poly(PK { q: (-2, 3), n: 25, ..QV }), -3i32..5, var()), 3 => (poly(PK { q: (0, 0), n: 20, ..QV }), -1i32..2, var()), 1 => (poly(PK { x: (-1, 1), y: (-1, 1), q: (-1, 1), ..LAURENT }), -2i32..3, var()), 1 => (many(QV), -13i32..27, var()), 1 => (many(PK { q: (0, 0), ..QV }), -1i32..2, var())].boxed(),
            |(s, n, v), o| {
                let (p, m) = pl(s);
                let xy = m.0.keys().any(|k| k.0 != 0 || k.1 != 0);
                let q = m.0.keys().any(|k| k.2 != 0);
                if xy {
                    ensure!(refuses(|| p.to_q_power_coef(*n)), "to_q_power_coef answered for {}", show(&m));
                    ensure!(refuses(|| p.to_variable_coef(cvar(*v))), "to_variable_coef answered for {}", show(&m));
                    o.label("refused for x or y");
                } else {
                    let mut qs: Vec<i32> = m.0.keys().map(|k| k.2).collect();
                    qs.push(*n);
                    for n in qs { same("to_q_power_coef", &p.to_q_power_coef(n), &m.map(|k, c| if k.2 == n { Some(((0, 0, 0, k.3), c.clone())) } else { None }))?; }
                    if q {
                        ensure!(refuses(|| p.to_variable_coef(cvar(*v))), "to_variable_coef answered for {}", show(&m));
                        o.label("refused for q");
                    } else {
                        let mut vs: Vec<Var> = m.0.keys().map(|k| k.3).collect();
                        vs.push(*v);
                        vs.push(None);
                        for v in vs {
                            let w = m.0.get(&(0, 0, 0, v)).cloned().unwrap_or_default();
                            eq("to_variable_coef", p.to_variable_coef(cvar(v)), w.clone())?;
                            o.when(w.is_zero(), "absent variable");
                        }
                    }
                }
                o.nt(m.0.len() >= 2);
                Ok(())
            }),
    ]
}
