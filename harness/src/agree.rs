//! C38: facts that the library can reach by several routes; no reference, the routes are compared.
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::modf;
use ellipticcurve::bigint::{chinese_remainder, Inverse, Power, PowerModulo};
use ellipticcurve::elliptic_curve::{ECPoint, EllipticCurve};
use ellipticcurve::polynomial::Polynomial;
use ellipticcurve::term_builder::{TermBuildable, TermBuilder};
use ellipticcurve::{division_polynomial, modular_polynomial, schoof, schoof_elkies_atkins};
use num_bigint::BigInt;
use num_traits::{ToPrimitive, Zero};
use proptest::prelude::*;
use std::collections::BTreeSet;

fn smooth(p: u64) -> Vec<(u64, i64, i64)> {
    let mut v = vec![];
    for a in 0..p as i64 { for b in 0..p as i64 { if (4 * a * a * a + 27 * b * b) % p as i64 != 0 { v.push((p, a, b)); } } }
    v
}
/// twist by a non-residue
fn twist(p: u64, a: &BigInt, b: &BigInt, pp: &BigInt) -> Option<EllipticCurve> {
    let e = BigInt::from((p - 1) / 2);
    let d = (2..p).map(BigInt::from).find(|d| d.power_modulo(&e, pp) == pp - 1)?;
    Some(EllipticCurve::new(&(d.power(2) * a), &(d.power(3) * b), pp))
}
fn name(p: &ECPoint) -> (BigInt, BigInt, bool) { if p.is_infinity() { (bi(0), bi(1), true) } else { (p.x.clone(), p.y.clone(), false) } }

struct How { schoof: bool, l3: bool, nmax: i32 }

fn check(p: u64, a: &BigInt, b: &BigInt, how: &How, o: &mut Obs) -> Res {
    let pp = BigInt::from(p);
    let ctx = format!("y^2 = x^3 + {} x + {} over F_{}", a, b, p);
    let e = EllipticCurve::new(a, b, &pp);
    let n = e.cardinality() as i64;
    let t = p as i64 + 1 - n;
    ensure!(t * t <= 4 * p as i64, "{}: {} points lie outside the Hasse interval", ctx, n);
    let tw = match twist(p, a, b, &pp) { Some(t) => t, None => return Err(format!("{}: Euler's criterion finds no non-residue", ctx)) };
    ensure!(n + tw.cardinality() as i64 == 2 * p as i64 + 2, "{}: {} points and {} on the twist", ctx, n, tw.cardinality());
    ensure!(tw.j_invariant() == e.j_invariant(), "{}: the twist has j = {} instead of {}", ctx, tw.j_invariant(), e.j_invariant());

    // orders, torsion lists, division polynomials, scalar multiples
    let pts = e.points();
    let orders: Vec<i64> = pts.iter().map(|q| e.point_order(q).to_i64().unwrap_or(-1)).collect();
    let mut exponent = 1i64;
    for (q, &r) in pts.iter().zip(&orders) {
        ensure!(r >= 1 && n % r == 0, "{}: the point {} of order {} on a curve of {} points", ctx, q, r, n);
        ensure!(e.multiply_scalar(q, &bi(n)).is_infinity(), "{}: {} times {} is not O", ctx, n, q);
        ensure!(e.multiply_scalar(q, &bi(r)).is_infinity(), "{}: {} times {} is not O but its order is {}", ctx, r, q, r);
        exponent = num_integer::lcm(exponent, r);
    }
    ensure!(n % exponent == 0 && exponent * exponent % n == 0 && (p as i64 - 1) % (n / exponent) == 0, "{}: {} points, exponent {}", ctx, n, exponent);
    for k in 1..=how.nmax {
        let (psi, phi, om) = (division_polynomial::psi(a, b, k), division_polynomial::phi(a, b, k), division_polynomial::omega(a, b, k));
        let list: BTreeSet<_> = e.division_points(&bi(k as i64)).iter().map(name).collect();
        ensure!((k as i64 * k as i64) % list.len().max(1) as i64 == 0 && !list.is_empty(), "{}: {} points of {}-torsion", ctx, list.len(), k);
        for (q, &r) in pts.iter().zip(&orders) {
            let by_order = k as i64 % r == 0;
            ensure!(list.contains(&name(q)) == by_order, "{}: {} of order {} {} the {}-torsion list", ctx, q, r, if by_order { "is missing from" } else { "is in" }, k);
            if q.is_infinity() { continue; }
            let v = modf(&psi.eval_xy(&q.x, &q.y), &pp);
            ensure!(v.is_zero() == by_order, "{}: psi_{}{} = {} but the order is {}", ctx, k, q, v, r);
            if by_order { continue; }
            let i = v.inverse(&pp);
            let i2 = &i * &i;
            let w = ECPoint::new(&modf(&(phi.eval_xy(&q.x, &q.y) * &i2), &pp), &modf(&(om.eval_xy(&q.x, &q.y) * &i2 * &i), &pp), &bi(1));
            let m = e.multiply_scalar(q, &bi(k as i64));
            ensure!(m == w, "{}: {} times {} is {} by addition and {} by division polynomials", ctx, k, q, m, w);
        }
    }
    // points of order 2, the cubic, the number of points
    let cubic = TermBuilder::new().xpow(3).build() + TermBuilder::new().coef(a).xpow(1).build() + TermBuilder::new().coef(b).build();
    let field: Polynomial = TermBuilder::new().xpow(p as i32).build() - TermBuilder::new().xpow(1).build();
    let g = field.gcd(&cubic, &pp);
    let two = orders.iter().filter(|r| **r == 2).count();
    ensure!(g.degree_x() as usize == two, "{}: gcd of the cubic with x^p - x is {} but {} points have order 2", ctx, g, two);
    ensure!(field.is_gcd_one(&cubic, &pp) == (n % 2 == 1), "{}: coprimality with the cubic against {} points", ctx, n);

    // Schoof
    if how.schoof {
        let r = schoof::schoof(a, b, p as i32);
        for m in &r { ensure!(modf(&(bi(t) - &m.r), &m.l).is_zero(), "{}: {} points by counting, trace {} mod {} by Schoof", ctx, n, m.r, m.l); }
        let c = chinese_remainder(&r);
        ensure!(modf(&(bi(t) - &c.r), &c.l).is_zero(), "{}: trace {} by counting, {} mod {} by Schoof", ctx, t, c.r, c.l);
        o.label("Schoof");
    }
    // the modular polynomial, isogenies, and the characteristic polynomial of Frobenius
    let j = e.j_invariant();
    let ordinary = t % p as i64 != 0 && !j.is_zero() && j != modf(&bi(1728), &pp);
    for l in if how.l3 { vec![2i32, 3] } else { vec![2] } {
        let s = schoof_elkies_atkins::sea(&e, l);
        let d = modf(&bi(t * t - 4 * p as i64), &bi(l as i64));
        let eigen = if l == 2 { n % 2 == 0 } else { d <= bi(1) };
        if ordinary { ensure!(s.is_elkies_prime == eigen, "{}: trace {} but the Elkies flag of {} is {}", ctx, t, l, s.is_elkies_prime); }
        let phi = modular_polynomial::modular_polynomial(l);
        for r in &s.isogeny_j_invariants {
            ensure!(modf(&phi.eval_xy(r, &j), &pp).is_zero() && modf(&phi.eval_xy(&j, r), &pp).is_zero(), "{}: the modular polynomial of level {} is not 0 at {} and {}", ctx, l, r, j);
        }
        let kernel = e.division_points(&bi(l as i64)).len();
        let f = e.isogeny(&bi(l as i64));
        ensure!(f.cardinality() as i64 == n, "{}: {} points, {} on the curve isogenous by the {}-torsion", ctx, n, f.cardinality(), l);
        let fj = f.j_invariant();
        if kernel == l as usize {
            ensure!(modf(&phi.eval_xy(&fj, &j), &pp).is_zero(), "{}: the modular polynomial of level {} is not 0 at the isogenous j = {}", ctx, l, fj);
            ensure!(modf(&s.gcd.eval_x(&fj).to_scalar(), &pp).is_zero(), "{}: {} is the j-invariant of an isogenous curve but not a root of {}", ctx, fj, s.gcd);
            o.label("kernel of l points");
        } else if kernel == 1 || kernel == (l * l) as usize {
            ensure!(fj == j, "{}: {} points of {}-torsion but the isogeny changes j to {}", ctx, kernel, l, fj);
        }
        o.when(ordinary && eigen, "ordinary, Elkies");
        o.when(ordinary && !eigen, "ordinary, Atkins");
    }
    o.nt(n >= 3 && t != 0);
    o.when(exponent != n, "not cyclic");
    o.when(t % p as i64 == 0, "supersingular");
    Ok(())
}

pub fn c38() -> Vec<Sub> {
    vec![
        enumerate("small_fields", "three or more points and trace not 0", &HEAVY,
            |t| { let ps: &[u64] = if t == Tier::Quick { &[5, 7] } else { &[5, 7, 11, 13] }; ps.iter().flat_map(|p| smooth(*p)).collect() },
            |&(p, a, b), o| check(p, &bi(a), &bi(b), &How { schoof: true, l3: true, nmax: 6 }, o)),
        random("curves", "three or more points and trace not 0", 400, 12_000, &HEAVY,
            |t| (small_prime(5, if t == Tier::Quick { 67 } else { 131 }), prop_oneof![6 => (0i64..1000).prop_map(bi), 1 => int(80), 1 => Just(bi(0))], prop_oneof![6 => (0i64..1000).prop_map(bi), 1 => int(80), 1 => Just(bi(0))], 0u8..8)
                .prop_map(|(p, a, b, h)| { let pp = BigInt::from(p); if a.bits() < 11 { (p, modf(&a, &pp), modf(&b, &pp), h) } else { (p, a, b, h) } }).boxed(),
            |(p, a, b, h), o| {
                if modf(&(bi(4) * a * a * a + bi(27) * b * b), &BigInt::from(*p)).is_zero() { return Ok(()); }
                check(*p, a, b, &How { schoof: *p < 20 && h % 4 == 0, l3: h % 2 == 0, nmax: 3 + (*h as i32) / 2 }, o)
            }),
        random("larger_schoof", "three or more points and trace not 0", 24, 600, &HEAVY,
            |t| (small_prime(11, if t == Tier::Quick { 23 } else { 31 }), 0i64..31, 0i64..31).boxed(),
            |&(p, a, b), o| {
                if (4 * a * a * a + 27 * b * b) % p as i64 == 0 { return Ok(()); }
                check(p, &bi(a % p as i64), &bi(b % p as i64), &How { schoof: true, l3: false, nmax: 4 }, o)
            }),
    ]
}
