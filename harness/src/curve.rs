//! C23..C29 and C32: curves, against an independent group law.
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use ellipticcurve::division_polynomial;
use ellipticcurve::elliptic_curve::{ECPoint, EllipticCurve};
use ellipticcurve::secp256k1::Secp256k1;
use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::{One, Signed, Zero};
use proptest::prelude::*;
use std::collections::BTreeSet;

fn cp(p: &Pt) -> ECPoint { match p { None => ECPoint::infinity(), Some((x, y)) => ECPoint::new(x, y, &bi(1)) } }
/// library point -> model point, coordinates modulo p
fn mp(e: &ECPoint, p: &BigInt) -> Pt { if e.is_infinity() { None } else { Some((modf(&e.x, p), modf(&e.y, p))) } }
fn pshow(p: &Pt) -> String { match p { None => "O".into(), Some((x, y)) => format!("({}, {})", x, y) } }
/// the result is exactly the canonical representation of the model point
fn exact(what: &str, got: &ECPoint, want: &Pt) -> Res {
    ensure!(*got == cp(want), "{}: got {} (z = {}) want {}", what, got, got.z, pshow(want));
    Ok(())
}
/// the same curve built in every available way (with and without its list of points)
pub fn build(a: &BigInt, b: &BigInt, p: &BigInt, how: u8) -> EllipticCurve {
    if p.bits() > 6 { return EllipticCurve::new_raw(a, b, p); }
    match how % 4 {
        0 => EllipticCurve::new_raw(a, b, p),
        1 => EllipticCurve::new(a, b, p),
        2 => { let mut e = EllipticCurve::new_raw(a, b, p); e.create_points(); e }
        _ => EllipticCurve::new(a, b, p).clone(),
    }
}
/// a point of order n (4..=10 or 12) at (0, 0) in Tate's normal form, moved to y^2 = x^3 + a x + b
pub fn tate(p: &BigInt, n: u8, d: &BigInt) -> Option<(Cv, Pt)> {
    let m = |v: BigInt| modf(&v, p);
    let d = &modf(d, p);
    let one = bi(1);
    let (b, c) = match n {
        4 => (d.clone(), bi(0)),
        5 => (d.clone(), d.clone()),
        6 => (d + d * d, d.clone()),
        7 => (d * d * d - d * d, d * d - d),
        8 => { let b = (bi(2) * d - 1) * (d - 1); let c = &b * inv(d, p)?; (b, c) }
        9 => { let c = d * d * (d - 1); (&c * (d * (d - 1) + 1), c) }
        10 => { let i = inv(&m(d - (d - 1) * (d - 1)), p)?; let c = (bi(2) * d * d * d - bi(3) * d * d + d) * i.clone(); (&c * d * d * i, c) }
        _ => { let i = inv(&m(d - &one), p)?; let c = (bi(3) * d * d - bi(3) * d + 1) * (d - bi(2) * d * d) * &i * &i * &i; (&c * (bi(2) * d - bi(2) * d * d - 1) * i, c) }
    };
    // y^2 + (1 - c) x y - b y = x^3 - b x^2; complete the square, then the cube
    let (a1, a3, a2) = (m(&one - &c), m(-&b), m(-&b));
    let (i2, i3) = (inv(&bi(2), p)?, inv(&bi(3), p)?);
    let h = m(&a1 * &i2);
    let k = m(&a3 * &i2);
    // Y = y + h x + k: Y^2 = x^3 + (a2 + h^2) x^2 + 2 h k x + k^2
    let (e2, e1, e0) = (m(&a2 + &h * &h), m(bi(2) * &h * &k), m(&k * &k));
    let s = m(&e2 * &i3); // X = x + s
    let a = m(&e1 - bi(3) * &s * &s);
    let bb = m(&e0 - &e1 * &s + bi(2) * &s * &s * &s);
    let cv = Cv::new(&a, &bb, p);
    if cv.disc_zero() || !cv.on(&s, &k) { return None; }
    Some((cv, Some((s, k))))
}
fn smooth(p: u64) -> Vec<(i64, i64, i64)> {
    let mut v = vec![];
    for a in 0..p as i64 { for b in 0..p as i64 { if !Cv::new(&bi(a), &bi(b), &BigInt::from(p)).disc_zero() { v.push((p as i64, a, b)); } } }
    v
}

// ---------------------------------------------------------------- C23
fn check_points(p: u64, a: &BigInt, b: &BigInt, o: &mut Obs) -> Res {
    let pp = BigInt::from(p);
    let ec = EllipticCurve::new(a, b, &pp);
    let cv = Cv::new(a, b, &pp);
    let mut want: BTreeSet<Pt> = cv.points().into_iter().map(Some).collect();
    want.insert(None);
    let pts = ec.points();
    let got: BTreeSet<Pt> = pts.iter().map(|e| if e.is_infinity() { None } else { Some((e.x.clone(), e.y.clone())) }).collect();
    ensure!(got == want, "points differ: missing {:?}, extra {:?}", want.difference(&got).map(pshow).collect::<Vec<_>>(), got.difference(&want).map(pshow).collect::<Vec<_>>());
    eq("number of listed points", pts.len(), want.len())?;
    eq("cardinality", ec.cardinality(), want.len())?;
    ensure!(ec.points == pts, "points() and the field differ");
    // the list can also be made later
    let mut later = EllipticCurve::new_raw(a, b, &pp);
    later.create_points();
    ensure!(later.points() == pts && later.cardinality() == pts.len(), "create_points on a raw curve lists other points");
    later.create_points();
    ensure!(later.points() == pts && later.cardinality() == pts.len(), "create_points on a curve that has its points lists other points");
    for e in &pts {
        ensure!(e.is_infinity() || e.z.is_one(), "z of {} is {}", e, e.z);
        ensure!(ec.is_on_curve(e), "listed point {} is not on the curve", e);
    }
    o.nt(want.len() >= 3 && !(cv.a.is_zero() || cv.b.is_zero()));
    o.when(cv.disc_zero(), "singular or p = 2");
    o.when(*a != cv.a || *b != cv.b, "unreduced a or b");
    o.when(want.iter().any(|e| e.as_ref().map_or(false, |(_, y)| y.is_zero())), "point with y = 0");
    o.when(want.len() == 1, "only infinity");
    o.when(cv.a.is_zero() || cv.b.is_zero(), "a or b is 0");
    Ok(())
}
pub fn c23() -> Vec<Sub> {
    vec![
        enumerate("points_small", "at least three points and a, b not 0", &STD,
            |t| primes(2, if t == Tier::Quick { 19 } else { 43 }).into_iter().flat_map(|p| (0..p as i64).flat_map(move |a| (0..p as i64).map(move |b| (p, a, b)))).collect(),
            |&(p, a, b), o| check_points(p, &bi(a), &bi(b), o)),
        random("points", "at least three points and a, b not 0", 900, 40_000, &STD,
            |t| (prop_oneof![4 => small_prime(2, 61), 1 => small_prime(62, if t == Tier::Quick { 199 } else { 401 })], prop_oneof![2 => int(12), 1 => int(200)], prop_oneof![2 => int(12), 1 => int(200)]).boxed(),
            |(p, a, b), o| check_points(*p, a, b, o)),
        random("points_larger", "at least three points and a, b not 0", 4, 200, &STD,
            |t| (small_prime(200, if t == Tier::Quick { 1100 } else { 2600 }), prop_oneof![2 => int(12), 1 => int(200)], prop_oneof![2 => int(12), 1 => int(200)]).boxed(),
            |(p, a, b), o| check_points(*p, a, b, o)),
        random("membership", "the point is on the curve, or one coordinate off", 25_000, 1_000_000, &STD,
            |_| prop_oneof![8 => (prime(2), int(300), int(300), int(300), int(300), 0u8..6), 1 => (prime(2), int(1200), int(1200), int(1200), int(1200), 0u8..6)].boxed(),
            |(p, a, x, y, b, how), o| {
                // 0, 1: b solved so that (x, y) is on; 2: one off; others: arbitrary or infinity
                let on_b = y * y - x * x * x - a * x;
                let b = match how { 0 => modf(&on_b, p), 1 => on_b, 2 => on_b + 1, _ => b.clone() };
                let ec = EllipticCurve::new_raw(a, &b, p);
                let cv = Cv::new(a, &b, p);
                let z = bi(if *how == 5 { 0 } else { 1 });
                let want = *how == 5 || cv.on(&modf(x, p), &modf(y, p));
                let e = ECPoint::new(x, y, &z);
                ensure!(ec.is_on_curve(&e) == want, "is_on_curve({}) is {}", e, !want);
                let m = ECPoint::new(x, &-y, &z);
                ensure!(ec.is_on_curve(&m) == want, "is_on_curve of the opposite {} is {}", m, !want);
                ensure!(ec.is_on_curve(&ECPoint::infinity()), "infinity is not on the curve");
                ensure!(ECPoint::infinity().is_infinity() && (e.is_infinity() == (*how == 5)), "is_infinity");
                o.nt(*how <= 2);
                o.when(want && *how != 5, "on the curve");
                o.when(!want, "not on the curve");
                o.when(p.bits() > 64, "multi-limb prime");
                Ok(())
            }),
        random("membership_small", "p at least 5", 15_000, 500_000, &STD,
            |_| (small_prime(2, 31), -100i64..100, -100i64..100, -100i64..100, -100i64..100).boxed(),
            |&(p, a, b, x, y), o| {
                let ec = build(&bi(a), &bi(b), &BigInt::from(p), (a + b + x + y).rem_euclid(4) as u8);
                let want = (y * y - x * x * x - a * x - b).rem_euclid(p as i64) == 0;
                ensure!(ec.is_on_curve(&ECPoint::new(&bi(x), &bi(y), &bi(1))) == want, "is_on_curve(({}, {})) is {}", x, y, !want);
                o.nt(p >= 5);
                o.when(want, "on the curve");
                Ok(())
            }),
        random("refused_field", "every case", 200, 2_000, &STD,
            |_| prop_oneof![Just(0i64), Just(1), -5i64..0, (2i64..40, 2i64..40).prop_map(|(a, b)| a * b)].boxed(),
            |&n, o| {
                ensure!(refuses(|| EllipticCurve::new(&bi(1), &bi(1), &bi(n))), "a curve over Z/{} was built", n);
                o.nt(true);
                Ok(())
            }),
    ]
}

// ---------------------------------------------------------------- C24
fn check_j(p: &BigInt, a: &BigInt, b: &BigInt, u: &BigInt, o: &mut Obs) -> Res {
    let cv = Cv::new(a, b, p);
    if cv.disc_zero() { return Ok(()); }
    let num = bi(4) * &cv.a * &cv.a * &cv.a;
    let den = modf(&(&num + bi(27) * &cv.b * &cv.b), p);
    let want = modf(&(bi(1728) * &num * inv(&den, p).unwrap()), p);
    let j = EllipticCurve::new_raw(a, b, p).j_invariant();
    eq("j", j.clone(), want.clone())?;
    if p.bits() <= 5 { eq("j of the curve with points", EllipticCurve::new(a, b, p).j_invariant(), want.clone())?; }
    ensure!(modf(&(&j * &den - bi(1728) * &num), p).is_zero() && !j.is_negative() && j < *p, "j = {} does not satisfy its definition", j);
    if !modf(u, p).is_zero() {
        let (ta, tb) = (pow(u, 4) * a, pow(u, 6) * b);
        eq("j of the isomorphic curve", EllipticCurve::new_raw(&ta, &tb, p).j_invariant(), want.clone())?;
        eq("j of the isomorphic curve, reduced", EllipticCurve::new_raw(&modf(&ta, p), &modf(&tb, p), p).j_invariant(), want.clone())?;
        // the twist by u has the same j
        eq("j of the twist", EllipticCurve::new_raw(&(pow(u, 2) * a), &(pow(u, 3) * b), p).j_invariant(), want.clone())?;
    }
    o.nt(!cv.a.is_zero() && !cv.b.is_zero());
    o.when(cv.a.is_zero(), "j = 0");
    o.when(cv.b.is_zero(), "j = 1728");
    o.when(p.bits() > 64, "multi-limb prime");
    o.when(*a != cv.a || *b != cv.b, "unreduced a or b");
    Ok(())
}
pub fn c24() -> Vec<Sub> {
    vec![
        enumerate("j_small", "a, b not 0", &STD,
            |t| primes(5, if t == Tier::Quick { 43 } else { 113 }).into_iter().flat_map(smooth).collect(),
            |&(p, a, b), o| {
                let u = (a * 7 + b * 3) % (p - 1) + 1;
                check_j(&bi(p), &bi(a), &bi(b), &bi(u), o)?;
                if a * b != 0 { return Ok(()); }
                let j = EllipticCurve::new_raw(&bi(a), &bi(b), &bi(p)).j_invariant();
                eq("j of a special curve", j, bi(if a == 0 { 0 } else { 1728 % p }))
            }),
        random("j", "a, b not 0", 20_000, 800_000, &STD,
            |_| (prime(5), prop_oneof![5 => int(600), 1 => Just(bi(0))], prop_oneof![5 => int(600), 1 => Just(bi(0))], int(80)).boxed(),
            |(p, a, b, u), o| check_j(p, a, b, u, o)),
    ]
}

// ---------------------------------------------------------------- C25
/// a curve through two chosen points (x1, y1), (x2, y2); None when it would be singular
fn through(p: &BigInt, x1: &BigInt, y1: &BigInt, x2: &BigInt, y2: &BigInt) -> Option<(Cv, Pt, Pt)> {
    let (x1, y1, x2, y2) = (modf(x1, p), modf(y1, p), modf(x2, p), modf(y2, p));
    let d = inv(&(&x1 - &x2), p)?;
    let r1 = &y1 * &y1 - &x1 * &x1 * &x1;
    let r2 = &y2 * &y2 - &x2 * &x2 * &x2;
    let a = modf(&((&r1 - &r2) * d), p);
    let b = modf(&(r1 - &a * &x1), p);
    let c = Cv::new(&a, &b, p);
    if c.disc_zero() { return None; }
    Some((c, Some((x1, y1)), Some((x2, y2))))
}
/// points built from two given ones, by code
fn pick(c: &Cv, p: &Pt, q: &Pt, k: u8) -> Pt {
    match k % 12 {
        0 | 8 => p.clone(),
        1 | 9 => q.clone(),
        2 => c.neg(p),
        3 => c.neg(q),
        4 => c.add(p, q),
        5 => c.add(p, p),
        6 => None,
        7 => c.neg(&c.add(p, q)),
        10 => c.neg(&c.add(q, q)),
        _ => c.add(p, &c.neg(q)),
    }
}
fn check_sum(ec: &EllipticCurve, cv: &Cv, a: &Pt, b: &Pt) -> Res {
    let w = cv.add(a, b);
    let (ea, eb) = (cp(a), cp(b));
    let s = ec.plus(&ea, &eb);
    exact(&format!("{} + {}", pshow(a), pshow(b)), &s, &w)?;
    ensure!(ec.is_on_curve(&s), "{} + {} = {} is not on the curve", ea, eb, s);
    ensure!(ec.plus(&eb, &ea) == s, "{} + {} is not commutative", ea, eb);
    ensure!(ea == cp(a) && eb == cp(b), "an operand changed");
    Ok(())
}
fn classes(c: &Cv, a: &Pt, b: &Pt, o: &mut Obs) {
    o.when(a.is_none() || b.is_none(), "infinity");
    o.when(a == b && a.is_some() && c.add(a, b).is_some(), "doubling");
    o.when(a.is_some() && c.add(a, b).is_none() && a != b, "opposite points");
    o.when(a.is_some() && a == b && c.add(a, b).is_none(), "point of order 2 doubled");
    if let (Some((x, _)), Some((u, _))) = (a, b) { o.when(x != u, "chord"); }
}
pub fn c25() -> Vec<Sub> {
    vec![
        enumerate("group_small", "the curve has at least four points", &STD,
            |t| { let ps: &[u64] = if t == Tier::Quick { &[3, 5, 7, 11, 13] } else { &[3, 5, 7, 11, 13, 17, 19, 23] }; ps.iter().flat_map(|p| smooth(*p)).collect() },
            |&(p, a, b), o| {
                let pp = bi(p);
                let ec = build(&bi(a), &bi(b), &pp, (a + 2 * b) as u8);
                let cv = Cv::new(&bi(a), &bi(b), &pp);
                let mut pts: Vec<Pt> = cv.points().into_iter().map(Some).collect();
                pts.push(None);
                for x in &pts {
                    exact("negation", &ec.negate(&cp(x)), &cv.neg(x))?;
                    ensure!(ec.plus(&cp(x), &ec.negate(&cp(x))) == ECPoint::infinity(), "{} + (-{}) is not O", pshow(x), pshow(x));
                    for y in &pts { check_sum(&ec, &cv, x, y)?; }
                }
                if p <= 11 || pts.len() <= 10 {
                    let idx = |e: &ECPoint| pts.iter().position(|q| *q == mp(e, &pp)).unwrap();
                    let tab: Vec<Vec<usize>> = pts.iter().map(|x| pts.iter().map(|y| idx(&ec.plus(&cp(x), &cp(y)))).collect()).collect();
                    let n = pts.len();
                    for i in 0..n { for j in 0..n { for k in 0..n { ensure!(tab[tab[i][j]][k] == tab[i][tab[j][k]], "not associative: {} {} {}", pshow(&pts[i]), pshow(&pts[j]), pshow(&pts[k])); } } }
                    o.label("associativity of all triples");
                }
                o.nt(pts.len() >= 4);
                o.when(p == 3, "p = 3");
                o.when(pts.iter().any(|e| e.as_ref().map_or(false, |v| v.1.is_zero())), "points of order 2");
                Ok(())
            }),
        random("group", "three affine points, two of them different up to sign", 3_000, 150_000, &STD,
            |_| (prime(3), int(300), prop_oneof![4 => int(300), 1 => Just(bi(0))], int(300), prop_oneof![4 => int(300), 1 => Just(bi(0))], 0u8..12, 0u8..12, 0u8..12).boxed(),
            |(p, x1, y1, x2, y2, i, j, k), o| {
                let (cv, m, n) = match through(p, x1, y1, x2, y2) { Some(v) => v, None => return Ok(()) };
                let ec = build(&cv.a, &cv.b, p, i + 5 * j);
                let (a, b, c) = (pick(&cv, &m, &n, *i), pick(&cv, &m, &n, *j), pick(&cv, &m, &n, *k));
                check_sum(&ec, &cv, &a, &b)?;
                check_sum(&ec, &cv, &b, &c)?;
                exact("negation", &ec.negate(&cp(&a)), &cv.neg(&a))?;
                let (ea, eb, e2) = (cp(&a), cp(&b), cp(&c));
                ensure!(ec.plus(&ec.plus(&ea, &eb), &e2) == ec.plus(&ea, &ec.plus(&eb, &e2)), "not associative: {} {} {}", ea, eb, e2);
                ensure!(ec.plus(&ea, &ec.negate(&ea)) == ECPoint::infinity(), "{} + (-{}) is not O", ea, ea);
                ensure!(ec.plus(&ec.negate(&ea), &ea) == ECPoint::infinity(), "(-{}) + {} is not O", ea, ea);
                ensure!(ec.plus(&ea, &ECPoint::infinity()) == ea && ec.plus(&ECPoint::infinity(), &ea) == ea, "O is not neutral for {}", ea);
                ensure!(ec.negate(&ec.negate(&ea)) == ea, "--{} differs", ea);
                classes(&cv, &a, &b, o);
                o.nt(a.is_some() && b.is_some() && c.is_some() && a != b && a != cv.neg(&b));
                o.when(p.bits() > 64, "multi-limb prime");
                Ok(())
            }),
        random("unreduced", "a coordinate outside [0, p)", 3_000, 100_000, &STD,
            |_| (prime(3), int(300), prop_oneof![4 => int(300), 1 => Just(bi(0))], int(300), int(300), 0u8..12, 0u8..12, (-3i64..4, -3i64..4, -3i64..4, -3i64..4, -3i64..4, -3i64..4)).boxed(),
            |(p, x1, y1, x2, y2, i, j, s), o| {
                let (cv, m, n) = match through(p, x1, y1, x2, y2) { Some(v) => v, None => return Ok(()) };
                let (ra, rb) = (&cv.a + p * s.4, &cv.b + p * s.5);
                let ec = build(&ra, &rb, p, i + 5 * j);
                let (a, b) = (pick(&cv, &m, &n, *i), pick(&cv, &m, &n, *j));
                let sh = |e: &Pt, k: i64, l: i64| match e { None => ECPoint::infinity(), Some((x, y)) => ECPoint::new(&(x + p * k), &(y + p * l), &bi(1)) };
                let (ea, eb) = (sh(&a, s.0, s.1), sh(&b, s.2, s.3));
                let w = cv.add(&a, &b);
                let r = ec.plus(&ea, &eb);
                ensure!(mp(&r, p) == w, "{} + {} is {} instead of {}", ea, eb, r, pshow(&w));
                check_sum(&ec, &cv, &a, &b)?;
                // any point with z = 0 is the point at infinity
                let inf = ECPoint::new(x1, y2, &bi(0));
                ensure!(mp(&ec.plus(&inf, &ea), p) == a && mp(&ec.plus(&ea, &inf), p) == a, "O given as ({} : {} : 0) is not neutral for {}", x1, y2, ea);
                ensure!(ec.plus(&inf, &inf).is_infinity() && ec.negate(&inf).is_infinity() && ec.is_on_curve(&inf), "O given as ({} : {} : 0)", x1, y2);
                ensure!(mp(&ec.plus(&eb, &ea), p) == w, "{} + {} (swapped) is not {}", ea, eb, pshow(&w));
                ensure!(mp(&ec.negate(&ea), p) == cv.neg(&a), "- {} is {}", ea, ec.negate(&ea));
                exact("canonicalize", &ec.canonicalize(&ea), &a)?;
                ensure!(ec.plus(&ea, &ec.negate(&ea)).is_infinity(), "{} minus itself is not O", ea);
                let e = ECPoint::new(x1, y1, x2);
                let c = ec.canonicalize(&e);
                ensure!(c == ECPoint::new(&modf(x1, p), &modf(y1, p), &modf(x2, p)), "canonicalize of {} {} {}", x1, y1, x2);
                classes(&cv, &a, &b, o);
                o.nt((a.is_some() && (s.0 != 0 || s.1 != 0)) || (b.is_some() && (s.2 != 0 || s.3 != 0)));
                Ok(())
            }),
        random("refused", "every case", 4_000, 100_000, &STD,
            |_| (prime(3), int(300), int(300), int(300), int(300), 0u8..12, 0u8..3).boxed(),
            |(p, x1, y1, x2, y2, i, how), o| {
                let (cv, m, n) = match through(p, x1, y1, x2, y2) { Some(v) => v, None => return Ok(()) };
                let ec = EllipticCurve::new_raw(&cv.a, &cv.b, p);
                let g = cp(&pick(&cv, &m, &n, *i));
                let (x, y) = m.clone().unwrap();
                let (x, y) = match how { 0 => (x, y + 1), 1 => (x + 1, y), _ => (x2.clone(), y1.clone()) };
                if cv.on(&modf(&x, p), &modf(&y, p)) { return Ok(()); }
                let bad = ECPoint::new(&x, &y, &bi(1));
                ensure!(refuses(|| ec.plus(&bad, &g)), "{} + {} answered, the first is not on the curve", bad, g);
                ensure!(refuses(|| ec.plus(&g, &bad)), "{} + {} answered, the second is not on the curve", g, bad);
                o.nt(true);
                o.when(g.is_infinity(), "other point is O");
                Ok(())
            }),
    ]
}

// ---------------------------------------------------------------- C26
fn check_mul(ec: &EllipticCurve, cv: &Cv, p: &Pt, m: &BigInt, n: &BigInt) -> Res {
    let e = cp(p);
    let (wm, wn) = (cv.mul(p, m), cv.mul(p, n));
    let (em, en) = (ec.multiply_scalar(&e, m), ec.multiply_scalar(&e, n));
    exact(&format!("{} * {}", m, pshow(p)), &em, &wm)?;
    exact(&format!("{} * {}", n, pshow(p)), &en, &wn)?;
    exact("(m + n) P", &ec.multiply_scalar(&e, &(m + n)), &cv.add(&wm, &wn))?;
    ensure!(ec.multiply_scalar(&en, m) == ec.multiply_scalar(&e, &(m * n)), "m(nP) is not (mn)P for m = {}, n = {}, P = {}", m, n, e);
    exact("(-m) P", &ec.multiply_scalar(&e, &-m), &cv.neg(&wm))?;
    ensure!(e == cp(p), "the point changed");
    Ok(())
}
pub fn c26() -> Vec<Sub> {
    vec![
        enumerate("small", "a point of order at least 3", &STD,
            |t| { let ps: &[u64] = if t == Tier::Quick { &[3, 5, 7, 11] } else { &[3, 5, 7, 11, 13, 17, 19] }; ps.iter().flat_map(|p| smooth(*p)).collect() },
            |&(p, a, b), o| {
                let pp = bi(p);
                let ec = build(&bi(a), &bi(b), &pp, (a + 2 * b) as u8);
                let cv = Cv::new(&bi(a), &bi(b), &pp);
                let mut pts: Vec<Pt> = cv.points().into_iter().map(Some).collect();
                pts.push(None);
                for x in &pts {
                    // repeated addition both ways
                    let (mut up, mut dn) = (None, None);
                    for n in 0..=2 * pts.len() as i64 + 3 {
                        exact(&format!("{} * {}", n, pshow(x)), &ec.multiply_scalar(&cp(x), &bi(n)), &up)?;
                        exact(&format!("{} * {}", -n, pshow(x)), &ec.multiply_scalar(&cp(x), &bi(-n)), &dn)?;
                        if up.is_none() && n > 2 { o.nt(true); }
                        up = cv.add(&up, x);
                        dn = cv.add(&dn, &cv.neg(x));
                    }
                }
                Ok(())
            }),
        random("medium", "an affine point and |m|, |n| at least 2", 2_500, 120_000, &STD,
            |_| (prop_oneof![2 => small_prime(3, 60).prop_map(BigInt::from), 2 => prime(3).prop_map(|p| if p.bits() > 62 { bi(1_000_003) } else { p })], int(80), prop_oneof![4 => int(80), 1 => Just(bi(0))], int(80), int(80), 0u8..12, prop_oneof![int(7), int(40), int(90)], prop_oneof![int(7), int(40), int(90)]).boxed(),
            |(p, x1, y1, x2, y2, i, m, n), o| {
                let (cv, u, v) = match through(p, x1, y1, x2, y2) { Some(v) => v, None => return Ok(()) };
                let ec = build(&cv.a, &cv.b, p, i / 3 + i);
                let pt = pick(&cv, &u, &v, *i);
                check_mul(&ec, &cv, &pt, m, n)?;
                // around the group order
                if p.bits() <= 10 {
                    let k = bi(cv.points().len() as i64 + 1);
                    check_mul(&ec, &cv, &pt, &(&k + m % 3), &(&k * n - 1))?;
                    exact("(#E) P", &ec.multiply_scalar(&cp(&pt), &k), &None)?;
                    o.label("scalars around #E");
                }
                o.nt(pt.is_some() && m.abs() > bi(1) && n.abs() > bi(1));
                o.when(pt.as_ref().map_or(false, |q| q.1.is_zero()), "point of order 2");
                o.when(pt.is_none(), "infinity");
                o.when(m.is_negative() || n.is_negative(), "negative scalar");
                o.when(m.is_zero() || n.is_zero(), "scalar 0");
                Ok(())
            }),
        random("unreduced", "a coordinate outside [0, p) and |n| at least 2", 1_500, 60_000, &STD,
            |_| (small_prime(3, 5000), int(40), int(40), int(40), int(40), -2i64..3, -2i64..3, int(30)).boxed(),
            |(p, x1, y1, x2, y2, k, l, n), o| {
                let p = &BigInt::from(*p);
                let (cv, u, _) = match through(p, x1, y1, x2, y2) { Some(v) => v, None => return Ok(()) };
                let ec = EllipticCurve::new_raw(&cv.a, &cv.b, p);
                let (x, y) = u.clone().unwrap();
                let e = ECPoint::new(&(x + p * *k), &(y + p * *l), &bi(1));
                let r = ec.multiply_scalar(&e, n);
                ensure!(mp(&r, p) == cv.mul(&u, n), "{} * {} is {}", n, e, r);
                ensure!(ec.multiply_scalar(&ECPoint::new(x1, y2, &bi(0)), n).is_infinity(), "{} * O given as ({} : {} : 0)", n, x1, y2);
                o.nt((*k != 0 || *l != 0) && n.abs() > bi(1));
                Ok(())
            }),
        random("small_order", "large field and a scalar above the order", 1_500, 60_000, &STD,
            |_| (mid_prime(), 2u8..13, int(120), int(60), prop_oneof![int(7), int(40), int(90)], prop_oneof![int(7), int(40), int(90)]).boxed(),
            |(p, n, d, x, m, k), o| {
                let (cv, pt) = match small_order(p, *n, d, x) { Some(v) => v, None => return Ok(()) };
                let ec = build(&cv.a, &cv.b, p, *n);
                let ord = order(&cv, &pt);
                check_mul(&ec, &cv, &pt, m, k)?;
                check_mul(&ec, &cv, &pt, &(&ord * m), &(&ord * k + 1))?;
                check_mul(&ec, &cv, &pt, &ord, &(&ord * m - 1))?;
                o.nt(p.bits() > 20 && m.abs() > ord);
                o.when(ord == bi(2), "order 2");
                o.when(ord == bi(3), "order 3");
                o.when(ord > bi(3), "order 4 to 12");
                Ok(())
            }),
        random("big", "field of 190 bits or more, a scalar of more than 100 bits", 80, 4_000, &HEAVY,
            |_| (prop::sample::select(big_primes()), int(300), int(300), int(300), int(300), 0u8..12, prop_oneof![int(270), nat(256).prop_map(|v| v | (bi(1) << 255)), nat(150).prop_map(|v| -(v | (bi(1) << 128)))], int(120)).boxed(),
            |(p, x1, y1, x2, y2, i, m, n), o| {
                let (cv, u, v) = match through(p, x1, y1, x2, y2) { Some(v) => v, None => return Ok(()) };
                let ec = EllipticCurve::new_raw(&cv.a, &cv.b, p);
                check_mul(&ec, &cv, &pick(&cv, &u, &v, *i), m, n)?;
                o.nt(p.bits() >= 190 && m.bits() > 100);
                Ok(())
            }),
    ]
}

/// mostly primes of 21 to 130 bits: larger than any point count, still fast
fn mid_prime() -> B<BigInt> {
    let mid: Vec<BigInt> = big_primes().into_iter().filter(|p| p.bits() <= 130).collect();
    prop_oneof![2 => prime(5), 3 => (21u32..62, any::<u64>()).prop_map(|(b, r)| BigInt::from(next_prime((r % (1u64 << b)) | (1 << (b - 1))))), 2 => prop::sample::select(mid)].boxed()
}
/// a curve and a point of small order n = 2..=12 (a factor of n at times)
fn small_order(p: &BigInt, n: u8, d: &BigInt, x: &BigInt) -> Option<(Cv, Pt)> {
    match n {
        2 => {
            // (x, 0) with a = d
            let (x, a) = (modf(x, p), modf(d, p));
            let cv = Cv::new(&a, &-(&x * &x * &x + &a * &x), p);
            if cv.disc_zero() { None } else { Some((cv, Some((x, bi(0))))) }
        }
        3 => {
            // a flex with tangent y = d (t - x0) + x: three times x0 = d^2 / 3
            let x0 = modf(&(d * d * inv(&bi(3), p)?), p);
            let y0 = modf(x, p);
            let a = modf(&(bi(2) * d * &y0 - bi(3) * &x0 * &x0), p);
            let b = modf(&(&y0 * &y0 - &x0 * &x0 * &x0 - &a * &x0), p);
            let cv = Cv::new(&a, &b, p);
            if cv.disc_zero() { None } else { Some((cv, Some((x0, y0)))) }
        }
        11 => tate(p, 12, d).map(|(c, q)| { let t = c.mul(&q, &bi(5)); (c, t) }),
        n => tate(p, n, d),
    }
}
/// order of a point known to have a small one
fn order(cv: &Cv, q: &Pt) -> BigInt {
    let (mut s, mut n) = (q.clone(), 1i64);
    while s.is_some() && n < 1000 { s = cv.add(&s, q); n += 1; }
    bi(n)
}

// ---------------------------------------------------------------- C27
fn check_torsion(p: u64, a: i64, b: i64, extra: &BigInt, o: &mut Obs) -> Res {
    let pp = BigInt::from(p);
    let cv = Cv::new(&bi(a), &bi(b), &pp);
    if cv.disc_zero() { return Ok(()); }
    let ec = EllipticCurve::new(&bi(a), &bi(b), &pp);
    let mut pts: Vec<Pt> = cv.points().into_iter().map(Some).collect();
    pts.push(None);
    let card = pts.len() as i64;
    let mut orders = vec![];
    for x in &pts {
        let mut n = 1i64;
        let mut s = x.clone();
        while s.is_some() { s = cv.add(&s, x); n += 1; }
        orders.push(n);
        let k = ec.point_order(&cp(x));
        eq(&format!("order of {}", pshow(x)), k.clone(), bi(n))?;
        ensure!(bi(card).is_multiple_of(&k), "order {} does not divide {}", k, card);
    }
    let exp = orders.iter().fold(1i64, |l, n| l.lcm(n));
    let mut ns: Vec<BigInt> = (0..=8).map(bi).collect();
    ns.extend([bi(card), bi(card + 1), bi(exp), bi(exp - 1), bi(-3), bi(-exp), bi(exp) * extra, extra.clone()]);
    ns.extend(orders.iter().take(3).map(|n| bi(*n)));
    for n in &ns {
        let want: BTreeSet<Pt> = pts.iter().zip(&orders).filter(|(_, k)| n.is_multiple_of(&bi(**k))).map(|(x, _)| x.clone()).collect();
        let v = ec.division_points(n);
        let got: BTreeSet<Pt> = v.iter().map(|e| mp(e, &pp)).collect();
        ensure!(got == want && v.len() == want.len(), "E[{}] has {} points instead of {}", n, v.len(), want.len());
        for e in v.iter() { ensure!(*e == cp(&mp(e, &pp)), "{} in E[{}] is not canonical", e, n); }
        let own: Vec<ECPoint> = (&v).into();
        ensure!(own == *v, "conversion to a Vec");
        let own: Vec<ECPoint> = v.into();
        ensure!(own.len() == want.len(), "conversion to a Vec (owned)");
    }
    o.nt(card >= 4);
    o.when(orders.contains(&2), "points of order 2");
    o.when(exp < card, "group not cyclic");
    o.when(exp == card, "cyclic group");
    Ok(())
}
pub fn c27() -> Vec<Sub> {
    vec![
        enumerate("torsion_small", "at least four points", &STD,
            |t| { let ps: &[u64] = if t == Tier::Quick { &[3, 5, 7, 11, 13] } else { &[3, 5, 7, 11, 13, 17, 19, 23, 29] }; ps.iter().flat_map(|p| smooth(*p)).collect() },
            |&(p, a, b), o| check_torsion(p as u64, a, b, &bi(6), o)),
        random("order_large_field", "field of more than 20 bits", 2_000, 80_000, &STD,
            |_| (mid_prime(), 2u8..13, int(120), int(60), -2i64..3, -2i64..3, 1i64..12).boxed(),
            |(p, n, d, x, k, l, m), o| {
                let (cv, pt) = match small_order(p, *n, d, x) { Some(v) => v, None => return Ok(()) };
                let pt = cv.mul(&pt, &bi(*m));
                let ec = build(&cv.a, &cv.b, p, *n);
                let want = order(&cv, &pt);
                eq(&format!("order of {} over F_{}", pshow(&pt), p), ec.point_order(&cp(&pt)), want.clone())?;
                if let Some((x, y)) = &pt { eq("order of the unreduced point", ec.point_order(&ECPoint::new(&(x + p * *k), &(y + p * *l), &bi(1))), want.clone())?; }
                eq("order of O", ec.point_order(&ECPoint::new(d, x, &bi(0))), bi(1))?;
                o.nt(p.bits() > 20 && want > bi(1));
                o.when(want == bi(1), "O");
                o.when(want == bi(2), "order 2");
                o.when(want > bi(4), "order above 4");
                Ok(())
            }),
        random("order_mid_field", "order above 12", 200, 8_000, &STD,
            |t| (small_prime(60, if t == Tier::Quick { 1100 } else { 5000 }), int(80), int(80), int(80), -2i64..3).boxed(),
            |(p, a, x, y, k), o| {
                let pp = BigInt::from(*p);
                let b = y * y - x * x * x - a * x;
                let cv = Cv::new(a, &b, &pp);
                if cv.disc_zero() { return Ok(()); }
                let ec = EllipticCurve::new_raw(a, &b, &pp);
                let pt = Some((modf(x, &pp), modf(y, &pp)));
                let (mut s, mut n) = (pt.clone(), 1i64);
                while s.is_some() { s = cv.add(&s, &pt); n += 1; }
                eq(&format!("order of ({}, {}) on y^2 = x^3 + {} x + {} over F_{}", x, y, a, b, p), ec.point_order(&ECPoint::new(&(x + &pp * *k), y, &bi(1))), bi(n))?;
                o.nt(n > 12);
                o.when(n > 100, "order above 100");
                o.when(n % 2 == 1, "odd order");
                Ok(())
            }),
        random("torsion_larger", "at least four points", 3, 200, &STD,
            |_| (small_prime(72, 260), -300i64..300, -300i64..300, int(70)).boxed(),
            |(p, a, b, n), o| check_torsion(*p, *a, *b, n, o)),
        random("torsion", "at least four points", 400, 20_000, &STD,
            |t| (small_prime(3, if t == Tier::Quick { 71 } else { 211 }), -80i64..80, -80i64..80, int(70)).boxed(),
            |(p, a, b, n), o| check_torsion(*p, *a, *b, n, o)),
    ]
}

// ---------------------------------------------------------------- C28
/// Velu over representatives of {Q, -Q} (the textbook form), from the model kernel
pub fn velu(cv: &Cv, ker: &[(BigInt, BigInt)]) -> Cv {
    let p = &cv.p;
    let (mut v, mut w) = (bi(0), bi(0));
    let mut seen: BTreeSet<BigInt> = BTreeSet::new();
    for (x, y) in ker {
        if !seen.insert(x.clone()) { continue; }
        let g = bi(3) * x * x + &cv.a;
        let vq = if y.is_zero() { g } else { bi(2) * g };
        let uq = bi(4) * y * y;
        w += &uq + x * &vq;
        v += vq;
    }
    Cv::new(&(&cv.a - bi(5) * v), &(&cv.b - bi(7) * w), p)
}
fn check_isogeny(ec: &EllipticCurve, n: i64, o: &mut Obs) -> Result<EllipticCurve, String> {
    let p = ec.p.clone();
    let cv = Cv::new(&ec.a, &ec.b, &p);
    let pts = cv.points();
    let ker: Vec<(BigInt, BigInt)> = pts.iter().filter(|q| cv.mul(&Some((*q).clone()), &bi(n)).is_none()).cloned().collect();
    let want = velu(&cv, &ker);
    let im = ec.isogeny(&bi(n));
    let ctx = format!("E[{}] of y^2 = x^3 + {} x + {} over F_{}", n, ec.a, ec.b, p);
    ensure!(im.p == p, "{}: the field changed to {}", ctx, im.p);
    ensure!(modf(&im.a, &p) == want.a && modf(&im.b, &p) == want.b, "{}: codomain ({}, {}) instead of ({}, {})", ctx, im.a, im.b, want.a, want.b);
    ensure!(!want.disc_zero(), "{}: model codomain is singular", ctx);
    eq(&format!("{}: cardinality of the codomain", ctx), im.cardinality(), pts.len() + 1)?;
    // Velu's point map lands on the returned curve
    let inker: BTreeSet<&(BigInt, BigInt)> = ker.iter().collect();
    for q in pts.iter() {
        if inker.contains(q) { continue; }
        let (mut x, mut y) = q.clone();
        for k in &ker {
            let (sx, sy) = cv.add(&Some(q.clone()), &Some(k.clone())).unwrap();
            x += sx - &k.0;
            y += sy - &k.1;
        }
        ensure!(im.is_on_curve(&ECPoint::new(&modf(&x, &p), &modf(&y, &p), &bi(1))), "{}: the image of {:?} is not on the codomain", ctx, (q.0.to_string(), q.1.to_string()));
    }
    if ker.is_empty() { ensure!(modf(&im.a, &p) == cv.a && modf(&im.b, &p) == cv.b, "{}: trivial kernel changes the curve", ctx); }
    o.nt(!ker.is_empty());
    o.when(ker.is_empty(), "trivial kernel");
    o.when(ker.iter().any(|q| q.1.is_zero()), "kernel with points of order 2");
    o.when(ker.iter().any(|q| !q.1.is_zero()), "kernel with points of order above 2");
    o.when(!ker.is_empty() && ker.len() == pts.len(), "whole group is the kernel");
    o.when(ker.len() + 1 == (n * n) as usize && n > 1, "full rational n-torsion");
    Ok(im)
}
pub fn c28() -> Vec<Sub> {
    vec![
        enumerate("isogeny_small", "kernel not trivial", &STD,
            |t| { let ps: &[u64] = if t == Tier::Quick { &[5, 7, 11, 13] } else { &[5, 7, 11, 13, 17, 19, 23] }; ps.iter().flat_map(|p| smooth(*p)).flat_map(|c| (0..=if t == Tier::Quick { 7i64 } else { 14 }).map(move |n| (c.0, c.1, c.2, n))).collect() },
            |&(p, a, b, n), o| check_isogeny(&EllipticCurve::new(&bi(a), &bi(b), &bi(p)), n, o).map(|_| ())),
        random("chain", "some kernel of the chain is not trivial", 350, 16_000, &STD,
            |t| (prop_oneof![30 => small_prime(5, 61), 1 => small_prime(62, if t == Tier::Quick { 199 } else { 401 })], -70i64..70, -70i64..70, proptest::collection::vec(prop_oneof![6 => 1i64..14, 1 => 14i64..400, 1 => -14i64..1], 1..5)).boxed(),
            |(p, a, b, ns), o| {
                if Cv::new(&bi(*a), &bi(*b), &BigInt::from(*p)).disc_zero() { return Ok(()); }
                let mut ec = EllipticCurve::new(&bi(*a), &bi(*b), &BigInt::from(*p));
                for n in ns { ec = check_isogeny(&ec, *n, o)?; }
                o.when(ns.len() >= 3, "chain of three or more");
                Ok(())
            }),
    ]
}

// ---------------------------------------------------------------- C29
fn zmul(a: &U, b: &U) -> U { umul(a, b) }
fn zsub(a: &U, b: &U) -> U {
    let n = a.len().max(b.len());
    utrim((0..n).map(|i| a.get(i).cloned().unwrap_or_default() - b.get(i).cloned().unwrap_or_default()).collect())
}
fn zsq(a: &U) -> U { zmul(a, a) }
/// f_n with psi_n = f_n (n odd) or 2 y f_n (n even), for n = -1 .. N (index n + 1)
fn psis(a: &BigInt, b: &BigInt, top: usize) -> Vec<U> {
    let cub: U = vec![b.clone(), a.clone(), bi(0), bi(1)];
    let y16: U = zsq(&cub).into_iter().map(|c| c * 16).collect(); // (2y)^4
    let mut f: Vec<U> = vec![vec![bi(-1)], vec![], vec![bi(1)], vec![bi(1)]];
    f.push(utrim(vec![-(a * a), bi(12) * b, bi(6) * a, bi(0), bi(3)]));
    f.push(utrim(vec![bi(-2) * (bi(8) * b * b + a * a * a), bi(-8) * a * b, bi(-10) * a * a, bi(40) * b, bi(10) * a, bi(0), bi(2)]));
    for n in 5..=top as i64 {
        let g = |k: i64| -> &U { &f[(k + 1) as usize] };
        let m = n / 2;
        let r = if n % 2 == 1 {
            let u = zmul(g(m + 2), &zmul(g(m), &zsq(g(m))));
            let v = zmul(g(m - 1), &zmul(g(m + 1), &zsq(g(m + 1))));
            if m % 2 == 0 { zsub(&zmul(&y16, &u), &v) } else { zsub(&u, &zmul(&y16, &v)) }
        } else {
            zmul(g(m), &zsub(&zmul(g(m + 2), &zsq(g(m - 1))), &zmul(g(m - 2), &zsq(g(m + 1)))))
        };
        f.push(r);
    }
    f
}
fn upoly(u: &U, y: i32, k: &BigInt) -> MP { let mut r = MP::zero(); for (i, c) in u.iter().enumerate() { r.acc((i as i32, y, 0, None), &(c * k)); } r }
fn half(u: &U) -> U { u.iter().map(|c| { assert!(c.is_even()); c / 2 }).collect() }
struct Div { psi: MP, phi: Option<MP>, omega: Option<MP> }
fn divpol(a: &BigInt, b: &BigInt, n: i64) -> Div {
    let f = psis(a, b, (n + 2).max(4) as usize);
    let g = |k: i64| -> &U { &f[(k + 1) as usize] };
    let psi = if n % 2 == 0 { upoly(g(n), 1, &bi(2)) } else { upoly(g(n), 0, &bi(1)) };
    if n == 0 { return Div { psi, phi: None, omega: None }; }
    let cub: U = vec![b.clone(), a.clone(), bi(0), bi(1)];
    let y4: U = cub.iter().map(|c| c * 4).collect(); // (2y)^2
    let x: U = vec![bi(0), bi(1)];
    let (sq, pr) = (zmul(&x, &zsq(g(n))), zmul(g(n + 1), g(n - 1)));
    let phi = if n % 2 == 0 { zsub(&zmul(&y4, &sq), &pr) } else { zsub(&sq, &zmul(&y4, &pr)) };
    let d = zsub(&zmul(g(n + 2), &zsq(g(n - 1))), &zmul(g(n - 2), &zsq(g(n + 1))));
    // 4 y omega = psi_{n+2} psi_{n-1}^2 - psi_{n-2} psi_{n+1}^2
    let omega = if n % 2 == 0 { upoly(&half(&d), 0, &bi(1)) } else { upoly(&d, 1, &bi(1)) };
    Div { psi, phi: Some(upoly(&phi, 0, &bi(1))), omega: Some(omega) }
}
fn check_divpol(a: &BigInt, b: &BigInt, n: i64, p: &BigInt, x: &BigInt, y: &BigInt, o: &mut Obs) -> Res {
    let k = n as i32;
    let w = divpol(a, b, n);
    let psi = division_polynomial::psi(a, b, k);
    same(&format!("psi_{}", n), &psi, &w.psi)?;
    ensure!(psi.terms.keys().all(|m| m.ypow <= 1 && m.ypow >= 0), "psi_{} has y-degree above 1", n);
    if n >= 1 {
        let phi = division_polynomial::phi(a, b, k);
        let omega = division_polynomial::omega(a, b, k);
        same(&format!("phi_{}", n), &phi, w.phi.as_ref().unwrap())?;
        same(&format!("omega_{}", n), &omega, w.omega.as_ref().unwrap())?;
        // psi_n^2 has leading term n^2 x^(n^2 - 1)
        let sq = (&psi * &psi).reduction(a, b);
        let h = sq.highest_term_x();
        ensure!(h.coef == bi(n * n) && h.xpow() as i64 == n * n - 1 && h.ypow() == 0, "leading term of psi_{}^2 is {}", n, h);
        // the point map, on a curve over F_p with the same a and b + p-multiples: b' solved from (x, y)
        let bb = modf(&(y * y - x * x * x - a * x), p);
        let cv = Cv::new(a, &bb, p);
        if !cv.disc_zero() {
            let pt = Some((modf(x, p), modf(y, p)));
            let q = cv.mul(&pt, &bi(n));
            let (ps, ph, om) = (division_polynomial::psi(a, &bb, k), division_polynomial::phi(a, &bb, k), division_polynomial::omega(a, &bb, k));
            let v = modf(&ps.eval_xy(x, y), p);
            match q {
                None => { ensure!(v.is_zero(), "psi_{} does not vanish at ({}, {}) with nP = O", n, x, y); o.label("nP = O"); }
                Some((qx, qy)) => {
                    let i = match inv(&v, p) { Some(i) => i, None => return Err(format!("psi_{} vanishes at ({}, {}) but nP is not O", n, x, y)) };
                    let i2 = &i * &i;
                    eq("x(nP)", modf(&(ph.eval_xy(x, y) * &i2), p), qx)?;
                    eq("y(nP)", modf(&(om.eval_xy(x, y) * &i2 * &i), p), qy)?;
                    o.label("nP not O");
                }
            }
        }
    }
    o.nt(n >= 5 && !a.is_zero() && !b.is_zero());
    o.when(n % 2 == 0, "n even");
    o.when(a.is_zero() || b.is_zero(), "a or b is 0");
    o.when(n >= 9, "n >= 9");
    Ok(())
}
pub fn c29() -> Vec<Sub> {
    vec![
        random("division_polynomials", "n >= 5 and a, b not 0", 700, 30_000, &HEAVY,
            |t| {
                let hi = if t == Tier::Quick { 12i64 } else { 17 };
                let c = || prop_oneof![3 => int(6), 2 => int(60), 1 => Just(bi(0))];
                (c(), c(), prop_oneof![2 => 0i64..8, 2 => 0..=hi], prop_oneof![2 => small_prime(5, 40).prop_map(BigInt::from), 2 => prime(5)], int(60), prop_oneof![4 => int(60), 1 => Just(bi(0))]).boxed()
            },
            |(a, b, n, p, x, y), o| check_divpol(a, b, *n, p, x, y, o)),
        enumerate("each_n", "n >= 5", &HEAVY,
            |t| (0..=if t == Tier::Quick { 26i64 } else { 40 }).rev().flat_map(|n| [(n, 1i64, 1i64), (n, -3, 5), (n, 0, 7), (n, 4, 0), (n, 0, 0)]).collect(),
            |&(n, a, b), o| { o.nt(n >= 5); check_divpol(&bi(a), &bi(b), n, &bi(10007), &bi(5), &bi(11), o) }),
        enumerate("all_points_small_fields", "a point of order between 2 and 8 exists", &HEAVY,
            |t| { let ps: &[u64] = if t == Tier::Quick { &[5, 7] } else { &[5, 7, 11, 13] }; ps.iter().flat_map(|p| smooth(*p)).collect() },
            |&(p, a, b), o| {
                let pp = bi(p);
                let cv = Cv::new(&bi(a), &bi(b), &pp);
                for n in 1..=8i64 {
                    let ps = division_polynomial::psi(&bi(a), &bi(b), n as i32);
                    let ph = division_polynomial::phi(&bi(a), &bi(b), n as i32);
                    let om = division_polynomial::omega(&bi(a), &bi(b), n as i32);
                    for (x, y) in cv.points() {
                        let v = modf(&ps.eval_xy(&x, &y), &pp);
                        match cv.mul(&Some((x.clone(), y.clone())), &bi(n)) {
                            None => { ensure!(v.is_zero(), "psi_{} does not vanish at ({}, {})", n, x, y); o.nt(true); }
                            Some((qx, qy)) => {
                                let i = match inv(&v, &pp) { Some(i) => i, None => return Err(format!("psi_{} vanishes at ({}, {}) but nP is not O", n, x, y)) };
                                let i2 = &i * &i;
                                eq("x(nP)", modf(&(ph.eval_xy(&x, &y) * &i2), &pp), qx)?;
                                eq("y(nP)", modf(&(om.eval_xy(&x, &y) * &i2 * &i), &pp), qy)?;
                            }
                        }
                    }
                }
                Ok(())
            }),
    ]
}

// ---------------------------------------------------------------- C32
struct Std { p: BigInt, n: BigInt, g: Pt, cv: Cv }
fn standard() -> Std {
    let h = |s: &str| BigInt::parse_bytes(s.as_bytes(), 16).unwrap();
    let p = h("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f");
    let n = h("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141");
    let g = Some((h("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"), h("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8")));
    let cv = Cv::new(&bi(0), &bi(7), &p);
    Std { p, n, g, cv }
}
pub fn c32() -> Vec<Sub> {
    vec![
        enumerate("parameters", "every case", &STD,
            |_| (0i64..7).collect(),
            |&k, o| {
                let s = standard();
                let c = Secp256k1::new();
                match k {
                    0 => { eq("p", c.ec.p.clone(), s.p.clone())?; eq("p (formula)", c.ec.p.clone(), (bi(1) << 256) - (bi(1) << 32) - 977)?; }
                    1 => { eq("a", modf(&c.ec.a, &s.p), bi(0))?; eq("b", modf(&c.ec.b, &s.p), bi(7))?; }
                    2 => exact("generator", &c.g, &s.g)?,
                    3 => ensure!(c.ec.is_on_curve(&c.g), "the generator is not on the curve"),
                    4 => exact("n G", &c.ec.multiply_scalar(&c.g, &s.n), &None)?,
                    5 => exact("(n - 1) G", &c.ec.multiply_scalar(&c.g, &(&s.n - 1)), &s.cv.neg(&s.g))?,
                    _ => exact("(n + 1) G", &c.ec.multiply_scalar(&c.g, &(&s.n + 1)), &s.g)?,
                }
                o.nt(true);
                Ok(())
            }),
        random("public_key", "scalar of more than 64 bits, not a multiple of the order", 1_000, 40_000, &STD,
            |_| {
                let n = standard().n;
                let (n1, n2) = (n.clone(), n.clone());
                prop_oneof![
                    5 => nat(256),
                    2 => int(256),
                    2 => (prop_oneof![2 => (-3i64..4).prop_map(bi), 1 => int(80)], prop_oneof![1 => Just(0i64), 1 => -40i64..40]).prop_map(move |(k, d)| &n1 * k + d),
                    // multiples of powers of two; runs of ones and zeros; just below a power of two
                    1 => (nat(256), 0usize..256).prop_map(|(v, s)| v >> s << s),
                    1 => prop::collection::vec((any::<bool>(), 1usize..70), 1..8).prop_map(|r| { let mut v = bi(0); for (one, n) in r { v = v << n; if one { v += (bi(1) << n) - 1; } } v % (bi(1) << 300) }),
                    1 => (0usize..300, int(120)).prop_map(|(i, d)| (bi(1) << i) + d),
                    1 => (prop::sample::select(vec!["5363ad4cc05c30e0a5261c028812645a122e22ea20816678df02967c1b23bd72", "7fffffffffffffffffffffffffffffff5d576e7357a4501ddfe92f46681b20a0", "fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", "3086d221a7d46bcde86c90e49284eb15", "e4437ed6010e88286f547fa90abfe4c3"]), -3i64..4).prop_map(|(h, d)| BigInt::parse_bytes(h.as_bytes(), 16).unwrap() + d),
                    1 => (any::<bool>(), 0usize..256, 0usize..256).prop_map(move |(neg, i, j)| { let v: BigInt = (BigInt::one() << i) + (BigInt::one() << j) - 1; if neg { -v } else { v } }),
                    1 => (1i64..200).prop_map(move |d| &n2 / d),
                    1 => int(600),
                    1 => (-60i64..61).prop_map(bi),
                ].boxed()
            },
            |k, o| {
                let s = standard();
                let c = Secp256k1::new();
                let r = c.ec.multiply_scalar(&c.g, k);
                exact(&format!("{} G", k), &r, &s.cv.mul(&s.g, k))?;
                ensure!(c.ec.is_on_curve(&r), "{} G is not on the curve", k);
                ensure!(!r.x.is_negative() && r.x < s.p && !r.y.is_negative() && r.y < s.p, "coordinates of {} G are not reduced", k);
                o.nt(k.bits() > 64 && !modf(k, &s.n).is_zero());
                o.when(k.is_negative(), "negative scalar");
                o.when(k.abs() >= s.n, "scalar at or above the order");
                o.when(r.is_infinity(), "O");
                o.when(k.bits() <= 8, "small scalar");
                Ok(())
            }),
        random("point_arithmetic", "two different affine points", 400, 20_000, &STD,
            |_| (int(256), int(64), 0u8..6).boxed(),
            |(k, m, how), o| {
                let s = standard();
                let c = Secp256k1::new();
                let a = s.cv.mul(&s.g, k);
                let b = match how { 0 => a.clone(), 1 => s.cv.neg(&a), 2 => None, _ => s.cv.mul(&s.g, m) };
                exact("sum", &c.ec.plus(&cp(&a), &cp(&b)), &s.cv.add(&a, &b))?;
                exact("opposite", &c.ec.negate(&cp(&a)), &s.cv.neg(&a))?;
                exact("m P", &c.ec.multiply_scalar(&cp(&a), m), &s.cv.mul(&a, m))?;
                o.nt(a.is_some() && b.is_some() && a != b);
                Ok(())
            }),
    ]
}
