//! C30, C31, C33..C36: Schoof, the SEA step, divisor sums, q-expansions, modular polynomials,
//! linear systems.
use crate::curve::velu;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use ellipticcurve::bigint::chinese_remainder;
use ellipticcurve::{delta, divisor, eisenstein, j_invariant, modular_polynomial, schoof, schoof_elkies_atkins, simultaneous_equation};
use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::{One, Signed, ToPrimitive, Zero};
use proptest::collection::vec;
use proptest::prelude::*;
use std::collections::BTreeMap;
use std::sync::OnceLock;

// ---------------------------------------------------------------- C30
fn check_schoof(q: u64, a: &BigInt, b: &BigInt, o: &mut Obs) -> Res {
    let qq = BigInt::from(q);
    let (ra, rb) = (modf(a, &qq).to_u64().unwrap(), modf(b, &qq).to_u64().unwrap());
    if Cv::new(a, b, &qq).disc_zero() { return Ok(()); }
    let n = count(ra, rb, q) as i64;
    let t = q as i64 + 1 - n;
    let res = schoof::schoof(a, b, q as i32);
    let ls: Vec<i64> = [2i64, 3, 5].into_iter().filter(|l| *l == 2 || (*l as u64) < q).collect();
    let got: Vec<(BigInt, BigInt)> = res.iter().map(|m| (m.l.clone(), m.r.clone())).collect();
    let want: Vec<(BigInt, BigInt)> = ls.iter().map(|l| (bi(*l), bi(t.rem_euclid(*l)))).collect();
    let f = |v: &Vec<(BigInt, BigInt)>| v.iter().map(|(l, r)| format!("{} mod {}", r, l)).collect::<Vec<_>>().join(", ");
    ensure!(got == want, "y^2 = x^3 + {} x + {} over F_{}: trace {} (order {}), got {} want {}", a, b, q, t, n, f(&got), f(&want));
    // the number of points, when the product of the moduli exceeds the Hasse interval
    let prod: i64 = ls.iter().product();
    if prod * prod > 16 * q as i64 {
        let c = modf(&chinese_remainder(&res).r, &bi(prod)).to_i64().unwrap();
        let c = if 2 * c > prod { c - prod } else { c };
        ensure!(q as i64 + 1 - c == n, "combined trace {} over F_{} instead of {}", c, q, t);
        o.label("number of points determined");
    }
    o.nt(ls.len() >= 2 && t != 0 && ra != 0 && rb != 0);
    o.when(t % 2 != 0, "no point of order 2");
    o.when(ls.len() == 3, "l = 5 used");
    let d = t * t - 4 * q as i64;
    for l in ls.iter().filter(|l| **l > 2) {
        match (d.rem_euclid(*l), l) {
            (0, _) => o.label("Frobenius has a double eigenvalue mod l"),
            (r, l) if (1..*l).any(|x| x * x % l == r) => o.label("Frobenius has two eigenvalues mod l"),
            _ => o.label("Frobenius has no eigenvalue mod l"),
        }
        if t.rem_euclid(*l) == 0 { o.label("trace 0 mod l"); }
    }
    o.when(ra == 0 || rb == 0, "a or b is 0");
    o.when(*a != bi(ra as i64) || *b != bi(rb as i64), "unreduced a or b");
    Ok(())
}
fn smooth(p: u64) -> Vec<(u64, i64, i64)> {
    let mut v = vec![];
    for a in 0..p as i64 { for b in 0..p as i64 { if !Cv::new(&bi(a), &bi(b), &BigInt::from(p)).disc_zero() { v.push((p, a, b)); } } }
    v
}
pub fn c30() -> Vec<Sub> {
    vec![
        enumerate("all_small", "at least two moduli, trace, a and b not 0", &HEAVY,
            |t| primes(3, if t == Tier::Quick { 13 } else { 23 }).into_iter().flat_map(smooth).collect(),
            |&(q, a, b), o| check_schoof(q, &bi(a), &bi(b), o)),
        random("unreduced", "at least two moduli, trace, a and b not 0", 130, 1_500, &HEAVY,
            |_| (small_prime(3, 13), prop_oneof![2 => int(7), 1 => int(90)], prop_oneof![2 => int(7), 1 => int(90)]).boxed(),
            |(q, a, b), o| check_schoof(*q, a, b, o)),
        random("larger", "at least two moduli, trace, a and b not 0", 112, 1_200, &HEAVY,
            |t| (small_prime(17, if t == Tier::Quick { 23 } else { 31 }), 0i64..31, 0i64..31).boxed(),
            |(q, a, b), o| check_schoof(*q, &bi(a % *q as i64), &bi(b % *q as i64), o)),
        // curves with many endomorphisms: Frobenius (or its square) acts as a scalar on the l-torsion
        enumerate("special_shapes", "at least two moduli and trace not 0", &HEAVY,
            |t| {
                let mut v: Vec<(u64, i64, i64)> = vec![];
                for (q, n) in [(17u64, 5i64), (19, 7), (23, 3), (29, 5), (31, 4)].into_iter().chain(if t == Tier::Thorough { vec![(29, 29), (31, 31), (37, 13), (41, 5), (43, 7)] } else { vec![] }) {
                    for k in 1..n { v.push((q, k, 0)); v.push((q, 0, k)); }
                }
                v
            },
            |&(q, a, b), o| { o.nt(count(a as u64, b as u64, q) != q + 1); check_schoof(q, &bi(a), &bi(b), o) }),
    ]
}

// ---------------------------------------------------------------- modular polynomials, reference
/// Phi_l(x, y), by Newton's identities: the power sums of the l+1 conjugates of j are polynomials
/// in j, read off their principal parts.
fn phi_model(l: usize) -> BTreeMap<(i32, i32), BigInt> {
    let n = l * (l + 1);
    let j1 = qj(n);
    // up[k] = (q j)^k to order n
    let mut up: Vec<S> = vec![{ let mut o = vec![bi(0); n + 1]; o[0] = bi(1); o }];
    for k in 1..=n { let s = smul(&up[k - 1], &j1, n); up.push(s); }
    // coefficient of q^e in j^k
    let c = |k: usize, e: i64| -> BigInt { let i = e + k as i64; if i < 0 { bi(0) } else { up[k][i as usize].clone() } };
    let mut ps: Vec<U> = vec![vec![]];
    for m in 1..=l + 1 {
        // coefficients of q^(-d), d = 0 .. l m
        let mut pp: Vec<BigInt> = vec![bi(0); l * m + 1];
        for d in 0..=l * m {
            if d % l == 0 { pp[d] += c(m, -((d / l) as i64)); }
            pp[d] += c(m, -((d * l) as i64)) * l as i64;
        }
        let mut u: U = vec![bi(0); l * m + 1];
        for d in (0..=l * m).rev() {
            let k = pp[d].clone();
            for e in 0..=d { let w = &k * c(d, -(e as i64)); pp[e] -= w; }
            u[d] = k;
        }
        ps.push(u);
    }
    let mut es: Vec<U> = vec![vec![bi(1)]];
    for k in 1..=l + 1 {
        let mut acc: Vec<BigInt> = vec![bi(0); l * k + 1];
        for i in 1..=k {
            for (d, v) in umul(&es[k - i], &ps[i]).into_iter().enumerate() { if i % 2 == 1 { acc[d] += v } else { acc[d] -= v } }
        }
        es.push(utrim(acc.into_iter().map(|v| { assert!(v.is_multiple_of(&bi(k as i64))); v / k as i64 }).collect()));
    }
    let mut r = BTreeMap::new();
    for (k, e) in es.iter().enumerate() {
        for (d, v) in e.iter().enumerate() {
            if !v.is_zero() { r.insert(((l + 1 - k) as i32, d as i32), if k % 2 == 0 { v.clone() } else { -v }); }
        }
    }
    r
}
fn phi(l: i32) -> &'static BTreeMap<(i32, i32), BigInt> {
    static T: [OnceLock<BTreeMap<(i32, i32), BigInt>>; 24] = [const { OnceLock::new() }; 24];
    T[l as usize].get_or_init(|| phi_model(l as usize))
}
fn phi_mp(l: i32) -> MP { let mut r = MP::zero(); for ((i, j), c) in phi(l) { r.acc((*i, *j, 0, None), c); } r }
/// Phi_l(x, y0) mod p
fn phi_at(l: i32, y: &BigInt, p: &BigInt) -> U {
    let mut u = vec![bi(0); l as usize + 2];
    for ((i, j), c) in phi(l) { u[*i as usize] += c * powmod(y, &bi(*j as i64), p); }
    umod(&u, p)
}

// ---------------------------------------------------------------- C31
fn check_sea(l: i32, p: u64, a: &BigInt, b: &BigInt, o: &mut Obs) -> Res {
    let pp = BigInt::from(p);
    let cv = Cv::new(a, b, &pp);
    if cv.disc_zero() { return Ok(()); }
    let a3 = bi(4) * &cv.a * &cv.a * &cv.a;
    let den = modf(&(&a3 + bi(27) * &cv.b * &cv.b), &pp);
    let j = modf(&(bi(1728) * a3 * inv(&den, &pp).unwrap()), &pp);
    let u = phi_at(l, &j, &pp);
    let roots: Vec<BigInt> = (0..p).map(BigInt::from).filter(|x| ueval(&u, x, &pp).is_zero()).collect();
    let mut g: U = vec![bi(1)];
    for r in &roots { g = umod(&umul(&g, &vec![-r, bi(1)]), &pp); }
    let ctx = format!("y^2 = x^3 + {} x + {} over F_{} (j = {}), l = {}", a, b, p, j, l);
    let s = schoof_elkies_atkins::sea(&crate::curve::build(a, b, &pp, (p + l as u64) as u8 / 2), l);
    same(&format!("{}: gcd", ctx), &s.gcd, &uto(&g))?;
    ensure!(s.degree_of_gcd == roots.len() as i32, "{}: degree {} instead of {}", ctx, s.degree_of_gcd, roots.len());
    ensure!(s.is_elkies_prime == !roots.is_empty(), "{}: Elkies flag {} with {} roots", ctx, s.is_elkies_prime, roots.len());
    let want: Vec<BigInt> = roots.iter().take(2).cloned().collect();
    ensure!(s.isogeny_j_invariants == want, "{}: j-invariants {:?} instead of {:?}", ctx, s.isogeny_j_invariants.iter().map(|x| x.to_string()).collect::<Vec<_>>(), want.iter().map(|x| x.to_string()).collect::<Vec<_>>());
    o.nt(!roots.is_empty());
    o.label(match roots.len() { 0 => "no root", 1 => "one root", 2 => "two roots", n if n as i32 == l + 1 => "l + 1 roots", _ => "other number of roots" });
    o.when(l as u64 == p, "l = p");
    o.when(roots.first().map_or(false, |r| r.is_zero()), "0 is a root");
    o.when(roots.last().map_or(false, |r| r + 1 == pp), "p - 1 is a root");
    o.when(j.is_zero() || j == modf(&bi(1728), &pp), "j = 0 or 1728");
    o.when(*a != cv.a || *b != cv.b, "unreduced a or b");
    Ok(())
}
/// curves whose modular polynomial at j has three or more distinct roots (rare: Frobenius acts as a scalar on E[l], or j is singular on X_0(l))
fn many_roots(l: i32, hi: u64, take: usize) -> Vec<(i32, u64, i64, i64)> {
    let mut v = Vec::new();
    for p in primes(5, hi) {
        let pp = BigInt::from(p);
        for j in 0..p {
            let u = phi_at(l, &BigInt::from(j), &pp);
            let u: Vec<u64> = u.iter().map(|c| c.to_u64().unwrap()).collect();
            let n = (0..p).filter(|x| u.iter().rev().fold(0u64, |s, c| (s * x + c) % p) == 0).count();
            if n < 3 { continue; }
            let (a, b) = if j == 0 { (0, 1) } else if j == 1728 % p { (1, 0) } else {
                let k = modf(&(BigInt::from(j) * inv(&modf(&(bi(1728) - BigInt::from(j)), &pp), &pp).unwrap()), &pp).to_i64().unwrap();
                (3 * k % p as i64, 2 * k % p as i64)
            };
            v.push((l, p, a, b));
        }
    }
    // spread over the fields
    let n = v.len();
    if n > take { v = (0..take).map(|i| v[i * n / take]).collect(); }
    v
}
pub fn c31() -> Vec<Sub> {
    fn any_curve(lo: u64, hi: u64) -> B<(u64, BigInt, BigInt)> {
        (small_prime(lo, hi), prop_oneof![6 => (0i64..1000).prop_map(bi), 1 => int(80), 1 => Just(bi(0))], prop_oneof![6 => (0i64..1000).prop_map(bi), 1 => int(80), 1 => Just(bi(0))])
            .prop_map(|(p, a, b)| { let pp = BigInt::from(p); if a.bits() < 11 { (p, modf(&a, &pp), modf(&b, &pp)) } else { (p, a, b) } }).boxed()
    }
    vec![
        enumerate("all_small_2", "at least one root", &HEAVY,
            |t| primes(5, if t == Tier::Quick { 19 } else { 43 }).into_iter().flat_map(smooth).collect(),
            |&(p, a, b), o| check_sea(2, p, &bi(a), &bi(b), o)),
        enumerate("all_small_3", "at least one root", &HEAVY,
            |t| primes(5, if t == Tier::Quick { 11 } else { 31 }).into_iter().flat_map(smooth).collect(),
            |&(p, a, b), o| check_sea(3, p, &bi(a), &bi(b), o)),
        random("l2", "at least one root", 2_500, 60_000, &HEAVY,
            |t| any_curve(5, if t == Tier::Quick { 311 } else { 1021 }),
            |(p, a, b), o| check_sea(2, *p, a, b, o)),
        random("l3", "at least one root", 900, 25_000, &HEAVY,
            |t| any_curve(5, if t == Tier::Quick { 311 } else { 1021 }),
            |(p, a, b), o| check_sea(3, *p, a, b, o)),
        enumerate("three_or_more_roots", "every case", &HEAVY,
            |t| { let q = t == Tier::Quick; let mut v = many_roots(2, 150, if q { 150 } else { 2000 }); v.extend(many_roots(3, 150, if q { 60 } else { 600 })); v.extend(many_roots(5, 200, if q { 20 } else { 200 })); v },
            |&(l, p, a, b), o| check_sea(l, p, &bi(a), &bi(b), o)),
        random("larger_fields", "at least one root", 24, 600, &HEAVY,
            |t| (prop::sample::select(vec![2i32, 2, 3]), any_curve(1000, if t == Tier::Quick { 70_000 } else { 300_000 })).boxed(),
            |(l, (p, a, b)), o| check_sea(*l, *p, a, b, o)),
        random("l5", "at least one root", 40, 1_500, &HEAVY,
            |_| prop_oneof![1 => any_curve(5, 7), 4 => any_curve(5, 211)].boxed(),
            |(p, a, b), o| check_sea(5, *p, a, b, o)),
    ]
}

// ---------------------------------------------------------------- C33
pub fn c33() -> Vec<Sub> {
    fn chk(n: i32, k: i32, o: &mut Obs) -> Res {
        let want = if n <= 0 || k < 0 { bi(0) } else { sigma(n as u64, k as u32) };
        eq(&format!("sigma_{}({})", k, n), divisor::sigma_divisor(n, k), want)?;
        o.nt(n > 3 && k > 1);
        o.when(n <= 0, "n <= 0");
        o.when(k < 0, "k < 0");
        o.when(k == 0, "k = 0");
        if n > 1 {
            let r = (n as f64).sqrt().round() as i32;
            o.when(r as i64 * r as i64 == n as i64, "perfect square");
            o.when(is_prime(n as u64), "prime");
        }
        Ok(())
    }
    vec![
        enumerate("small", "n > 3 and k > 1", &STD,
            |t| { let m = if t == Tier::Quick { 1200 } else { 6000 }; (-12..=m).flat_map(|n| (-2..=7).map(move |k| (n, k))).collect() },
            |&(n, k), o| chk(n, k, o)),
        random("sums", "n > 3 and k > 1", 25_000, 500_000, &STD,
            |_| prop_oneof![
                6 => (ex(1, 20_000), ex(0, 60)),
                1 => (ex(1, 300), ex(0, 900)),
                1 => (any::<i32>().prop_map(|n| -(n & i32::MAX)), ex(0, 60)),
                1 => (ex(-50, 5000), prop_oneof![any::<i32>().prop_map(|k| -1 - (k & i32::MAX)), -4i32..0]),
                // smooth numbers and squares
                2 => (0u32..9, 0u32..5, 0u32..3, 0u32..3, ex(0, 40)).prop_map(|(a, b, c, d, k)| (2i32.pow(a) * 3i32.pow(b) * 5i32.pow(c) * 7i32.pow(d), k)).prop_filter("size", |v| v.0 <= 400_000),
                2 => (1i32..400, ex(0, 40)).prop_map(|(r, k)| (r * r, k)),
            ].boxed(),
            |&(n, k), o| chk(n, k, o)),
        random("large", "n > 3 and k > 1", 600, 5_000, &STD,
            |_| prop_oneof![
                2 => (20_000i32..3_000_000, ex(0, 20)),
                // squares, cubes, prime powers, products of two close factors, smooth numbers
                2 => (140i32..1732, ex(0, 20)).prop_map(|(r, k)| (r * r, k)),
                1 => (27i32..144, ex(0, 20)).prop_map(|(r, k)| (r * r * r, k)),
                1 => (small_prime(2, 1700), 1u32..22, ex(0, 20)).prop_map(|(p, e, k)| { let mut n = p as i64; for _ in 1..e { if n * p as i64 <= 3_000_000 { n *= p as i64; } } (n as i32, k) }),
                1 => (140i32..1720, 1i32..12, ex(0, 20)).prop_map(|(r, d, k)| (r * (r + d), k)),
                1 => (vec(prop::sample::select(vec![2i32, 3, 5, 7, 11, 13]), 4..22), ex(0, 20)).prop_map(|(f, k)| { let mut n = 1; for p in f { if n * p <= 3_000_000 { n *= p; } } (n, k) }),
            ].boxed(),
            |&(n, k), o| chk(n, k, o)),
        enumerate("extremes", "every case", &HUGE,
            |t| {
                let mut v = vec![(i32::MIN, 3), (i32::MIN, i32::MIN), (7, i32::MIN), (1, i32::MAX), (0, 0), (0, i32::MAX), (-1, i32::MAX), (i32::MAX, 3), (2147483646, 2), (46340 * 46340, 1), (46337 * 46337, 2), (1 << 30, 3), (1290 * 1290 * 1290, 0)];
                if t == Tier::Thorough { v.extend((0..20).map(|d| (i32::MAX - 2 - d * 1013, d % 4))); }
                v
            },
            |&(n, k), o| {
                o.nt(true);
                if n == 1 { return eq("sigma_k(1)", divisor::sigma_divisor(1, k), bi(1)); }
                chk(n, k, o)
            }),
        random("multiplicative", "both numbers above 1", 8_000, 150_000, &STD,
            |_| (1i32..500, 1i32..500, ex(0, 30)).prop_map(|(m, n, k)| { let mut n = n; loop { let g = m.gcd(&n); if g == 1 { break; } n /= g; } (m, n, k) }).boxed(),
            |&(m, n, k), o| {
                eq(&format!("sigma_{}({} * {})", k, m, n), divisor::sigma_divisor(m * n, k), divisor::sigma_divisor(m, k) * divisor::sigma_divisor(n, k))?;
                o.nt(m > 1 && n > 1);
                Ok(())
            }),
    ]
}

// ---------------------------------------------------------------- C34
pub fn c34() -> Vec<Sub> {
    vec![
        enumerate("every_order", "order at least 4", &HEAVY,
            |t| if t == Tier::Quick { vec![(4u8, 100i32), (2, 100), (3, 81), (4, -1)] } else { vec![(4, 140), (2, 150), (4, -1)] }.into_iter().chain((0i32..=if t == Tier::Quick { 62 } else { 100 }).rev().flat_map(|n| (0u8..5).map(move |f| (f, n)))).collect(),
            |&(f, n), o| {
                let k = n as usize;
                match f {
                    0 => { same(&format!("E4 to order {}", n), &eisenstein::eisenstein4(n), &sto(&e4(k), 0))?; o.label("E4"); }
                    1 => { same(&format!("product to order {}", n), &delta::delta1(n), &sto(&eta24(k), 0))?; o.label("product"); }
                    2 => { same(&format!("inverse product to order {}", n), &delta::delta1_inverse(n), &sto(&sinv(&eta24(k), k), 0))?; o.label("inverse product"); }
                    3 => { same(&format!("q j to order {}", n), &j_invariant::j_invariant1(n), &sto(&qj(k), 0))?; o.label("q j"); }
                    _ => { same(&format!("j to order {}", n), &j_invariant::j_invariant(n), &sto(&qj((n + 1) as usize), -1))?; o.label("j"); }
                }
                o.nt(n >= 4);
                Ok(())
            }),
        enumerate("long_e4", "order at least 4", &HEAVY,
            |t| (1i32..if t == Tier::Quick { 40 } else { 160 }).map(|k| 47 + k * 29).collect(),
            |&n, o| { o.nt(true); same(&format!("E4 to order {}", n), &eisenstein::eisenstein4(n), &sto(&e4(n as usize), 0)) }),
        enumerate("long_product", "order at least 4", &HEAVY,
            |t| (1i32..=if t == Tier::Quick { 20 } else { 60 }).map(|k| 46 + k * 7).collect(),
            |&n, o| { o.nt(true); same(&format!("product to order {}", n), &delta::delta1(n), &sto(&eta24(n as usize), 0)) }),
        enumerate("identities", "order at least 4", &HEAVY,
            |t| (0i32..=if t == Tier::Quick { 45 } else { 70 }).rev().collect(),
            |&n, o| {
                let k = n as usize;
                let cut = |m: &MP| m.map(|m, c| if m.2 <= n { Some((*m, c.clone())) } else { None });
                let (e, d, i, j1) = (MP::raw(&eisenstein::eisenstein4(n)), MP::raw(&delta::delta1(n)), MP::raw(&delta::delta1_inverse(n)), MP::raw(&j_invariant::j_invariant1(n)));
                ensure!(cut(&d.mul(&i)) == MP::one(), "product times inverse product is not 1 to order {}", n);
                ensure!(cut(&cut(&e.mul(&e)).mul(&e)) == cut(&j1.mul(&d)), "E4^3 is not j Delta to order {}", n);
                let j = MP::raw(&j_invariant::j_invariant(n));
                ensure!(j.map(|m, c| if m.2 < n { Some(((m.0, m.1, m.2 + 1, m.3), c.clone())) } else { None }) == j1, "q times j differs from q j to order {}", n);
                ensure!(j.0.get(&(0, 0, -1, None)).map_or(false, |c| c.is_one()) && j.0.len() == k + 2, "j to order {} starts wrongly", n);
                o.nt(n >= 4);
                Ok(())
            }),
    ]
}

// ---------------------------------------------------------------- C35
fn crate_phi(l: i32) -> MP {
    static T: [OnceLock<MP>; 24] = [const { OnceLock::new() }; 24];
    T[l as usize].get_or_init(|| MP::raw(&modular_polynomial::modular_polynomial(l))).clone()
}
/// coefficients of q^-(l^2+l) .. q^top of x^i y^j at (j(q), j(q^l))
fn laurent(l: usize, i: usize, j: usize, up: &[S], top: usize) -> BTreeMap<i32, BigInt> {
    let pole = i + l * j;
    let n = pole + top;
    let mut k: S = vec![bi(0); n + 1];
    for (e, c) in up[j].iter().enumerate() { if e * l <= n { k[e * l] = c.clone(); } }
    smul(&up[i], &k, n).into_iter().enumerate().map(|(e, c)| (e as i32 - pole as i32, c)).collect()
}
fn powers(l: usize, top: usize) -> Vec<S> {
    let n = l * (l + 1) + l + top;
    let j1 = qj(n);
    let mut one: S = vec![bi(0); n + 1];
    one[0] = bi(1);
    let mut up = vec![one];
    for k in 1..=l + 1 { let s = smul(&up[k - 1], &j1, n); up.push(s); }
    up
}
fn generic(l: i32) -> MP {
    let mut m = MP::zero();
    m.acc((l + 1, 0, 0, None), &bi(1));
    m.acc((0, l + 1, 0, None), &bi(1));
    for i in 0..=l { for j in i..=l {
        m.acc((i, j, 0, Some((i, j))), &bi(1));
        if i != j { m.acc((j, i, 0, Some((i, j))), &bi(1)); }
    } }
    m
}
fn generic_q(l: i32) -> MP {
    let n = l as usize;
    let up = powers(n, 0);
    let mut r = MP::zero();
    for m in generic(l).0.keys() {
        for (e, c) in laurent(n, m.0 as usize, m.1 as usize, &up, 0) { r.acc((0, 0, e, m.3), &c); }
    }
    r
}
fn check_list(l: i32, o: &mut Obs) -> Res {
    let want = generic_q(l);
    let list = modular_polynomial::subscripted_variable_modular_polynomial_list(l);
    let top = l * l + l;
    eq(&format!("length of the list for {}", l), list.len(), top as usize + 1)?;
    let truth = phi(l);
    for (k, e) in list.iter().enumerate() {
        let pw = k as i32 - top;
        let w = want.map(|m, c| if m.2 == pw { Some(((0, 0, 0, m.3), c.clone())) } else { None });
        same(&format!("coefficient of q^{} for {}", pw, l), e, &w)?;
        let s: BigInt = MP::raw(e).0.iter().map(|(m, c)| match m.3 { None => c.clone(), Some(v) => c * truth.get(&v).cloned().unwrap_or_default() }).sum();
        ensure!(s.is_zero(), "the coefficients of Phi_{} give {} in the equation of q^{}", l, s, pw);
    }
    o.nt(true);
    Ok(())
}
fn check_phi(l: i32, o: &mut Obs) -> Res {
    let f = modular_polynomial::modular_polynomial(l);
    let m = MP::raw(&f);
    // facts that do not rest on the model
    for (k, c) in &m.0 {
        ensure!(!c.is_zero() && k.2 == 0 && k.3.is_none() && k.0 >= 0 && k.1 >= 0, "Phi_{} contains {:?}", l, k);
        ensure!(m.0.get(&(k.1, k.0, 0, None)) == Some(c), "Phi_{} is not symmetric at x^{} y^{}", l, k.0, k.1);
        ensure!(k.0 <= l + 1, "degree of Phi_{} in x", l);
        ensure!(k.0 < l + 1 || (k.1 == 0 && c.is_one()), "Phi_{} is not monic: {} x^{} y^{}", l, c, k.0, k.1);
    }
    ensure!(m.0.contains_key(&(l + 1, 0, 0, None)), "Phi_{} has no x^{}", l, l + 1);
    let u = MP::mono((l, 0, 0, None), bi(1)).sub(&MP::mono((0, 1, 0, None), bi(1)));
    let v = MP::mono((1, 0, 0, None), bi(1)).sub(&MP::mono((0, l, 0, None), bi(1)));
    ensure!(m.sub(&u.mul(&v)).modp(&bi(l as i64)).is_zero(), "Kronecker congruence fails for Phi_{}", l);
    let up = powers(l as usize, 12);
    let mut acc: BTreeMap<i32, BigInt> = BTreeMap::new();
    for (k, c) in &m.0 { for (e, v) in laurent(l as usize, k.0 as usize, k.1 as usize, &up, 12) { *acc.entry(e).or_default() += c * v; } }
    for (e, v) in &acc { ensure!(v.is_zero(), "Phi_{}(j(q), j(q^{})) has {} at q^{}", l, l, v, e); }
    same(&format!("Phi_{}", l), &f, &phi_mp(l))?;
    o.nt(true);
    Ok(())
}
pub fn c35() -> Vec<Sub> {
    vec![
        enumerate("modular_polynomial", "every case", &HEAVY,
            |_| vec![5, 3, 2],
            |&l, o| check_phi(l, o)),
        // level 7 takes over a minute for each
        enumerate("modular_polynomial_7", "every case", &HUGE, |_| vec![7], |&l, o| check_phi(l, o)),
        enumerate("equations_7", "every case", &HUGE,
            |t| if t == Tier::Quick { vec![7] } else { vec![11, 7] },
            |&l, o| check_list(l, o)),
        enumerate("equations", "every case", &HEAVY,
            |_| vec![5, 3, 2],
            |&l, o| check_list(l, o)),
        enumerate("q_expansion", "every case", &HUGE,
            |t| if t == Tier::Quick { vec![5, 3, 2] } else { vec![7, 5, 3, 2] },
            |&l, o| { o.nt(true); same(&format!("q-expansion for {}", l), &modular_polynomial::subscripted_variable_modular_polynomial_q(l), &generic_q(l)) }),
        enumerate("generic", "every case", &STD,
            |t| primes(2, if t == Tier::Quick { 41 } else { 101 }).into_iter().map(|l| l as i32).collect(),
            |&l, o| { o.nt(true); same(&format!("generic polynomial for {}", l), &modular_polynomial::subscripted_variable_modular_polynomial(l), &generic(l)) }),
        random("isogenies", "an isogeny of degree l to a curve with another j-invariant", 1_500, 60_000, &HEAVY,
            |_| (prop::sample::select(vec![2i32, 2, 3, 3, 5]), small_prime(5, 401), 0i64..401, 0i64..401, 0usize..1000).boxed(),
            |&(l, p, a, b0, pick), o| {
                let pp = BigInt::from(p);
                let (a, b0) = ((a as u64) % p, (b0 as u64) % p);
                // the next curve with a point of order l
                let b = match (0..p).map(|d| (b0 + d) % p).find(|b| !Cv::new(&BigInt::from(a), &BigInt::from(*b), &pp).disc_zero() && count(a, *b, p) % l as u64 == 0) { Some(b) => b, None => return Ok(()) };
                let cv = Cv::new(&BigInt::from(a), &BigInt::from(b), &pp);
                let jinv = |c: &Cv| { let n = bi(4) * &c.a * &c.a * &c.a; modf(&(bi(1728) * &n * inv(&(&n + bi(27) * &c.b * &c.b), &pp).unwrap()), &pp) };
                let mut cof = count(a, b, p);
                while cof % l as u64 == 0 { cof /= l as u64; }
                let pts = cv.points();
                let gen = (0..pts.len()).map(|i| &pts[(i + pick) % pts.len()]).find_map(|q| {
                    let mut r = cv.mul(&Some(q.clone()), &BigInt::from(cof));
                    r.as_ref()?;
                    loop { let s = cv.mul(&r, &bi(l as i64)); if s.is_none() { return r; } r = s; }
                }).ok_or("model: no point of order l")?;
                let mut ker = vec![];
                let gen = Some(gen);
                let mut r = gen.clone();
                while let Some(q) = &r { ker.push(q.clone()); r = cv.add(&r, &gen); }
                let im = velu(&cv, &ker);
                let (j, k) = (jinv(&cv), jinv(&im));
                let f = crate_phi(l);
                let at = |x: &BigInt, y: &BigInt| modf(&f.0.iter().map(|(m, c)| c * powmod(x, &bi(m.0 as i64), &pp) * powmod(y, &bi(m.1 as i64), &pp)).sum::<BigInt>(), &pp);
                ensure!(at(&j, &k).is_zero() && at(&k, &j).is_zero(), "Phi_{}({}, {}) is not 0 mod {}: curve a = {}, b = {}", l, j, k, p, a, b);
                o.nt(j != k);
                o.when(l == 2, "l = 2");
                o.when(l == 3, "l = 3");
                o.when(l == 5, "l = 5");
                o.when(l as u64 == p, "l = p");
                Ok(())
            }),
    ]
}

// ---------------------------------------------------------------- C36
type Mat = Vec<Vec<BigInt>>;
/// rank of the first n columns, fraction-free (Bareiss-like with content removal)
fn rank(m: &Mat, n: usize) -> usize {
    let mut a: Mat = m.iter().map(|r| r[..n].to_vec()).collect();
    let mut rk = 0;
    for c in 0..n {
        let p = match (rk..a.len()).find(|r| !a[*r][c].is_zero()) { Some(p) => p, None => continue };
        a.swap(rk, p);
        let top = a[rk].clone();
        for r in rk + 1..a.len() {
            if a[r][c].is_zero() { continue; }
            let f = a[r][c].clone();
            for k in 0..n { let v = &a[r][k] * &top[c] - &top[k] * &f; a[r][k] = v; }
            let g = a[r].iter().fold(bi(0), |g, v| g.gcd(v));
            if !g.is_zero() && !g.is_one() { for v in a[r].iter_mut() { *v = &*v / &g; } }
        }
        rk += 1;
    }
    rk
}
fn system(x: &Vec<BigInt>, rows: &Mat) -> Mat {
    rows.iter().map(|r| { let s: BigInt = r.iter().zip(x).map(|(a, b)| a * b).sum(); let mut r = r.clone(); r.push(s); r }).collect()
}
fn check_system(x: &Vec<BigInt>, rows: &Mat, o: &mut Obs) -> Res {
    let n = x.len();
    let m = system(x, rows);
    let m0 = m.clone();
    let full = rank(rows, n) == n;
    if !full {
        ensure!(refuses(|| simultaneous_equation::solve(&m)), "a system of rank {} with {} unknowns was answered", rank(rows, n), n);
        o.label("rank deficient: refused");
        return Ok(());
    }
    let r = simultaneous_equation::solve(&m);
    ensure!(m == m0, "the input changed");
    ensure!(r.len() == m.len() && r.iter().all(|v| v.len() == n + 1), "shape of the result");
    for i in 0..n { eq(&format!("value of unknown {}", i), r[i][n].clone(), x[i].clone())?; }
    o.nt(n >= 2 && x.iter().filter(|v| !v.is_zero()).count() >= 2);
    o.when(rows.len() > n, "more equations than unknowns");
    o.when(rows[0][0].is_zero(), "first pivot is zero");
    o.when(n == 1, "one unknown");
    o.when(x.iter().any(|v| v.is_negative()), "negative solution");
    o.when(x.iter().any(|v| v.bits() > 64), "multi-limb solution");
    o.when(n >= 6, "six or more unknowns");
    Ok(())
}
/// rows of full column rank: a triangular matrix, mixed by integer row operations and permuted
fn planted() -> B<(Vec<BigInt>, Mat)> {
    planted_of(1..8)
}
fn planted_of(size: std::ops::Range<usize>) -> B<(Vec<BigInt>, Mat)> {
    let wide = if size.start >= 8 { 320 } else { 70 };
    let ent = move || prop_oneof![8 => (-4i64..5).prop_map(bi), 4 => Just(bi(0)), 2 => int(20), 1 => int(70), 1 => int(wide)];
    (size, 0usize..4).prop_flat_map(move |(n, extra)| {
        (vec(prop_oneof![3 => int(8), 2 => int(70), 1 => int(200), 1 => Just(bi(0))], n),
         vec(vec(ent(), n), n), vec(prop_oneof![4 => Just(bi(1)), 2 => int_nz(3), 1 => int_nz(30)], n),
         vec((0usize..16, 0usize..16, -3i64..4), 0..14), vec(vec(-3i64..4, n), extra), vec(0usize..64, n + extra), Just(n))
    }).prop_map(|(x, mut a, d, ops, ex, perm, n)| {
        for i in 0..n { for j in 0..i { a[i][j] = bi(0); } a[i][i] = d[i].clone(); }
        for (i, j, k) in ops {
            let (i, j) = (i % n, j % n);
            if i != j { for c in 0..n { let v = &a[j][c] * k; a[i][c] += v; } }
        }
        for w in ex {
            let r = (0..n).map(|c| (0..n).map(|i| &a[i][c] * w[i]).sum()).collect();
            a.push(r);
        }
        let m = a.len();
        for (i, p) in perm.into_iter().enumerate().take(m) { a.swap(i, p % m); }
        (x, a)
    }).boxed()
}
pub fn c36() -> Vec<Sub> {
    vec![
        random("planted", "at least two unknowns with values other than 0", 25_000, 800_000, &STD, |_| planted(), |(x, a), o| check_system(x, a, o)),
        random("many_unknowns", "at least two unknowns with values other than 0", 300, 8_000, &STD, |t| planted_of(8..if t == Tier::Quick { 28 } else { 40 }), |(x, a), o| check_system(x, a, o)),
        random("sparse", "at least two unknowns with values other than 0", 25_000, 800_000, &STD,
            |_| (1usize..6, 0usize..3).prop_flat_map(|(n, e)| (vec(int(10), n), vec(vec(prop_oneof![4 => Just(bi(0)), 5 => (-3i64..4).prop_map(bi), 1 => int(12)], n), n + e))).boxed(),
            |(x, a), o| check_system(x, a, o)),
        enumerate("all_2x2", "at least two unknowns with values other than 0", &STD,
            |t| { let k: i64 = if t == Tier::Quick { 3 } else { 4 }; let mut v = vec![]; for a in -k..=k { for b in -k..=k { for c in -k..=k { for d in -k..=k { for (x, y) in [(1i64, -2i64), (0, 5), (7, 3)] { v.push(vec![a, b, c, d, x, y]); } } } } } v },
            |v, o| check_system(&vec![bi(v[4]), bi(v[5])], &vec![vec![bi(v[0]), bi(v[1])], vec![bi(v[2]), bi(v[3])]], o)),
        enumerate("all_3x3_signs", "at least two unknowns with values other than 0", &STD,
            |_| (0i64..19683).collect(),
            |&k, o| {
                let mut k = k;
                let mut a: Mat = vec![];
                for _ in 0..3 { let mut r = vec![]; for _ in 0..3 { r.push(bi(k % 3 - 1)); k /= 3; } a.push(r); }
                check_system(&vec![bi(2), bi(-3), bi(5)], &a, o)
            }),
        random("overdetermined", "at least two unknowns with values other than 0, three times as many equations", 6_000, 200_000, &STD,
            // most equations are zero or multiples of one another; the ones that decide the rest stand anywhere
            |_| (1usize..6, 6usize..30).prop_flat_map(|(n, e)| (vec(int(10), n), vec(vec((-3i64..4).prop_map(bi), n), n), vec((0usize..8, -2i64..3), e), vec(0usize..64, n), any::<bool>())).prop_map(|(x, base, extra, at, tail)| {
                let n = x.len();
                let keep = 1 + extra[0].0 % n;
                let mut a: Mat = extra.iter().map(|(i, k)| base[i % keep].iter().map(|v| v * *k).collect()).collect();
                for (i, r) in base.into_iter().enumerate() { let l = a.len(); a.insert(if tail { l } else { at[i] % (l + 1) }, r); }
                (x, a)
            }).boxed(),
            |(x, a), o| check_system(x, a, o)),
        random("orders", "at least two unknowns", 4_000, 100_000, &STD,
            |_| (planted(), vec(0usize..64, 12), vec(prop_oneof![Just(1i64), Just(-1), 2i64..9, -9i64..-1], 12)).boxed(),
            |((x, a), perm, sc), o| {
                // the same equations in another order and with other multiples
                let n = x.len();
                if rank(a, n) < n { return Ok(()); }
                let m = system(x, a);
                let mut m2: Mat = m.iter().enumerate().map(|(i, r)| r.iter().map(|v| v * sc[i % 12]).collect()).collect();
                let k = m2.len();
                for (i, p) in perm.iter().enumerate().take(k) { m2.swap(i, p % k); }
                let (r, r2) = (simultaneous_equation::solve(&m), simultaneous_equation::solve(&m2));
                for i in 0..n {
                    eq(&format!("value of unknown {}", i), r[i][n].clone(), x[i].clone())?;
                    eq(&format!("value of unknown {} after reordering", i), r2[i][n].clone(), x[i].clone())?;
                }
                o.nt(n >= 2);
                Ok(())
            }),
        random("refused", "every case", 8_000, 200_000, &STD,
            |_| (planted(), 0usize..16, 0usize..16, -3i64..4, 0u8..3, any::<bool>()).boxed(),
            |((x, a), i, j, k, how, inconsistent), o| {
                let n = x.len();
                let mut a = a.clone();
                match how {
                    // a column that is a multiple of another (or zero)
                    0 if n >= 2 => { let (i, j) = (i % n, j % n); for r in a.iter_mut() { r[i] = if i == j { bi(0) } else { &r[j] * *k }; } }
                    // fewer equations than unknowns
                    1 if n >= 2 => { let m = 1 + i % (n - 1); a.truncate(m); }
                    // one column zero
                    _ => { let i = i % n; for r in a.iter_mut() { r[i] = bi(0); } }
                }
                ensure!(rank(&a, n) < n, "model: rank");
                let mut m = system(x, &a);
                if *inconsistent { let l = m.len(); m[j % l][n] += 1; o.label("and inconsistent"); }
                ensure!(refuses(|| simultaneous_equation::solve(&m)), "a system of rank {} with {} equations, {} unknowns was answered", rank(&a, n), m.len(), n);
                o.nt(true);
                o.when(m.len() < n, "fewer equations than unknowns");
                Ok(())
            }),
    ]
}
