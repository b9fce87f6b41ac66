//! C01..C04: integer arithmetic.
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use ellipticcurve::bigint::{chinese_remainder, extended_gcd, Inverse, ModResult, Power, PowerModulo};
use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::{One, Signed, Zero};
use proptest::collection::vec;
use proptest::prelude::*;

pub fn c01() -> Vec<Sub> {
    vec![
        random("power", "exponent >= 2 and |base| >= 2", 60_000, 3_000_000, &STD,
            |t| {
                let m = if t == Tier::Quick { 220 } else { 500 };
                prop_oneof![
                    6 => (int(140), ex(0, m)),
                    2 => (int(1200), ex(0, 12)),
                    2 => (int(4), ex(0, 3000)),
                    1 => (int(9), ex(0, 900)),
                    1 => ((-1i64..=1).prop_map(bi), prop_oneof![0i32..=200, (0i32..3).prop_map(|d| i32::MAX - d)]),
                ].boxed()
            },
            |(b, n), o| {
                let big = BigInt::from(*n);
                let want = if *n > 5000 && b.abs() <= bi(1) { if n % 2 == 0 { b * b } else { b.clone() } } else { pow(b, *n as u64) };
                let b0 = b.clone();
                eq("power(i32)", b.power(*n), want.clone())?;
                eq("power(&BigInt)", b.power(&big), want.clone())?;
                eq("power(BigInt)", b.power(big), want)?;
                ensure!(*b == b0, "base was modified");
                o.nt(*n >= 2 && b.abs() >= bi(2));
                o.when(*n == 0, "exponent 0");
                o.when(b.is_zero(), "base 0");
                o.when(b.is_negative() && n % 2 == 1, "negative base, odd exponent");
                o.when(b.bits() > 64 && *n >= 2, "multi-limb base");
                o.when(*n > 200, "exponent > 200");
                Ok(())
            }),
        random("power_long", "exponent above 3000", 60, 2_000, &STD,
            |_| prop_oneof![(int(3), 3000i32..40_000), (int(20), prop_oneof![(10u32..15, -2i32..3).prop_map(|(k, d)| (1 << k) + d), 3000i32..9000])].boxed(),
            |(b, n), o| {
                let mut want = bi(1);
                // digit by digit, most significant first
                for d in (0..17).rev() { want = &want * &want; if n >> d & 1 == 1 { want *= b; } }
                eq("power(i32)", b.power(*n), want.clone())?;
                eq("power(&BigInt)", b.power(&BigInt::from(*n)), want)?;
                o.nt(b.abs() > bi(1));
                Ok(())
            }),
        random("power_huge_exponent", "exponent above 2^31 and base not 1", 10_000, 300_000, &STD,
            |_| ((-1i64..=1).prop_map(bi), prop_oneof![nat(300), nat(70), nat(34)]).boxed(),
            |(b, n), o| {
                let want = if n.is_zero() { bi(1) } else if n.is_even() { b * b } else { b.clone() };
                eq("power(&BigInt)", b.power(n), want.clone())?;
                eq("power(BigInt)", b.power(n.clone()), want)?;
                o.nt(n.bits() > 31 && *b != bi(1));
                o.when(n.bits() > 64, "multi-limb exponent");
                o.when(b.is_negative() && n.is_even(), "base -1, even exponent");
                Ok(())
            }),
        random("power_large_exponent", "exponent above 2^15 and base not 0 or +-1", 10, 300, &STD,
            |_| (-7i64..=7, prop_oneof![3 => 30_000i32..300_000, 1 => (14u32..19, -2i32..3).prop_map(|(k, d)| (1 << k) + d)]).boxed(),
            |&(b, n), o| {
                let (b, nb) = (bi(b), bi(n as i64));
                let want = pow(&b, n as u64);
                eq("power(i32)", b.power(n), want.clone())?;
                eq("power(&BigInt)", b.power(&nb), want.clone())?;
                eq("power(BigInt)", b.power(nb), want)?;
                o.nt(n > 1 << 15 && b.abs() > bi(1));
                o.when(n > 1 << 16, "exponent above 2^16");
                Ok(())
            }),
        random("power_modulo", "modulus >= 2 and exponent >= 2 and base not 0 or 1 mod the modulus", 60_000, 3_000_000, &STD,
            |_| prop_oneof![
                6 => (int(320), nat(300), pos(300)),
                3 => (int(40), nat(12), pos(20)),
                1 => (int(700), nat(700), pos(600)),
                // base related to the modulus
                2 => (-3i64..=3, -1i64..=1, nat(200), pos(200)).prop_map(|(k, d, n, m)| (&m * k + d, n, m)),
                // powers of the base dividing the modulus: products that vanish
                1 => (pos(24), 0u32..5, nat(10), pos(40)).prop_map(|(b, e, n, k)| { let m = pow(&b, e as u64) * k; (b, n, m) }),
            ].boxed(),
            |(b, n, m), o| {
                let want = powmod(b, n, m);
                eq("power_modulo", b.power_modulo(n, m), want.clone())?;
                let r = modf(b, m);
                o.nt(*m >= bi(2) && *n >= bi(2) && r > bi(1));
                o.when(n.is_zero(), "exponent 0");
                o.when(m.is_one(), "modulus 1");
                o.when(b.is_negative(), "negative base");
                o.when(*b > *m, "base above the modulus");
                o.when(want.is_zero() && *m > bi(1), "power is 0 modulo m");
                o.when(n.bits() > 64, "multi-limb exponent");
                o.when(m.is_even(), "even modulus");
                Ok(())
            }),
        enumerate("power_modulo_small", "modulus >= 2 and exponent >= 2 and base not 0 or 1 mod the modulus", &STD,
            |t| {
                let k = if t == Tier::Quick { 12 } else { 24 };
                let mut v = vec![];
                for m in 1..=k { for b in -k..=2 * k { for n in 0..=k { v.push((b, n, m)); } } }
                v
            },
            |&(b, n, m), o| {
                eq("power_modulo", bi(b).power_modulo(&bi(n), &bi(m)), powmod(&bi(b), &bi(n), &bi(m)))?;
                o.nt(m >= 2 && n >= 2 && b.rem_euclid(m) > 1);
                Ok(())
            }),
    ]
}

fn check_inverse(a: &BigInt, p: &BigInt) -> Res {
    let v = a.inverse(p);
    ensure!(!v.is_negative() && v < *p, "inverse {} of {} not in [0, {})", v, a, p);
    ensure!(modf(&(a * &v - 1), p).is_zero(), "{} * {} is not 1 mod {}", a, v, p);
    Ok(())
}
pub fn c02() -> Vec<Sub> {
    vec![
        enumerate("inverse_small", "a not 1 mod p", &STD,
            |t| {
                let mut v = vec![];
                for p in primes(2, if t == Tier::Quick { 131 } else { 601 }) {
                    let p = p as i64;
                    for a in -2 * p..=2 * p { if a % p != 0 { v.push((a, p)); } }
                }
                v
            },
            |&(a, p), o| {
                o.nt(a.rem_euclid(p) != 1);
                o.when(p == 2, "p = 2");
                o.when(a < 0, "negative");
                o.when(a > p, "above p");
                check_inverse(&bi(a), &bi(p))
            }),
        random("inverse", "a not +-1 mod p and p > 131", 60_000, 3_000_000, &STD,
            |_| prop_oneof![
                4 => (huge_prime(2), int(1100)),
                2 => (huge_prime(2), -4i64..=4, nat(12)).prop_map(|(p, k, d)| { let a = &p * k + d; (p, a) }),
                1 => (huge_prime(3), -2i64..=2).prop_map(|(p, d)| { let a = (&p - 1) / 2 + d; (p, a) }),
            ].prop_map(|(p, a)| { let a = if modf(&a, &p).is_zero() { a + 1 } else { a }; (a, p) }).boxed(),
            |(a, p), o| {
                let r = modf(a, p);
                o.nt(r != bi(1) && &r + 1 != *p && *p > bi(131));
                o.when(a.is_negative(), "negative");
                o.when(*a > *p, "above p");
                o.when(p.bits() > 64, "multi-limb prime");
                o.when(r.is_one(), "a = 1 mod p");
                check_inverse(a, p)
            }),
    ]
}

fn check_egcd(a: &BigInt, b: &BigInt, o: &mut Obs) -> Res {
    let (g, x, y) = extended_gcd(a.clone(), b.clone());
    // plain Euclid, sign free
    let (mut u, mut v) = (a.abs(), b.abs());
    while !v.is_zero() { let r = &u % &v; u = v; v = r; }
    ensure!(a * &x + b * &y == g, "{} * {} + {} * {} is not {}", a, x, b, y, g);
    eq("|g|", g.abs(), u.clone())?;
    if !a.is_negative() && !b.is_negative() { ensure!(!g.is_negative(), "gcd of non-negative numbers is {}", g); }
    o.nt(a.abs() >= bi(2) && b.abs() >= bi(2));
    o.when(u > bi(1) && u < a.abs() && u < b.abs(), "proper common divisor");
    o.when(a.is_zero() || b.is_zero(), "a zero argument");
    o.when(a.is_negative() || b.is_negative(), "a negative argument");
    o.when(!a.is_zero() && !b.is_zero() && (a.is_multiple_of(b) || b.is_multiple_of(a)), "one divides the other");
    Ok(())
}
pub fn c03() -> Vec<Sub> {
    vec![
        enumerate("egcd_small", "both arguments at least 2 in size", &STD,
            |t| {
                let k = if t == Tier::Quick { 60 } else { 300 };
                (-k..=k).flat_map(|a| (-k..=k).map(move |b| (a, b))).collect()
            },
            |&(a, b), o| check_egcd(&bi(a), &bi(b), o)),
        random("egcd", "both arguments at least 2 in size", 60_000, 3_000_000, &STD,
            |_| prop_oneof![
                4 => (int(600), int(600)),
                1 => (int(4000), int(4000)),
                4 => (int(200), int(200), int(200)).prop_map(|(g, a, b)| (&g * a, g * b)),
                1 => (int(200), int(20)).prop_map(|(a, k)| { let b = &a * k; (a, b) }),
                // consecutive Fibonacci-like pairs: the deepest recursion
                1 => (prop_oneof![4 => 1usize..300, 1 => 300usize..2500], pos(20), pos(20)).prop_map(|(n, mut a, mut b)| { for _ in 0..n { let c = &a + &b; a = b; b = c; } (a, b) }),
            ].boxed(),
            |(a, b), o| check_egcd(a, b, o)),
    ]
}

fn check_crt(l: &Vec<(BigInt, BigInt)>, o: &mut Obs) -> Res {
    // greedy: keep the part of each modulus coprime to those before it
    let mut prod = BigInt::one();
    let mut list = vec![];
    for (m, r) in l {
        let mut m = m.clone();
        loop { let g = m.gcd(&prod); if g.is_one() { break; } m = m / g; }
        prod = &prod * &m;
        list.push(ModResult { l: m, r: r.clone() });
    }
    let before = list.clone();
    let got = chinese_remainder(&list);
    ensure!(list == before, "the list was modified");
    eq("modulus", got.l.clone(), prod)?;
    for e in &list {
        ensure!(modf(&(&got.r - &e.r), &e.l).is_zero(), "{} is not {} mod {} (list {:?})", got.r, e.r, e.l, list.iter().map(|e| format!("{} mod {}", e.r, e.l)).collect::<Vec<_>>());
    }
    let big = list.iter().filter(|e| e.l > bi(1)).count();
    o.nt(big >= 2);
    o.when(list.is_empty(), "empty list");
    o.when(list.len() == 1, "one modulus");
    o.when(big >= 4, "four or more proper moduli");
    o.when(list.iter().any(|e| e.l.is_one()), "a modulus 1");
    o.when(list.iter().any(|e| e.r.is_negative() || e.r >= e.l), "unreduced residue");
    Ok(())
}
pub fn c04() -> Vec<Sub> {
    vec![
        random("crt", "at least two moduli above 1", 40_000, 2_000_000, &STD,
            |_| prop_oneof![
                4 => vec((pos(16), int(20)), 0..7).boxed(),
                2 => vec((pos(90), int(120)), 0..9).boxed(),
                2 => vec((small_prime(2, 60).prop_map(BigInt::from), (-3i64..70).prop_map(bi)), 0..9).boxed(),
                1 => vec((prime(2), int(300)), 0..5).boxed(),
                1 => vec((small_prime(2, 400).prop_map(BigInt::from), int(30)), 9..45).boxed(),
                1 => vec((prop::sample::select(vec![4u64, 8, 9, 16, 25, 27, 49, 64, 81, 121, 1, 2, 3, 5, 7, 11]).prop_map(BigInt::from), (0i64..130).prop_map(bi)), 0..7).boxed(),
            ].boxed(),
            |l, o| check_crt(l, o)),
        enumerate("crt_small", "at least two moduli above 1", &STD,
            |t| {
                let k = if t == Tier::Quick { 13i64 } else { 24 };
                let mut v = vec![];
                for m in 1..=k { for n in 1..=k { if bi(m).gcd(&bi(n)).is_one() { for r in 0..m { for s in 0..n { v.push(vec![(bi(m), bi(r)), (bi(n), bi(s))]); } } } } }
                v
            },
            |l, o| check_crt(l, o)),
    ]
}
