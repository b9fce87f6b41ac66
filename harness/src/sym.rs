//! C20..C22: printing, builder and order, variable numbering.
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::poly::ct;
use ellipticcurve::elliptic_curve::{ECPoint, EllipticCurve};
use ellipticcurve::polynomial::Polynomial;
use ellipticcurve::subscripted_variable::{SubscriptedVariable, SubscriptedVariableConverter};
use ellipticcurve::term::{Monomial, Term};
use ellipticcurve::term_builder::{TermBuildable, TermBuilder};
use num_bigint::BigInt;
use num_traits::{One, Signed, ToPrimitive, Zero};
use proptest::collection::vec;
use proptest::prelude::*;
use std::cmp::Ordering;

// ---------------------------------------------------------------- C20
/// reader of the notation; returns the terms in the order they are written
fn parse(s: &str) -> Result<Vec<(Mono, BigInt)>, String> {
    if s == "0" { return Ok(vec![]); }
    let toks: Vec<&str> = s.split(' ').collect();
    let mut v = vec![];
    let mut i = 0;
    while i < toks.len() {
        let mut neg = false;
        if toks[i] == "-" || toks[i] == "+" {
            if toks[i] == "+" && i == 0 { return Err("leading +".into()); }
            neg = toks[i] == "-";
            i += 1;
        } else if i != 0 { return Err(format!("sign expected at {:?}", toks[i])); }
        let mut c = BigInt::one();
        let mut m: Mono = (0, 0, 0, None);
        let mut stage = 0;
        let st = i;
        while i < toks.len() && toks[i] != "-" && toks[i] != "+" {
            let t = toks[i];
            let first = t.chars().next().ok_or("empty token (double or trailing space)")?;
            let e = |t: &str| -> Result<i32, String> {
                if t.len() == 1 { return Ok(1); }
                let r: i32 = t[1..].strip_prefix('^').ok_or(format!("bad token {}", t))?.parse().map_err(|_| format!("bad exponent {}", t))?;
                if r == 0 || r == 1 { return Err(format!("exponent {} is written", r)); }
                Ok(r)
            };
            let (k, ok) = match first {
                '0'..='9' => { c = t.parse().map_err(|_| format!("bad number {}", t))?; (1, true) }
                'x' => { m.0 = e(t)?; (2, true) }
                'y' => { m.1 = e(t)?; (3, true) }
                'q' => { m.2 = e(t)?; (4, true) }
                'c' => {
                    let ij: Vec<&str> = t.split('_').collect();
                    if ij.len() != 3 || ij[0] != "c" { return Err(format!("bad variable {}", t)); }
                    m.3 = Some((ij[1].parse().map_err(|_| "bad i")?, ij[2].parse().map_err(|_| "bad j")?));
                    (5, true)
                }
                _ => (9, false),
            };
            if !ok || k <= stage { return Err(format!("unexpected token {:?}", t)); }
            stage = k;
            i += 1;
        }
        if i == st { return Err("sign without a term".into()); }
        if i - st > 1 && toks[st] == "1" { return Err("coefficient 1 is written".into()); }
        if c.is_zero() { return Err("coefficient 0 is written".into()); }
        v.push((m, if neg { -c } else { c }));
    }
    Ok(v)
}
fn read_back(text: &str, m: &MP) -> Res {
    let v = parse(text).map_err(|e| format!("{:?} cannot be read: {}", text, e))?;
    ensure!(v.windows(2).all(|w| w[0].0 > w[1].0), "monomials of {:?} are not in decreasing order", text);
    let mut g = MP::zero();
    for (k, c) in &v { g.acc(*k, c); }
    ensure!(g == *m && v.len() == m.0.len(), "{:?} denotes {} but the value is {}", text, show(&g), show(m));
    Ok(())
}
fn pt_text(p: &ECPoint) -> String { if p.z.is_zero() { "O".into() } else { format!("({}, {})", p.x, p.y) } }

pub fn c20() -> Vec<Sub> {
    let c1 = || prop_oneof![2 => Just(bi(1)), 2 => Just(bi(-1)), 3 => int_nz(6), 3 => int_nz(120)];
    let t = move |w: i32| (c1(), ex(-w, w), ex(-w, w), ex(-w, w), var());
    // exponents of every length, in every letter alone and together
    let wide = || prop_oneof![3 => Just(0), 3 => ex(-3, 3), 2 => any::<i32>(), 1 => (0u32..10, -1i32..2, any::<bool>()).prop_map(|(k, d, s)| if s { 10i32.pow(k) + d } else { -(10i32.pow(k) + d) }), 1 => prop::sample::select(vec![i32::MIN, i32::MIN + 1, i32::MAX])];
    let tw = move || (c1(), wide(), wide(), wide(), var());
    vec![
        random("polynomial_text", "two or more terms", 30_000, 1_500_000, &STD,
            move |_| prop_oneof![3 => vec(t(30), 0..8), 3 => vec(t(2), 0..12), 1 => vec(t(1), 0..3), 1 => vec(t(2), 15..60), 1 => vec(t(1), 20..120), 1 => many(PK { q: (0, 0), x: (0, 3), y: (0, 3), bits: 8, ..LAURENT }), 1 => vec(t(2_000_000_000), 0..4), 1 => vec(tw(), 0..4)].boxed(),
            |s, o| {
                let m = MP::of(s);
                let p = m.crate_pol();
                let text = p.to_string();
                read_back(&text, &m)?;
                // equal polynomials print alike: the same one summed in another order
                let mut q = Polynomial::new();
                for (k, c) in m.0.iter().rev() { q += cterm(k, c); }
                eq("text of an equal polynomial", q.to_string(), text)?;
                o.nt(m.0.len() >= 2);
                o.when(m.is_zero(), "zero");
                o.when(m.0.values().any(|c| c.abs().is_one()), "coefficient 1 or -1");
                o.when(m.0.keys().any(|k| *k == (0, 0, 0, None)), "constant term");
                o.when(m.0.keys().any(|k| k.0 < 0 || k.1 < 0 || k.2 < 0), "negative exponent");
                o.when(m.0.values().next_back().map_or(false, |c| c.is_negative()), "leading coefficient negative");
                o.when(m.vars(), "variables");
                Ok(())
            }),
        random("term_text", "every non-zero term", 20_000, 800_000, &STD,
            move |_| prop_oneof![t(2), t(40), tw()].boxed(),
            |t, o| {
                let m = MP::mono((t.1, t.2, t.3, t.4), t.0.clone());
                let u = ct(t);
                read_back(&u.to_string(), &m)?;
                eq("Polynomial text of one term", u.to_pol().to_string(), u.to_string())?;
                eq("variable text", u.variable().to_string(), t.4.map(|v| format!("c_{}_{}", v.0, v.1)).unwrap_or_default())?;
                eq("zero term", Term::new().to_string(), "0".to_string())?;
                eq("zero polynomial", Polynomial::zero().to_string(), "0".to_string())?;
                o.nt(true);
                o.when(t.0.abs().is_one(), "coefficient 1 or -1");
                o.when((t.1, t.2, t.3) == (0, 0, 0) && t.4.is_none(), "constant");
                o.when((t.1, t.2, t.3) == (0, 0, 0) && t.4.is_some(), "variable alone");
                Ok(())
            }),
        random("point_text", "an affine point", 8_000, 200_000, &STD,
            |_| (int(260), int(260), -1i64..3).boxed(),
            |(x, y, z), o| {
                let p = ECPoint::new(x, y, &bi(*z));
                eq("point", p.to_string(), pt_text(&p))?;
                eq("infinity", ECPoint::infinity().to_string(), "O".to_string())?;
                o.nt(*z != 0);
                Ok(())
            }),
        random("curve_text", "b and a not 0", 250, 8_000, &STD,
            |_| (small_prime(5, 37), -60i64..60, -60i64..60, 1i64..9).boxed(),
            |&(p, a, b, n), o| {
                let cv = Cv::new(&bi(a), &bi(b), &BigInt::from(p));
                if cv.disc_zero() { return Ok(()); }
                let ec = EllipticCurve::new(&bi(a), &bi(b), &BigInt::from(p));
                let cubic = MP::of(&vec![(bi(1), 3, 0, 0, None), (bi(a), 1, 0, 0, None), (bi(b), 0, 0, 0, None)]);
                let num = bi(4) * &cv.a * &cv.a * &cv.a;
                let j = modf(&(bi(1728) * &num * inv(&(&num + bi(27) * &cv.b * &cv.b), &cv.p).unwrap()), &cv.p);
                let text = ec.to_string();
                let head = format!("F_{}: y^2 = ", p);
                let tail = format!(", cardinality:{}, j:{}", count(cv.a.to_u64().unwrap(), cv.b.to_u64().unwrap(), p), j);
                ensure!(text.starts_with(&head) && text.ends_with(&tail) && text.len() >= head.len() + tail.len(), "curve text {:?} is not {:?}...{:?}", text, head, tail);
                read_back(&text[head.len()..text.len() - tail.len()], &cubic)?;
                let v = ec.division_points(&bi(n));
                let list: Vec<String> = v.iter().map(pt_text).collect();
                eq("point list", v.to_string(), list.join(", "))?;
                o.nt(a % p as i64 != 0 && b % p as i64 != 0);
                o.when(list.len() > 1, "list of several points");
                o.when(a < 0 || b < 0, "negative coefficient");
                Ok(())
            }),
    ]
}

// ---------------------------------------------------------------- C21
/// variable with arbitrary contents of the unused fields
type RawVar = (i32, i32, bool);
fn raw(v: &RawVar) -> SubscriptedVariable { SubscriptedVariable { i: v.0, j: v.1, empty: v.2 } }
fn rv() -> B<RawVar> { prop_oneof![3 => (0i32..3, 0i32..3, any::<bool>()), 1 => (0i32..100_000, 0i32..100_000, any::<bool>())].boxed() }
type RawMono = (i32, i32, i32, RawVar);
fn rm(w: i32) -> B<RawMono> { (ex(-w, w), ex(-w, w), ex(-w, w), rv()).boxed() }
fn mono(m: &RawMono) -> Monomial { Monomial { xpow: m.0, ypow: m.1, qpow: m.2, variable: raw(&m.3) } }
fn key(m: &RawMono) -> Mono { (m.0, m.1, m.2, if m.3.2 { None } else { Some((m.3.0, m.3.1)) }) }

pub fn c21() -> Vec<Sub> {
    vec![
        random("builder", "three or more settings, one of them repeated", 25_000, 1_000_000, &STD,
            |_| vec((0u8..12, prop_oneof![3 => any::<i32>(), 1 => -9i32..10], prop_oneof![3 => any::<i32>(), 1 => -9i32..10], int(120)), 0..14).boxed(),
            |ops, o| {
                let mut b = TermBuilder::new();
                let mut w: (BigInt, Mono) = (bi(1), (0, 0, 0, None));
                let mut n = [0; 12];
                let mut builds = 0;
                // reused, cloned and half-way built builders
                for (k, i, j, c) in ops {
                    n[*k as usize] += 1;
                    match k {
                        0 => { b.coef(c.clone()); w.0 = c.clone(); }
                        1 => { b.coef(c); w.0 = c.clone(); }
                        2 => { b.coef(*i); w.0 = bi(*i as i64); }
                        3 => { b.xpow(*i); w.1.0 = *i; }
                        4 => { b.ypow(*i); w.1.1 = *i; }
                        5 => { b.qpow(*i); w.1.2 = *i; }
                        6 => {
                            if *i < 0 || *j < 0 { ensure!(refuses(|| { let mut b = b.clone(); b.variable_ij(*i, *j).build() }), "variable_ij({}, {}) answered", i, j); o.label("negative subscript refused"); }
                            let (i, j) = if *i % 2 == 0 { (i.rem_euclid(9), j.rem_euclid(9)) } else { (i & i32::MAX, j & i32::MAX) };
                            b.variable_ij(i, j);
                            w.1.3 = Some((i, j));
                        }
                        7 => { b.variable(SubscriptedVariable { i: *i, j: *j, empty: false }); w.1.3 = Some((*i, *j)); }
                        8 => { b.variable(SubscriptedVariable { i: *i, j: *j, empty: true }); w.1.3 = None; }
                        9 => { b.variable(SubscriptedVariable::new()); w.1.3 = None; }
                        10 => { b = b.clone(); }
                        _ => { builds += 1; let t = b.build(); same_term("build in between", &t, &w.1, &w.0)?; }
                    }
                }
                let t = b.build();
                same_term("build", &t, &w.1, &w.0)?;
                ensure!(t == b.build(), "a second build differs");
                let mut chained = TermBuilder::new();
                let u = chained.coef(&w.0).xpow(w.1.0).ypow(w.1.1).qpow(w.1.2).variable(cvar(w.1.3)).build();
                ensure!(u == t, "chained build differs: {} and {}", u, t);
                ensure!(Term::from(&t.monomial, &t.coef) == t, "Term::from differs");
                ensure!(t.xpow() == w.1.0 && t.ypow() == w.1.1 && t.qpow() == w.1.2 && mvar(t.variable()) == w.1.3, "accessors");
                let d = TermBuilder::new().build();
                same_term("default build", &d, &(0, 0, 0, None), &bi(1))?;
                same_term("Term::one", &Term::one(), &(0, 0, 0, None), &bi(1))?;
                same_term("Term::new", &Term::new(), &(0, 0, 0, None), &bi(0))?;
                o.nt(ops.len() >= 3 && n.iter().any(|c| *c >= 2));
                o.when(builds > 0, "built in between");
                o.when(w.1.3.is_none() && n[6] + n[7] > 0, "variable taken back");
                Ok(())
            }),
        random("order", "the three monomials are pairwise different", 40_000, 1_500_000, &STD,
            |_| prop_oneof![
                3 => (rm(1), rm(1), rm(1)),
                3 => (rm(30), rm(30), rm(30), any::<u8>()).prop_map(|(a, mut b, mut c, k)| {
                    // share a prefix so that later components decide
                    if k & 1 != 0 { b.0 = a.0; c.0 = a.0; }
                    if k & 2 != 0 { b.1 = a.1; }
                    if k & 4 != 0 { b.2 = a.2; c.1 = a.1; }
                    if k & 8 != 0 { c.2 = a.2; }
                    if k & 16 != 0 { b.3 = a.3; }
                    if k & 32 != 0 { b.3.0 = a.3.0; }
                    (a, b, c)
                }),
                1 => (rm(i32::MAX), rm(i32::MAX), rm(i32::MAX)),
            ].prop_map(|(a, b, c)| vec![a, b, c]).boxed(),
            |v, o| {
                for a in v { for b in v {
                    let (x, y) = (mono(a), mono(b));
                    let w = key(a).cmp(&key(b));
                    ensure!(x.cmp(&y) == w, "cmp of {:?} and {:?} is {:?}", a, b, x.cmp(&y));
                    ensure!(x.partial_cmp(&y) == Some(w), "partial_cmp of {:?} and {:?}", a, b);
                    ensure!((x == y) == (w == Ordering::Equal) && (x != y) == (w != Ordering::Equal), "== of {:?} and {:?}", a, b);
                    ensure!((x < y) == (w == Ordering::Less) && (x <= y) == (w != Ordering::Greater) && (x > y) == (w == Ordering::Greater) && (x >= y) == (w != Ordering::Less), "comparison operators of {:?} and {:?}", a, b);
                    let (s, t) = (Term { coef: bi(7), monomial: x }, Term { coef: bi(-3), monomial: y });
                    ensure!(s.cmp(&t) == w && s.partial_cmp(&t) == Some(w), "term cmp of {:?} and {:?}", a, b);
                    ensure!(s != t, "terms of different coefficient are equal");
                    ensure!((Term { coef: bi(5), monomial: x } == Term { coef: bi(5), monomial: y }) == (w == Ordering::Equal), "term == of {:?} and {:?}", a, b);
                    let (u, z) = (raw(&a.3), raw(&b.3));
                    let wv = key(a).3.cmp(&key(b).3);
                    ensure!(u.cmp(&z) == wv && u.partial_cmp(&z) == Some(wv) && (u == z) == (wv == Ordering::Equal), "variables {:?} and {:?}", a.3, b.3);
                } }
                // sorting and a map keyed by monomials agree with the reference order
                let mut s: Vec<Monomial> = v.iter().map(mono).collect();
                s.sort();
                let mut k: Vec<Mono> = v.iter().map(key).collect();
                k.sort();
                ensure!(s.iter().map(mmono).eq(k.iter().cloned()), "sorted differently");
                k.dedup();
                o.nt(k.len() == 3);
                o.when(v.windows(2).any(|w| key(&w[0]) == key(&w[1]) && w[0] != w[1]), "equal, absent variables written differently");
                o.when(k.len() < 3, "equal monomials");
                Ok(())
            }),
    ]
}

// ---------------------------------------------------------------- C22
fn num(p: i32) -> Vec<(i32, i32)> {
    let mut v = vec![];
    for i in 0..=p { for j in i + 1..=p { v.push((i, j)); } }
    for i in 0..=p { v.push((i, i)); }
    v
}
pub fn c22() -> Vec<Sub> {
    vec![
        enumerate("bijection", "every prime", &STD,
            |t| primes(2, if t == Tier::Quick { 199 } else { 499 }).into_iter().map(|p| p as i32).collect(),
            |&p, o| {
                let c = SubscriptedVariableConverter::new(p);
                let all = num(p);
                eq("count", c.count(), all.len() as u64)?;
                eq("count formula", c.count(), (p as u64 + 1) * (p as u64 + 2) / 2)?;
                for (k, ij) in all.iter().enumerate() {
                    let v = c.variable_from_index(k as u64);
                    ensure!(mvar(v) == Some(*ij), "index {} gives {} instead of c_{}_{}", k, v, ij.0, ij.1);
                    ensure!(c.index_from_variable(v) == Some(k as u64), "variable {} gives {:?} instead of {}", v, c.index_from_variable(v), k);
                    ensure!(c.index_from_variable(cvar(Some(*ij))) == Some(k as u64), "c_{}_{} gives another number", ij.0, ij.1);
                }
                ensure!(c.index_from_variable(SubscriptedVariable::new()).is_none(), "the absent variable has a number");
                o.nt(true);
                Ok(())
            }),
        random("large_primes", "p above 100", 300, 5_000, &STD,
            |t| {
                let hi = if t == Tier::Quick { 500 } else { 1500 };
                (small_prime(2, hi), prop_oneof![any::<u64>(), (0u32..21, 0u64..3).prop_map(|(k, d)| (1u64 << k) + d - 1)], any::<u32>(), any::<u32>()).boxed()
            },
            |&(p, r, a, b), o| {
                let p = p as i32;
                let c = SubscriptedVariableConverter::new(p);
                let n = (p as u64 + 1) * (p as u64 + 2) / 2;
                eq("count", c.count(), n)?;
                let (a, b) = ((a % (p as u32 + 1)) as i32, (b % (p as u32 + 1)) as i32);
                let (i, j) = (a.min(b) as u64, a.max(b) as u64);
                let pp = p as u64;
                // i rows of lengths p, p-1, ..., before row i
                let w = if i == j { pp * (pp + 1) / 2 + i } else { (0..i).map(|k| pp - k).sum::<u64>() + (j - i - 1) };
                ensure!(c.index_from_variable(cvar(Some((i as i32, j as i32)))) == Some(w), "c_{}_{} for p = {}", i, j, p);
                ensure!(mvar(c.variable_from_index(w)) == Some((i as i32, j as i32)), "index {} for p = {}", w, p);
                let k = r % n;
                let v = c.variable_from_index(k);
                ensure!(!v.empty && 0 <= v.i && v.i <= v.j && v.j <= p && c.index_from_variable(v) == Some(k), "index {} for p = {} gives {}", k, p, v);
                o.nt(p > 100);
                o.when(i == j, "equal pair");
                o.when(k >= pp * (pp + 1) / 2, "number of an equal pair");
                Ok(())
            }),
        enumerate("huge_primes", "count above 2^30", &STD,
            |t| {
                let mut v = vec![];
                for p in [46337i32, 46349, 65521, 65537] {
                    let n = (p as u64 + 1) * (p as u64 + 2) / 2;
                    v.push((p, 0u8, 0u64));
                    for k in [n - 1, n - 2 - p as u64, n / 3] { v.push((p, 1, k)); }
                    if t == Tier::Thorough { for k in [n - 1 - p as u64, n / 2, 2 * n / 3, n - 2 - p as u64 * 2] { v.push((p, 1, k)); } }
                }
                if t == Tier::Thorough { v.extend([(92681, 0, 0), (92683, 0, 0), (92683, 1, 4_000_000_000), (92683, 1, 92684 * 92685 / 2 - 1)]); }
                v
            },
            |&(p, what, k), o| {
                let (pp, n) = (p as u64, (p as u64 + 1) * (p as u64 + 2) / 2);
                let want = if what == 0 { n.to_string() } else {
                    let (i, j) = if k >= n - pp - 1 { (k - (n - pp - 1), k - (n - pp - 1)) } else {
                        let (mut i, mut r) = (0, k);
                        while r >= pp - i { r -= pp - i; i += 1; }
                        (i, i + 1 + r)
                    };
                    format!("{} {} {}", i, j, k)
                };
                match probe(&["c22", &p.to_string(), &what.to_string(), &k.to_string()]) {
                    Probe::Text(t) => ensure!(t == want, "p = {}: {} gives {} instead of {}", p, if what == 0 { "count" } else { "i, j, index back" }, t, want),
                    Probe::Panic(m) => ensure!(false, "p = {}, index {}: {}", p, k, m),
                    Probe::NoAnswer => { o.label("no answer within the limits of the probe"); return Ok(()); }
                }
                o.nt(n > 1 << 30);
                Ok(())
            }),
        random("refused_index", "every case", 3_000, 100_000, &STD,
            |_| (small_prime(2, 31), prop_oneof![Just(0u64), 1u64..50, any::<u64>(), (1u64..1 << 31, 0u64..200).prop_map(|(k, d)| (k << 32) + d), (1u64..1 << 40, 0u64..200).prop_map(|(k, d)| (k << 16) + d), (0u64..600).prop_map(|d| u64::MAX - d)]).boxed(),
            |&(p, d), o| {
                let c = SubscriptedVariableConverter::new(p as i32);
                let n = (p + 1) * (p + 2) / 2;
                let k = if d < 60 { n + d } else { d };
                if k < n { return Ok(()); }
                ensure!(refuses(|| c.variable_from_index(k)), "index {} of {} answered for p = {}", k, n, p);
                o.nt(true);
                o.when(k == n, "index = count");
                o.when(k > u32::MAX as u64, "index above 2^32");
                Ok(())
            }),
        random("refused_variable", "every case", 3_000, 100_000, &STD,
            |_| (small_prime(2, 31), prop_oneof![-3i32..40, any::<i32>()], prop_oneof![-3i32..40, any::<i32>()]).boxed(),
            |&(p, i, j), o| {
                let p = p as i32;
                let c = SubscriptedVariableConverter::new(p);
                let v = SubscriptedVariable { i, j, empty: false };
                if 0 <= i && i <= j && j <= p {
                    ensure!(c.index_from_variable(v).is_some(), "c_{}_{} has no number for p = {}", i, j, p);
                    o.label("in range");
                } else {
                    ensure!(refuses(|| c.index_from_variable(v)), "c_{}_{} answered for p = {}", i, j, p);
                    o.nt(true);
                    o.when(i > j && 0 <= j && i <= p, "i > j in range");
                    o.when(j == p + 1, "j = p + 1");
                    o.when(i < 0 || j < 0, "negative subscript");
                }
                ensure!(c.index_from_variable(SubscriptedVariable { i, j, empty: true }).is_none(), "an absent variable has a number");
                Ok(())
            }),
        enumerate("refused_modulus", "p is not prime", &STD,
            |t| (-6i32..if t == Tier::Quick { 600 } else { 20_000 }).chain([i32::MIN, -7, 46337 * 46337, 46339 * 46327, 2147483646]).collect(),
            |&p, o| {
                let pr = p >= 2 && is_prime(p as u64);
                ensure!(refuses(|| SubscriptedVariableConverter::new(p)) != pr, "p = {} is {}", p, if pr { "refused" } else { "accepted" });
                o.nt(!pr);
                Ok(())
            }),
    ]
}

pub fn probe_main(a: &[String]) -> String {
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    match a[0].as_str() {
        "c22" => {
            let c = SubscriptedVariableConverter::new(n(1) as i32);
            if n(2) == 0 { return c.count().to_string(); }
            let v = c.variable_from_index(n(3));
            format!("{} {} {}", v.i, v.j, c.index_from_variable(v).map(|k| k.to_string()).unwrap_or("none".into()))
        }
        _ => String::new(),
    }
}
