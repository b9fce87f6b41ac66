//! C37: a call returns the same whatever was called before it or runs beside it.
//! Reference: the call alone in a fresh process.
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use ellipticcurve::bigint::{chinese_remainder, extended_gcd, Inverse, ModResult, Power, PowerModulo};
use ellipticcurve::elliptic_curve::{ECPoint, EllipticCurve};
use ellipticcurve::polynomial::Polynomial;
use ellipticcurve::subscripted_variable::{SubscriptedVariable, SubscriptedVariableConverter};
use ellipticcurve::term_builder::{TermBuildable, TermBuilder};
use ellipticcurve::{delta, division_polynomial, divisor, eisenstein, j_invariant, modular_polynomial, schoof, schoof_elkies_atkins, secp256k1::Secp256k1, simultaneous_equation};
use num_bigint::BigInt;
use proptest::collection::vec;
use proptest::prelude::*;
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::{Arc, Mutex, OnceLock};

/// kind of call, arguments (each call maps them into its domain)
pub type Call = (u8, i64, i64, i64, i64, i64);
const KINDS: u8 = 57;

fn b(i: i64) -> BigInt { BigInt::from(i) }
fn m(i: i64, k: i64) -> i64 { i.rem_euclid(k) }
const P: [i64; 6] = [5, 7, 11, 13, 17, 19];
fn prime_of(i: i64) -> i64 { P[m(i, 6) as usize] }
/// a non-singular curve
fn ab(a: i64, c: i64, p: i64) -> (i64, i64) {
    let a = m(a, p);
    let c = (0..p).map(|d| m(c + d, p)).find(|c| m(4 * a * a * a + 27 * c * c, p) != 0).unwrap();
    (a, c)
}
thread_local! {
    /// keep the objects of earlier calls (of this thread) and call them again
    static KEEP: std::cell::Cell<bool> = std::cell::Cell::new(false);
    static OBJ: std::cell::RefCell<HashMap<(BigInt, BigInt, BigInt, bool), Rc<EllipticCurve>>> = Default::default();
    static SECP: std::cell::RefCell<Option<Rc<Secp256k1>>> = Default::default();
}
fn object(a: BigInt, c: BigInt, p: BigInt, raw: bool) -> Rc<EllipticCurve> {
    let make = || Rc::new(if raw { EllipticCurve::new_raw(&a, &c, &p) } else { EllipticCurve::new(&a, &c, &p) });
    if !KEEP.with(|k| k.get()) { return make(); }
    let key = (a.clone(), c.clone(), p.clone(), raw);
    if let Some(e) = OBJ.with(|o| o.borrow().get(&key).cloned()) { return e; }
    let e = make();
    OBJ.with(|o| o.borrow_mut().insert(key, e.clone()));
    e
}
fn curve(a: i64, c: i64, pi: i64) -> Rc<EllipticCurve> {
    let p = prime_of(pi);
    let (a, c) = ab(a, c, p);
    object(b(a), b(c), b(p), false)
}
fn raw(a: i64, c: i64, pi: i64) -> Rc<EllipticCurve> {
    let p = prime_of(pi);
    let (a, c) = ab(a, c, p);
    object(b(a), b(c), b(p), true)
}
fn secp() -> Rc<Secp256k1> {
    if !KEEP.with(|k| k.get()) { return Rc::new(Secp256k1::new()); }
    if let Some(s) = SECP.with(|s| s.borrow().clone()) { return s; }
    let s = Rc::new(Secp256k1::new());
    SECP.with(|k| *k.borrow_mut() = Some(s.clone()));
    s
}
/// a point of the curve found without the crate, P and -P next to each other
fn raw_pt(a: i64, c: i64, pi: i64, i: i64) -> ECPoint {
    let p = prime_of(pi);
    let (a, c) = ab(a, c, p);
    let mut v: Vec<(i64, i64)> = vec![];
    for x in 0..p { for y in 0..p { if m(y * y - x * x * x - a * x - c, p) == 0 { v.push((x, y)); } } }
    if v.is_empty() { return ECPoint::infinity(); }
    let (x, y) = v[m(i, v.len() as i64) as usize];
    ECPoint::new(&b(x), &b(y), &b(1))
}
/// integers that agree in their low bits
fn wide(i: i64) -> BigInt {
    let i = m(i, 25);
    if i == 24 { return b(-3); }
    let s = [0, 8, 16, 32, 64, 128][(i / 4) as usize];
    b(i % 4) + if s > 0 { b(1) << s as usize } else { b(0) }
}
/// primes that agree in their low bits
fn wide_prime(i: i64) -> BigInt { let (k, s) = [(0, 0), (1, 8), (1, 16), (22, 32), (75, 64), (36, 128)][m(i, 6) as usize]; b(7) + (b(k) << s as usize) }
fn tw(c: BigInt, x: i32, y: i32) -> Polynomial { TermBuilder::new().coef(c).xpow(x).ypow(y).build().to_pol() }
fn t(c: i64, x: i32, y: i32, q: i32) -> Polynomial { TermBuilder::new().coef(b(c)).xpow(x).ypow(y).qpow(q).build().to_pol() }
fn px(u: i64, v: i64) -> Polynomial { t(u, 3, 0, 0) + t(v, 1, 0, 0) + t(u - v, 0, 0, 0) + t(1, 5, 0, 0) }
fn pxy(u: i64, v: i64) -> Polynomial { t(u, 2, 1, 0) + t(v, 1, 3, 0) + t(u + v, 0, 2, 1) - t(3, 0, 0, 0) }
fn pq(u: i64, v: i64) -> Polynomial { t(u, 0, 0, 1) + t(v, 0, 0, 2) + t(1, 0, 0, 0) + TermBuilder::new().coef(b(u + 1)).qpow(3).variable_ij(1, 2).build() }
/// (the order of a list of points is not part of the property)
fn pt(e: &EllipticCurve, i: i64) -> ECPoint { let mut v = e.points(); v.sort_by_key(|p| p.to_string()); v[m(i, v.len() as i64) as usize].clone() }
fn set<T: std::fmt::Display>(v: &[T]) -> String { let mut s: Vec<String> = v.iter().map(|x| x.to_string()).collect(); s.sort(); s.join(" ; ") }
fn many<T: std::fmt::Display>(v: &[T]) -> String { v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ; ") }

pub fn run(c: &Call) -> String {
    let &(k, v, w, x, y, z) = c;
    let p = prime_of(z);
    match k {
        0 => b(v - 20).power_modulo(&b(m(w, 60)), &b(m(x, 40) + 1)).to_string(),
        1 => b(v * p + 1 + m(w, p - 1)).inverse(&b(if y == 3 { m(w, 3) - 1 } else { p })).to_string(),
        2 => { let (g, s, r) = extended_gcd(b(v - 10), b(w)); format!("{} {} {}", g, s, r) }
        3 => {
            let l: Vec<ModResult> = [(3, v), (5, w), (7, x), (11, y), (4, z)].iter().take(m(v + z, 6) as usize).map(|(l, r)| ModResult { l: b(*l), r: b(*r) }).collect();
            let r = chinese_remainder(&l);
            format!("{} mod {}", crate::model::modf(&r.r, &r.l), r.l)
        }
        4 => pxy(v, w).power(m(x, 5) as i32 - 1).to_string(),
        5 => pxy(v, w).power_modulo(&b(m(x, 6) - 1), &b(m(y, 12) + 1)).to_string(),
        6 => px(v, w).polynomial_modular(&(t(1, 2, 0, 0) + t(x, 1, 0, 0) + t(y, 0, 0, 0)), &b(p)).to_string(),
        7 => { let (f, g) = (px(v, w), px(x, y)); format!("{} ; {} ; {}", f.gcd(&g, &b(p)), f.is_gcd_one(&g, &b(p)), f.to_monic(&b(p))) }
        8 => pxy(v, w).reduction(&b(x), &b(y)).to_string(),
        9 => pxy(v, w).reduction_modular(&b(x), &b(y), p as i32).to_string(),
        10 => { let f = pxy(v, w); format!("{} ; {} ; {}", f.eval_xy(&b(x), &b(y)), f.eval_x(&b(x)), f.eval_y(&b(y))) }
        11 => { let f = pxy(v, w); let g = px(x, y); format!("{} ; {}", f.eval_x_polynomial(&g), f.eval_y_polynomial(&g)) }
        12 => { let f = t(v, 0, 0, 1) + t(w, 0, 0, 2) + t(1, 0, 0, 0); f.power_omit_high_order_q(m(x, 6) as i32, m(y, 9) as i32).to_string() }
        13 => { let f = pxy(v, w); let n = m(x, 4) as i32; format!("{} ; {} ; {} ; {} ; {}", f.derivative_x(), f.derivative_y(), f.to_frob(n), f.to_y_power(n), f.to_q_power(n)) }
        14 => { let f = pq(v, w); format!("{} ; {} ; {} ; {} ; {}", f, f.to_q_power_coef(m(x, 4) as i32), f.has_x(), f.has_q(), (&f * &t(v, 1, 0, 0)) / t(m(y, 5) + 1, 0, 0, 0)) }
        15 => { let e = curve(v, w, z); format!("{} ; {} ; {}", e, e.cardinality(), set(&e.points())) }
        16 => { let e = curve(v, w, z); e.plus(&pt(&e, x), &pt(&e, y)).to_string() }
        17 => { let e = curve(v, w, z); e.multiply_scalar(&pt(&e, x), &b(y - 20)).to_string() }
        18 => { let e = curve(v, w, z); format!("{} ; {} ; {}", e.point_order(&pt(&e, x)), e.division_points(&b(m(y, 7))), e.negate(&pt(&e, x))) }
        19 => curve(v, w, z).isogeny(&b(m(x, 6))).to_string(),
        20 => curve(v, w, z).j_invariant().to_string(),
        21 => curve(v, w, z).is_on_curve(&ECPoint::new(&b(x), &b(y), &b(1))).to_string(),
        22 => division_polynomial::psi(&b(v - 2), &b(w), m(x, 11) as i32 - 2).to_string(),
        23 => division_polynomial::phi(&b(v - 2), &b(w), m(x, 8) as i32).to_string(),
        24 => division_polynomial::omega(&b(v - 2), &b(w), m(x, 7) as i32).to_string(),
        25 => { let q = [3, 5, 7, 11][m(z, 4) as usize]; let (a, c) = ab(v, w, q); many(&schoof::schoof(&b(a), &b(c), q as i32).iter().map(|r| format!("{} mod {}", r.r, r.l)).collect::<Vec<_>>()) }
        26 => { let s = schoof_elkies_atkins::sea(&curve(v, w, z), if x % 2 == 0 { 2 } else { 3 }); format!("{} ; {} ; {} ; {}", s.gcd, s.degree_of_gcd, s.is_elkies_prime, set(&s.isogeny_j_invariants)) }
        27 => divisor::sigma_divisor(v as i32 * 12 + w as i32, m(x, 9) as i32).to_string(),
        28 => eisenstein::eisenstein4(m(v, 24) as i32).to_string(),
        29 => delta::delta1(m(v, 24) as i32).to_string(),
        30 => delta::delta1_inverse(m(v, 16) as i32).to_string(),
        31 => j_invariant::j_invariant1(m(v, 14) as i32).to_string(),
        32 => j_invariant::j_invariant(m(v, 14) as i32).to_string(),
        33 => modular_polynomial::modular_polynomial([2, 3, 4, 2, 3][m(v, 5) as usize]).to_string(),
        34 => modular_polynomial::subscripted_variable_modular_polynomial_q([2, 3, 4, 2, 1][m(v, 5) as usize]).to_string(),
        35 => many(&modular_polynomial::subscripted_variable_modular_polynomial_list([2, 3][m(v, 2) as usize])),
        36 => modular_polynomial::subscripted_variable_modular_polynomial([2, 3, 5, 4, 7, 1][m(v, 6) as usize]).to_string(),
        37 => {
            let n = SubscriptedVariableConverter::new(p as i32 + (y == 3) as i32);
            let s = n.variable_from_index(m(x * 31 + y, n.count() as i64) as u64);
            let (i, j) = (m(v, p) as i32, m(w, p) as i32);
            format!("{} ; {} ; {:?}", n.count(), s, n.index_from_variable(SubscriptedVariable { i: i.min(j), j: i.max(j), empty: false }))
        }
        38 => {
            let a: Vec<Vec<BigInt>> = [[1, v, v * x + y], [w, v * w + 1, w * y + (v * w + 1) * x]].iter().map(|r| r.iter().map(|c| b(*c)).collect()).collect();
            simultaneous_equation::solve(&a).iter().map(|r| many(r)).collect::<Vec<_>>().join(" | ")
        }
        39 => { let c = secp(); c.ec.multiply_scalar(&c.g, &b(v * 40 + w)).to_string() }
        40 => { let (f, g) = (pxy(v, w), pxy(x, y)); format!("{} ; {} ; {} ; {}", &f + &g, &f - &g, &f * &g, &f % &b(p)) }
        42 => {
            let f = match m(x, 4) { 0 => t(v, 0, 0, 0), 1 => px(v, w), 2 => pq(v, w), _ => pxy(v, w) };
            match m(y, 3) { 0 => f.to_scalar().to_string(), 1 => f.degree_x().to_string(), _ => f.to_variable_coef(SubscriptedVariable { i: 1, j: 2, empty: false }).to_string() }
        }
        // often not on the curve
        43 => { let e = curve(v, w, z); e.plus(&ECPoint::new(&b(m(x, p)), &b(m(y, p)), &b(1)), &pt(&e, x + y)).to_string() }
        44 => { let e = curve(v, w, z); e.point_order(&ECPoint::new(&b(m(x, p)), &b(m(y, p)), &b(1))).to_string() }
        46 => format!("{} ; {}", wide(v).inverse(&wide_prime(z)), wide(v).power_modulo(&wide(w), &wide_prime(z))),
        47 => { let (g, s, r) = extended_gcd(wide(v), wide(w)); format!("{} {} {} ; {}", g, s, r, wide(v).power(m(x, 20) as i32)) }
        48 => { let (a, c, n) = (wide(v), wide(w), m(x, 6) as i32); match m(y, 3) { 0 => division_polynomial::psi(&a, &c, n), 1 => division_polynomial::phi(&a, &c, n + 1), _ => division_polynomial::omega(&a, &c, n + 1) }.to_string() }
        49 => {
            let (f, g) = (tw(wide(v), 3, 0) + tw(wide(w), 1, 0) + tw(b(1), 0, 0), tw(b(1), 2, 0) + tw(wide(x), 1, 0) + tw(wide(y), 0, 0));
            let p = wide_prime(z);
            format!("{} ; {} ; {} ; {}", &f % &p, f.polynomial_modular(&g, &p), f.gcd(&g, &p), (&f * &g).to_monic(&p))
        }
        50 => { let f = tw(wide(v), 1, 2) + tw(wide(w), 0, 3); format!("{} ; {}", f.reduction(&wide(x), &wide(y)), f.reduction_modular(&wide(x), &wide(y), p as i32)) }
        51 => { let f = tw(wide(v), 2, 1) + tw(wide(w), 0, 3); let g = tw(wide(x), 1, 0) + tw(wide(y), 0, 1); format!("{} ; {} ; {} ; {}", f.eval_xy(&wide(x), &wide(y)), f.eval_x_polynomial(&g), f.eval_y(&wide(y)), f.power(m(z, 5) as i32)) }
        // a curve without its list of points
        52 => { let e = raw(v, w, z); let q = raw_pt(v, w, z, x); format!("{} ; {} ; {} ; {}", e.multiply_scalar(&q, &b(y - 4)), e.plus(&q, &raw_pt(v, w, z, y)), e.negate(&q), e.point_order(&q)) }
        53 => {
            // through the point (wide(x), wide(y))
            let (p, a, x, y) = (wide_prime(z), wide(v), wide(x), wide(y));
            let c = crate::model::modf(&(&y * &y - &x * &x * &x - &a * &x), &p);
            let e = object(a, c, p.clone(), true);
            let q = ECPoint::new(&x, &y, &b(1));
            format!("{} ; {} ; {} ; {}", e.is_on_curve(&q), e.is_on_curve(&ECPoint::new(&x, &(&y + 1), &b(1))), e.multiply_scalar(&q, &b(w + 2)), e.j_invariant())
        }
        54 => {
            let a = vec![vec![b(1), wide(v), wide(x) * wide(v) + wide(y)], vec![wide(w), wide(v) * wide(w) + 1, wide(w) * wide(y) + (wide(v) * wide(w) + 1) * wide(x)]];
            simultaneous_equation::solve(&a).iter().map(|r| many(r)).collect::<Vec<_>>().join(" | ")
        }
        // often over no field
        56 => EllipticCurve::new(&b(v), &b(w), &b([15, 7, 9, 11, 21, 1][m(z, 6) as usize])).cardinality().to_string(),
        // often singular
        45 => {
            let a: Vec<Vec<BigInt>> = [[v, w, 2 * v + w], [m(x, 3), m(y, 3), 2 * m(x, 3) + m(y, 3)]].iter().map(|r| r.iter().map(|c| b(*c)).collect()).collect();
            simultaneous_equation::solve(&a).iter().map(|r| many(r)).collect::<Vec<_>>().join(" | ")
        }
        _ => {
            let mut tb = TermBuilder::new();
            if v % 2 == 0 { tb.coef(w as i32); }
            if w % 2 == 0 { tb.xpow(x as i32); }
            if x % 2 == 0 { tb.variable_ij(m(y, 5) as i32, m(z, 5) as i32); }
            tb.build().to_string()
        }
    }
}
fn guarded(c: &Call) -> String {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(c))) { Ok(s) => s.replace('\n', " "), Err(_) => "panics".into() }
}

fn enc(c: &Call) -> String { format!("{},{},{},{},{},{}", c.0, c.1, c.2, c.3, c.4, c.5) }
fn dec(s: &str) -> Call { let v: Vec<i64> = s.split(',').map(|x| x.parse().unwrap()).collect(); (v[0] as u8, v[1], v[2], v[3], v[4], v[5]) }

/// in the child: args are c37, threads, calls
pub fn probe_main(a: &[String]) -> String {
    std::panic::set_hook(Box::new(|_| {}));
    let n: usize = a[1].parse().unwrap();
    let calls: Vec<Call> = a[2..].iter().map(|s| dec(s)).collect();
    let keep = calls.len() % 2 == 0;
    KEEP.with(|k| k.set(keep));
    if n == 0 { return calls.iter().map(guarded).collect::<Vec<_>>().join("\u{1}"); }
    // the same calls on n threads at once, each starting elsewhere
    let k = calls.len();
    let gate = Arc::new(std::sync::Barrier::new(n));
    let hs: Vec<_> = (0..n).map(|i| {
        let (calls, gate) = (calls.clone(), gate.clone());
        std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
            KEEP.with(|k| k.set(keep));
            gate.wait();
            let mut r = vec![String::new(); k];
            for j in 0..k { let j = (j + i * k / n) % k; r[j] = guarded(&calls[j]); }
            r.join("\u{1}")
        }).unwrap()
    }).collect();
    hs.into_iter().map(|h| h.join().unwrap()).collect::<Vec<_>>().join("\u{2}")
}

fn alone(c: &Call) -> Option<Arc<String>> {
    static T: OnceLock<Mutex<HashMap<Call, Option<Arc<String>>>>> = OnceLock::new();
    let t = T.get_or_init(Default::default);
    if let Some(r) = t.lock().unwrap().get(c) { return r.clone(); }
    let r = match probe(&["c37", "0", &enc(c)]) { Probe::Text(s) => Some(Arc::new(s)), _ => None };
    t.lock().unwrap().insert(*c, r.clone());
    r
}
fn check(calls: &Vec<Call>, threads: usize, o: &mut Obs) -> Res {
    if calls.is_empty() { return Ok(()); }
    let want: Vec<Arc<String>> = match calls.iter().map(alone).collect::<Option<Vec<_>>>() { Some(w) => w, None => { o.label("no answer alone"); return Ok(()); } };
    let n = threads.to_string();
    let mut args: Vec<String> = vec!["c37".into(), n];
    args.extend(calls.iter().map(enc));
    let got = match probe(&args.iter().map(|s| s.as_str()).collect::<Vec<_>>()) { Probe::Text(s) => s, Probe::Panic(e) => return Err(format!("the process ends: {}", e)), Probe::NoAnswer => { o.label("no answer within the limits of the probe"); return Ok(()); } };
    for (th, r) in got.split('\u{2}').enumerate() {
        let r: Vec<&str> = r.split('\u{1}').collect();
        ensure!(r.len() == calls.len(), "model: results");
        for i in 0..r.len() {
            ensure!(r[i] == want[i].as_str(), "call {} of {}{}: {:?} gives {} after/beside the others, alone in a fresh process {}", i + 1, r.len(), if threads > 0 { format!(" (thread {} of {})", th + 1, threads) } else { String::new() }, calls[i], clip(r[i], 400), clip(&want[i], 400));
        }
    }
    let same = |f: &dyn Fn(&Call, &Call) -> bool| (0..calls.len()).any(|i| (0..i).any(|j| f(&calls[i], &calls[j])));
    o.nt(same(&|c, d| c.0 == d.0 && c != d));
    o.when(same(&|c, d| c == d), "the same call twice");
    o.when(same(&|c, d| c.0 != d.0), "different functions");
    o.when(calls.iter().any(|c| want[calls.iter().position(|d| d == c).unwrap()].as_str() == "panics"), "a refused call");
    Ok(())
}

/// calls that differ from an earlier one in one argument (or only in the function)
fn calls(max: usize) -> B<Vec<Call>> {
    let arg = || prop_oneof![3 => 0i64..4, 2 => 0i64..25];
    let first = (0u8..KINDS, arg(), arg(), arg(), arg(), 0i64..6);
    (first, vec((0u8..10, 0usize..32, arg(), 0u8..KINDS), 1..max)).prop_map(|(f, steps)| {
        let mut v: Vec<Call> = vec![f];
        for (how, from, val, kind) in steps {
            let mut c = v[from % v.len()];
            match how { 0 | 1 => c.1 = val, 2 | 3 => c.2 = val, 4 => c.3 = val, 5 => c.4 = val, 6 | 7 => c.5 = val % 6, 8 => c.0 = kind, _ => {} }
            v.push(c);
        }
        v
    }).boxed()
}

pub fn c37() -> Vec<Sub> {
    vec![
        random("history", "two calls of one function with different arguments", 4_000, 60_000, &STD,
            |t| calls(if t == Tier::Quick { 10 } else { 24 }),
            |c, o| check(c, 0, o)),
        random("concurrent", "two calls of one function with different arguments", 1_000, 20_000, &STD,
            |t| calls(if t == Tier::Quick { 10 } else { 24 }),
            |c, o| check(c, 4, o)),
        // long enough to fill a bounded cache: one or two cheap functions, many different arguments, then the first ones again
        random("long_history", "100 or more different calls", 60, 1_500, &STD,
            |_| {
                let kind = || (0u8..KINDS).prop_filter("cheap", |k| ![25, 26, 33, 34, 35, 36, 39].contains(k));
                (kind(), kind(), any::<bool>(), vec((0i64..25, 0i64..25, 0i64..25, 0i64..25, 0i64..6), 130..300)).prop_map(|(k, l, two, a)| {
                    let mut v: Vec<Call> = a.iter().enumerate().map(|(i, a)| (if two && i % 2 == 1 { l } else { k }, a.0, a.1, a.2, a.3, a.4)).collect();
                    let first: Vec<Call> = v.iter().take(20).cloned().collect();
                    v.extend(first);
                    v
                }).boxed()
            },
            |c, o| {
                check(c, 0, o)?;
                let d: std::collections::BTreeSet<&Call> = c.iter().collect();
                o.nt(d.len() >= 100);
                Ok(())
            }),
        // every function: ascending and descending arguments, repeated
        enumerate("every_function", "every case", &STD,
            |_| (0..KINDS).flat_map(|k| (0u8..12).map(move |i| (k, i))).collect(),
            |&(k, i), o| {
                let base: Call = (k, 2, 1, 3, 2, 1);
                let up: Vec<i64> = if i < 6 { vec![0, 1, 2, 3, 5, 8, 13] } else { vec![1, 5, 9, 13, 17, 21, 24] };
                let mut c: Vec<Call> = up.iter().map(|&u| { let mut c = base; match i % 6 { 0 => c.1 = u, 1 => c.2 = u, 2 => c.3 = u, 3 => c.4 = u, 4 => c.5 = u, _ => { c.1 = u; c.2 = u; } } c }).collect();
                let down: Vec<Call> = c.iter().rev().cloned().collect();
                check(&down, 0, o)?;
                // each one twice in a row
                c = c.iter().flat_map(|c| [*c, *c]).collect();
                c.extend(down);
                check(&c, 0, o)?;
                o.nt(true);
                Ok(())
            }),
    ]
}
