//! C39: arguments for which there is no answer are refused. What is refused is checked by calling;
//! how (message, place) is not looked at.
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use ellipticcurve::bigint::{Inverse, Power, PowerModulo};
use ellipticcurve::elliptic_curve::EllipticCurve;
use ellipticcurve::polynomial::Polynomial;
use ellipticcurve::{division_polynomial, modular_polynomial, schoof_elkies_atkins};
use num_bigint::BigInt;
use num_traits::{One, Signed, ToPrimitive, Zero};
use proptest::prelude::*;

fn unit(b: &BigInt) -> bool { b.abs().is_one() }
fn unit_pow(b: &BigInt, odd: bool) -> BigInt { if odd { b.clone() } else { bi(1) } }
fn neg32() -> B<i32> { prop_oneof![3 => -8i32..0, 2 => -400i32..0, 1 => (0u32..31).prop_map(|k| -(1i32 << k)), 1 => Just(i32::MIN), 1 => Just(i32::MIN + 1)].boxed() }
fn neg_big() -> B<BigInt> { prop_oneof![3 => neg32().prop_map(BigInt::from), 1 => pos(70).prop_map(|v| -v), 1 => pos(300).prop_map(|v| -v)].boxed() }
/// right when it is 1 or -1, refused otherwise
fn only_units(what: &str, b: &BigInt, odd: bool, m: Option<&BigInt>, f: impl FnOnce() -> BigInt) -> Res {
    let r = attempt(f);
    match r {
        Ok(v) if !unit(b) => Err(format!("{}: {} to a power below zero is answered with {}", what, b, v)),
        Ok(v) => { let w = unit_pow(b, odd); eq(what, v, m.map_or(w.clone(), |m| modf(&w, m))) }
        Err(_) if unit(b) => Err(format!("{}: {} to a power below zero is refused", what, b)),
        Err(_) => Ok(()),
    }
}
fn term_of(t: &Tm) -> ellipticcurve::term::Term { cterm(&(t.1, t.2, t.3, t.4), &t.0) }

pub fn c39() -> Vec<Sub> {
    vec![
        random("integer_power", "base not 0 or +-1", 8_000, 300_000, &STD,
            |_| (prop_oneof![3 => int(200), 1 => (-3i64..4).prop_map(bi)], neg_big(), pos(120)).boxed(),
            |(b, n, m), o| {
                let odd = modf(n, &bi(2)).is_one();
                only_units("power(&BigInt)", b, odd, None, || b.power(n))?;
                only_units("power(BigInt)", b, odd, None, || b.power(n.clone()))?;
                if let Some(k) = n.to_i32() { only_units("power(i32)", b, odd, None, || b.power(k))?; }
                only_units("power_modulo", b, odd, Some(m), || b.power_modulo(n, m))?;
                o.nt(!unit(b) && !b.is_zero());
                o.when(unit(b), "base 1 or -1");
                o.when(b.is_zero(), "base 0");
                Ok(())
            }),
        random("modulus", "every case", 6_000, 200_000, &STD,
            |_| (int_nz(200), pos(60), prop_oneof![Just(bi(0)), Just(bi(1)), int(60).prop_map(|v| -v.abs())], poly(LAURENT), tm(LAURENT)).boxed(),
            |(b, n, m, s, t), o| {
                ensure!(refuses(|| b.inverse(m)), "inverse of {} modulo {} answered", b, m);
                let (z, f) = (bi(0), MP::of(s).crate_pol());
                ensure!(refuses(|| b.power_modulo(n, &z)), "power_modulo({}, 0) answered", n);
                ensure!(refuses(|| term_of(t).modulo(&z)), "Term.modulo(0) answered");
                ensure!(refuses(|| { let mut u = term_of(t); u.modular_assign(&z); u }), "Term.modular_assign(0) answered");
                if !f.is_zero() {
                    ensure!(refuses(|| &f % &z), "polynomial % 0 answered");
                    ensure!(refuses(|| &f % 0), "polynomial % 0 answered");
                    ensure!(refuses(|| { let mut u = f.clone(); u.modular_assign(&z); u }), "Polynomial.modular_assign(0) answered");
                    ensure!(refuses(|| f.power_modulo(&bi(1), &z)), "Polynomial.power_modulo(1, 0) answered");
                    o.label("non-zero polynomial");
                }
                o.nt(true);
                Ok(())
            }),
        random("polynomial_power", "two or more terms", 6_000, 200_000, &STD,
            |_| (poly(LAURENT), neg_big(), pos(60)).boxed(),
            |(s, n, p), o| {
                let f = MP::of(s).crate_pol();
                // 1/m is an answer for a monomial with coefficient 1 or -1, and nothing is claimed for 0
                if f.terms.len() < 2 && f.terms.values().all(unit) { return Ok(()); }
                ensure!(refuses(|| f.power(n)), "({}).power({}) answered", f, n);
                ensure!(refuses(|| f.power(n.clone())), "({}).power({}) answered", f, n);
                ensure!(refuses(|| f.power_modulo(n, p)), "({}).power_modulo({}) answered", f, n);
                if let Some(k) = n.to_i32() { ensure!(refuses(|| f.power(k)), "({}).power({}) answered", f, k); }
                o.nt(f.terms.len() >= 2);
                Ok(())
            }),
        random("term_power", "coefficient not 1 or -1", 5_000, 150_000, &STD,
            |_| (tm(LAURENT_NV), prop_oneof![2 => Just(None), 1 => (-1i64..2).prop_map(|c| Some(bi(c)))], prop_oneof![3 => -40i32..0, 1 => -4000i32..0], pos(70)).boxed(),
            |(t, c, n, p), o| {
                let mut t = t.clone();
                if let Some(c) = c { t.0 = c.clone(); }
                let (u, nb, odd) = (term_of(&t), BigInt::from(*n), n % 2 != 0);
                for (what, r) in [("i32", attempt(|| u.power(*n))), ("BigInt", attempt(|| u.power(nb.clone()))), ("&BigInt", attempt(|| u.power(&nb))), ("modulo", attempt(|| u.power_modulo(&nb, p)))] {
                    match r {
                        Ok(v) if !unit(&t.0) => return Err(format!("({}) to the power {} ({}) is answered with {}", u, n, what, v)),
                        Ok(v) => { let w = unit_pow(&t.0, odd); same_term("Term.power", &v, &(t.1 * n, t.2 * n, t.3 * n, None), &if what == "modulo" { modf(&w, p) } else { w })? }
                        Err(_) => ensure!(!unit(&t.0), "({}) to the power {} ({}) is refused", u, n, what),
                    }
                }
                o.nt(!unit(&t.0));
                o.when(unit(&t.0), "coefficient 1 or -1");
                Ok(())
            }),
        random("term_power_too_large", "every case", 4_000, 100_000, &STD,
            |_| (tm(LAURENT_NV), 0usize..3, 1i32..4, any::<bool>(), (0usize..40, pos(20)).prop_map(|(k, d)| (BigInt::from(1) << (31 + k)) + d), any::<bool>()).boxed(),
            |(t, w, e, neg, n, one), o| {
                let mut t = t.clone();
                t.0 = if *one { bi(-1) } else { bi(1) };
                let e = if *neg { -*e } else { *e };
                match w { 0 => t.1 = e, 1 => t.2 = e, _ => t.3 = e }
                ensure!(refuses(|| term_of(&t).power(n)), "({}).power({}) answered", term_of(&t), n);
                ensure!(refuses(|| term_of(&t).power(n.clone())), "({}).power({}) answered", term_of(&t), n);
                ensure!(refuses(|| term_of(&t).power_modulo(n, &bi(7))), "({}).power_modulo({}) answered", term_of(&t), n);
                o.nt(true);
                Ok(())
            }),
        random("negative_exponent_evaluated", "a negative exponent meets a value other than 1 and -1", 10_000, 400_000, &STD,
            |_| (prop_oneof![2 => poly(PK { x: (-4, 4), y: (-4, 4), q: (0, 0), vars: false, bits: 60, n: 6 }), 1 => poly(PK { x: (-4, 4), y: (0, 4), q: (0, 0), vars: false, bits: 60, n: 3 }), 1 => poly(PK { x: (i32::MIN, i32::MAX), y: (0, 0), q: (0, 0), vars: false, bits: 60, n: 3 })],
                prop_oneof![3 => (-1i64..2).prop_map(bi), 1 => int(70), 2 => (-4i64..5).prop_map(bi)], prop_oneof![3 => (-1i64..2).prop_map(bi), 1 => int(70), 2 => (-4i64..5).prop_map(bi)]).boxed(),
            |(s, x, y), o| {
                let m = MP::of(s);
                let p = m.crate_pol();
                let big = |v: &BigInt, k: i32| k > 5000 && v.abs() > bi(1);
                if m.0.keys().any(|k| big(x, k.0) || big(y, k.1) || big(y, k.0)) { return Ok(()); }
                let pw = |v: &BigInt, k: i32| if k < 0 || k > 5000 { if unit(v) { unit_pow(v, k & 1 == 1) } else { bi(0) } } else { pow(v, k as u64) };
                let bad_x = !unit(x) && m.0.keys().any(|k| k.0 < 0);
                let bad_y = !unit(y) && m.0.keys().any(|k| k.1 < 0);
                match attempt(|| p.eval_x(x)) {
                    Ok(r) => { ensure!(!bad_x, "eval_x({}) of {} answers {}", x, show(&m), r);
                        let mut w = MP::zero();
                        for (k, c) in &m.0 { w.acc((0, k.1, k.2, k.3), &(c * pw(x, k.0))); }
                        same("eval_x", &r, &w)?; }
                    Err(_) => ensure!(bad_x, "eval_x({}) of {} is refused", x, show(&m)),
                }
                match attempt(|| p.eval_y(y)) {
                    Ok(r) => { ensure!(!bad_y, "eval_y({}) of {} answers {}", y, show(&m), r);
                        let mut w = MP::zero();
                        for (k, c) in &m.0 { w.acc((k.0, 0, k.2, k.3), &(c * pw(y, k.1))); }
                        same("eval_y", &r, &w)?; }
                    Err(_) => ensure!(bad_y, "eval_y({}) of {} is refused", y, show(&m)),
                }
                // 0 times something undefined may be left out: only a defined or a plainly undefined value is asked for
                if !(x.is_zero() || y.is_zero()) || !(bad_x || bad_y) {
                    match attempt(|| p.eval_xy(x, y)) {
                        Ok(r) => { ensure!(!bad_x && !bad_y, "eval_xy({}, {}) of {} answers {}", x, y, show(&m), r);
                            let mut w = bi(0);
                            for (k, c) in &m.0 { w += c * pw(x, k.0) * pw(y, k.1); }
                            eq("eval_xy", r, w)?; }
                        Err(_) => ensure!(bad_x || bad_y, "eval_xy({}, {}) of {} is refused", x, y, show(&m)),
                    }
                }
                for k in m.0.keys().take(2) {
                    let bad = (k.0 < 0 && !unit(x)) || (k.1 < 0 && !unit(y));
                    if bad && (x.is_zero() || y.is_zero()) { continue; }
                    ensure!(refuses(|| cmono(k).eval_xy(x, y)) == bad, "x^{} y^{} at {}, {} is {}", k.0, k.1, x, y, if bad { "answered" } else { "refused" });
                }
                o.nt(bad_x || bad_y);
                o.when(!bad_x && !bad_y && m.0.keys().any(|k| k.0 < 0 || k.1 < 0), "negative exponent at 1 or -1");
                Ok(())
            }),
        enumerate("eval_q_too_large", "every case", &STD,
            |_| {
                let mut v = vec![];
                for q in (-12i32..=12).chain([46340, 46341, -46341, i32::MAX, i32::MIN]) { for e in (-6i32..40).chain([64, 100, i32::MAX, i32::MIN, i32::MIN + 1]) { v.push((q, e)); } }
                v
            },
            |&(q, e), o| {
                let want = match (q, e) {
                    (_, 0) => Some(1), (1, _) => Some(1), (-1, e) => Some(if e & 1 == 1 { -1 } else { 1 }), (_, e) if e < 0 => None, (0, _) => Some(0),
                    (q, e) => (q as i64).checked_pow(e as u32).and_then(|r| i32::try_from(r).ok()),
                };
                let got = attempt(|| cmono(&(0, 0, e, None)).eval_q(q)).ok();
                ensure!(got == want, "q^{} at {}: {:?}, wanted {:?} (None: refused)", e, q, got, want);
                o.nt(want.is_none());
                Ok(())
            }),
        random("division", "every case", 6_000, 200_000, &STD,
            |_| (poly(LAURENT), tm(LAURENT_NV), (0i32..5, 0i32..5), poly(PK { q: (0, 0), y: (0, 0), vars: false, ..XY }), prime(2), 0u8..3, 1i32..5).boxed(),
            |(s, t, v, d, p, w, e), o| {
                // by something with a variable
                let mut tv = t.clone();
                if tv.0.is_zero() { tv.0 = bi(3); }
                tv.4 = Some(*v);
                let f = MP::of(s).crate_pol();
                let u = term_of(t);
                ensure!(refuses(|| &u / &term_of(&tv)), "{} / {} answered", u, term_of(&tv));
                if !f.is_zero() { ensure!(refuses(|| &f / &term_of(&tv)), "({}) / {} answered", f, term_of(&tv)); }
                // remainder by 0 mod p, or by a divisor with y or q
                let f = MP::of(&strip_vars(s)).map(|k, c| Some(((k.0.abs(), k.1.abs(), k.2, None), c.clone()))).crate_pol();
                let d = MP::of(d);
                let zero = if *w == 0 { Polynomial::new() } else { d.scale(p).crate_pol() };
                if (&f % p).is_zero() { return Ok(()); }
                ensure!(refuses(|| f.polynomial_modular(&zero, p)), "the remainder by {}, which is 0 modulo {}, is answered", zero, p);
                let k = if *w == 1 { (0, *e, 0, None) } else { (*e - 1, 0, *e * if *w == 0 { 1 } else { -1 }, None) };
                let bad = d.add(&MP::mono(k, bi(1))).crate_pol();
                ensure!(refuses(|| f.polynomial_modular(&bad, p)), "the remainder by {} is answered", bad);
                o.nt(true);
                Ok(())
            }),
        random("derivative", "a term with a negative exponent", 5_000, 150_000, &STD,
            |_| prop_oneof![tm(LAURENT), (tm(LAURENT), neg32(), any::<bool>()).prop_map(|(mut t, n, w)| { if w { t.1 = n; } else { t.2 = n; } t })].boxed(),
            |t, o| {
                // refused or right
                let m = MP::of(&vec![t.clone()]);
                let d = |x: bool| m.map(|k, c| if x { k.0.checked_sub(1).map(|e| ((e, k.1, k.2, k.3), c * k.0)) } else { k.1.checked_sub(1).map(|e| ((k.0, e, k.2, k.3), c * k.1)) });
                if let Ok(r) = attempt(|| term_of(t).derivative_x()) { same("derivative_x", &r.to_pol(), &d(true))?; }
                if let Ok(r) = attempt(|| term_of(t).derivative_y()) { same("derivative_y", &r.to_pol(), &d(false))?; }
                if let Ok(r) = attempt(|| m.crate_pol().derivative_x()) { same("derivative_x", &r, &d(true))?; }
                if let Ok(r) = attempt(|| m.crate_pol().derivative_y()) { same("derivative_y", &r, &d(false))?; }
                o.nt(t.1 < 0 || t.2 < 0);
                Ok(())
            }),
        random("division_polynomial_index", "every case", 2_000, 50_000, &STD,
            |_| (int(80), int(80), prop_oneof![Just(0i32), neg32()]).boxed(),
            |(a, b, n), o| {
                if *n < 0 { ensure!(refuses(|| division_polynomial::psi(a, b, *n)), "psi_{} answered", n); }
                ensure!(refuses(|| division_polynomial::phi(a, b, *n)), "phi_{} answered", n);
                ensure!(refuses(|| division_polynomial::omega(a, b, *n)), "omega_{} answered", n);
                o.nt(true);
                Ok(())
            }),
        enumerate("level_not_prime", "every case", &STD,
            |t| {
                let n = if t == Tier::Quick { 400i32 } else { 4000 };
                (-6..n).chain([i32::MIN, -7, -13, 46337 * 46337, 46339 * 46327, 2147483646, 1 << 30]).filter(|l| *l < 2 || !is_prime(*l as u64)).collect()
            },
            |&l, o| {
                ensure!(refuses(|| modular_polynomial::subscripted_variable_modular_polynomial(l)), "the generic modular polynomial of level {} answered", l);
                ensure!(refuses(|| modular_polynomial::subscripted_variable_modular_polynomial_q(l)), "the q-expansion at level {} answered", l);
                ensure!(refuses(|| modular_polynomial::subscripted_variable_modular_polynomial_list(l)), "the list at level {} answered", l);
                ensure!(refuses(|| modular_polynomial::modular_polynomial(l)), "the modular polynomial of level {} answered", l);
                let e = EllipticCurve::new_raw(&bi(1), &bi(7), &bi(23));
                ensure!(refuses(|| schoof_elkies_atkins::sea(&e, l).degree_of_gcd), "sea at level {} answered", l);
                o.nt(true);
                Ok(())
            }),
        random("field_too_large", "every case", 200, 2_000, &STD,
            |_| (int(70), int(70), prop_oneof![3 => pos(200).prop_map(|v| v + (BigInt::from(1) << 64usize)), 2 => huge_prime(2).prop_map(|p| if p.bits() > 64 { p } else { (BigInt::from(1) << 127usize) - bi(1) }), 1 => (2u64..60, 0u64..1000).prop_map(|(k, d)| BigInt::from(1u64 << k.min(31)) * bi(2 + d as i64)), 1 => pos(40).prop_map(|v| -v)]).boxed(),
            |(a, b, p), o| {
                ensure!(refuses(|| EllipticCurve::new(a, b, p)), "a curve with all its points over Z/{} was built", p);
                o.nt(true);
                Ok(())
            }),
    ]
}
