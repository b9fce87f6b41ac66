//! Generators. All randomness comes from proptest; the dictionary only adds boundary values.
use num_bigint::{BigInt, Sign};
use num_traits::{One, Signed, ToPrimitive, Zero};
use proptest::collection::vec;
use proptest::prelude::*;
use std::sync::OnceLock;

pub type B<T> = BoxedStrategy<T>;
/// coefficient, x, y, q exponents, subscripted variable
pub type Tm = (BigInt, i32, i32, i32, Option<(i32, i32)>);
pub type Spec = Vec<Tm>;

pub fn bi(i: i64) -> BigInt { BigInt::from(i) }

/// Integer literals of the library's non-test code, with their neighbours: boundary values the
/// code may treat specially. Only steers generation, never decides.
pub fn dict() -> &'static Vec<BigInt> {
    static D: OnceLock<Vec<BigInt>> = OnceLock::new();
    D.get_or_init(|| {
        let dir = std::env::var("PBT_REPO").unwrap_or("/repo".into()) + "/src";
        let mut files: Vec<_> = std::fs::read_dir(dir).map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect()).unwrap_or_default();
        files.sort();
        let mut set = std::collections::BTreeSet::new();
        for f in files {
            let s = std::fs::read_to_string(&f).unwrap_or_default();
            for line in s.lines() {
                if line.trim_start().starts_with("#[test]") { break; }
                let line = line.split("//").next().unwrap();
                let cs: Vec<char> = line.chars().collect();
                let mut i = 0;
                while i < cs.len() {
                    if cs[i].is_ascii_digit() && (i == 0 || !(cs[i - 1].is_alphanumeric() || cs[i - 1] == '_')) {
                        let (radix, st) = if cs[i] == '0' && i + 1 < cs.len() && cs[i + 1] == 'x' { (16, i + 2) } else { (10, i) };
                        let mut t = String::new();
                        let mut j = st;
                        while j < cs.len() && (cs[j].is_digit(radix) || cs[j] == '_') {
                            if cs[j] != '_' { t.push(cs[j]); }
                            j += 1;
                        }
                        if let Some(v) = BigInt::parse_bytes(t.as_bytes(), radix) {
                            for d in -1..=1 { set.insert(&v + d); }
                        }
                        i = j.max(i + 1);
                    } else { i += 1; }
                }
            }
        }
        if set.is_empty() { set.insert(bi(0)); }
        set.into_iter().collect()
    })
}
fn dict_strat() -> B<BigInt> {
    let n = dict().len();
    (0..n).prop_map(|i| dict()[i].clone()).boxed()
}

fn limbs(bits: usize) -> B<BigInt> {
    (1..=bits.max(1)).prop_flat_map(|nb| {
        let n = (nb + 31) / 32;
        (vec(prop_oneof![6 => any::<u32>(), 1 => Just(0u32), 1 => Just(u32::MAX)], n), Just(nb)).prop_map(|(v, nb)| {
            let b = BigInt::from_slice(Sign::Plus, &v);
            b % (BigInt::one() << nb)
        })
    }).boxed()
}
/// non-negative integers below 2^bits, biased to small values, word boundaries and literals
pub fn nat(bits: usize) -> B<BigInt> {
    let top = BigInt::one() << bits;
    let t2 = top.clone();
    prop_oneof![
        5 => (0i64..8).prop_map(bi),
        3 => (0i64..200).prop_map(bi),
        2 => (0i64..1 << 40).prop_map(bi),
        2 => ((0usize..bits.max(1)), -2i64..=2).prop_map(|(k, d)| ((BigInt::one() << k) + d).abs()),
        1 => prop::sample::select(vec![i32::MAX as i64, u32::MAX as i64, i64::MAX]).prop_flat_map(|v| (-1i64..=1).prop_map(move |d| bi(v) + d)),
        1 => dict_strat().prop_map(|v| v.abs()),
        5 => limbs(bits),
    ].prop_map(move |v| if v >= top { v % &t2 } else { v }).boxed()
}
pub fn int(bits: usize) -> B<BigInt> {
    (nat(bits), any::<bool>()).prop_map(|(v, n)| if n { -v } else { v }).boxed()
}
pub fn int_nz(bits: usize) -> B<BigInt> { int(bits).prop_map(|v| if v.is_zero() { bi(1) } else { v }).boxed() }
pub fn pos(bits: usize) -> B<BigInt> { nat(bits).prop_map(|v| if v.is_zero() { bi(1) } else { v }).boxed() }

/// exponent-like i32 in lo..=hi, biased towards 0/edges/literals
pub fn ex(lo: i32, hi: i32) -> B<i32> {
    if lo == hi { return Just(lo).boxed(); }
    let (a, b) = (lo.max(-3), hi.min(4));
    let small: B<i32> = if a <= b { (a..=b).boxed() } else { (lo..=hi).boxed() };
    let d: Vec<i32> = dict().iter().filter_map(|v| v.to_i32()).flat_map(|v| [v, -v]).filter(|v| *v >= lo && *v <= hi).collect();
    let d = if d.is_empty() { vec![lo] } else { d };
    prop_oneof![
        5 => small,
        5 => lo..=hi,
        1 => prop::sample::select(vec![lo, hi]),
        1 => prop::sample::select(d),
    ].boxed()
}

// ---------------------------------------------------------------- primes
fn mulmod(a: u64, b: u64, m: u64) -> u64 { (a as u128 * b as u128 % m as u128) as u64 }
fn powmod(mut b: u64, mut e: u64, m: u64) -> u64 {
    let mut r = 1 % m;
    b %= m;
    while e > 0 { if e & 1 == 1 { r = mulmod(r, b, m); } b = mulmod(b, b, m); e >>= 1; }
    r
}
pub fn is_prime(n: u64) -> bool {
    const W: [u64; 12] = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37];
    if n < 2 { return false; }
    for w in W { if n % w == 0 { return n == w; } }
    let (mut d, mut s) = (n - 1, 0);
    while d % 2 == 0 { d /= 2; s += 1; }
    'o: for w in W {
        let mut x = powmod(w, d, n);
        if x == 1 || x == n - 1 { continue; }
        for _ in 0..s - 1 { x = mulmod(x, x, n); if x == n - 1 { continue 'o; } }
        return false;
    }
    true
}
pub fn next_prime(mut n: u64) -> u64 { while !is_prime(n) { n += 1; } n }
pub fn primes(lo: u64, hi: u64) -> Vec<u64> { (lo..=hi).filter(|n| is_prime(*n)).collect() }
pub fn small_prime(lo: u64, hi: u64) -> B<u64> { prop::sample::select(primes(lo, hi)).boxed() }
pub fn big_primes() -> Vec<BigInt> {
    let one = BigInt::one();
    let h = |s: &str| BigInt::parse_bytes(s.as_bytes(), 16).unwrap();
    vec![
        (&one << 61) - 1, (&one << 89) - 1, (&one << 107) - 1, (&one << 127) - 1, (&one << 255) - 19,
        (&one << 256) - (&one << 32) - 977, (&one << 192) - (&one << 64) - 1, (&one << 521) - 1,
        h("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff"),
        h("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141"),
        (&one << 64) - 59, (&one << 32) - 5, (&one << 64) + 13, (&one << 31) - 1, (&one << 130) - 5,
    ]
}
/// primes of 63 to 1024 bits without special shape, and some with p - 1 divisible by a large power of 2
const MORE_PRIMES: &[&str] = &[
    "7953a6f252e6b44f",
    "72899387269e0d51",
    "8c5c7fd0a6a3a557",
    "d23f0824128b2fab",
    "11818e811892f9035",
    "10ed9047595319869",
    "236f675cc81e74f0b",
    "36f03675a1600a39d",
    "253d9c172411e20bb3",
    "236cad4a268d116f01",
    "9fb190c192cfd3ac94bb",
    "a17039263059f28c1079",
    "3ca7436953f48f1a09f76d7",
    "257982b93bd04cf0fd63117",
    "f9ebdacc0cb1e29c658cda39",
    "8e81973e0becd7b03898d1f7",
    "e4a23d5962217beaddbc49751",
    "91e27a1c08a6a63ec24ede6c3",
    "ae97d0eda82f8f6d05584ef8aa47",
    "923a94e3bf911a61dbe22e4415a5",
    "98f1355f557203301850c5a38fd567",
    "907a701012f037b64ce4228c38fb37",
    "7f8a829234b9b5df9e7769b10f4205bb",
    "637c3b8c6d76b07e881ed162ae2eb1eb",
    "ec66a78795e761d17731af10506bf385",
    "bf98e2774cbd87ad5c90a9587403e4b7",
    "1c7a2ea20b2f14c942e05319acb5c743f",
    "1867347214cdd2055930d6eaf14f47365",
    "372e6cc3ababced2057ee05cde00903e7",
    "21e398f1012bd4acefaecbd389be4bd6d",
    "a6e5790f82ec1d3fcff2a3af4d46b0a1967",
    "f640a097c976bf46c697d2caf82eeeacc0f",
    "24ac748ede0d7ac3baea9e13deef86ab1032a5",
    "35c4905051c1ccd17f9acae01f5057ca0213a1",
    "9474031b7f26144b98289fcd59a54a7bb1fee0a1",
    "97f5e837d70820fe119a72d174c9df6acc011ce9",
    "242aa05e11ab2715945795e8229451abd81f1d69f55",
    "24fa5aa3c814f426dcbb394fb36bb2d420f0f880855",
    "b774e48db40af72158370d269a9a5ae658f33fe3b8a0d",
    "f0ce505c6af0758d5563dab2cd31ee315128862c33a55",
    "7f3155051df9fd789c6539382b0537e65affb2297631a9ad",
    "5e82b0f3211c70cf49952399c4aaeac137dc76fb0f17a35f",
    "ff1b103cdf1582b0eab477d26415479c65dc9f503f63af99",
    "c720771f8ca8181166d2287672fdf2022a96fb1a14a0fa45",
    "18cdb305fdd2e16096e36aab0d1bc52d9230d977ee22571c3",
    "1e25a7605aec6f0245bd86d40fc891b4a6a50df4db4d66a59",
    "bb26bb7dbd2d1c9af0153e7c2a26a2c0bd3b1287fff52de00d",
    "ae96d0cc5fd4c28c2e7c26847f0316909e3bbbe9eaa8948d29",
    "37a1d88daf4016b4013ef254b0c4e010c4759482c9cbc43435d95",
    "36fd2b0c4312d20203626f3fe39c0519088f590fbbd119c1caaff",
    "8dd27a65bd628881ad1b72dba7abe1c29e1a8ef4f341e07a83f73f69",
    "ae3a2b7fdfe01893f3aed0b6c7ac1491def88334e647cb8f74e69b0d",
    "11a81682c64e50cad66237a0465e7e4236472f1a38f2c6ec8cc416a9d",
    "13571810afc132d0d113db17d30cbc97d0fef792866836886a260cd5d",
    "9118000f49c81a358ca00d75985d99c94309570dc1951c2442f9298cb3bf",
    "9200068739fa9d1de2a05d158a2ff2ee4e4519f9919c895fd7b326b94c87",
    "3d266354093f6dea268aa872607679d6050914a9d33a01c353c631cdfd43f4b",
    "3f3c81cd953ee261d87cec31f7296ab7961fd925d39d0a89a2ef80f58ee87f3",
    "5272712d15fc899e4fd58dbe7bdc968b7afb2c68774b15d7fa529ba3fe3bfadd",
    "589550fbd42fddbb7a86f7a243c71b9abd87a86557b6fb7ebfeaa1551a28f7b7",
    "dc9bcf35873be078f3b7a50df373ca533488f87605e999f3842e7fc229540ad9",
    "cc4f9b0687322e25c215a82a06ec41adea0575438b0d590bb0a844e52587be9d",
    "184b5a81842d87208d86f40f6b239f3c7174c77a2dd02de92a49636a2fa7f0f87",
    "1c77024208aa4248c8857f9a43908f227c59db9165b0ee76f2ac34446e883a2db",
    "3691c2216b02fc241d0bc9d488b1cfbf33609cfc865239194242a2eddbbd5464ed61",
    "2ccb3a0b9965cda6c6fdbd68516766934036d17e44973d4882a5ce5b2a9231f5171d",
    "f8e4787f93bca44eb860726e25cfd56a926076b3e36bb2313f55b06258e7e26f36a8483fca7",
    "b91efe09f07cefe2a1f727d83495822cb77f4de2c089aea6429b1491e243192b70442594113",
    "f85729763a12917c1a26f88938703800149e259b5d58c705f979d04af47aebdd597a1ecffcf01009",
    "e8c147437abec539007d1034d726c86b9c3a23cde67a9b75fc3947249fc2d0a17b8f2ab53451d0135675f6ad325b5709",
    "c009b6246771c845007063771407e8e727891eb20109a91c2439d5ab8b4d15b40aeba4a45effccb573d95810d60ea7299289",
    "e555abfeb8c9817af8be8831f237e45acd02c5e116353d03551fd8f9a2c68e45ca04c79f6f15b6ad2db3997fe39639be7a605a91330698c1",
    "ce76e9f477216e9ee7a46309973f798626b1cffc070d710920859634fe3c9c8f2b855c1f28aaca51b98c67c215bd448ff26149edbe4c5ce666c1494e7691b40d",
    "b9f363f88c422bcca2a92b03a56cc1057a40b22188287e8c5c715f8c74fc1e27e9e06f59b44e92effddeeaa842bc19796f74adfaf55496988af3fbd39630d69c9011ef256badf9a7e65433",
    "e5cfedfa5a9196f0bd6b881ae8f6e0bd0f977044218e0b7bd58dcdb46b4468068b5ab3ee4265bb31537409029620bf0dc38084a03d93fd4c804c25d64affdcd13678bc8d40783f0a072a98d23606defcdfb85c0dd37ee91531dec4f4df2a8b79fc8e80b36f0e228923a5ef88ef02090bbfdefc1586ce03f91a4f44f9a651154d",
    "2b00000001",
    "190000000000000001",
    "39000000000000000000000001",
    "1500000000000000000000000000000001",
];
pub fn more_primes() -> &'static Vec<BigInt> {
    static D: OnceLock<Vec<BigInt>> = OnceLock::new();
    D.get_or_init(|| MORE_PRIMES.iter().map(|s| BigInt::parse_bytes(s.as_bytes(), 16).unwrap()).collect())
}
/// any prime p >= lo
pub fn prime(lo: u64) -> B<BigInt> {
    prop_oneof![
        4 => small_prime(lo, 100).prop_map(BigInt::from),
        3 => small_prime(lo.max(101), 5000).prop_map(BigInt::from),
        3 => (8u32..62, any::<u64>()).prop_map(move |(b, r)| BigInt::from(next_prime((r % (1u64 << b)) | (1 << (b - 1))))),
        1 => prop::sample::select(big_primes()),
        1 => prop::sample::select(more_primes().iter().filter(|p| p.bits() <= 300).cloned().collect::<Vec<_>>()),
    ].boxed()
}
/// primes of any size, up to 1024 bits
pub fn huge_prime(lo: u64) -> B<BigInt> {
    prop_oneof![9 => prime(lo), 1 => prop::sample::select(more_primes().clone())].boxed()
}

// ---------------------------------------------------------------- polynomials
#[derive(Clone)]
pub struct PK { pub x: (i32, i32), pub y: (i32, i32), pub q: (i32, i32), pub vars: bool, pub bits: usize, pub n: usize }

fn sub() -> B<i32> { prop_oneof![2 => 0i32..3, 3 => (0u32..31, -1i32..=1).prop_map(|(k, d)| ((1i32 << k) + d).max(0)), 2 => (0u32..31, 0..=i32::MAX).prop_map(|(k, v)| v >> k), 1 => Just(i32::MAX)].boxed() }
pub fn var() -> B<Option<(i32, i32)>> {
    prop_oneof![2 => Just(None), 5 => (0i32..4, 0i32..4).prop_map(Some), 1 => (0i32..1000, 0i32..1000).prop_map(Some),
        // any subscripts; words and their neighbours
        1 => (sub(), sub()).prop_map(Some)].boxed()
}
/// a coefficient, now and then much wider than usual
fn coef(bits: usize) -> B<BigInt> { prop_oneof![60 => int_nz(bits), 1 => int_nz(bits.max(340))].boxed() }
pub fn tm(k: PK) -> B<Tm> {
    let v = if k.vars { var() } else { Just(None).boxed() };
    (coef(k.bits), ex(k.x.0, k.x.1), ex(k.y.0, k.y.1), ex(k.q.0, k.q.1), v).boxed()
}
/// restrictions of the domain: some letters absent, exponents from some bound on
fn shaped(k: PK, of: B<Spec>) -> B<Spec> {
    let up = || prop_oneof![3 => Just(0i64), 1 => 0i64..=100];
    let off = || prop::bool::weighted(0.5);
    (of, (off(), off(), off(), off()), (up(), up(), up())).prop_map(move |(s, (x, y, q, v), (ux, uy, uq))| {
        let e = |e: i32, r: (i32, i32), off: bool, up: i64| {
            if off && r.0 <= 0 && r.1 >= 0 { return 0; }
            let (lo, hi) = (r.0 as i64, r.1 as i64);
            let l = lo + (hi - lo) * up / 100;
            (l + (e as i64 - lo) % (hi - l + 1)) as i32
        };
        s.into_iter().map(|t| (t.0, e(t.1, k.x, x, ux), e(t.2, k.y, y, uy), e(t.3, k.q, q, uq), if v { None } else { t.4 })).collect()
    }).boxed()
}
/// one letter with exponents in arithmetic progression, the rest of the monomial fixed
pub fn progression(k: PK, len: std::ops::RangeInclusive<usize>) -> B<Spec> {
    let (x, y, q) = (k.x, k.y, k.q);
    let fixed = move |r: (i32, i32)| if r.0 <= 0 && r.1 >= 0 { prop_oneof![3 => Just(0), 1 => r.0..=r.1].boxed() } else { (r.0..=r.1).boxed() };
    let bits = k.bits;
    let v = if k.vars { prop_oneof![3 => Just(None), 1 => var()].boxed() } else { Just(None).boxed() };
    (0u8..4, fixed(x), fixed(y), fixed(q), v, (any::<u16>(), prop_oneof![3 => Just(1i64), 1 => 2i64..4]), vec(prop_oneof![2 => int_nz(bits), 1 => int_nz(2.min(bits)), 1 => Just(bi(1))], len)).prop_map(move |(l, ex, ey, eq, v, (s, step), cs)| {
        let l = if l == 3 { 0 } else { l };
        let r = [x, y, q][l as usize];
        let w = r.1 as i64 - r.0 as i64;
        let n = (w / step + 1).min(cs.len() as i64).max(if cs.is_empty() { 0 } else { 1 });
        let room = w - (n - 1).max(0) * step;
        let st = r.0 as i64 + if s % 3 == 0 && r.0 <= 0 && -(r.0 as i64) <= room { -(r.0 as i64) } else { s as i64 % (room + 1) };
        cs.into_iter().take(n as usize).enumerate().map(|(i, c)| {
            let e = (st + i as i64 * step) as i32;
            (c, if l == 0 { e } else { ex }, if l == 1 { e } else { ey }, if l == 2 { e } else { eq }, v)
        }).collect()
    }).boxed()
}
fn plain(k: PK) -> B<Spec> {
    let n = k.n;
    prop_oneof![6 => 0..=n.min(4), 3 => 0..=n].prop_flat_map(move |len| vec(tm(k.clone()), len)).boxed()
}
pub fn poly(k: PK) -> B<Spec> {
    prop_oneof![6 => plain(k.clone()), 2 => shaped(k.clone(), plain(k.clone())), 1 => progression(k.clone(), 0..=k.n)].boxed()
}
/// many terms: sizes at which an implementation may switch methods
pub fn many(k: PK) -> B<Spec> {
    let p = |k: PK| prop_oneof![vec(tm(k.clone()), 15..50), vec(tm(k), 50..180)].boxed();
    prop_oneof![6 => p(k.clone()), 2 => shaped(k.clone(), p(k.clone())), 1 => progression(k, 8..=100)].boxed()
}
pub fn dense(k: PK, n: std::ops::Range<usize>) -> B<Spec> { vec(tm(k), n).boxed() }
pub fn many_pair(k: PK) -> B<(Spec, Spec)> { (many(k.clone()), many(k), 0u8..12).prop_map(|(a, b, h)| { let d = derived(&a, b, h); (a, d) }).boxed() }
/// A second polynomial correlated with the first, so that terms meet and cancel.
pub fn derived(a: &Spec, b: Spec, how: u8) -> Spec {
    let neg = |s: &Spec| -> Spec { s.iter().map(|t| (-t.0.clone(), t.1, t.2, t.3, t.4)).collect() };
    match how % 10 {
        // one or two terms of a with the opposite sign: short against long
        8 if !a.is_empty() => { let i = b.len() % a.len(); let mut r = neg(&vec![a[i].clone()]); r.extend(b.into_iter().take(i % 2)); r }
        9 if !a.is_empty() => { let (i, j) = (0, a.len() / 2); let mut r = neg(&vec![a[i].clone()]); if j != i { r.push(a[j].clone()); } r }
        0 => a.clone(),
        1 => neg(a),
        2 => { let mut r = neg(a); r.extend(b); r }
        3 => { let mut r = a.clone(); r.extend(b); r }
        4 => { let mut r = neg(a); if !r.is_empty() { r[0].0 += 1; } r }
        // same monomials, signs alternating: cancellation inside products
        5 => a.iter().enumerate().map(|(i, t)| (if i % 2 == 0 { t.0.clone() } else { -t.0.clone() }, t.1, t.2, t.3, t.4)).collect(),
        _ => b,
    }
}
pub fn poly_pair(k: PK) -> B<(Spec, Spec)> {
    (poly(k.clone()), poly(k), 0u8..12).prop_map(|(a, b, h)| { let d = derived(&a, b, h); (a, d) }).boxed()
}
pub fn strip_vars(s: &Spec) -> Spec { s.iter().map(|t| (t.0.clone(), t.1, t.2, t.3, None)).collect() }

/// laurent: exponents of any sign (ops that allow it); poly: non-negative
pub const LAURENT: PK = PK { x: (-6, 9), y: (-6, 9), q: (-6, 9), vars: true, bits: 130, n: 12 };
pub const LAURENT_NV: PK = PK { vars: false, ..LAURENT };
pub const XY: PK = PK { x: (0, 8), y: (0, 8), q: (0, 0), vars: false, bits: 100, n: 10 };
/// coefficients of up to 2000 bits
pub const WIDE: PK = PK { bits: 2000, n: 4, ..LAURENT };
