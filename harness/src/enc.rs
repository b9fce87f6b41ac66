//! Plain-text encoding of generated cases: what replay files contain.
use num_bigint::BigInt;

pub struct Toks<'a>(pub std::str::SplitWhitespace<'a>);
impl<'a> Toks<'a> {
    pub fn new(s: &'a str) -> Self { Toks(s.split_whitespace()) }
    fn next(&mut self) -> &'a str { self.0.next().expect("replay case is truncated") }
}

pub trait Enc: Sized {
    fn enc(&self, o: &mut String);
    fn dec(t: &mut Toks) -> Self;
}

macro_rules! prim { ($($t:ty),*) => { $(
    impl Enc for $t {
        fn enc(&self, o: &mut String) { use std::fmt::Write; write!(o, "{} ", self).unwrap(); }
        fn dec(t: &mut Toks) -> Self { t.next().parse().expect("number") }
    })* } }
prim!(i32, i64, u32, u64, usize, u8, bool);

impl Enc for BigInt {
    fn enc(&self, o: &mut String) {
        o.push_str(&self.to_str_radix(16));
        o.push(' ');
    }
    fn dec(t: &mut Toks) -> Self { BigInt::parse_bytes(t.next().as_bytes(), 16).expect("bigint") }
}
impl<T: Enc> Enc for Vec<T> {
    fn enc(&self, o: &mut String) {
        self.len().enc(o);
        for e in self { e.enc(o); }
    }
    fn dec(t: &mut Toks) -> Self {
        let n = usize::dec(t);
        (0..n).map(|_| T::dec(t)).collect()
    }
}
impl<T: Enc> Enc for Option<T> {
    fn enc(&self, o: &mut String) {
        match self { None => o.push_str("N "), Some(v) => { o.push_str("S "); v.enc(o) } }
    }
    fn dec(t: &mut Toks) -> Self { if t.next() == "S" { Some(T::dec(t)) } else { None } }
}
impl Enc for () {
    fn enc(&self, _: &mut String) {}
    fn dec(_: &mut Toks) -> Self {}
}
macro_rules! tup { ($($n:ident)+) => {
    impl<$($n: Enc),+> Enc for ($($n,)+) {
        #[allow(non_snake_case)]
        fn enc(&self, o: &mut String) { let ($($n,)+) = self; $($n.enc(o);)+ }
        fn dec(t: &mut Toks) -> Self { ($($n::dec(t),)+) }
    } } }
tup!(A);
tup!(A B);
tup!(A B C);
tup!(A B C D);
tup!(A B C D F);
tup!(A B C D F G);
tup!(A B C D F G H);
tup!(A B C D F G H I);
