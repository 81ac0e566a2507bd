//! C05: building from iterators, arrays and index functions.
use crate::elem::*;
use crate::eng::*;
use crate::{h, v, vchk, vsizes};
use rowcol::prelude::*;
use rowcol::vector::ArrayLen;
use std::cell::Cell;

/// Yields `left` items, then None for ever; its claim about its size is arbitrary.
/// Whether there is a further item is put to the solver (a free length).
struct Items<'a> { at: usize, cap: usize, lo: usize, hi: Option<usize>, asked: &'a Cell<usize> }
fn len_is(k: usize) -> bool { branch(with(|c| { let v = c.var("length", Sort::Int); let k = c.mk(Node::IConst(k as i64), Sort::Int); c.eq(v, k) })) }
impl<'a> Iterator for Items<'a> {
    type Item = E;
    fn next(&mut self) -> Option<E> {
        self.asked.set(self.asked.get() + 1);
        if self.at == self.cap || len_is(self.at) { return None }
        self.at += 1;
        Some(E::at("item", self.at - 1, 0))
    }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.lo, self.hi) }
}
macro_rules! collect { ($n:ident $k:literal) => {{
    for (x, &(lo, hi)) in [(0usize, None), ($k, Some($k)), (0, Some(0)), (usize::MAX, Some(usize::MAX)), ($k + 1, None), (0, Some($k))].iter().enumerate() {
        if !choose($k * 10 + x) { continue }
        let asked = Cell::new(0);
        // lengths 0 ..= N + 3
        let cap = $k + 3;
        let mut built: Option<Vector<E, $n>> = None;
        let p = panics(|| built = Some(Items { at: 0, cap, lo, hi, asked: &asked }.collect()));
        must(p == built.is_none(), "either a vector or a panic");
        // the length this path is about: the number of items that exist
        let mut len = cap;
        for l in 0..cap { if len_is(l) { len = l; break } }
        if len == $k { must(!p, "exactly N items are accepted") }
        if len < $k { must(p, "too few items are refused") }
        if len > $k && cfg!(debug_assertions) { must(p, "too many items are refused in builds with debug assertions") }
        if let Some(v) = built { vchk!(v, $k, "element i is the i-th item", |i| E::at("item", i, 0)) }
        return
    }
}} }
fn same_type<A: 'static, B: 'static>(a: A) -> Option<B> { let b: Box<dyn std::any::Any> = Box::new(a); b.downcast::<B>().ok().map(|b| *b) }
macro_rules! arrays { ($n:ident $k:literal) => {{
    let a: [E; $k] = std::array::from_fn(|i| E::at("a", i, 0));
    // whether the type behind the length is [E; N] is a question, not a precondition
    type Arr = <$n as ArrayLen<E>>::Array;
    let arr = || -> Option<Arr> { same_type(a) };
    must(arr().is_some(), "the array type of length N is [T; N]");
    must(std::mem::size_of::<Vector<E, $n>>() == std::mem::size_of::<[E; $k]>(), "a vector is as large as its array");
    vchk!(Vector::<E, $n>::new(arr().unwrap()), $k, "new", |i| E::at("a", i, 0));
    let back: [E; $k] = same_type(Vector::<E, $n>::new(arr().unwrap()).into_inner()).unwrap();
    for i in 0..$k { back[i].same(E::at("a", i, 0), "into_inner") }
    let v = Vector::<E, $n>::new(arr().unwrap());
    let d: &Arr = &*v;
    let d: [E; $k] = same_type(*d).unwrap();
    for i in 0..$k { d[i].same(E::at("a", i, 0), "deref") }
    vchk!(Vector::<E, $n>::generate(|i| E::at("f", i, 0)), $k, "generate", |i| E::at("f", i, 0));
    vchk!((0..$k).map(|i| E::at("g", i, 0)).collect::<Vector<E, $n>>(), $k, "collect", |i| E::at("g", i, 0));
    vchk!(v!($n, "h", E).into_iter().collect::<Vector<E, $n>>(), $k, "collect from a vector", |i| E::at("h", i, 0));
}} }
h! {
    collect_0 0 { collect!(U0 0); }
    collect_1 0 { collect!(U1 1); }
    collect_2 0 { collect!(U2 2); }
    collect_3 0 { collect!(U3 3); }
    collect_5 0 { collect!(U5 5); }
    collect_8 0 { collect!(U8 8); }
    collect_32 0 { collect!(U32 32); }
    collect_more 1 { collect!(U4 4); collect!(U6 6); collect!(U7 7); collect!(U9 9); collect!(U16 16); collect!(U31 31); }
    arrays 0 { vsizes!(arrays); }
}
