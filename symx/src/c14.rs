//! C14: equality and approximate equality, over arbitrary (also unlawful) element predicates.
use crate::elem::*;
use crate::eng::*;
use crate::{h, m, shapes, shapes_wide, v, vsizes};
use approx::ApproxEq;
use rowcol::prelude::*;
use std::marker::PhantomData;

fn conj(xs: Vec<u32>) -> u32 { with(|c| c.and(xs)) }
fn iff(got: bool, want: u32, msg: &'static str) { prove(if got { want } else { with(|c| c.not(want)) }, msg) }

impl Q2 { pub fn at(n: &str, i: usize, j: usize) -> Q2 { Q2(E::at(n, i, j).0) } }
fn q(n: &str, i: usize, j: usize) -> u32 { E::at(n, i, j).0 }

macro_rules! veq { ($n:ident $k:literal) => {{ if choose($k) {
    let (a, b) = (v!($n, "a", Q), v!($n, "b", Q));
    let want = || conj((0..$k).map(|i| eqp(q("a", i, 0), q("b", i, 0))).collect());
    iff(a == b, want(), "vector == exactly when every pair is equal");
    iff(!(a != b), want(), "vector != is the negation of ==");
    return } }} }
macro_rules! vhet { ($n:ident $k:literal) => {{ if choose($k) {
    let (a, b) = (v!($n, "a", Q), v!($n, "b", Q2));
    let want = || conj((0..$k).map(|i| { let (x, y) = (q("a", i, 0), q("b", i, 0)); with(|c| c.app("eqh", vec![x, y], Sort::Bool)) }).collect());
    iff(a == b, want(), "vector == vector of another type exactly when every pair is equal");
    iff(!(a != b), want(), "vector != vector of another type is the negation of ==");
    return } }} }
macro_rules! meq { ($r:ident $rn:literal, $c:ident $cn:literal) => {{ if choose($rn * 100 + $cn) {
    let (a, b) = (m!($r, $c, "a", Q), m!($r, $c, "b", Q));
    let want = || conj((0..$rn).flat_map(|i| (0..$cn).map(move |j| eqp(q("a", i, j), q("b", i, j)))).collect());
    iff(a == b, want(), "matrix == exactly when every pair is equal");
    iff(!(a != b), want(), "matrix != is the negation of ==");
    return } }} }

// a container compared with itself: elements need not equal themselves (NaN)
macro_rules! vself { ($n:ident $k:literal) => {{ if choose($k) {
    let a = v!($n, "a", Q);
    let want = || conj((0..$k).map(|i| eqp(q("a", i, 0), q("a", i, 0))).collect());
    iff(&a == &a, want(), "a vector equals itself exactly when every element equals itself");
    iff(!(&a != &a), want(), "vector != is the negation of ==");
    return } }} }
macro_rules! mself { ($r:ident $rn:literal, $c:ident $cn:literal) => {{ if choose($rn * 100 + $cn) {
    let a = m!($r, $c, "a", Q);
    let all = || (0..$rn).flat_map(|i| (0..$cn).map(move |j| (i, j)));
    let want = || conj(all().map(|(i, j)| eqp(q("a", i, j), q("a", i, j))).collect());
    iff(&a == &a, want(), "a matrix equals itself exactly when every element equals itself");
    iff(!(&a != &a), want(), "matrix != is the negation of ==");
    return } }} }
macro_rules! aself { ($r:ident $rn:literal, $c:ident $cn:literal) => {{ if choose($rn * 100 + $cn) {
    let a = m!($r, $c, "a", Q);
    let all = || (0..$rn).flat_map(|i| (0..$cn).map(move |j| (i, j)));
    // at most one element differs from itself
    let (e, x) = (E::var("epsilon"), E::var("maxrel"));
    let rel = choose(2);
    let p: Vec<u32> = all().map(|(i, j)| { let t = q("a", i, j); if rel { relp(t, t, e.0, x.0) } else { ulpp(t, t, e.0, 77) } }).collect();
    at_most_one(&p);
    if rel { iff(a.relative_eq(&a, e, x), conj(p), "relative_eq with itself") } else { iff(a.ulps_eq(&a, e, 77), conj(p), "ulps_eq with itself") }
    return } }} }
fn at_most_one(p: &[u32]) {
    let at = with(|c| c.var("differs", Sort::Int));
    for (k, &x) in p.iter().enumerate() {
        // x or at = k
        let ok = with(|c| { let k = c.mk(Node::IConst(k as i64), Sort::Int); let e = c.eq(at, k); let (ne, nx) = (c.not(e), c.not(x)); let both = c.and(vec![ne, nx]); c.not(both) });
        assume(ok);
    }
}

// relative and ulps comparison: every predicate value free (the code does not stop early between rows)
macro_rules! approx_free { ($r:ident $rn:literal, $c:ident $cn:literal) => {{ if choose($rn * 100 + $cn) {
    approx_check!($r $rn, $c $cn, |_p: Vec<u32>| ());
    return } }} }
// at most one pair differs, anywhere
macro_rules! approx_one { ($r:ident $rn:literal, $c:ident $cn:literal) => {{ if choose(100000 + $rn * 100 + $cn) {
    approx_check!($r $rn, $c $cn, |p: Vec<u32>| at_most_one(&p));
    return } }} }
macro_rules! approx_check { ($r:ident $rn:literal, $c:ident $cn:literal, $lim:expr) => {{
    let (a, b) = (m!($r, $c, "a", Q), m!($r, $c, "b", Q));
    let (e, x) = (E::var("epsilon"), E::var("maxrel"));
    let lim: fn(Vec<u32>) = $lim;
    if choose(1) {
        let all = || (0..$rn).flat_map(|i| (0..$cn).map(move |j| relp(q("a", i, j), q("b", i, j), e.0, x.0))).collect::<Vec<_>>();
        lim(all());
        iff(a.relative_eq(&b, e, x), conj(all()), "relative_eq exactly when every pair is");
    } else if choose(2) {
        let all = || (0..$rn).flat_map(|i| (0..$cn).map(move |j| ulpp(q("a", i, j), q("b", i, j), e.0, 77))).collect::<Vec<_>>();
        lim(all());
        iff(a.ulps_eq(&b, e, 77), conj(all()), "ulps_eq exactly when every pair is");
    } else if choose(3) {
        let all = || (0..$rn).flat_map(|i| (0..$cn).map(move |j| relp(q("a", i, j), q("b", i, j), e.0, x.0))).collect::<Vec<_>>();
        lim(all());
        iff(!a.relative_ne(&b, e, x), conj(all()), "relative_ne is the negation of relative_eq");
    } else {
        let all = || (0..$rn).flat_map(|i| (0..$cn).map(move |j| ulpp(q("a", i, j), q("b", i, j), e.0, 77))).collect::<Vec<_>>();
        lim(all());
        iff(!a.ulps_ne(&b, e, 77), conj(all()), "ulps_ne is the negation of ulps_eq");
    }
}} }

/// The tolerance in ulps is a machine number: its extremes and some between.
macro_rules! ulps { ($r:ident $rn:literal, $c:ident $cn:literal) => {{ if choose($rn * 100 + $cn) {
    let (a, b) = (m!($r, $c, "a", Q), m!($r, $c, "b", Q));
    let e = E::var("epsilon");
    for (n, &u) in [0u32, 1, 4, 127, 128, 255, 256, 65535, 65536 + 9, 1 << 31, u32::MAX - 1, u32::MAX].iter().enumerate() { if choose(n) {
        let all = || (0..$rn).flat_map(|i| (0..$cn).map(move |j| ulpp(q("a", i, j), q("b", i, j), e.0, u))).collect::<Vec<_>>();
        at_most_one(&all());
        iff(a.ulps_eq(&b, e, u), conj(all()), "ulps_eq exactly when every pair is, under the same tolerance");
        return
    } }
    return
} }} }

// Does the type claim Eq? (method resolution prefers the bounded impl)
struct P<T>(PhantomData<T>);
trait Claims { fn claims_eq(&self) -> bool { true } }
impl<T: Eq> Claims for P<T> {}
trait Not { fn claims_eq(&self) -> bool { false } }
impl<'a, T> Not for &'a P<T> {}
/// Lawful element: its equality is reflexive.
#[derive(Clone, Copy, Debug)]
struct L(u32);
impl L { fn at(n: &str, i: usize, j: usize) -> L { let x = q(n, i, j); assume(eqp(x, x)); L(x) } }
impl PartialEq for L { fn eq(&self, o: &L) -> bool { branch(eqp(self.0, o.0)) } }
impl Eq for L {}
macro_rules! vreflex { ($n:ident $k:literal) => {{
    if (&P::<Vector<Q, $n>>(PhantomData)).claims_eq() { let a = v!($n, "a", Q); must(a == a, "Vector claims Eq, so its equality is reflexive"); }
    if (&P::<Vector<L, $n>>(PhantomData)).claims_eq() { let a = v!($n, "l", L); must(a == a, "Vector claims Eq, so its equality is reflexive"); }
}} }
macro_rules! mreflex { ($r:ident $rn:literal, $c:ident $cn:literal) => {{
    if (&P::<Matrix<Q, $r, $c>>(PhantomData)).claims_eq() { let a = m!($r, $c, "a", Q); must(a == a, "Matrix claims Eq, so its equality is reflexive"); }
    if (&P::<Matrix<L, $r, $c>>(PhantomData)).claims_eq() { let a = m!($r, $c, "l", L); must(a == a, "Matrix claims Eq, so its equality is reflexive"); }
}} }
h! {
    vector_eq 0 { vsizes!(veq); }
    vector_eq_mixed 0 { vsizes!(vhet); }
    matrix_eq 0 { shapes!(meq); shapes_wide!(meq); }
    vector_self 0 { vsizes!(vself); }
    matrix_self 0 { shapes!(mself); shapes_wide!(mself); }
    approx_self 0 { shapes!(aself); }
    approx_self_wide 1 { shapes_wide!(aself); }
    approx_small 0 {
        approx_free!(U0 0, U0 0); approx_free!(U0 0, U3 3); approx_free!(U3 3, U0 0); approx_free!(U1 1, U1 1); approx_free!(U1 1, U5 5);
        approx_free!(U2 2, U1 1); approx_free!(U2 2, U2 2); approx_free!(U2 2, U3 3); approx_free!(U3 3, U2 2); approx_free!(U2 2, U5 5);
    }
    approx_one_pair 0 { shapes!(approx_one); }
    approx_more 1 { approx_free!(U3 3, U3 3); approx_free!(U4 4, U2 2); }
    approx_more_34 1 { approx_free!(U3 3, U4 4); }
    approx_one_wide 1 { approx_one!(U1 1, U32 32); approx_one!(U32 32, U1 1); approx_one!(U2 2, U17 17); approx_one!(U16 16, U3 3); }
    approx_one_large 1 { approx_one!(U7 7, U9 9); approx_one!(U9 9, U7 7); approx_one!(U6 6, U6 6); approx_one!(U8 8, U8 8); }
    approx_defaults 0 {
        type M = Matrix<Q, U2, U3>;
        M::default_epsilon().same(Q::default_epsilon(), "default epsilon");
        M::default_max_relative().same(Q::default_max_relative(), "default max relative");
        must(M::default_max_ulps() == Q::default_max_ulps(), "default max ulps");
    }
    approx_ulps 0 { ulps!(U1 1, U1 1); ulps!(U2 2, U2 2); ulps!(U1 1, U5 5); }
    eq_claim_vector 0 { vsizes!(vreflex); }
    eq_claim_matrix 0 { shapes!(mreflex); }
}
