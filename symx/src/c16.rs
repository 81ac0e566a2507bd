//! C16: element visitors. Element values are uninterpreted; callback answers are free booleans.
use crate::elem::*;
use crate::eng::*;
use crate::{h, m, mchk, shapes, shapes_wide, v, vchk, vsizes};
use num::Bounded;
use rowcol::prelude::*;
use std::cell::RefCell;

fn order(n: &[(usize, usize)], r: usize, c: usize, msg: &'static str) {
    let want: Vec<(usize, usize)> = (0..r).flat_map(|i| (0..c).map(move |j| (i, j))).collect();
    must(n == &want[..], msg)
}
macro_rules! vgen { ($n:ident $k:literal) => {{
    let mut calls = vec![];
    let w = Vector::<E, $n>::generate(|i| { calls.push((i, 0)); E::at("call", calls.len() - 1, i) });
    order(&calls, $k, 1, "generate calls once per index, in order");
    vchk!(w, $k, "generate puts the k-th answer at k", |i| E::at("call", i, i));
}} }
macro_rules! mgen { ($r:ident $rn:literal, $c:ident $cn:literal) => {{
    let mut calls = vec![];
    let w = Matrix::<E, $r, $c>::generate(|(i, j)| { calls.push((i, j)); E::at("call", calls.len() - 1, i * 100 + j) });
    order(&calls, $rn, $cn, "generate calls once per position, in row-major order");
    mchk!(w, $rn, $cn, "generate puts each answer at its position", |i, j| E::at("call", i * $cn + j, i * 100 + j));
}} }
/// element of another type, which cannot be copied
struct F(E);
macro_rules! mmap { ($r:ident $rn:literal, $c:ident $cn:literal) => {{
    let mut calls = vec![];
    let a = Matrix::<F, $r, $c>::generate(|(i, j)| F(E::at("a", i, j)));
    let w: Matrix<E, $r, $c> = a.map(|(i, j), x: F| { calls.push((i, j)); E::f2("mapped", x.0, E::at("call", calls.len() - 1, i * 100 + j)) });
    order(&calls, $rn, $cn, "map calls once per position, in row-major order");
    mchk!(w, $rn, $cn, "map puts each answer at its position", |i, j| E::f2("mapped", E::at("a", i, j), E::at("call", i * $cn + j, i * 100 + j)));
}} }

fn flag(i: usize, j: usize) -> u32 { with(|c| c.var(&format!("says_{}_{}", i, j), Sort::Bool)) }
macro_rules! query { ($r:ident $rn:literal, $c:ident $cn:literal) => {{ if choose($rn * 100 + $cn) {
    let a = m!($r, $c, "a", E);
    let calls = RefCell::new(vec![]);
    let seen = |(i, j): (usize, usize), x: &E| -> bool { x.same(E::at("a", i, j), "the visited element is the one at its index"); calls.borrow_mut().push((i, j)); branch(flag(i, j)) };
    let all = choose(1);
    let got = if all { a.all(&seen) } else { a.any(&seen) };
    let flags: Vec<u32> = (0..$rn).flat_map(|i| (0..$cn).map(move |j| flag(i, j))).collect();
    let want = with(|c| if all { c.and(flags.clone()) } else { let n = flags.iter().map(|x| c.not(*x)).collect(); let x = c.and(n); c.not(x) });
    prove(if got { want } else { with(|c| c.not(want)) }, "all/any is the conjunction/disjunction of the answers");
    // visited: a prefix of the row-major order, cut at the first decider
    let calls = calls.into_inner();
    for (k, p) in calls.iter().enumerate() {
        must(*p == (k / $cn, k % $cn), "all/any visit positions in row-major order, each once");
        if k + 1 < calls.len() { prove(with(|c| if all { flags[k] } else { c.not(flags[k]) }), "all/any stop at the first element that decides") }
    }
    if calls.len() < $rn * $cn { prove(if calls.is_empty() { with(|c| c.boolean(false)) } else { let f = flags[calls.len() - 1]; with(|c| if all { c.not(f) } else { f }) }, "all/any go on until the answer is decided") }
    return } }} }

thread_local! { static CLONES: RefCell<Vec<u32>> = RefCell::new(vec![]); }
/// Element that records being cloned; a clone is told from its original.
struct G(E);
impl Clone for G { fn clone(&self) -> G { CLONES.with(|c| c.borrow_mut().push((self.0).0)); G(E::f1("clone", self.0)) } }
fn clones(want: Vec<u32>, msg: &'static str) { let mut got = CLONES.with(|c| std::mem::take(&mut *c.borrow_mut())); got.sort(); let mut want = want; want.sort(); must(got == want, msg) }
macro_rules! vfill { ($n:ident $k:literal) => {{
    vchk!(Vector::<E, $n>::default(), $k, "default", |_i| E::default());
    vchk!(<Vector<E, $n> as Bounded>::min_value(), $k, "min_value", |_i| <E as Bounded>::min_value());
    vchk!(<Vector<E, $n> as Bounded>::max_value(), $k, "max_value", |_i| <E as Bounded>::max_value());
    let a = Vector::<G, $n>::generate(|i| G(E::at("a", i, 0)));
    clones(vec![], "nothing is cloned while generating");
    let b = a.clone();
    clones((0..$k).map(|i| E::at("a", i, 0).0).collect(), "each element is cloned once");
    for i in 0..$k { a[i].0.same(E::at("a", i, 0), "the original is unchanged"); b[i].0.same(E::f1("clone", E::at("a", i, 0)), "the clone holds the element's clone") }
}} }
macro_rules! mfill { ($r:ident $rn:literal, $c:ident $cn:literal) => {{
    mchk!(Matrix::<E, $r, $c>::default(), $rn, $cn, "default", |_i, _j| E::default());
    mchk!(<Matrix<E, $r, $c> as Bounded>::min_value(), $rn, $cn, "min_value", |_i, _j| <E as Bounded>::min_value());
    mchk!(<Matrix<E, $r, $c> as Bounded>::max_value(), $rn, $cn, "max_value", |_i, _j| <E as Bounded>::max_value());
    let a = Matrix::<G, $r, $c>::generate(|(i, j)| G(E::at("a", i, j)));
    clones(vec![], "nothing is cloned while generating");
    let b = a.clone();
    clones((0..$rn).flat_map(|i| (0..$cn).map(move |j| E::at("a", i, j).0)).collect(), "each element is cloned once");
    for i in 0..$rn { for j in 0..$cn { a[(i, j)].0.same(E::at("a", i, j), "the original is unchanged"); b[(i, j)].0.same(E::f1("clone", E::at("a", i, j)), "the clone holds the element's clone") } }
}} }
h! {
    generate_vectors 0 { vsizes!(vgen); }
    generate_matrices 0 { shapes!(mgen); shapes_wide!(mgen); }
    map_matrices 0 { shapes!(mmap); shapes_wide!(mmap); }
    all_any 0 { shapes!(query); }
    all_any_wide 0 { query!(U1 1, U32 32); query!(U32 32, U1 1); query!(U6 6, U6 6); query!(U2 2, U17 17); }
    all_any_large 1 { shapes_wide!(query); }
    fill_vectors 0 { vsizes!(vfill); }
    fill_matrices 0 { shapes!(mfill); shapes_wide!(mfill); }
}
