//! C15: maxima, minima and clamping, over every total preorder (symbolic ranks with ties).
use crate::elem::*;
use crate::eng::*;
use crate::{h, m, mchk, shapes, shapes_wide, v, vchk, vsizes};
use rowcol::prelude::*;
use std::cmp::Ordering;

/// Element ordered by its rank; elements of equal rank are still distinguishable.
#[derive(Clone, Debug)]
struct O { rank: S, id: usize }
impl PartialEq for O { fn eq(&self, o: &O) -> bool { self.rank == o.rank } }
impl Eq for O {}
impl PartialOrd for O { fn partial_cmp(&self, o: &O) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for O { fn cmp(&self, o: &O) -> Ordering { self.rank.cmp(&o.rank) } }
/// No order of its own: only the supplied comparison counts.
#[derive(Clone)]
struct U { rank: S, id: usize }

fn le(a: S, b: S) -> u32 { let l = b.lts(a); with(|c| c.not(l)) }

/// Runs `f` on rank assignments: all ranks free (2), two free ranks at any two
/// places and one shared by all other elements (1), or one and one (0).
fn ranks(n: usize, mode: u8, f: &dyn Fn(&dyn Fn(usize) -> S)) {
    if mode == 2 { f(&|i| S::at("rank", i, 0)); return }
    if mode == 0 {
        for p in 0..n { if !choose(p) { continue } f(&|i| if i == p { S::var("x") } else { S::var("rest") }); return }
        f(&|_| S::var("rest"));
        return
    }
    for p in 0..n { for q in 0..p {
        if !choose(p * 1000 + q) { continue }
        f(&|i| if i == p { S::var("x") } else if i == q { S::var("y") } else { S::var("rest") });
        return
    } }
    f(&|i| if i == 0 { S::var("x") } else { S::var("rest") });
}
fn is_max(r: S, id: usize, n: usize, rank: &dyn Fn(usize) -> S) {
    must(id < n, "the maximum is one of the elements");
    r.same(rank(id), "the maximum is one of the elements");
    for i in 0..n { prove(le(rank(i), r), "no element compares greater than the maximum") }
}
fn is_min(r: S, id: usize, n: usize, rank: &dyn Fn(usize) -> S) {
    must(id < n, "the minimum is one of the elements");
    r.same(rank(id), "the minimum is one of the elements");
    for i in 0..n { prove(le(r, rank(i)), "no element compares less than the minimum") }
}
macro_rules! vext { ($n:ident $k:literal, $mode:literal) => {{ if choose(1000000 + $k) {
    ranks($k, $mode, &|rank| {
        let v = Vector::<O, $n>::generate(|i| O { rank: rank(i), id: i });
        let u = Vector::<U, $n>::generate(|i| U { rank: rank(i), id: i });
        if choose(2000000) { let r = v.max(); is_max(r.rank, r.id, $k, rank) }
        else if choose(2000001) { let r = v.min(); is_min(r.rank, r.id, $k, rank) }
        else if choose(2000002) { let r = u.max_by(|a, b| a.rank.cmp(&b.rank)); is_max(r.rank, r.id, $k, rank) }
        else { let r = u.min_by(|a, b| a.rank.cmp(&b.rank)); is_min(r.rank, r.id, $k, rank) }
        for i in 0..$k { must(v[i].id == i && u[i].id == i, "the vector is unchanged") }
    });
    return } }} }
macro_rules! mext { ($n:ident $k:literal, $mode:literal) => {{ if choose(1000000 + $k) {
    ranks($k * $k, $mode, &|rank| {
        let v = Matrix::<O, $n, $n>::generate(|(i, j)| O { rank: rank(i * $k + j), id: i * $k + j });
        let u = Matrix::<U, $n, $n>::generate(|(i, j)| U { rank: rank(i * $k + j), id: i * $k + j });
        if choose(2000000) { let r = v.max(); is_max(r.rank, r.id, $k * $k, rank) }
        else if choose(2000001) { let r = v.min(); is_min(r.rank, r.id, $k * $k, rank) }
        else if choose(2000002) { let r = u.max_by(|a, b| a.rank.cmp(&b.rank)); is_max(r.rank, r.id, $k * $k, rank) }
        else { let r = u.min_by(|a, b| a.rank.cmp(&b.rank)); is_min(r.rank, r.id, $k * $k, rank) }
        for i in 0..$k { for j in 0..$k { must(v[(i, j)].id == i * $k + j && u[(i, j)].id == i * $k + j, "the matrix is unchanged") } }
    });
    return } }} }

const MIN: usize = 1 << 20;
const MAX: usize = 1 << 21;
fn clamp_ok(r: &O, id: usize, rank: S, lo: S, hi: S) {
    // the expected rank: lo, hi, or the element's own
    let (below, above) = (rank.lts(lo), hi.lts(rank));
    let (ge, le) = with(|c| (c.not(below), c.not(above)));
    let imp = |a: u32, b: u32, m| { let t = with(|c| { let nb = c.not(b); let x = c.and(vec![a, nb]); c.not(x) }); prove(t, m) };
    imp(below, r.rank.eqs(lo), "an element below min becomes min");
    imp(above, r.rank.eqs(hi), "an element above max becomes max");
    let inside = with(|c| c.and(vec![ge, le]));
    imp(inside, r.rank.eqs(rank), "an element inside the range stays");
    // between equals either may be taken
    must(r.id == id || r.id == MIN || r.id == MAX, "an element keeps its place");
}
/// All ranks free (2), one free at any place and one shared (1), or one free and the rest inside the range (0).
fn clamp_ranks(n: usize, mode: u8, lo: S, hi: S, f: &dyn Fn(&dyn Fn(usize) -> S)) {
    if mode == 2 { f(&|i| S::at("rank", i, 0)); return }
    if mode == 0 { assume(le(lo, S::var("rest"))); assume(le(S::var("rest"), hi)); }
    for p in 0..n { if !choose(p) { continue } f(&|i| if i == p { S::var("x") } else { S::var("rest") }); return }
    f(&|_| S::var("rest"));
}
macro_rules! vclamp { ($n:ident $k:literal, $mode:literal) => {{ if choose(1000000 + $k) {
    let (lo, hi) = (S::var("lo"), S::var("hi"));
    assume(le(lo, hi));
    clamp_ranks($k, $mode, lo, hi, &|rank| {
        let mut v = Vector::<O, $n>::generate(|i| O { rank: rank(i), id: i });
        if choose(2000000) {
            let w = v.clamped(O { rank: lo, id: MIN }, O { rank: hi, id: MAX });
            for i in 0..$k { clamp_ok(&w[i], i, rank(i), lo, hi); must(v[i].id == i, "clamped leaves the original"); v[i].rank.same(rank(i), "clamped leaves the original") }
        } else {
            v.clamp(O { rank: lo, id: MIN }, O { rank: hi, id: MAX });
            for i in 0..$k { clamp_ok(&v[i], i, rank(i), lo, hi) }
        }
    });
    return } }} }
macro_rules! mclamp { ($r:ident $rn:literal, $c:ident $cn:literal, $mode:literal) => {{ if choose(1000000 + $rn * 100 + $cn) {
    let (lo, hi) = (S::var("lo"), S::var("hi"));
    assume(le(lo, hi));
    clamp_ranks($rn * $cn, $mode, lo, hi, &|rank| {
        let mut v = Matrix::<O, $r, $c>::generate(|(i, j)| O { rank: rank(i * $cn + j), id: i * $cn + j });
        let at = |i: usize, j: usize| i * $cn + j;
        if choose(2000000) {
            let w = v.clamped(O { rank: lo, id: MIN }, O { rank: hi, id: MAX });
            for i in 0..$rn { for j in 0..$cn { clamp_ok(&w[(i, j)], at(i, j), rank(at(i, j)), lo, hi); must(v[(i, j)].id == at(i, j), "clamped leaves the original"); v[(i, j)].rank.same(rank(at(i, j)), "clamped leaves the original") } }
        } else {
            v.clamp(O { rank: lo, id: MIN }, O { rank: hi, id: MAX });
            for i in 0..$rn { for j in 0..$cn { clamp_ok(&v[(i, j)], at(i, j), rank(at(i, j)), lo, hi) } }
        }
    });
    return } }} }
macro_rules! mclamp_wide { ($r:ident $rn:literal, $c:ident $cn:literal) => { mclamp!($r $rn, $c $cn, 0); } }
macro_rules! vclamp_wide { ($n:ident $k:literal) => { vclamp!($n $k, 0); } }
h! {
    vector_extremes 0 { vext!(U1 1, 2); vext!(U2 2, 2); vext!(U3 3, 2); vext!(U4 4, 2); vext!(U5 5, 2); }
    vector_extremes_6 0 { vext!(U6 6, 1); }
    vector_extremes_wide 0 { vext!(U7 7, 0); vext!(U8 8, 0); vext!(U12 12, 0); vext!(U16 16, 0); vext!(U32 32, 0); }
    vector_extremes_more 1 { vext!(U8 8, 1); vext!(U12 12, 1); }
    vector_extremes_free_6 1 { vext!(U6 6, 2); }
    vector_extremes_32 1 { vext!(U17 17, 0); vext!(U31 31, 0); vext!(U24 24, 0); }
    matrix_extremes 0 { mext!(U1 1, 2); mext!(U2 2, 2); }
    matrix_extremes_3 0 { mext!(U3 3, 1); }
    matrix_extremes_4 0 { mext!(U4 4, 0); mext!(U5 5, 0); }
    matrix_extremes_4_pair 1 { mext!(U4 4, 1); }
    matrix_extremes_5_pair 1 { mext!(U5 5, 1); }
    matrix_extremes_6 1 { mext!(U6 6, 0); mext!(U7 7, 0); }
    vector_clamp 0 { vclamp!(U0 0, 2); vclamp!(U1 1, 2); vclamp!(U2 2, 2); vclamp!(U3 3, 2); }
    vector_clamp_wide 0 { vclamp!(U4 4, 1); vclamp!(U5 5, 0); vclamp!(U8 8, 0); vclamp!(U17 17, 0); vclamp!(U32 32, 0); }
    matrix_clamp 0 { mclamp!(U0 0, U0 0, 2); mclamp!(U0 0, U3 3, 2); mclamp!(U3 3, U0 0, 2); mclamp!(U1 1, U1 1, 2); mclamp!(U1 1, U2 2, 2); mclamp!(U2 2, U1 1, 2); mclamp!(U1 1, U3 3, 2); }
    matrix_clamp_wide 0 { mclamp!(U2 2, U2 2, 1); mclamp!(U2 2, U3 3, 1); mclamp!(U3 3, U2 2, 0); mclamp!(U4 4, U4 4, 0); mclamp!(U2 2, U5 5, 0); mclamp!(U5 5, U2 2, 0); }
    matrix_clamp_all 1 { shapes!(mclamp_wide); shapes_wide!(mclamp_wide); }
    matrix_clamp_2x2 1 { mclamp!(U2 2, U2 2, 2); }
    vector_clamp_all 1 { vsizes!(vclamp_wide); }
}
