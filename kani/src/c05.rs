//! C05: building from iterators and arrays, bit-precisely.
use crate::nd::Nd;
use crate::{harnesses, prop};
use rowcol::prelude::*;

/// A user iterator: call k of next() yields an item exactly when bit k of `mask`
/// is set (so it need not be fused), and the size hint is whatever it claims.
pub struct It { k: usize, mask: u8, vals: [u8; 8], hint: (usize, Option<usize>) }
impl It {
    fn any(nd: &mut Nd, bits: usize) -> It {
        let mask = nd.u8();
        nd.assume((mask as usize) < (1 << bits));
        let hint = (nd.usize(), if nd.bool() { Some(nd.usize()) } else { None });
        It { k: 0, mask, vals: nd.arr::<8>(), hint }
    }
    /// Items up to the first None.
    fn len(&self) -> usize { let mut n = 0; while n < 8 && self.mask >> n & 1 == 1 { n += 1 } n }
}
impl Iterator for It {
    type Item = u8;
    fn next(&mut self) -> Option<u8> {
        let k = self.k;
        if k >= 8 { return None }
        self.k += 1;
        if self.mask >> k & 1 == 1 { Some(self.vals[k]) } else { None }
    }
    fn size_hint(&self) -> (usize, Option<usize>) { self.hint }
}
macro_rules! exact { ($nd:ident, $n:ident $k:literal) => {{
    let it = It::any($nd, $k + 2);
    $nd.assume(it.len() == $k);
    let a = it.vals;
    let v: Vector<u8, $n> = it.collect();
    prop!(v.as_slice().len() == $k, "the vector has N elements");
    let mut i = 0;
    while i < $k { prop!(v.as_slice()[i] == a[i], "element i is the i-th item"); i += 1; }
}} }
macro_rules! few { ($nd:ident, $n:ident $k:literal) => {{
    let it = It::any($nd, $k + 2);
    $nd.assume(it.len() < $k);
    $nd.must_panic();
    let v: Vector<u8, $n> = it.collect();
    $nd.returned();
}} }
macro_rules! many { ($nd:ident, $n:ident $k:literal) => {{
    let it = It::any($nd, $k + 2);
    $nd.assume(it.len() > $k);
    $nd.must_panic();
    let v: Vector<u8, $n> = it.collect();
    $nd.returned();
}} }
/// Without debug assertions: whatever comes back holds the first N items.
macro_rules! many_rel { ($nd:ident, $n:ident $k:literal) => {{
    let it = It::any($nd, $k + 2);
    $nd.assume(it.len() > $k);
    let a = it.vals;
    let v: Vector<u8, $n> = it.collect();
    let mut i = 0;
    while i < $k { prop!(v.as_slice()[i] == a[i], "element i is the i-th item"); i += 1; }
}} }
macro_rules! array { ($nd:ident, $n:ident $k:literal) => {{
    let a = $nd.arr::<$k>();
    let v = Vector::<u8, $n>::new(a);
    prop!(v.len() == $k, "len() is N");
    prop!(v.is_empty() == ($k == 0), "is_empty() says whether N is 0");
    prop!(v.as_slice().len() == $k && v.iter().count() == $k, "the slice has N elements");
    let d: &[u8; $k] = &v;
    let mut i = 0;
    while i < $k { prop!(d[i] == a[i], "deref gives the array"); prop!(v.as_slice()[i] == a[i], "as_slice gives the array"); prop!(v.as_ref()[i] == a[i], "as_ref gives the array"); i += 1; }
    let b: [u8; $k] = v.into_inner();
    i = 0;
    while i < $k { prop!(b[i] == a[i], "into_inner gives the array back"); i += 1; }
    let mut calls = 0;
    let g = Vector::<u8, $n>::generate(|i| { prop!(i == calls, "the index function is called in order"); calls += 1; a[i] });
    prop!(calls == $k, "the index function is called once for each index");
    i = 0;
    while i < $k { prop!(g.as_slice()[i] == a[i], "generate puts f(i) at i"); i += 1; }
}} }

harnesses! {
    c05_both_exact_0 [12] nd => { exact!(nd, U0 0) }
    c05_both_exact_1 [12] nd => { exact!(nd, U1 1) }
    c05_both_exact_2 [12] nd => { exact!(nd, U2 2) }
    c05_both_exact_4 [12] nd => { exact!(nd, U4 4) }
    c05_both_exact_6 [12] nd => { exact!(nd, U6 6) }
    c05_both_few_1 [12] nd => { few!(nd, U1 1) }
    c05_both_few_2 [12] nd => { few!(nd, U2 2) }
    c05_both_few_4 [12] nd => { few!(nd, U4 4) }
    c05_both_few_6 [12] nd => { few!(nd, U6 6) }
    c05_many_0 [12] nd => { many!(nd, U0 0) }
    c05_many_1 [12] nd => { many!(nd, U1 1) }
    c05_many_3 [12] nd => { many!(nd, U3 3) }
    c05_many_6 [12] nd => { many!(nd, U6 6) }
    c05_rel_many_0 [12] nd => { many_rel!(nd, U0 0) }
    c05_rel_many_1 [12] nd => { many_rel!(nd, U1 1) }
    c05_rel_many_3 [12] nd => { many_rel!(nd, U3 3) }
    c05_rel_many_6 [12] nd => { many_rel!(nd, U6 6) }
    c05_arrays [12] nd => { array!(nd, U0 0); array!(nd, U1 1); array!(nd, U2 2); array!(nd, U3 3); array!(nd, U4 4); array!(nd, U8 8) }
    c05_array_32 [36] nd => { array!(nd, U32 32) }
}
