//! C01: ownership, bit-precisely. `Box<u8>` elements bring CBMC's heap checks
//! (use after free, double free, invalid free); `D` elements count drops, and
//! `Z` are zero-sized elements that count drops.
use crate::{harnesses, prop};
use crate::nd::Nd;
use rowcol::prelude::*;
use std::ops::{Add, Mul, Neg, Sub};

const MAX: usize = 16;
/// 0 unborn, 1 alive, 2 dropped
static mut LIFE: [u8; MAX] = [0; MAX];
static mut BORN: usize = 0;
static mut ZALIVE: usize = 0;
fn reset() { unsafe { LIFE = [0; MAX]; BORN = 0; ZALIVE = 0 } }
pub struct D(usize);
impl D {
    fn new() -> D { unsafe { let i = BORN; BORN += 1; LIFE[i] = 1; D(i) } }
    fn ok(&self) { prop!(self.0 < MAX && unsafe { LIFE[self.0] } == 1, "an element is used while it is alive") }
}
impl Drop for D {
    fn drop(&mut self) {
        prop!(self.0 < MAX, "only elements are dropped");
        unsafe { prop!(LIFE[self.0] != 2, "no element is dropped twice"); prop!(LIFE[self.0] == 1, "only elements are dropped"); LIFE[self.0] = 2 }
    }
}
impl Clone for D { fn clone(&self) -> D { self.ok(); D::new() } }
impl Add for D { type Output = D; fn add(self, o: D) -> D { self.ok(); o.ok(); D::new() } }
impl Mul for D { type Output = D; fn mul(self, o: D) -> D { self.ok(); o.ok(); D::new() } }
impl Neg for D { type Output = D; fn neg(self) -> D { self.ok(); D::new() } }
fn gone() { let mut i = 0; while i < MAX { prop!(unsafe { LIFE[i] } != 1, "every element is handed out or dropped"); i += 1; } }
pub struct Z;
impl Z { fn new() -> Z { unsafe { ZALIVE += 1 } Z } }
impl Drop for Z { fn drop(&mut self) { unsafe { prop!(ZALIVE > 0, "no element is dropped twice"); ZALIVE -= 1 } } }
fn zgone() { prop!(unsafe { ZALIVE } == 0, "every element is handed out or dropped") }

/// Takes `a` from the front and `c` from the back, makes one more call, drops the rest.
fn window<I: DoubleEndedIterator>(mk: impl Fn() -> I, n: usize, op: u8, k: usize, touch: impl Fn(&I::Item), done: impl Fn()) {
    let mut a = 0;
    while a <= n {
        let mut c = 0;
        while a + c <= n {
            {
                let mut it = mk();
                let mut i = 0;
                while i < a { if let Some(x) = it.next() { touch(&x) } i += 1; }
                i = 0;
                while i < c { if let Some(x) = it.next_back() { touch(&x) } i += 1; }
                match op {
                    0 => {}
                    1 => if let Some(x) = it.next() { touch(&x) },
                    2 => if let Some(x) = it.next_back() { touch(&x) },
                    3 => if let Some(x) = it.nth(k) { touch(&x) },
                    4 => if let Some(x) = it.nth_back(k) { touch(&x) },
                    5 => { let x = it.nth(k); let y = it.next_back(); if let Some(x) = &x { touch(x) } if let Some(y) = &y { touch(y) } }
                    6 => { it.count(); c += 1; done(); continue }
                    _ => { if let Some(x) = it.last() { touch(&x) } c += 1; done(); continue }
                }
            }
            done();
            c += 1;
        }
        a += 1;
    }
}
macro_rules! d_iter { ($nd:ident, $n:ident $k:literal, $op:literal) => {{ let k = $nd.usize(); window(|| { reset(); Vector::<D, $n>::new([(); $k].map(|_| D::new())).into_iter() }, $k, $op, k, |x| x.ok(), gone) }} }
macro_rules! z_iter { ($nd:ident, $n:ident $k:literal, $op:literal) => {{ let k = $nd.usize(); window(|| { reset(); Vector::<Z, $n>::new([(); $k].map(|_| Z::new())).into_iter() }, $k, $op, k, |_| {}, zgone) }} }
macro_rules! b_iter { ($nd:ident, $n:ident $k:literal, $op:literal) => {{ let k = $nd.usize(); let v = $nd.u8(); window(|| Vector::<Box<u8>, $n>::new([(); $k].map(|_| Box::new(v))).into_iter(), $k, $op, k, |x| prop!(**x == v, "an element handed out is intact"), || {}) }} }
macro_rules! d_chunks { ($nd:ident, $n:ident $k:literal $i:ident $j:literal, $op:literal) => {{ let k = $nd.usize(); window(|| { reset(); Vector::<D, $n>::new([(); $k].map(|_| D::new())).into_chunks::<$i>() }, $k / $j, $op, k, |x| for y in x.iter() { y.ok() }, gone) }} }
/// Collecting from a user iterator with as many items as the vector takes.
pub struct Take(usize);
impl Iterator for Take { type Item = D; fn next(&mut self) -> Option<D> { if self.0 == 0 { None } else { self.0 -= 1; Some(D::new()) } } }
macro_rules! few { ($nd:ident, $n:ident $k:literal) => {{
    reset();
    let count = $nd.idx($k);
    $nd.must_panic();
    let v: Vector<D, $n> = Take(count).collect();
    $nd.returned();
}} }
macro_rules! surplus { ($nd:ident, $n:ident $k:literal) => {{
    reset();
    let extra = $nd.idx(3);
    { let v: Vector<D, $n> = Take($k + extra).collect(); for x in v.iter() { x.ok() } }
    gone();
}} }
macro_rules! dv { ($n:ident $k:literal) => { Vector::<D, $n>::new([(); $k].map(|_| D::new())) } }
macro_rules! dm { ($r:ident $rn:literal, $c:ident $cn:literal) => { Matrix::<D, $r, $c>::new([(); $rn].map(|_| [(); $cn].map(|_| D::new()))) } }
fn oks<T: AsRef<[D]>>(v: T) { for x in v.as_ref() { x.ok() } }

harnesses! {
    c01_d_drop [18] nd => { d_iter!(nd, U0 0, 0); d_iter!(nd, U1 1, 0); d_iter!(nd, U3 3, 0) }
    c01_d_next [18] nd => { d_iter!(nd, U1 1, 1); d_iter!(nd, U3 3, 1); d_iter!(nd, U3 3, 2) }
    c01_d_nth [18] nd => { d_iter!(nd, U1 1, 3); d_iter!(nd, U3 3, 3) }
    c01_rel_d_nth [18] nd => { d_iter!(nd, U1 1, 3); d_iter!(nd, U2 2, 3) }
    c01_d_nthb [18] nd => { d_iter!(nd, U1 1, 4); d_iter!(nd, U3 3, 4) }
    c01_d_mixed [18] nd => { d_iter!(nd, U2 2, 5) }
    c01_d_mixed_3_t [18] nd => { d_iter!(nd, U3 3, 5) }
    c01_d_eat [18] nd => { d_iter!(nd, U3 3, 6); d_iter!(nd, U3 3, 7) }
    c01_z_drop [18] nd => { z_iter!(nd, U0 0, 0); z_iter!(nd, U1 1, 0); z_iter!(nd, U3 3, 0) }
    c01_z_next [18] nd => { z_iter!(nd, U3 3, 1); z_iter!(nd, U3 3, 2) }
    c01_z_nth [18] nd => { z_iter!(nd, U3 3, 3); z_iter!(nd, U2 2, 5) }
    c01_b_drop [8] nd => { b_iter!(nd, U1 1, 0); b_iter!(nd, U2 2, 0) }
    c01_b_next [8] nd => { b_iter!(nd, U2 2, 1); b_iter!(nd, U2 2, 2) }
    c01_b_nth [8] nd => { b_iter!(nd, U2 2, 3) }
    c01_chunks_a [18] nd => { d_chunks!(nd, U2 2 U2 2, 0); d_chunks!(nd, U2 2 U1 1, 1) }
    c01_chunks_b [18] nd => { d_chunks!(nd, U4 4 U2 2, 2) }
    c01_chunks_c [18] nd => { d_chunks!(nd, U4 4 U2 2, 1) }
    c01_both_few_2 [18] nd => { few!(nd, U2 2) }
    c01_both_few_4 [18] nd => { few!(nd, U4 4) }
    c01_rel_surplus_0 [18] nd => { surplus!(nd, U0 0) }
    c01_rel_surplus_2 [18] nd => { surplus!(nd, U2 2) }
    c01_rel_surplus_3 [18] nd => { surplus!(nd, U3 3) }
    c01_vec_ops [18] nd => {
        reset(); { let v = dv!(U3 3); let w = v.clone(); oks(&v); oks(&w); } gone();
        reset(); { let v = dv!(U2 2) + dv!(U2 2); oks(&v); } gone();
        reset(); { let v = dv!(U2 2) * D::new(); oks(&v); } gone();
        reset(); { let v = -dv!(U2 2); oks(&v); } gone();
        reset(); { let mut v = dv!(U3 3); v[1] = D::new(); v[U2::new()] = D::new(); oks(&v); } gone();
        reset(); { let a = dv!(U3 3).into_inner(); oks(&a[..]); } gone();
    }
    c01_mat_map [18] nd => { reset(); { let m = dm!(U2 2, U2 2).map(|_, x| { x.ok(); x }); for r in m.rows_iter_ref() { oks(r) } } gone(); }
    c01_mat_clone [18] nd => { reset(); { let m = dm!(U2 2, U1 1); let n = m.clone(); drop(m); for r in n.rows_iter_ref() { oks(r) } } gone(); }
    c01_mat_trans [18] nd => { reset(); { let m = dm!(U2 2, U2 2).transposed(); for r in m.rows_iter_ref() { oks(r) } } gone(); }
    c01_mat_from [18] nd => { reset(); { let m: Matrix<D, U2, U2> = dv!(U4 4).into(); for r in m.rows_iter_ref() { oks(r) } } gone(); }
    c01_mat_rows [18] nd => { reset(); { let m = dm!(U2 2, U2 2); let mut it = m.rows_iter(); if let Some(x) = it.next_back() { oks(&x) } } gone(); }
    c01_mat_cols [18] nd => { reset(); { let m = dm!(U2 2, U2 2); let mut it = m.cols_iter(); if let Some(x) = it.next() { oks(&x) } } gone(); }
    c01_d_nth_5_t [18] nd => { d_iter!(nd, U5 5, 3) }
    c01_d_mixed_5_t [18] nd => { d_iter!(nd, U5 5, 5) }
    c01_b_nth_3_t [8] nd => { b_iter!(nd, U3 3, 3); b_iter!(nd, U3 3, 5) }
    c01_chunks_6_t [18] nd => { d_chunks!(nd, U6 6 U2 2, 1); d_chunks!(nd, U6 6 U3 3, 2) }
    c01_chunks_nth_t [18] nd => { d_chunks!(nd, U4 4 U2 2, 3) }
}
