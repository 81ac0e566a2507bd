//! C20: literal macros. A literal of a supported shape that the compiler rejects
//! is a violation too: see `must_compile` in lib/plan.py.
use crate::{harnesses, prop};
use core::cell::Cell;
use rowcol::prelude::*;
use rowcol::{matrix, vector};

/// An expression that records that, and when, it was evaluated.
struct Log { n: Cell<usize> }
impl Log {
    fn new() -> Log { Log { n: Cell::new(0) } }
    fn ev(&self, k: usize, x: u8) -> u8 { prop!(self.n.get() == k, "the expressions are evaluated once each, in order"); self.n.set(k + 1); x }
}
macro_rules! vec_lit { ($nd:ident, $k:literal; $($i:literal)*) => {{
    let a: [u8; $k] = $nd.arr::<$k>();
    let l = Log::new();
    let v = vector![$(l.ev($i, a[$i])),*];
    prop!(l.n.get() == $k, "every expression is evaluated");
    prop!(v.len() == $k, "the literal has as many elements as were written");
    let _typed: &[u8] = v.as_slice();
    prop!(core::mem::size_of_val(&v) == $k, "the type-level length is the number of elements");
    let mut i = 0;
    while i < $k && i < v.len() { prop!(v[i] == a[i], "element i is the i-th expression"); i += 1; }
}} }
macro_rules! mat_lit { ($nd:ident, $r:literal, $c:literal; $([$($i:literal)*])*) => {{
    let a: [u8; $r * $c] = $nd.arr::<{ $r * $c }>();
    let l = Log::new();
    let m = matrix![$([$(l.ev($i, a[$i])),*]),*];
    prop!(l.n.get() == $r * $c, "every expression is evaluated");
    prop!(m.dim() == ($r, $c), "the literal has the dimensions written");
    prop!(m.rows() == $r && m.cols() == $c, "the literal has the rows and columns written");
    let mut i = 0;
    while i < $r && m.dim() == ($r, $c) {
        let mut j = 0;
        while j < $c { prop!(m[(i, j)] == a[i * $c + j], "element (i, j) is the j-th expression of row i"); j += 1; }
        i += 1;
    }
}} }

harnesses! {
    c20m_vec_small [12] nd => { vec_lit!(nd, 1; 0); vec_lit!(nd, 2; 0 1); vec_lit!(nd, 3; 0 1 2); vec_lit!(nd, 4; 0 1 2 3) }
    c20m_vec_mid [12] nd => { vec_lit!(nd, 5; 0 1 2 3 4); vec_lit!(nd, 6; 0 1 2 3 4 5); vec_lit!(nd, 7; 0 1 2 3 4 5 6); vec_lit!(nd, 8; 0 1 2 3 4 5 6 7); vec_lit!(nd, 9; 0 1 2 3 4 5 6 7 8) }
    c20m_vec_16 [20] nd => { vec_lit!(nd, 16; 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15); vec_lit!(nd, 17; 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16) }
    c20m_vec_32 [36] nd => { vec_lit!(nd, 32; 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31) }
    c20m_vec_0 [8] nd => { let v: Vector<u8, _> = vector![]; prop!(v.len() == 0, "an empty literal has length 0"); }
    c20m_mat_square [12] nd => { mat_lit!(nd, 1, 1; [0]); mat_lit!(nd, 2, 2; [0 1] [2 3]); mat_lit!(nd, 3, 3; [0 1 2] [3 4 5] [6 7 8]) }
    c20m_mat_wide [12] nd => { mat_lit!(nd, 1, 2; [0 1]); mat_lit!(nd, 1, 3; [0 1 2]); mat_lit!(nd, 2, 3; [0 1 2] [3 4 5]); mat_lit!(nd, 2, 4; [0 1 2 3] [4 5 6 7]) }
    c20m_mat_tall [12] nd => { mat_lit!(nd, 2, 1; [0] [1]); mat_lit!(nd, 3, 1; [0] [1] [2]); mat_lit!(nd, 3, 2; [0 1] [2 3] [4 5]); mat_lit!(nd, 4, 2; [0 1] [2 3] [4 5] [6 7]) }
    c20m_mat_44 [20] nd => { mat_lit!(nd, 4, 4; [0 1 2 3] [4 5 6 7] [8 9 10 11] [12 13 14 15]) }
    c20m_mat_15 [12] nd => { mat_lit!(nd, 1, 5; [0 1 2 3 4]); mat_lit!(nd, 5, 1; [0] [1] [2] [3] [4]) }
    c20m_mat_empty [8] nd => {
        let m: Matrix<u8, _, _> = matrix![]; prop!(m.dim() == (0, 0), "an empty literal is 0 by 0");
        let m: Matrix<u8, _, _> = matrix![[], [], []]; prop!(m.dim() == (3, 0), "rows without elements");
    }
}
