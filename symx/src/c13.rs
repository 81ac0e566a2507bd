//! C13: the inverse, over every field.
use crate::elem::*;
use crate::eng::{must, prove, with};
use crate::leib::{base, leibniz, KINDS};
use crate::{h, m, mchk};
use rowcol::prelude::*;

macro_rules! inv { ($n:ident $k:literal, |$i:ident, $j:ident| $e:expr) => {{
    crate::eng::rational();
    let f = |$i: usize, $j: usize| -> S { $e };
    let a = Matrix::<S, $n, $n>::generate(|(i, j)| f(i, j));
    let r = a.inverse();
    let zero = leibniz($k, &f).eqs(S::k(0));
    match r {
        None => prove(zero, "no inverse only for a zero determinant"),
        Some(b) => {
            prove(with(|c| c.not(zero)), "an inverse only for a non-zero determinant");
            for i in 0..$k { for j in 0..$k {
                let d = S::k(if i == j { 1 } else { 0 });
                let mut p = f(i, 0) * b[(0, j)];
                for k in 1..$k { p = p + f(i, k) * b[(k, j)] }
                p.same(d, "A * B = identity");
                let mut p = b[(i, 0)] * f(0, j);
                for k in 1..$k { p = p + b[(i, k)] * f(k, j) }
                p.same(d, "B * A = identity");
            } }
        }
    }
    for i in 0..$k { for j in 0..$k { a[(i, j)].same(f(i, j), "original unchanged") } }
}} }
macro_rules! part { ($n:ident $k:literal, $kinds:expr, $at:expr) => {{
    for kind in $kinds { for (c, at) in $at.into_iter().enumerate() {
        if !crate::eng::choose(kind * 1000 + c) { continue }
        let at: Vec<(usize, usize)> = at;
        inv!($n $k, |i, j| if at.contains(&(i, j)) { S::at("a", i, j) } else { S::k(base(kind, $k, i, j)) });
        return
    } }
}} }
fn ones(n: usize) -> Vec<Vec<(usize, usize)>> { (0..n * n).map(|x| vec![(x / n, x % n)]).collect() }
fn twos(n: usize) -> Vec<Vec<(usize, usize)>> {
    (0..n - 1).flat_map(|i| vec![vec![(i, i), (i + 1, i + 1)], vec![(i, i), (i + 1, i)], vec![(n - 1, i), (n - 1, i + 1)]]).collect()
}
h! {
    inv_1 0 { inv!(U1 1, |i, j| S::at("a", i, j)); }
    inv_2 0 { inv!(U2 2, |i, j| S::at("a", i, j)); }
    inv_3 0 { inv!(U3 3, |i, j| S::at("a", i, j)); }
    part_5 0 { part!(U5 5, 0..KINDS, ones(5)); }
    part_5_two 0 { part!(U5 5, 0..KINDS, twos(5)); }
    part_6 0 { part!(U6 6, 0..KINDS, ones(6)); }
    part_7 0 { part!(U7 7, vec![2, 3, 4], ones(7)); }
    part_8 1 { part!(U8 8, vec![2, 3, 4], ones(8)); }
    part_6_two 1 { part!(U6 6, 0..KINDS, twos(6)); }
    part_12 1 { part!(U12 12, vec![4], ones(12)); }
    inv_4 0 { inv!(U4 4, |i, j| S::at("a", i, j)); }
}
