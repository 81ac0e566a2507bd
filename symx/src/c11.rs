//! C11: the determinant equals the Leibniz sum over every field.
use crate::elem::*;
use crate::{h, m};
use rowcol::prelude::*;

use crate::leib::{base, leibniz, KINDS};
macro_rules! det { ($n:ident $k:literal) => {{
    crate::eng::rational();
    let a = m!($n, $n, "a", S);
    a.determinant().same(leibniz($k, &|i, j| S::at("a", i, j)), "determinant = Leibniz sum");
}} }
/// A constant matrix with free entries at `at`, one case per kind of constant matrix.
macro_rules! part { ($n:ident $k:literal, $kinds:expr, $at:expr) => {{
    for kind in $kinds { for (c, at) in $at.into_iter().enumerate() {
        if !crate::eng::choose(kind * 1000 + c) { continue }
        crate::eng::rational();
        let at: Vec<(usize, usize)> = at;
        let f = |i: usize, j: usize| if at.contains(&(i, j)) { S::at("a", i, j) } else { S::k(base(kind, $k, i, j)) };
        Matrix::<S, $n, $n>::generate(|(i, j)| f(i, j)).determinant().same(leibniz($k, &f), "determinant = Leibniz sum");
        return
    } }
}} }
/// every single position
pub fn ones(n: usize) -> Vec<Vec<(usize, usize)>> { (0..n * n).map(|x| vec![(x / n, x % n)]).collect() }
/// pairs of positions: two neighbours on the diagonal, a diagonal and an off-diagonal one, two in the last row
pub fn twos(n: usize) -> Vec<Vec<(usize, usize)>> {
    (0..n - 1).flat_map(|i| vec![vec![(i, i), (i + 1, i + 1)], vec![(i, i), (i + 1, i)], vec![(n - 1, i), (n - 1, i + 1)]]).collect()
}
h! {
    det_1 0 { det!(U1 1); }
    det_2 0 { det!(U2 2); }
    det_3 0 { det!(U3 3); }
    det_4 0 { det!(U4 4); }
    part_5 0 { part!(U5 5, 0..KINDS, ones(5)); }
    part_5_two 0 { part!(U5 5, 0..KINDS, twos(5)); }
    part_6 0 { part!(U6 6, 0..KINDS, ones(6)); }
    part_7 0 { part!(U7 7, vec![2, 3, 4], ones(7)); }
    part_8 1 { part!(U8 8, vec![2, 3, 4], ones(8)); }
    part_6_two 1 { part!(U6 6, 0..KINDS, twos(6)); }
    part_12 1 { part!(U12 12, vec![4], ones(12)); }
    det_5 1 { det!(U5 5); }
}
