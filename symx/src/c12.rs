//! C12: the cofactor is the signed determinant of the matching minor, over every field.
use crate::elem::*;
use crate::eng::{must, panics};
use crate::leib::{base, leibniz, KINDS};
use crate::{h, m};
use rowcol::prelude::*;

macro_rules! cof { ($n:ident $k:literal, $pos:expr) => {{
    for (i, j) in $pos {
        if !crate::eng::choose(i * 100 + j) { continue }
        crate::eng::rational();
        let a = m!($n, $n, "a", S);
        let minor = |r: usize, c: usize| S::at("a", if r < i { r } else { r + 1 }, if c < j { c } else { c + 1 });
        let d = leibniz($k - 1, &minor);
        a.cofactor((i, j)).same(if (i + j) % 2 == 0 { d } else { -d }, "cofactor = signed minor");
        return
    }
}} }
macro_rules! outside { ($n:ident $k:literal) => {{
    let big = [$k, $k + 1, $k + 2, 2 * $k, 2 * $k + 1, 255, 256, 1 << 16, 1 << 32, usize::MAX / 2, usize::MAX / 2 + 1, usize::MAX - 2, usize::MAX - 1, usize::MAX];
    for &b in big.iter() {
        for k in 0..$k {
            must(panics(|| m!($n, $n, "a", S).cofactor((b, k))), "row out of range panics");
            must(panics(|| m!($n, $n, "a", S).cofactor((k, b))), "column out of range panics");
        }
        for &c in big.iter() { must(panics(|| m!($n, $n, "a", S).cofactor((b, c))), "both out of range panics"); }
    }
}} }
macro_rules! part { ($n:ident $k:literal, $kinds:expr, $free:expr) => {{
    for kind in $kinds { for (i, j) in all($k) { for (c, &at) in $free.iter().enumerate() {
        if !crate::eng::choose(kind * 10000 + c * 1000 + i * 20 + j) { continue }
        crate::eng::rational();
        let f = |r: usize, c: usize| if at == (r, c) { S::at("a", r, c) } else { S::k(base(kind, $k, r, c)) };
        let minor = |r: usize, c: usize| f(if r < i { r } else { r + 1 }, if c < j { c } else { c + 1 });
        let d = leibniz($k - 1, &minor);
        Matrix::<S, $n, $n>::generate(|(i, j)| f(i, j)).cofactor((i, j)).same(if (i + j) % 2 == 0 { d } else { -d }, "cofactor = signed minor");
        return
    } } }
}} }
fn all(n: usize) -> Vec<(usize, usize)> { (0..n).flat_map(|i| (0..n).map(move |j| (i, j))).collect() }
h! {
    cof_2 0 { cof!(U2 2, all(2)); }
    cof_3 0 { cof!(U3 3, all(3)); }
    cof_4 0 { cof!(U4 4, all(4)); }
    cof_5 0 { cof!(U5 5, all(5)); }
    part_6 0 { part!(U6 6, 0..KINDS, [(0, 0), (1, 1), (2, 1), (5, 5)]); }
    part_7 0 { part!(U7 7, vec![2, 3, 4], [(0, 0), (1, 0), (3, 3), (6, 5)]); }
    part_8 1 { part!(U8 8, vec![2, 3, 4], [(0, 0), (3, 3), (4, 2), (7, 7)]); }
    outside_2 0 { outside!(U2 2); }
    outside_3 0 { outside!(U3 3); }
    outside_4 0 { outside!(U4 4); }
    outside_5 0 { outside!(U5 5); }
}
