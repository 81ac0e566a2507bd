//! C08: products over a non-commutative ring (upper triangular 2x2 real matrices as elements).
use crate::elem::*;
use crate::{h, m, mchk, v, vchk, vsizes};
use num::Zero;
use rowcol::prelude::*;

fn sum(it: impl Iterator<Item = T2>) -> T2 { let mut s: Option<T2> = None; for x in it { s = Some(match s { None => x, Some(y) => y + x }) } s.unwrap_or_else(T2::zero) }
macro_rules! mm { ($l:ident $ln:literal, $n:ident $nn:literal, $r:ident $rn:literal) => {{
    let (a, b) = (m!($l, $n, "a", T2), m!($n, $r, "b", T2));
    let def = |i: usize, j: usize| sum((0..$nn).map(|k| T2::at("a", i, k) * T2::at("b", k, j)));
    mchk!(a.clone() * b.clone(), $ln, $rn, "m * m", |i, j| def(i, j));
    mchk!(a.clone() * &b, $ln, $rn, "m * &m", |i, j| def(i, j));
    mchk!(&a * b.clone(), $ln, $rn, "&m * m", |i, j| def(i, j));
    mchk!(&a * &b, $ln, $rn, "&m * &m", |i, j| def(i, j));
    mchk!(a, $ln, $nn, "borrowed left factor unchanged", |i, j| T2::at("a", i, j));
    mchk!(b, $nn, $rn, "borrowed right factor unchanged", |i, j| T2::at("b", i, j));
}} }
macro_rules! sq { ($n:ident $k:literal) => {{
    let (mut a, b) = (m!($n, $n, "a", T2), m!($n, $n, "b", T2));
    mchk!(&a * &a, $k, $k, "m * itself", |i, j| sum((0..$k).map(|k| T2::at("a", i, k) * T2::at("a", k, j))));
    a *= b;
    mchk!(a, $k, $k, "m *= m", |i, j| sum((0..$k).map(|k| T2::at("a", i, k) * T2::at("b", k, j))));
}} }
macro_rules! mv { ($r:ident $rn:literal, $c:ident $cn:literal) => {{
    let (a, x) = (m!($r, $c, "a", T2), v!($c, "x", T2));
    let def = |i: usize| sum((0..$cn).map(|k| T2::at("a", i, k) * T2::at("x", k, 0)));
    vchk!(a.clone() * x.clone(), $rn, "m * v", |i| def(i));
    vchk!(a.clone() * &x, $rn, "m * &v", |i| def(i));
    vchk!(x, $cn, "borrowed vector unchanged", |i| T2::at("x", i, 0));
}} }
macro_rules! dot { ($n:ident $k:literal) => {{
    let (a, b) = (v!($n, "a", T2), v!($n, "b", T2));
    a.dot(&a).same(sum((0..$k).map(|k| T2::at("a", k, 0) * T2::at("a", k, 0))), "dot with itself");
    a.dot(&b).same(sum((0..$k).map(|k| T2::at("a", k, 0) * T2::at("b", k, 0))), "dot");
}} }
h! {
    mat_mat 0 {
        mm!(U0 0, U0 0, U0 0); mm!(U0 0, U2 2, U3 3); mm!(U2 2, U0 0, U3 3); mm!(U2 2, U3 3, U0 0);
        mm!(U1 1, U1 1, U1 1); mm!(U1 1, U2 2, U1 1); mm!(U2 2, U1 1, U2 2); mm!(U1 1, U3 3, U2 2); mm!(U2 2, U2 2, U1 1);
        mm!(U2 2, U2 2, U2 2); mm!(U2 2, U3 3, U2 2); mm!(U3 3, U2 2, U3 3); mm!(U2 2, U3 3, U4 4); mm!(U4 4, U3 3, U2 2); mm!(U3 3, U3 3, U3 3);
        mm!(U2 2, U4 4, U3 3); mm!(U3 3, U4 4, U2 2); mm!(U4 4, U2 2, U3 3); mm!(U3 3, U2 2, U4 4); mm!(U1 1, U5 5, U4 4); mm!(U5 5, U4 4, U1 1);
        mm!(U4 4, U4 4, U4 4); mm!(U5 5, U2 2, U3 3);
    }
    mat_mat_wide 0 { mm!(U1 1, U32 32, U1 1); mm!(U32 32, U1 1, U2 2); mm!(U2 2, U1 1, U32 32); mm!(U2 2, U17 17, U2 2); mm!(U5 5, U5 5, U5 5); mm!(U7 7, U5 5, U6 6); }
    mat_mat_large 1 { mm!(U8 8, U8 8, U8 8); mm!(U6 6, U9 9, U7 7); mm!(U3 3, U32 32, U4 4); mm!(U10 10, U10 10, U10 10); mm!(U12 12, U5 5, U11 11); }
    square_assign 0 { sq!(U0 0); sq!(U1 1); sq!(U2 2); sq!(U3 3); sq!(U4 4); sq!(U5 5); sq!(U6 6); }
    square_assign_large 1 { sq!(U7 7); sq!(U8 8); sq!(U10 10); }
    mat_vec 0 {
        mv!(U0 0, U0 0); mv!(U0 0, U3 3); mv!(U3 3, U0 0); mv!(U1 1, U1 1); mv!(U1 1, U4 4); mv!(U4 4, U1 1); mv!(U2 2, U2 2); mv!(U2 2, U3 3); mv!(U3 3, U2 2);
        mv!(U3 3, U3 3); mv!(U3 3, U5 5); mv!(U5 5, U3 3); mv!(U4 4, U4 4); mv!(U6 6, U6 6); mv!(U1 1, U32 32); mv!(U32 32, U1 1); mv!(U32 32, U2 2); mv!(U3 3, U17 17);
    }
    dot 0 { vsizes!(dot); }
    cross 0 {
        let (a, b) = (v!(U3, "a", T2), v!(U3, "b", T2));
        let (x, y) = (|i| T2::at("a", i, 0), |i| T2::at("b", i, 0));
        let r = a.cross(&b);
        r[0].same(x(1) * y(2) - x(2) * y(1), "cross 0");
        r[1].same(x(2) * y(0) - x(0) * y(2), "cross 1");
        r[2].same(x(0) * y(1) - x(1) * y(0), "cross 2");
        vchk!(a.cross(&a), 3, "cross with itself", |i| x((i + 1) % 3) * x((i + 2) % 3) - x((i + 2) % 3) * x((i + 1) % 3));
        vchk!(a, 3, "left operand unchanged", |i| x(i));
        vchk!(b, 3, "right operand unchanged", |i| y(i));
    }
}
