//! C10: constructors, transposition and reshaping, over an arbitrary element type.
use crate::elem::*;
use crate::eng::must;
use crate::{h, m, mchk, shapes, shapes_wide, squares, v, vchk, vsizes};
use num::Zero;
use rowcol::prelude::*;

fn nested<const R: usize, const C: usize>(n: &str) -> [[E; C]; R] { let mut a = [[E(0); C]; R]; for i in 0..R { for j in 0..C { a[i][j] = E::at(n, i, j) } } a }
macro_rules! vec_c { ($n:ident $k:literal) => {{
    let mut a = [E(0); $k];
    for i in 0..$k { a[i] = E::at("a", i, 0) }
    let v = Vector::<E, $n>::new(a);
    must(v.len() == $k, "len()");
    must(v.is_empty() == ($k == 0), "is_empty()");
    must(v.iter().len() == $k && v.as_slice().len() == $k, "iter().len()");
    vchk!(v.clone(), $k, "array constructor", |i| E::at("a", i, 0));
    let back: [E; $k] = v.clone().into_inner();
    for i in 0..$k { back[i].same(E::at("a", i, 0), "into_inner") }
    let d: &[E; $k] = &*v;
    for i in 0..$k { d[i].same(E::at("a", i, 0), "deref"); v.as_ref()[i].same(E::at("a", i, 0), "as_ref") }
    let f = |i: usize| E::f1("eneg", E::at("g", i, 0));
    vchk!(Vector::<E, $n>::generate(f), $k, "index function", |i| f(i));
}} }
macro_rules! mat_c { ($r:ident $rn:literal, $c:ident $cn:literal) => {{
    let a = Matrix::<E, $r, $c>::new(nested::<$rn, $cn>("a"));
    must(a.dim() == ($rn, $cn) && a.rows() == $rn && a.cols() == $cn, "dim/rows/cols");
    mchk!(a.clone(), $rn, $cn, "nested arrays", |i, j| E::at("a", i, j));
    mchk!(m!($r, $c, "g", E), $rn, $cn, "index function", |i, j| E::at("g", i, j));
    mchk!(a.transposed(), $cn, $rn, "transposed", |i, j| E::at("a", j, i));
    mchk!(a.transposed().transposed(), $rn, $cn, "transposed twice", |i, j| E::at("a", i, j));
    mchk!(a, $rn, $cn, "original unchanged by transposed", |i, j| E::at("a", i, j));
}} }
macro_rules! sq_c { ($n:ident $k:literal) => {{
    let mut a = Matrix::<E, $n, $n>::new(nested::<$k, $k>("a"));
    a.transpose();
    mchk!(a.clone(), $k, $k, "transpose in place", |i, j| E::at("a", j, i));
    a.transpose();
    mchk!(a, $k, $k, "transpose in place twice", |i, j| E::at("a", i, j));
}} }
macro_rules! diag { ($r:ident $rn:literal, $c:ident $cn:literal, $mn:literal) => {{
    let mut d = [E(0); $mn];
    for k in 0..$mn { d[k] = E::at("d", k, 0) }
    mchk!(Matrix::<E, $r, $c>::diag(d), $rn, $cn, "diag", |i, j| if i == j { E::at("d", i, 0) } else { E::zero() });
}} }
macro_rules! flat { ($r:ident $rn:literal, $c:ident $cn:literal, $p:ident) => {{
    let a: Matrix<E, $r, $c> = Matrix::from(v!($p, "f", E));
    mchk!(a, $rn, $cn, "flat vector, row-major", |i, j| E::at("f", i * $cn + j, 0));
}} }
h! {
    vectors 0 { vsizes!(vec_c); }
    matrices 0 { shapes!(mat_c); }
    matrices_wide 0 { shapes_wide!(mat_c); }
    square 0 { squares!(sq_c); sq_c!(U8 8); sq_c!(U9 9); sq_c!(U16 16); sq_c!(U17 17); }
    square_large 0 { sq_c!(U31 31); sq_c!(U32 32); }
    diag 0 {
        diag!(U0 0, U0 0, 0); diag!(U0 0, U3 3, 0); diag!(U3 3, U0 0, 0); diag!(U1 1, U1 1, 1); diag!(U1 1, U4 4, 1); diag!(U4 4, U1 1, 1); diag!(U2 2, U2 2, 2);
        diag!(U2 2, U3 3, 2); diag!(U3 3, U2 2, 2); diag!(U3 3, U3 3, 3); diag!(U2 2, U5 5, 2); diag!(U5 5, U2 2, 2); diag!(U4 4, U3 3, 3); diag!(U3 3, U4 4, 3);
        diag!(U4 4, U4 4, 4); diag!(U7 7, U7 7, 7); diag!(U6 6, U9 9, 6); diag!(U9 9, U6 6, 6); diag!(U17 17, U16 16, 16); diag!(U15 15, U32 32, 15); diag!(U32 32, U32 32, 32);
    }
    flat 0 {
        flat!(U0 0, U1 1, U0); flat!(U0 0, U3 3, U0); flat!(U1 1, U1 1, U1); flat!(U1 1, U2 2, U2); flat!(U2 2, U1 1, U2); flat!(U1 1, U7 7, U7); flat!(U7 7, U1 1, U7);
        flat!(U2 2, U2 2, U4); flat!(U2 2, U3 3, U6); flat!(U3 3, U2 2, U6); flat!(U3 3, U3 3, U9); flat!(U2 2, U5 5, U10); flat!(U5 5, U2 2, U10); flat!(U3 3, U4 4, U12);
        flat!(U4 4, U3 3, U12); flat!(U4 4, U4 4, U16); flat!(U5 5, U5 5, U25); flat!(U5 5, U6 6, U30); flat!(U6 6, U5 5, U30); flat!(U4 4, U8 8, U32); flat!(U8 8, U4 4, U32);
        flat!(U2 2, U16 16, U32); flat!(U16 16, U2 2, U32); flat!(U1 1, U32 32, U32); flat!(U32 32, U1 1, U32); flat!(U3 3, U7 7, U21); flat!(U7 7, U3 3, U21); flat!(U9 9, U3 3, U27);
    }
}
