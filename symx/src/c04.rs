//! C04: rows and columns by value and by reference, many shapes, elements of an arbitrary type.
use crate::drive::drive;
use crate::elem::*;
use crate::eng::*;
use crate::{h, m, shapes, shapes_wide};
use rowcol::matrix::iter::ColsIterRefInner;
use rowcol::prelude::*;
use std::ptr::eq;

macro_rules! byval { ($r:ident $rn:literal, $c:ident $cn:literal) => {{
    let a = m!($r, $c, "a", E);
    drive($rn, false, &|| a.rows_iter(), &|x: Vector<E, $c>, i| { for j in 0..$cn { x.as_slice()[j].same(E::at("a", i, j), "row i holds the elements (i, j)") } must(x.as_slice().len() == $cn, "a row has C elements") });
    drive($cn, false, &|| a.cols_iter(), &|x: Vector<E, $r>, j| { for i in 0..$rn { x.as_slice()[i].same(E::at("a", i, j), "column j holds the elements (i, j)") } must(x.as_slice().len() == $rn, "a column has R elements") });
}} }
macro_rules! byref { ($r:ident $rn:literal, $c:ident $cn:literal) => {{
    let a = m!($r, $c, "a", E);
    drive($rn, false, &|| a.rows_iter_ref(), &|x: &[E], i| { must(x.len() == $cn, "a row has C elements"); for j in 0..$cn { must(eq(&x[j], &a[(i, j)]), "row i is the elements (i, j) themselves"); x[j].same(E::at("a", i, j), "row i holds the elements (i, j)") } });
    drive($cn, false, &|| a.cols_iter_ref(), &|x: ColsIterRefInner<E, $r, $c>, j| {
        must(x.len() == $rn, "a column has R elements");
        let mut n = 0;
        for y in x { must(n < $rn && eq(y, &a[(n, j)]), "column j is the elements (i, j) themselves"); n += 1 }
        must(n == $rn, "a column has R elements");
    });
}} }
macro_rules! inner { ($r:ident $rn:literal, $c:ident $cn:literal) => {{
    let a = m!($r, $c, "a", E);
    for j in 0..$cn as usize {
        if $cn > 6 && j > 1 && j + 2 < $cn { continue }
        drive($rn, $rn < 4, &|| a.cols_iter_ref().nth(j).unwrap(), &|x: &E, i| { must(eq(x, &a[(i, j)]), "walking inside column j meets the elements (i, j) themselves"); x.same(E::at("a", i, j), "column j holds the elements (i, j)") });
    }
}} }
macro_rules! deep { ($r:ident $rn:literal, $c:ident $cn:literal) => {{
    let a = m!($r, $c, "a", E);
    drive($rn, true, &|| a.rows_iter(), &|x: Vector<E, $c>, i| for j in 0..$cn { x.as_slice()[j].same(E::at("a", i, j), "row i holds the elements (i, j)") });
    drive($cn, true, &|| a.cols_iter(), &|x: Vector<E, $r>, j| for i in 0..$rn { x.as_slice()[i].same(E::at("a", i, j), "column j holds the elements (i, j)") });
    drive($rn, true, &|| a.rows_iter_ref(), &|x: &[E], i| for j in 0..$cn { must(eq(&x[j], &a[(i, j)]), "row i is the elements (i, j) themselves") });
    drive($cn, true, &|| a.cols_iter_ref(), &|x: ColsIterRefInner<E, $r, $c>, j| for (i, y) in x.enumerate() { must(i < $rn && eq(y, &a[(i, j)]), "column j is the elements (i, j) themselves") });
}} }
h! {
    by_value 0 { shapes!(byval); }
    by_value_wide 0 { shapes_wide!(byval); }
    by_reference 0 { shapes!(byref); }
    by_reference_wide 0 { shapes_wide!(byref); }
    inside_a_column 0 { shapes!(inner); shapes_wide!(inner); }
    two_calls 0 { deep!(U1 1, U1 1); deep!(U2 2, U3 3); deep!(U3 3, U2 2); deep!(U4 4, U4 4); deep!(U5 5, U1 1); deep!(U1 1, U5 5); }
    two_calls_more 1 { shapes!(deep); shapes_wide!(deep); }
}
