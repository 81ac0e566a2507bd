//! C06: indexing reaches exactly the addressed element or is rejected.
use crate::{harnesses, prop};
use core::ptr;
use rowcol::matrix::iter::ColsIterRefInner;
use rowcol::prelude::*;

/// Run-time and unchecked access at an arbitrary in-range index.
macro_rules! vec_in { ($nd:ident, $n:ident $k:literal) => {{
    let a = $nd.arr::<$k>();
    let i = $nd.idx($k);
    let x = $nd.u8();
    let mut v = Vector::<u8, $n>::new(a);
    prop!(v[i] == a[i], "v[i] reads the i-th element");
    prop!(ptr::eq(&v[i], &v.as_slice()[i]), "v[i] is the i-th place");
    prop!(unsafe { *v.get_unchecked(i) } == a[i], "get_unchecked(i) reads the i-th element");
    v[i] = x;
    let mut b = v.into_inner();
    let mut j = 0;
    while j < $k { prop!(b[j] == if j == i { x } else { a[j] }, "v[i] = x changes the i-th element only"); j += 1; }
    let mut w = Vector::<u8, $n>::new(a);
    unsafe { *w.get_unchecked_mut(i) = x }
    b = w.into_inner();
    j = 0;
    while j < $k { prop!(b[j] == if j == i { x } else { a[j] }, "get_unchecked_mut(i) changes the i-th element only"); j += 1; }
}} }
/// Compile-time access at each position.
macro_rules! vec_at { ($nd:ident, $n:ident $k:literal; $($u:ident $i:literal)*) => {{
    let a = $nd.arr::<$k>();
    let x = $nd.u8();
    $({
        let mut v = Vector::<u8, $n>::new(a);
        prop!(v[$u::new()] == a[$i], "v[Ui] reads the i-th element");
        v[$u::new()] = x;
        let b = v.into_inner();
        let mut j = 0;
        while j < $k { prop!(b[j] == if j == $i { x } else { a[j] }, "v[Ui] = x changes the i-th element only"); j += 1; }
    })*
}} }
macro_rules! vec_out { ($nd:ident, $n:ident $k:literal) => {{
    let v = Vector::<u8, $n>::new([7; $k]);
    let i = $nd.usize();
    $nd.assume(i >= $k);
    $nd.must_panic();
    let _x = v[i];
    $nd.returned();
}} }
macro_rules! vec_out_mut { ($nd:ident, $n:ident $k:literal) => {{
    let mut v = Vector::<u8, $n>::new([7; $k]);
    let i = $nd.usize();
    $nd.assume(i >= $k);
    $nd.must_panic();
    v[i] = 1;
    $nd.returned();
}} }
macro_rules! mat_in { ($nd:ident, $r:ident $rn:literal, $c:ident $cn:literal) => {{
    let a = $nd.arr2::<$rn, $cn>();
    let (p, q) = ($nd.idx($rn), $nd.idx($cn));
    let x = $nd.u8();
    let m = Matrix::<u8, $r, $c>::new(a);
    prop!(m[(p, q)] == a[p][q], "m[(i, j)] reads element (i, j)");
    prop!(unsafe { *m.get_unchecked((p, q)) } == a[p][q], "get_unchecked((i, j)) reads element (i, j)");
}} }
macro_rules! mat_write { ($nd:ident, $r:ident $rn:literal, $c:ident $cn:literal, $un:literal) => {{
    let a = $nd.arr2::<$rn, $cn>();
    let (p, q) = ($nd.idx($rn), $nd.idx($cn));
    let x = $nd.u8();
    let mut m = Matrix::<u8, $r, $c>::new(a);
    if $un { unsafe { *m.get_unchecked_mut((p, q)) = x } } else { m[(p, q)] = x }
    let mut i = 0;
    for row in m.rows_iter_ref() {
        let mut j = 0;
        while j < $cn { prop!(row[j] == if i == p && j == q { x } else { a[i][j] }, "a write changes element (i, j) only"); j += 1; }
        i += 1;
    }
    prop!(i == $rn, "all rows are there");
}} }
macro_rules! mat_at { ($nd:ident, $r:ident $rn:literal, $c:ident $cn:literal; $(($u:ident $i:literal, $w:ident $j:literal))*) => {{
    let a = $nd.arr2::<$rn, $cn>();
    let x = $nd.u8();
    let m = Matrix::<u8, $r, $c>::new(a);
    $({
        let mut m = m;
        prop!(m[($u::new(), $w::new())] == a[$i][$j], "m[(Ui, Uj)] reads element (i, j)");
        m[($u::new(), $w::new())] = x;
        let mut i = 0;
        for row in m.rows_iter_ref() {
            let mut j = 0;
            while j < $cn { prop!(row[j] == if i == $i && j == $j { x } else { a[i][j] }, "m[(Ui, Uj)] = x changes element (i, j) only"); j += 1; }
            i += 1;
        }
    })*
}} }
macro_rules! mat_out { ($nd:ident, $r:ident $rn:literal, $c:ident $cn:literal) => {{
    let m = Matrix::<u8, $r, $c>::new([[7; $cn]; $rn]);
    let (i, j) = ($nd.usize(), $nd.usize());
    $nd.assume(i >= $rn || j >= $cn);
    $nd.must_panic();
    let _x = m[(i, j)];
    $nd.returned();
}} }
macro_rules! mat_out_mut { ($nd:ident, $r:ident $rn:literal, $c:ident $cn:literal) => {{
    let mut m = Matrix::<u8, $r, $c>::new([[7; $cn]; $rn]);
    let (i, j) = ($nd.usize(), $nd.usize());
    $nd.assume(i >= $rn || j >= $cn);
    $nd.must_panic();
    m[(i, j)] = 1;
    $nd.returned();
}} }
/// Reaching a column by number.
macro_rules! col_in { ($nd:ident, $r:ident $rn:literal, $c:ident $cn:literal) => {{
    let a = $nd.arr2::<$rn, $cn>();
    let m = Vector::<Vector<u8, $c>, $r>::new(a.map(Vector::new));
    let j = $nd.idx($cn);
    let mut it = ColsIterRefInner::new(&m, j);
    let mut i = 0;
    while i < $rn { match it.next() { Some(x) => prop!(*x == a[i][j], "column j walks over the elements (i, j)"), None => prop!(false, "column j has an element in every row") } i += 1; }
    prop!(it.next().is_none(), "column j ends after the last row");
}} }
macro_rules! col_out { ($nd:ident, $r:ident $rn:literal, $c:ident $cn:literal) => {{
    let m = Vector::<Vector<u8, $c>, $r>::new([Vector::new([7; $cn]); $rn]);
    let j = $nd.usize();
    $nd.assume(j >= $cn);
    $nd.must_panic();
    let mut it = ColsIterRefInner::new(&m, j);
    let _x = it.next().map(|x| *x);
    $nd.returned();
}} }

harnesses! {
    c06_vec_in [8] nd => { vec_in!(nd, U1 1); vec_in!(nd, U2 2); vec_in!(nd, U3 3); vec_in!(nd, U5 5) }
    c06_vec_in_32 [36] nd => { vec_in!(nd, U32 32) }
    c06_vec_at_a [8] nd => { vec_at!(nd, U1 1; U0 0); vec_at!(nd, U2 2; U0 0 U1 1); vec_at!(nd, U3 3; U0 0 U1 1 U2 2); vec_at!(nd, U4 4; U0 0 U1 1 U2 2 U3 3) }
    c06_vec_at_b [12] nd => { vec_at!(nd, U9 9; U0 0 U1 1 U2 2 U3 3 U4 4 U5 5 U6 6 U7 7 U8 8) }
    c06_vec_at_32 [36] nd => { vec_at!(nd, U32 32; U0 0 U1 1 U15 15 U16 16 U30 30 U31 31) }
    c06_both_vec_out_0 [8] nd => { vec_out!(nd, U0 0) }
    c06_both_vec_out_1 [8] nd => { vec_out!(nd, U1 1) }
    c06_both_vec_out_3 [8] nd => { vec_out!(nd, U3 3) }
    c06_both_vec_out_32 [36] nd => { vec_out!(nd, U32 32) }
    c06_both_vec_outw_0 [8] nd => { vec_out_mut!(nd, U0 0) }
    c06_both_vec_outw_1 [8] nd => { vec_out_mut!(nd, U1 1) }
    c06_both_vec_outw_3 [8] nd => { vec_out_mut!(nd, U3 3) }
    c06_mat_in [8] nd => { mat_in!(nd, U1 1, U1 1); mat_in!(nd, U2 2, U2 2); mat_in!(nd, U2 2, U3 3); mat_in!(nd, U3 3, U1 1) }
    c06_mat_write_22 [8] nd => { mat_write!(nd, U2 2, U2 2, false); mat_write!(nd, U2 2, U2 2, true); }
    c06_mat_write_23 [8] nd => { mat_write!(nd, U2 2, U3 3, false); mat_write!(nd, U2 2, U3 3, true); }
    c06_mat_write_31 [8] nd => { mat_write!(nd, U3 3, U1 1, false); mat_write!(nd, U3 3, U1 1, true); }
    c06_mat_at_23 [8] nd => { mat_at!(nd, U2 2, U3 3; (U0 0, U0 0) (U0 0, U1 1) (U0 0, U2 2) (U1 1, U0 0) (U1 1, U1 1) (U1 1, U2 2)) }
    c06_mat_at_32 [8] nd => { mat_at!(nd, U3 3, U2 2; (U0 0, U0 0) (U0 0, U1 1) (U1 1, U0 0) (U1 1, U1 1) (U2 2, U0 0) (U2 2, U1 1)) }
    c06_both_mat_out_22 [8] nd => { mat_out!(nd, U2 2, U2 2) }
    c06_both_mat_out_23 [8] nd => { mat_out!(nd, U2 2, U3 3) }
    c06_both_mat_out_31 [8] nd => { mat_out!(nd, U3 3, U1 1) }
    c06_both_mat_out_02 [8] nd => { mat_out!(nd, U0 0, U2 2) }
    c06_both_mat_out_20 [8] nd => { mat_out!(nd, U2 2, U0 0) }
    c06_both_mat_outw_22 [8] nd => { mat_out_mut!(nd, U2 2, U2 2) }
    c06_both_mat_outw_23 [8] nd => { mat_out_mut!(nd, U2 2, U3 3) }
    c06_both_mat_outw_20 [8] nd => { mat_out_mut!(nd, U2 2, U0 0) }
    c06_col_in [8] nd => { col_in!(nd, U2 2, U2 2); col_in!(nd, U2 2, U3 3); col_in!(nd, U3 3, U1 1) }
    c06_both_col_out_22 [8] nd => { col_out!(nd, U2 2, U2 2) }
    c06_both_col_out_31 [8] nd => { col_out!(nd, U3 3, U1 1) }
    c06_both_col_out_13 [8] nd => { col_out!(nd, U1 1, U3 3) }
    c06_mat_at_44_t [8] nd => { mat_at!(nd, U4 4, U4 4; (U0 0, U3 3) (U3 3, U0 0) (U3 3, U3 3) (U1 1, U2 2) (U2 2, U1 1)) }
    c06_mat_write_44_t [8] nd => { mat_write!(nd, U4 4, U4 4, false); }
    c06_vec_outw_32_t [36] nd => { vec_out_mut!(nd, U32 32) }
}
