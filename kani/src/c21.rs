//! C21: all views of a container are the same elements.
use crate::{harnesses, prop};
use core::ops::{Deref, DerefMut};
use core::ptr;
use rowcol::prelude::*;

/// Writes through view `w`.
macro_rules! vwrite { ($v:ident, $k:literal, $w:expr, $i:ident, $x:ident) => { match $w {
    0 => $v[$i] = $x,
    1 => $v.as_slice_mut()[$i] = $x,
    2 => *$v.iter_mut().nth($i).unwrap() = $x,
    3 => *$v.iter_mut().rev().nth($k - 1 - $i).unwrap() = $x,
    4 => AsMut::<[u8]>::as_mut(&mut $v)[$i] = $x,
    5 => $v.deref_mut()[$i] = $x,
    6 => unsafe { *$v.get_unchecked_mut($i) = $x },
    _ => unreachable!(),
} } }
/// Everything a shared vector shows.
macro_rules! vread { ($v:ident, $k:literal, $a:ident) => {{
    prop!($v.len() == $k && $v.is_empty() == ($k == 0), "length and emptiness are those of the type");
    prop!($v.as_slice().len() == $k && $v.iter().len() == $k && AsRef::<[u8]>::as_ref(&$v).len() == $k, "every view has N elements");
    let (mut it, mut back) = ($v.iter(), $v.iter().rev());
    let (s, r, d) = ($v.as_slice(), AsRef::<[u8]>::as_ref(&$v), $v.deref());
    let mut i = 0;
    while i < $k {
        prop!(s[i] == $a[i], "the slice holds element i at i");
        prop!(r[i] == $a[i] && ptr::eq(&r[i], &s[i]), "as_ref shows the same element");
        prop!(d[i] == $a[i] && ptr::eq(&d[i], &s[i]), "the dereferenced array shows the same element");
        prop!($v[i] == $a[i] && ptr::eq(&$v[i], &s[i]), "indexing shows the same element");
        match it.next() { Some(x) => prop!(ptr::eq(x, &s[i]), "iterating shows the same element"), None => prop!(false, "iterating shows N elements") }
        match back.next() { Some(x) => prop!(ptr::eq(x, &s[$k - 1 - i]), "iterating backwards shows the same element"), None => prop!(false, "iterating backwards shows N elements") }
        prop!(unsafe { ptr::eq($v.get_unchecked(i), &s[i]) }, "unchecked access shows the same element");
        i += 1;
    }
    prop!(it.next().is_none() && back.next().is_none(), "iterating ends after N elements");
}} }
/// The mutable views, by address.
macro_rules! vaddr { ($v:ident, $k:literal) => {{
    let p: *const u8 = $v.as_slice().as_ptr();
    prop!($v.as_slice_mut().len() == $k && $v.iter_mut().len() == $k && AsMut::<[u8]>::as_mut(&mut $v).len() == $k, "every mutable view has N elements");
    prop!($v.as_slice_mut().as_ptr() == p && AsMut::<[u8]>::as_mut(&mut $v).as_ptr() == p && $v.deref_mut().as_ptr() == p, "the mutable views are the same place");
}} }
macro_rules! views { ($nd:ident, $n:ident $k:literal, $writes:literal) => {{
    let first = $nd.arr::<$k>();
    let mut a = first;
    let mut v = Vector::<u8, $n>::new(first);
    let copy = v;
    let clone = v.clone();
    let mut w = 0;
    while w < $writes {
        let (how, i, x) = ($nd.below(7), $nd.idx($k), $nd.u8());
        vwrite!(v, $k, how, i, x);
        a[i] = x;
        w += 1;
    }
    vread!(v, $k, a);
    vaddr!(v, $k);
    vread!(copy, $k, first);
    let inner = v.into_inner();
    let kept = clone.into_inner();
    let mut i = 0;
    while i < $k { prop!(inner[i] == a[i], "the inner array holds the same elements"); prop!(kept[i] == first[i], "a clone does not see writes to the original"); i += 1; }
    let (mut it, mut i) = (v.into_iter(), 0);
    while i < $k { prop!(it.next() == Some(a[i]), "iterating by value hands out the same elements"); i += 1; }
    prop!(it.next().is_none(), "iterating by value ends after N elements");
}} }
macro_rules! none { ($nd:ident) => {{
    let mut v = Vector::<u8, U0>::new([]);
    let a = [0u8; 0];
    prop!(v.len() == 0 && v.is_empty() && v.as_slice().is_empty() && v.iter().next().is_none() && AsRef::<[u8]>::as_ref(&v).is_empty(), "the empty vector shows nothing");
    prop!(v.as_slice_mut().is_empty() && v.iter_mut().next().is_none() && AsMut::<[u8]>::as_mut(&mut v).is_empty() && v.deref_mut().is_empty(), "nor mutably");
    prop!(v.into_iter().next().is_none() && a.len() == v.into_inner().len(), "nor by value");
}} }
macro_rules! mviews { ($nd:ident, $r:ident $rn:literal, $c:ident $cn:literal, $writes:literal; $(($u:ident $i:literal, $w:ident $j:literal))*) => {{
    let first = $nd.arr2::<$rn, $cn>();
    let mut a = first;
    let mut m = Matrix::<u8, $r, $c>::new(first);
    let copy = m;
    let clone = m.clone();
    let mut w = 0;
    while w < $writes {
        let (how, i, j, x) = ($nd.below(3), $nd.idx($rn), $nd.idx($cn), $nd.u8());
        if how == 0 { m[(i, j)] = x } else if how == 1 { unsafe { *m.get_unchecked_mut((i, j)) = x } } else {
            $( if i == $i && j == $j { m[($u::new(), $w::new())] = x } )*
        }
        a[i][j] = x;
        w += 1;
    }
    prop!(m.dim() == ($rn, $cn) && m.rows() == $rn && m.cols() == $cn, "the dimensions are those of the type");
    $( prop!(m[($u::new(), $w::new())] == a[$i][$j] && ptr::eq(&m[($u::new(), $w::new())], &m[($i, $j)]), "compile-time and run-time indices show the same element"); )*
    let mut rows = m.rows_iter_ref();
    let mut vals = m.rows_iter();
    let mut i = 0;
    while i < $rn {
        let (row, val) = (rows.next().unwrap(), vals.next().unwrap());
        prop!(row.len() == $cn && val.len() == $cn, "every row has C elements");
        let mut j = 0;
        while j < $cn {
            prop!(m[(i, j)] == a[i][j], "indexing shows element (i, j)");
            prop!(unsafe { ptr::eq(m.get_unchecked((i, j)), &m[(i, j)]) }, "unchecked access shows the same element");
            prop!(ptr::eq(&row[j], &m[(i, j)]), "the borrowed row shows the same element");
            prop!(val[j] == a[i][j], "the copied row shows the same element");
            prop!(copy[(i, j)] == first[i][j] && clone[(i, j)] == first[i][j], "a copy or clone does not see writes to the original");
            j += 1;
        }
        i += 1;
    }
    prop!(rows.next().is_none() && vals.next().is_none(), "there are R rows");
    let mut cols = m.cols_iter_ref();
    let mut vals = m.cols_iter();
    let mut j = 0;
    while j < $cn {
        let (mut col, val) = (cols.next().unwrap(), vals.next().unwrap());
        let mut i = 0;
        while i < $rn {
            match col.next() { Some(x) => prop!(ptr::eq(x, &m[(i, j)]), "the borrowed column shows the same element"), None => prop!(false, "every column has R elements") }
            prop!(val[i] == a[i][j], "the copied column shows the same element");
            i += 1;
        }
        prop!(col.next().is_none(), "every column has R elements");
        j += 1;
    }
    prop!(cols.next().is_none() && vals.next().is_none(), "there are C columns");
}} }
harnesses! {
    c21_0 [4] nd => { none!(nd) }
    c21_1 [8] nd => { views!(nd, U1 1, 2) }
    c21_2 [8] nd => { views!(nd, U2 2, 2) }
    c21_3 [8] nd => { views!(nd, U3 3, 2) }
    c21_5 [8] nd => { views!(nd, U5 5, 2) }
    c21_9 [12] nd => { views!(nd, U9 9, 1) }
    c21_32 [36] nd => { views!(nd, U32 32, 1) }
    c21_m11 [8] nd => { mviews!(nd, U1 1, U1 1, 2; (U0 0, U0 0)) }
    c21_m22 [8] nd => { mviews!(nd, U2 2, U2 2, 2; (U0 0, U0 0) (U0 0, U1 1) (U1 1, U0 0) (U1 1, U1 1)) }
    c21_m23 [8] nd => { mviews!(nd, U2 2, U3 3, 2; (U0 0, U0 0) (U0 0, U1 1) (U0 0, U2 2) (U1 1, U0 0) (U1 1, U1 1) (U1 1, U2 2)) }
    c21_m31 [8] nd => { mviews!(nd, U3 3, U1 1, 2; (U0 0, U0 0) (U1 1, U0 0) (U2 2, U0 0)) }
    c21_m14 [8] nd => { mviews!(nd, U1 1, U4 4, 2; (U0 0, U0 0) (U0 0, U1 1) (U0 0, U2 2) (U0 0, U3 3)) }
    c21_m44_t [8] nd => { mviews!(nd, U4 4, U4 4, 1; (U0 0, U0 0) (U0 0, U1 1) (U0 0, U2 2) (U0 0, U3 3) (U1 1, U0 0) (U1 1, U1 1) (U1 1, U2 2) (U1 1, U3 3)
        (U2 2, U0 0) (U2 2, U1 1) (U2 2, U2 2) (U2 2, U3 3) (U3 3, U0 0) (U3 3, U1 1) (U3 3, U2 2) (U3 3, U3 3)) }
}
