//! C21: all views of a container are the same elements, for an arbitrary
//! element type and every shape. The slice, by address, is what the views agree on.
use crate::elem::*;
use crate::eng::*;
use crate::{h, m, shapes, shapes_wide, v, vsizes};
use rowcol::prelude::*;
use std::ops::{Deref, DerefMut};
use std::ptr::eq;

fn n(i: usize, j: usize, w: usize) -> E { E::at(["w0", "w1", "w2", "w3", "w4", "w5", "w6"][w], i, j) }
macro_rules! vshow { ($v:ident, $k:literal, |$i:ident| $e:expr) => {{
    must($v.len() == $k && $v.is_empty() == ($k == 0), "length and emptiness are those of the type");
    let s = $v.as_slice();
    let (r, d): (&[E], &[E]) = (AsRef::<[E]>::as_ref(&$v), $v.deref().as_ref());
    must(s.len() == $k && r.len() == $k && d.len() == $k, "every view has N elements");
    must(eq(s.as_ptr(), r.as_ptr()) && eq(s.as_ptr(), d.as_ptr()), "slice, as_ref and the dereferenced array are the same place");
    must($v.iter().map(|x| x as *const E).eq(s.iter().map(|x| x as *const E)), "iterating shows the same elements");
    must($v.iter().rev().map(|x| x as *const E).eq(s.iter().rev().map(|x| x as *const E)), "iterating backwards shows the same elements");
    for $i in 0..$k {
        s[$i].same($e, "the slice holds element i at i");
        must(eq(&$v[$i], &s[$i]) && unsafe { eq($v.get_unchecked($i), &s[$i]) }, "indexing, checked or not, shows the same element");
    }
}} }
macro_rules! vviews { ($n:ident $k:literal) => {{
    let mut v = v!($n, "a", E);
    let (copy, clone) = (v, v.clone());
    for w in 0..7usize {
        let at = v.as_slice().as_ptr();
        for i in 0..$k { let x = n(i, 0, w); match w {
            0 => v[i] = x,
            1 => v.as_slice_mut()[i] = x,
            2 => *v.iter_mut().nth(i).unwrap() = x,
            3 => *v.iter_mut().rev().nth(($k as usize).wrapping_sub(1 + i)).unwrap() = x,
            4 => AsMut::<[E]>::as_mut(&mut v)[i] = x,
            5 => { let d: &mut [E] = v.deref_mut().as_mut(); d[i] = x }
            _ => unsafe { *v.get_unchecked_mut(i) = x },
        } }
        must(v.as_slice_mut().len() == $k && v.iter_mut().count() == $k && AsMut::<[E]>::as_mut(&mut v).len() == $k, "every mutable view has N elements");
        must(eq(v.as_slice_mut().as_ptr(), at) && eq(AsMut::<[E]>::as_mut(&mut v).as_ptr(), at), "writing does not move the elements");
        vshow!(v, $k, |i| n(i, 0, w));
    }
    vshow!(copy, $k, |i| E::at("a", i, 0));
    vshow!(clone, $k, |i| E::at("a", i, 0));
    let inner = v.into_inner();
    let inner: &[E] = inner.as_ref();
    must(inner.len() == $k, "the inner array has N elements");
    for i in 0..$k { inner[i].same(n(i, 0, 6), "the inner array holds the same elements") }
    let vals: Vec<E> = copy.into_iter().collect();
    must(vals.len() == $k, "iterating by value hands out N elements");
    for i in 0..$k { vals[i].same(E::at("a", i, 0), "iterating by value hands out the same elements") }
}} }
macro_rules! mshow { ($m:ident, $r:literal, $c:literal, |$i:ident, $j:ident| $e:expr) => {{
    must($m.dim() == ($r, $c) && $m.rows() == $r && $m.cols() == $c, "the dimensions are those of the type");
    let rows: Vec<&[E]> = $m.rows_iter_ref().collect();
    let cols: Vec<Vec<&E>> = $m.cols_iter_ref().map(|x| x.collect()).collect();
    let rvals: Vec<Vec<E>> = $m.rows_iter().map(|x| x.into_iter().collect()).collect();
    let cvals: Vec<Vec<E>> = $m.cols_iter().map(|x| x.into_iter().collect()).collect();
    must(rows.len() == $r && rvals.len() == $r && cols.len() == $c && cvals.len() == $c, "there are R rows and C columns");
    must(rows.iter().all(|x| x.len() == $c) && rvals.iter().all(|x| x.len() == $c) && cols.iter().all(|x| x.len() == $r) && cvals.iter().all(|x| x.len() == $r), "rows and columns are full");
    for $i in 0..$r { for $j in 0..$c {
        $m[($i, $j)].same($e, "indexing shows element (i, j)");
        rvals[$i][$j].same($e, "the copied row shows the same element");
        cvals[$j][$i].same($e, "the copied column shows the same element");
        let p: *const E = &$m[($i, $j)];
        must(eq(p, &rows[$i][$j]) && eq(p, cols[$j][$i]) && unsafe { eq(p, $m.get_unchecked(($i, $j))) }, "borrowed rows, columns and unchecked access show the same element");
    } }
    let mut seen = 0;
    must($m.all(|(i, j), x| { seen += 1; eq(x, &$m[(i, j)]) }) && seen == $r * $c, "visiting shows the same elements");
}} }
macro_rules! mviews { ($r:ident $rn:literal, $c:ident $cn:literal) => {{
    let mut m = m!($r, $c, "a", E);
    let (copy, clone) = (m, m.clone());
    for w in 0..2usize {
        for i in 0..$rn { for j in 0..$cn { let x = n(i, j, w); if w == 0 { m[(i, j)] = x } else { unsafe { *m.get_unchecked_mut((i, j)) = x } } } }
        mshow!(m, $rn, $cn, |i, j| n(i, j, w));
    }
    mshow!(copy, $rn, $cn, |i, j| E::at("a", i, j));
    mshow!(clone, $rn, $cn, |i, j| E::at("a", i, j));
    let t = copy.map(|_, x| x);
    mshow!(t, $rn, $cn, |i, j| E::at("a", i, j));
}} }
/// One write at a free place: everything else stays.
macro_rules! vone { ($n:ident $k:literal) => {{ if $k > 0 && choose($k) {
    let (mut v, mut w, mut p) = (v!($n, "a", E), 0, 0);
    while w < 6 && !choose(w) { w += 1 }
    while p + 1 < $k && !choose(100 + p) { p += 1 }
    let x = n(p, 0, w);
    match w {
        0 => v[p] = x,
        1 => v.as_slice_mut()[p] = x,
        2 => *v.iter_mut().nth(p).unwrap() = x,
        3 => *v.iter_mut().rev().nth(($k as usize).wrapping_sub(1 + p)).unwrap() = x,
        4 => AsMut::<[E]>::as_mut(&mut v)[p] = x,
        5 => { let d: &mut [E] = v.deref_mut().as_mut(); d[p] = x }
        _ => unsafe { *v.get_unchecked_mut(p) = x },
    }
    vshow!(v, $k, |i| if i == p { n(p, 0, w) } else { E::at("a", i, 0) });
    return
} }} }
macro_rules! mone { ($r:ident $rn:literal, $c:ident $cn:literal) => {{ if $rn * $cn > 0 && choose($rn * 100 + $cn) {
    let mut m = m!($r, $c, "a", E);
    let mut p = 0;
    while p + 1 < $rn * $cn && !choose(10000 + p) { p += 1 }
    let (k, l) = (p / $cn.max(1usize), p % $cn.max(1usize));
    let w = choose(1) as usize;
    if w == 0 { m[(k, l)] = n(k, l, w) } else { unsafe { *m.get_unchecked_mut((k, l)) = n(k, l, w) } }
    mshow!(m, $rn, $cn, |i, j| if (i, j) == (k, l) { n(k, l, w) } else { E::at("a", i, j) });
    return
} }} }
h! {
    vectors 0 { vsizes!(vviews); }
    matrices 0 { shapes!(mviews); }
    matrices_wide 0 { shapes_wide!(mviews); }
    one_write_vector 0 { vone!(U1 1); vone!(U2 2); vone!(U3 3); vone!(U4 4); vone!(U7 7); vone!(U8 8); vone!(U16 16); vone!(U31 31); vone!(U32 32); }
    one_write_vector_all 1 { vsizes!(vone); }
    one_write_matrix 0 { shapes!(mone); }
}
