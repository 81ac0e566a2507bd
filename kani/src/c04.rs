//! C04: row and column iterators.
use crate::harnesses;
use crate::iterdrive::*;
use crate::nd::Nd;
use core::ptr;
use rowcol::prelude::*;

#[allow(non_camel_case_types)]
#[derive(Clone, Copy)]
enum Which { rows, cols, rows_ref, cols_ref, inner }
#[derive(Clone, Copy)]
enum What { Win(&'static [Op]), Hist2(usize), Hist3(usize) }

fn run<I>(nd: &mut Nd, mk: impl Fn() -> I, n: usize, what: What, eq: impl Fn(I::Item, usize) -> bool)
    where I: Iterator + DoubleEndedIterator + ExactSizeIterator
{
    match what {
        What::Win(ops) => windows(nd, mk, n, ops, eq),
        What::Hist2(o) => hist2(nd, mk, n, o, eq),
        What::Hist3(o) => hist(nd, mk, n, o, eq),
    }
}

macro_rules! go { ($nd:ident, $kind:ident, $r:ident $rn:literal, $c:ident $cn:literal, $what:expr) => {{
    let a = $nd.arr2::<$rn, $cn>();
    let m = Matrix::<u8, $r, $c>::new(a);
    go!(@ $kind $nd, m, a, $r $rn, $c $cn, $what)
}};
(@ rows $nd:ident, $m:ident, $a:ident, $r:ident $rn:literal, $c:ident $cn:literal, $what:expr) => {
    run($nd, || $m.rows_iter(), $rn, $what, |x: Vector<u8, $c>, i| {
        let mut ok = x.as_slice().len() == $cn;
        let mut j = 0;
        while j < $cn { if x[j] != $a[i][j] { ok = false } j += 1; }
        ok
    })
};
(@ cols $nd:ident, $m:ident, $a:ident, $r:ident $rn:literal, $c:ident $cn:literal, $what:expr) => {
    run($nd, || $m.cols_iter(), $cn, $what, |x: Vector<u8, $r>, j| {
        let mut ok = x.as_slice().len() == $rn;
        let mut i = 0;
        while i < $rn { if x[i] != $a[i][j] { ok = false } i += 1; }
        ok
    })
};
(@ rows_ref $nd:ident, $m:ident, $a:ident, $r:ident $rn:literal, $c:ident $cn:literal, $what:expr) => {
    run($nd, || $m.rows_iter_ref(), $rn, $what, |x: &[u8], i| {
        let mut ok = x.len() == $cn;
        let mut j = 0;
        while j < $cn { if !ptr::eq(&x[j], &$m[(i, j)]) || x[j] != $a[i][j] { ok = false } j += 1; }
        ok
    })
};
(@ cols_ref $nd:ident, $m:ident, $a:ident, $r:ident $rn:literal, $c:ident $cn:literal, $what:expr) => {
    run($nd, || $m.cols_iter_ref(), $cn, $what, |mut x, j| {
        let mut ok = x.len() == $rn;
        let mut i = 0;
        while i < $rn {
            match x.next() { Some(e) => if !ptr::eq(e, &$m[(i, j)]) || *e != $a[i][j] { ok = false }, None => ok = false }
            i += 1;
        }
        ok && x.next().is_none()
    })
};
(@ inner $nd:ident, $m:ident, $a:ident, $r:ident $rn:literal, $c:ident $cn:literal, $what:expr) => {{
    let mut j = 0;
    while j < $cn {
        run($nd, || $m.cols_iter_ref().nth(j).unwrap(), $rn, $what, |x: &u8, i| ptr::eq(x, &$m[(i, j)]) && *x == $a[i][j]);
        j += $cn - 1;
        if $cn == 1 { break }
    }
}};
}
macro_rules! all { ($nd:ident, $kind:ident, $r:ident $rn:literal, $c:ident $cn:literal) => {{
    go!($nd, $kind, $r $rn, $c $cn, What::Win(STEP));
    go!($nd, $kind, $r $rn, $c $cn, What::Win(EAT));
    go!($nd, $kind, $r $rn, $c $cn, What::Win(NTH));
    go!($nd, $kind, $r $rn, $c $cn, What::Win(NTHB));
}} }
use What::*;

harnesses! {
    c04_rows_step_22 [8] nd => { go!(nd, rows, U2 2, U2 2, Win(STEP)) }
    c04_rows_eat_22 [8] nd => { go!(nd, rows, U2 2, U2 2, Win(END)) }
    c04_rows_nth_31 [8] nd => { go!(nd, rows, U3 3, U1 1, Win(NTH)) }
    c04_rows_nthb_21 [8] nd => { go!(nd, rows, U2 2, U1 1, Win(NTHB)) }
    c04_cols_step_22 [8] nd => { go!(nd, cols, U2 2, U2 2, Win(STEP)) }
    c04_cols_eat_22 [8] nd => { go!(nd, cols, U2 2, U2 2, Win(END)) }
    c04_cols_nth_13 [8] nd => { go!(nd, cols, U1 1, U3 3, Win(NTH)) }
    c04_cols_nthb_12 [8] nd => { go!(nd, cols, U1 1, U2 2, Win(NTHB)) }
    c04_rowsref_step_32 [8] nd => { go!(nd, rows_ref, U3 3, U2 2, Win(STEP)); go!(nd, rows_ref, U2 2, U2 2, Win(END)) }
    c04_rowsref_nth_32 [8] nd => { go!(nd, rows_ref, U3 3, U1 1, Win(NTH)); }
    c04_colsref_step_23 [8] nd => { go!(nd, cols_ref, U2 2, U3 3, Win(STEP)) }
    c04_colsref_eat_23 [8] nd => { go!(nd, cols_ref, U2 2, U3 3, Win(END)) }
    c04_colsref_nth_23 [8] nd => { go!(nd, cols_ref, U2 2, U3 3, Win(NTH)) }
    c04_colsref_nthb_23 [8] nd => { go!(nd, cols_ref, U2 2, U3 3, Win(NTHB)) }
    c04_inner_31_a [8] nd => { go!(nd, inner, U3 3, U1 1, Win(STEP)); go!(nd, inner, U2 2, U1 1, Win(END)) }
    c04_inner_31_b [8] nd => { go!(nd, inner, U3 3, U1 1, Win(NTH)); }
    c04_inner_22_c [8] nd => { go!(nd, inner, U2 2, U2 2, Win(NTHB)); }
    c04_empty_rows [8] nd => { all!(nd, rows, U0 0, U2 2); all!(nd, rows_ref, U0 0, U2 2); }
    c04_empty_cols [8] nd => { all!(nd, cols, U2 2, U0 0); all!(nd, cols_ref, U2 2, U0 0); }
    c04_narrow_a [8] nd => { go!(nd, rows, U1 1, U0 0, Win(STEP)); }
    c04_narrow_b [8] nd => { go!(nd, cols_ref, U0 0, U2 2, Win(STEP)); }
    c04_narrow_c [8] nd => { go!(nd, cols, U0 0, U1 1, Win(STEP)); }
    c04_narrow_d [8] nd => { go!(nd, rows_ref, U2 2, U0 0, Win(STEP)); }
    c04_rows_h2a [8] nd => { go!(nd, rows, U2 2, U1 1, Hist2(2)) }
    c04_rows_h2b [8] nd => { go!(nd, rows, U2 2, U1 1, Hist2(3)) }
    c04_cols_h2 [8] nd => { go!(nd, cols, U1 1, U2 2, Hist2(2)); go!(nd, cols, U1 1, U2 2, Hist2(3)) }
    c04_rowsref_h2 [8] nd => { go!(nd, rows_ref, U2 2, U1 1, Hist2(2)); go!(nd, rows_ref, U2 2, U1 1, Hist2(3)) }
    c04_colsref_h2 [8] nd => { go!(nd, cols_ref, U1 1, U2 2, Hist2(2)); go!(nd, cols_ref, U1 1, U2 2, Hist2(3)) }
    c04_inner_h2 [8] nd => { go!(nd, inner, U2 2, U1 1, Hist2(2)); go!(nd, inner, U2 2, U1 1, Hist2(3)) }
    c04_rows_step_42_t [8] nd => { go!(nd, rows, U4 4, U2 2, Win(STEP)) }
    c04_rows_nth_42_t [8] nd => { go!(nd, rows, U4 4, U2 2, Win(NTH)) }
    c04_rows_eat_33_t [8] nd => { go!(nd, rows, U3 3, U3 3, Win(EAT)) }
    c04_cols_step_24_t [8] nd => { go!(nd, cols, U2 2, U4 4, Win(STEP)) }
    c04_cols_nth_24_t [8] nd => { go!(nd, cols, U2 2, U4 4, Win(NTH)) }
    c04_cols_eat_33_t [8] nd => { go!(nd, cols, U3 3, U3 3, Win(EAT)) }
    c04_rowsref_42_t [8] nd => { all!(nd, rows_ref, U4 4, U2 2) }
    c04_colsref_24_t [8] nd => { all!(nd, cols_ref, U2 2, U4 4) }
    c04_inner_43_t [8] nd => { go!(nd, inner, U4 4, U3 3, Win(STEP)); go!(nd, inner, U4 4, U3 3, Win(NTH)); }
    c04_inner_41_t [8] nd => { go!(nd, inner, U4 4, U1 1, Win(EAT)); go!(nd, inner, U4 4, U1 1, Win(NTHB)); }
    c04_rows_h3_t [8] nd => { go!(nd, rows, U3 3, U1 1, Hist3(0)); go!(nd, rows, U3 3, U1 1, Hist3(1)); go!(nd, rows, U3 3, U1 1, Hist3(2)) }
    c04_cols_h3_t [8] nd => { go!(nd, cols, U1 1, U3 3, Hist3(0)); go!(nd, cols, U1 1, U3 3, Hist3(1)); go!(nd, cols, U1 1, U3 3, Hist3(2)) }
    c04_rowsref_h3_t [8] nd => { go!(nd, rows_ref, U3 3, U1 1, Hist3(0)); go!(nd, rows_ref, U3 3, U1 1, Hist3(1)); go!(nd, rows_ref, U3 3, U1 1, Hist3(2)) }
    c04_colsref_h3_t [8] nd => { go!(nd, cols_ref, U1 1, U3 3, Hist3(0)); go!(nd, cols_ref, U1 1, U3 3, Hist3(1)); go!(nd, cols_ref, U1 1, U3 3, Hist3(2)) }
    c04_inner_h3_t [8] nd => { go!(nd, inner, U3 3, U1 1, Hist3(0)); go!(nd, inner, U3 3, U1 1, Hist3(1)); go!(nd, inner, U3 3, U1 1, Hist3(2)) }
}
