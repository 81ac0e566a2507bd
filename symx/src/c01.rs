//! C01: ownership of elements, with at most one panic of user code anywhere.
use crate::eng::*;
use crate::own::*;
use crate::h;
use num::{Bounded, One, Zero};
use rowcol::prelude::*;

macro_rules! vec_of { ($n:ident) => { Vector::<R, $n>::generate(|_| R::new()) } }
macro_rules! mat_of { ($r:ident, $c:ident) => { Matrix::<R, $r, $c>::generate(|_| R::new()) } }
/// One scenario per case split, so that paths of different scenarios do not multiply.
macro_rules! cases { ($faults:expr; $($body:block)*) => {{
    let mut k = 0usize;
    $( k += 1; if choose(k) { scenario($faults, || $body); return } )*
    let _ = k;
}} }

macro_rules! build { ($n:ident $k:literal) => {{
    for count in 0..$k + 3usize { for (x, hint) in [(count, Some(count)), (0, None), ($k, Some($k)), (usize::MAX, None)].iter().enumerate() {
        if !choose(count * 10 + x) { continue }
        let items = || Items { left: count, hint: *hint };
        if count == $k { scenario(true, || { let v: Vector<R, $n> = items().collect(); for r in v.iter() { r.touch() } }) }
        else if count < $k || cfg!(debug_assertions) { refused(true, || { let _v: Vector<R, $n> = items().collect(); }) }
        else { scenario(true, || { let v: Vector<R, $n> = items().collect(); for r in v.iter() { r.touch() } }) }
        return
    } }
}} }

/// `steps` calls out of the double-ended iterator protocol, then one way to finish.
macro_rules! walk { ($it:expr, $steps:expr, $touch:expr) => {{
    let mut it = $it;
    let mut kept = vec![];
    let mut stop = false;
    for _ in 0..$steps {
        if stop { break }
        let x = if choose(1) { it.next() } else if choose(2) { it.next_back() } else if choose(3) { it.nth(1) } else if choose(4) { it.nth(2) }
            else if choose(5) { it.nth(usize::MAX) } else if choose(6) { it.nth_back(1) } else { stop = true; None };
        if let Some(x) = x { $touch(&x); kept.push(x) }
    }
    if choose(1) { drop(it) }
    else if choose(2) { let _ = it.count(); }
    else if choose(3) { if let Some(x) = it.last() { $touch(&x) } }
    else if choose(4) { it.rev().fold((), |_, x| $touch(&x)) }
    else if choose(5) { for x in it { $touch(&x) } }
    else { drop(kept); drop(it) }
}} }
macro_rules! walks { ($n:ident $k:literal, $steps:expr, $faults:expr) => {{ if choose($k) { scenario($faults, || walk!(vec_of!($n).into_iter(), $steps, |x: &R| x.touch())); return } }} }
macro_rules! chunk_walks { ($n:ident $i:ident $k:literal, $steps:expr, $faults:expr) => {{ if choose($k) { scenario($faults, || walk!(vec_of!($n).into_chunks::<$i>(), $steps, |x: &Vector<R, $i>| for y in x.iter() { y.touch() })); return } }} }

h! {
    from_iter 0 { if choose(1) { build!(U0 0); return } if choose(2) { build!(U1 1); return } if choose(3) { build!(U2 2); return } if choose(4) { build!(U3 3); return } build!(U5 5); }
    from_iter_large 1 { if choose(1) { build!(U8 8); return } if choose(2) { build!(U17 17); return } build!(U32 32); }
    into_iter 0 { walks!(U0 0, 1, false); walks!(U1 1, 2, false); walks!(U2 2, 3, false); walks!(U3 3, 3, false); }
    into_iter_faults 0 { walks!(U1 1, 1, true); walks!(U3 3, 2, true); }
    into_iter_deep 1 { walks!(U4 4, 4, false); walks!(U5 5, 4, false); walks!(U32 32, 2, false); }
    into_iter_deep_faults 1 { walks!(U3 3, 3, true); walks!(U5 5, 2, true); }
    into_chunks 0 { chunk_walks!(U2 U2 2, 2, false); chunk_walks!(U4 U2 42, 2, false); chunk_walks!(U6 U2 62, 2, false); chunk_walks!(U3 U1 31, 2, false); }
    into_chunks_faults 0 { chunk_walks!(U4 U2 42, 1, true); }
    into_chunks_deep 1 { chunk_walks!(U6 U2 62, 3, true); chunk_walks!(U6 U3 63, 3, false); chunk_walks!(U8 U2 82, 3, false); }
    zero_sized 0 { cases!(false;
        { walk!(Zs(3).collect::<Vector<Z, U3>>().into_iter(), 2, |_: &Z| ()) }
        { walk!(Zs(1).collect::<Vector<Z, U1>>().into_iter(), 1, |_: &Z| ()) }
        { walk!(Zs(4).collect::<Vector<Z, U4>>().into_chunks::<U2>(), 2, |_: &Vector<Z, U2>| ()) }
    );
    if choose(200) { cases!(true;
        { let v: Vector<Z, U2> = Zs(2).collect(); let _ = v.clone(); }
        { let m = Matrix::<Z, U2, U2>::generate(|_| { tick(); Z::new() }); let _ = m.clone(); let _ = m.transposed(); let _ = m.map(|_, z| { tick(); z }); }
        { let m: Matrix<Z, U2, U2> = Zs(4).collect::<Vector<Z, U4>>().into(); for r in m.rows_iter() { drop(r) } }
    ); return }
    for (i, n) in [0usize, 1, 2, 4, 5].iter().enumerate() { if !choose(100 + i) { continue }
        if *n < 3 || cfg!(debug_assertions) { refused(true, || { let _v: Vector<Z, U3> = Zs(*n).collect(); }) } else { scenario(true, || { let _v: Vector<Z, U3> = Zs(*n).collect(); }) }
        return
    } }
    containers 0 { cases!(true;
        { let v = vec_of!(U3); drop(v) }
        { let v = Vector::<R, U2>::new([R::new(), R::new()]); let [a, b] = v.into_inner(); a.touch(); b.touch() }
        { let v = Vector::<R, U3>::generate(|_| { tick(); R::new() }); for r in v.iter() { r.touch() } }
        { let v = vec_of!(U3); let u = v.clone(); drop(v); for r in u.iter() { r.touch() } }
        { let _ = (Vector::<R, U2>::default(), Vector::<R, U2>::min_value(), Vector::<R, U2>::max_value()); }
        { let _ = Vector::<R, U3>::zero(); let v = vec_of!(U3); let _ = v.is_zero(); for r in v.iter() { r.touch() } }
        { let mut v = vec_of!(U3); v[1] = R::new(); v[0usize].touch(); v[U2::new()] = R::new(); for r in v.iter_mut() { *r = R::new() } for r in v.iter() { r.touch() } }
        { let (a, b) = (vec_of!(U3), vec_of!(U3)); let _ = a == b; let _ = a != b; for r in a.iter().chain(b.iter()) { r.touch() } }
        { let v = vec_of!(U4); v.max().touch(); v.min().touch(); for r in v.iter() { r.touch() } }
        { let v = vec_of!(U3); v.max_by(|a, b| { a.touch(); tick(); a.cmp(b) }).touch(); v.min_by(|a, b| a.cmp(b)).touch(); }
        { let mut v = vec_of!(U2); v.clamp(R::new(), R::new()); for r in v.iter() { r.touch() } }
        { let v = vec_of!(U2); let u = v.clamped(R::new(), R::new()); for r in v.iter().chain(u.iter()) { r.touch() } }
        { let v = vec_of!(U3); v.sum().touch(); v.dot(&vec_of!(U3)).touch(); }
        { let (a, b) = (vec_of!(U3), vec_of!(U3)); let c = a.cross(&b); for r in a.iter().chain(b.iter()).chain(c.iter()) { r.touch() } }
        { let v = vec_of!(U2); let _ = format!("{:?}", v); }
    ); }
    vector_arithmetic 0 { cases!(true;
        { let c = vec_of!(U3) + vec_of!(U3); for r in c.iter() { r.touch() } }
        { let b = vec_of!(U3); let c = vec_of!(U3) + &b; for r in b.iter().chain(c.iter()) { r.touch() } }
        { let a = vec_of!(U3); let c = &a + vec_of!(U3); for r in a.iter().chain(c.iter()) { r.touch() } }
        { let (a, b) = (vec_of!(U3), vec_of!(U3)); let c = &a + &b; for r in a.iter().chain(b.iter()).chain(c.iter()) { r.touch() } }
        { let c = vec_of!(U3) - vec_of!(U3); for r in c.iter() { r.touch() } }
        { let b = vec_of!(U3); let c = vec_of!(U3) - &b; for r in b.iter().chain(c.iter()) { r.touch() } }
        { let a = vec_of!(U3); let c = &a - vec_of!(U3); for r in a.iter().chain(c.iter()) { r.touch() } }
        { let (a, b) = (vec_of!(U3), vec_of!(U3)); let c = &a - &b; for r in a.iter().chain(b.iter()).chain(c.iter()) { r.touch() } }
        { let mut a = vec_of!(U3); a += vec_of!(U3); for r in a.iter() { r.touch() } }
        { let mut a = vec_of!(U3); a -= vec_of!(U3); for r in a.iter() { r.touch() } }
        { let a = vec_of!(U3) * R::new(); for r in a.iter() { r.touch() } }
        { let a = vec_of!(U3) / R::new(); for r in a.iter() { r.touch() } }
        { let mut a = vec_of!(U3); a *= R::new(); for r in a.iter() { r.touch() } }
        { let mut a = vec_of!(U3); a /= R::new(); for r in a.iter() { r.touch() } }
        { let a = -vec_of!(U3); for r in a.iter() { r.touch() } }
    ); }
    matrices 0 { cases!(true;
        { let m = Matrix::<R, U2, U2>::new([[R::new(), R::new()], [R::new(), R::new()]]); for r in m.rows_iter_ref() { for x in r.iter() { x.touch() } } }
        { let m = Matrix::<R, U2, U3>::generate(|_| { tick(); R::new() }); drop(m) }
        { let m = Matrix::<R, U2, U3>::diag([R::new(), R::new()]); for r in m.rows_iter_ref() { for x in r.iter() { x.touch() } } }
        { let m: Matrix<R, U2, U2> = vec_of!(U4).into(); for r in m.rows_iter_ref() { for x in r.iter() { x.touch() } } }
        { let m = mat_of!(U2, U3).map(|_, x: R| { x.touch(); tick(); x }); for r in m.rows_iter_ref() { for x in r.iter() { x.touch() } } }
        { let m = mat_of!(U2, U2).map(|_, x: R| { tick(); drop(x); 7u8 }); drop(m) }
        { let m = mat_of!(U2, U3); let t = m.transposed(); for r in t.rows_iter_ref() { for x in r.iter() { x.touch() } } for r in m.rows_iter_ref() { for x in r.iter() { x.touch() } } }
        { let mut m = mat_of!(U2, U2); m.transpose(); for r in m.rows_iter_ref() { for x in r.iter() { x.touch() } } }
        { let m = mat_of!(U2, U2); let n = m.clone(); drop(m); for r in n.rows_iter_ref() { for x in r.iter() { x.touch() } } }
        { let _ = (Matrix::<R, U2, U2>::default(), Matrix::<R, U1, U2>::min_value(), Matrix::<R, U2, U1>::max_value()); }
        { let _ = (Matrix::<R, U2, U2>::zero(), Matrix::<R, U2, U2>::one(), Matrix::<R, U2, U2>::identity()); }
        { let m = mat_of!(U2, U2); let _ = m.is_zero(); let _ = m == mat_of!(U2, U2); }
        { let m = mat_of!(U2, U2); let _ = m.all(|_, x| { x.touch(); tick(); true }); let _ = m.any(|_, x| { x.touch(); tick(); false }); }
        { let m = mat_of!(U2, U2); m.max().touch(); m.min().touch(); }
        { let m = mat_of!(U2, U2); m.max_by(|a, b| { tick(); a.cmp(b) }).touch(); m.min_by(|a, b| a.cmp(b)).touch(); }
        { let mut m = mat_of!(U2, U1); m.clamp(R::new(), R::new()); for r in m.rows_iter_ref() { for x in r.iter() { x.touch() } } }
        { let m = mat_of!(U1, U2); let u = m.clamped(R::new(), R::new()); for r in u.rows_iter_ref() { for x in r.iter() { x.touch() } } }
        { let m = mat_of!(U2, U3); m.sum().touch(); let _ = format!("{:?}", m); }
        { let mut m = mat_of!(U2, U2); m[(1, 0)] = R::new(); m[(U0::new(), U1::new())] = R::new(); for r in m.rows_iter_ref() { for x in r.iter() { x.touch() } } }
    ); }
    matrix_iterators 0 { cases!(false;
        { let m = mat_of!(U2, U2); walk!(m.rows_iter(), 2, |x: &Vector<R, U2>| for y in x.iter() { y.touch() }) }
        { let m = mat_of!(U2, U2); walk!(m.cols_iter(), 2, |x: &Vector<R, U2>| for y in x.iter() { y.touch() }) }
        { let m = mat_of!(U2, U3); walk!(m.rows_iter(), 1, |x: &Vector<R, U3>| for y in x.iter() { y.touch() }) }
        { let m = mat_of!(U2, U3); walk!(m.cols_iter(), 1, |x: &Vector<R, U2>| for y in x.iter() { y.touch() }) }
    ); }
    matrix_iterators_faults 0 { cases!(true;
        { let m = mat_of!(U2, U2); for x in m.rows_iter() { for y in x.iter() { y.touch() } } for x in m.cols_iter().rev() { for y in x.iter() { y.touch() } } }
    ); }
    matrix_arithmetic 0 { cases!(true;
        { let c = mat_of!(U2, U2) + mat_of!(U2, U2); for r in c.rows_iter_ref() { for x in r.iter() { x.touch() } } }
        { let b = mat_of!(U2, U2); let c = mat_of!(U2, U2) + &b; for r in b.rows_iter_ref().chain(c.rows_iter_ref()) { for x in r.iter() { x.touch() } } }
        { let a = mat_of!(U2, U2); let c = &a + mat_of!(U2, U2); for r in a.rows_iter_ref().chain(c.rows_iter_ref()) { for x in r.iter() { x.touch() } } }
        { let (a, b) = (mat_of!(U2, U2), mat_of!(U2, U2)); let c = &a + &b; for r in a.rows_iter_ref().chain(b.rows_iter_ref()).chain(c.rows_iter_ref()) { for x in r.iter() { x.touch() } } }
        { let c = mat_of!(U2, U2) - mat_of!(U2, U2); for r in c.rows_iter_ref() { for x in r.iter() { x.touch() } } }
        { let b = mat_of!(U2, U2); let c = mat_of!(U2, U2) - &b; for r in b.rows_iter_ref().chain(c.rows_iter_ref()) { for x in r.iter() { x.touch() } } }
        { let a = mat_of!(U2, U2); let c = &a - mat_of!(U2, U2); for r in a.rows_iter_ref().chain(c.rows_iter_ref()) { for x in r.iter() { x.touch() } } }
        { let (a, b) = (mat_of!(U2, U2), mat_of!(U2, U2)); let c = &a - &b; for r in a.rows_iter_ref().chain(b.rows_iter_ref()).chain(c.rows_iter_ref()) { for x in r.iter() { x.touch() } } }
        { let mut a = mat_of!(U2, U2); a += mat_of!(U2, U2); for r in a.rows_iter_ref() { for x in r.iter() { x.touch() } } }
        { let mut a = mat_of!(U2, U2); a -= mat_of!(U2, U2); for r in a.rows_iter_ref() { for x in r.iter() { x.touch() } } }
        { let a = mat_of!(U2, U2) * R::new(); for r in a.rows_iter_ref() { for x in r.iter() { x.touch() } } }
        { let s = R::new(); let a = mat_of!(U2, U2) * &s; s.touch(); for r in a.rows_iter_ref() { for x in r.iter() { x.touch() } } }
        { let a = mat_of!(U2, U2) / R::new(); for r in a.rows_iter_ref() { for x in r.iter() { x.touch() } } }
        { let s = R::new(); let a = mat_of!(U2, U2) / &s; s.touch(); for r in a.rows_iter_ref() { for x in r.iter() { x.touch() } } }
        { let mut a = mat_of!(U2, U2); a *= R::new(); a /= R::new(); for r in a.rows_iter_ref() { for x in r.iter() { x.touch() } } }
        { let a = -mat_of!(U2, U2); for r in a.rows_iter_ref() { for x in r.iter() { x.touch() } } }
    ); }
    products 0 { cases!(true;
        { let c = mat_of!(U2, U2) * mat_of!(U2, U2); for r in c.rows_iter_ref() { for x in r.iter() { x.touch() } } }
        { let b = mat_of!(U2, U1); let c = mat_of!(U1, U2) * &b; for r in c.rows_iter_ref() { for x in r.iter() { x.touch() } } for r in b.rows_iter_ref() { for x in r.iter() { x.touch() } } }
        { let a = mat_of!(U1, U2); let c = &a * mat_of!(U2, U1); for r in c.rows_iter_ref() { for x in r.iter() { x.touch() } } for r in a.rows_iter_ref() { for x in r.iter() { x.touch() } } }
        { let (a, b) = (mat_of!(U2, U1), mat_of!(U1, U2)); let c = &a * &b; for r in c.rows_iter_ref() { for x in r.iter() { x.touch() } } }
        { let mut a = mat_of!(U2, U2); a *= mat_of!(U2, U2); for r in a.rows_iter_ref() { for x in r.iter() { x.touch() } } }
        { let c = mat_of!(U2, U2) * vec_of!(U2); for r in c.iter() { r.touch() } }
        { let b = vec_of!(U2); let c = mat_of!(U2, U2) * &b; for r in c.iter().chain(b.iter()) { r.touch() } }
        { let m = mat_of!(U1, U1); let _ = m.pow(3); let _ = m.pow(0); }
    ); }
    squares_small 0 { cases!(true;
        { mat_of!(U1, U1).determinant().touch(); mat_of!(U2, U2).determinant().touch() }
        { mat_of!(U3, U3).determinant().touch() }
        { mat_of!(U2, U2).cofactor((0, 1)).touch(); mat_of!(U3, U3).cofactor((2, 1)).touch() }
        { let _ = mat_of!(U1, U1).inverse(); let _ = mat_of!(U2, U2).inverse(); }
        { let _ = mat_of!(U3, U3).inverse(); }
    ); }
    determinant_4 0 { if choose(1) { scenario_span(false, true, || mat_of!(U4, U4).determinant().touch()) } else { scenario_span(false, true, || mat_of!(U4, U4).cofactor((1, 2)).touch()) } }
    inverse_4 0 { scenario_span(false, true, || if let Some(m) = mat_of!(U4, U4).inverse() { for r in m.rows_iter_ref() { for x in r.iter() { x.touch() } } }); }
    determinant_4_faults 1 { if choose(1) { scenario(true, || mat_of!(U4, U4).determinant().touch()) } else { scenario(true, || mat_of!(U4, U4).cofactor((1, 2)).touch()) } }
    inverse_4_faults 1 { scenario(true, || { let _ = mat_of!(U4, U4).inverse(); }); }
}
