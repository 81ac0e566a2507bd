//! C09: zero, identity and powers.
use crate::elem::*;
use crate::eng::*;
use crate::{h, m, mchk, shapes, shapes_wide, squares, v, vchk, vsizes};
use num::{One, Zero};
use rowcol::prelude::*;

macro_rules! vzero { ($n:ident $k:literal) => {{
    vchk!(Vector::<E, $n>::zero(), $k, "zero vector", |_i| E::zero());
    let z = Vector::<S, $n>::zero();
    vchk!(v!($n, "a", S) + z.clone(), $k, "v + 0", |i| S::at("a", i, 0));
    vchk!(z.clone() + v!($n, "a", S), $k, "0 + v", |i| S::at("a", i, 0));
    must(z.is_zero(), "zero().is_zero()");
}} }
macro_rules! mzero { ($r:ident $rn:literal, $c:ident $cn:literal) => {{
    mchk!(Matrix::<E, $r, $c>::zero(), $rn, $cn, "zero matrix", |_i, _j| E::zero());
    let z = Matrix::<S, $r, $c>::zero();
    mchk!(m!($r, $c, "a", S) + z.clone(), $rn, $cn, "m + 0", |i, j| S::at("a", i, j));
    mchk!(z.clone() + m!($r, $c, "a", S), $rn, $cn, "0 + m", |i, j| S::at("a", i, j));
    must(z.is_zero(), "zero().is_zero()");
}} }
/// `got` must be true exactly when all of `xs` equal the type's zero.
fn iff_all_zero(got: bool, xs: Vec<u32>) {
    let z = E::zero().0;
    let all = with(|c| { let v = xs.iter().map(|x| c.eq(*x, z)).collect(); c.and(v) });
    prove(if got { all } else { with(|c| c.not(all)) }, "is_zero() exactly when every element is zero");
}
macro_rules! viszero { ($n:ident $k:literal) => {{ if choose($k) { iff_all_zero(v!($n, "a", E).is_zero(), (0..$k).map(|i| E::at("a", i, 0).0).collect()); return } }} }
macro_rules! miszero { ($r:ident $rn:literal, $c:ident $cn:literal) => {{ if choose($rn * 100 + $cn) {
    iff_all_zero(m!($r, $c, "a", E).is_zero(), (0..$rn).flat_map(|i| (0..$cn).map(move |j| E::at("a", i, j).0)).collect()); return } }} }
/// the same over the reals, where elements may cancel
macro_rules! vrzero { ($n:ident $k:literal) => {{ if choose($k) {
    let got = v!($n, "a", S).is_zero();
    let all = with(|c| { let z = c.konst(&rat(0)); let v = (0..$k).map(|i| S::at_in(c, i, 0)).collect::<Vec<_>>().into_iter().map(|x| c.eq(x, z)).collect(); c.and(v) });
    prove(if got { all } else { with(|c| c.not(all)) }, "is_zero() exactly when every element is zero");
    return } }} }
macro_rules! mrzero { ($r:ident $rn:literal, $c:ident $cn:literal) => {{ if choose($rn * 100 + $cn) {
    let got = m!($r, $c, "a", S).is_zero();
    let all = with(|c| { let z = c.konst(&rat(0)); let v = (0..$rn).flat_map(|i| (0..$cn).map(move |j| (i, j))).map(|(i, j)| { let x = S::at_in(c, i, j); c.eq(x, z) }).collect(); c.and(v) });
    prove(if got { all } else { with(|c| c.not(all)) }, "is_zero() exactly when every element is zero");
    return } }} }
impl S { fn at_in(c: &mut Cx, i: usize, j: usize) -> u32 { c.var(&format!("a_{}_{}", i, j), Sort::Real) } }
macro_rules! ident { ($n:ident $k:literal) => {{
    let one = || Matrix::<T2, $n, $n>::identity();
    let d = |i: usize, j: usize| if i == j { E::one() } else { E::zero() };
    mchk!(Matrix::<E, $n, $n>::identity(), $k, $k, "identity()", |i, j| d(i, j));
    mchk!(<Matrix<T2, $n, $n> as One>::one(), $k, $k, "one()", |i, j| if i == j { T2::one() } else { T2::zero() });
    mchk!(m!($n, $n, "a", T2) * one(), $k, $k, "m * identity", |i, j| T2::at("a", i, j));
    mchk!(one() * m!($n, $n, "a", T2), $k, $k, "identity * m", |i, j| T2::at("a", i, j));
    mchk!(<Matrix<T2, $n, $n> as One>::one() * m!($n, $n, "a", T2), $k, $k, "one * m", |i, j| T2::at("a", i, j));
    mchk!({ let mut x = m!($n, $n, "a", T2); x *= one(); x }, $k, $k, "m *= identity", |i, j| T2::at("a", i, j));
}} }
/// e-fold product, from its definition
fn power<const N: usize>(a: [[S; N]; N], e: usize) -> [[S; N]; N] {
    let mut r = [[S::k(0); N]; N];
    for i in 0..N { r[i][i] = S::k(1) }
    for k in 0..e {
        if k == 0 { r = a; continue }
        let mut t = [[S::k(0); N]; N];
        for i in 0..N { for j in 0..N { let mut s = r[i][0] * a[0][j]; for k in 1..N { s = s + r[i][k] * a[k][j] } t[i][j] = s } }
        r = t;
    }
    r
}
macro_rules! pow { ($n:ident $k:literal, $range:expr) => {{ for e in $range {
    let w = power::<$k>({ let mut a = [[S::k(0); $k]; $k]; for i in 0..$k { for j in 0..$k { a[i][j] = S::at("a", i, j) } } a }, e);
    let a = m!($n, $n, "a", S);
    mchk!(a.pow(e), $k, $k, "power", |i, j| w[i][j]);
    mchk!(a, $k, $k, "base unchanged", |i, j| S::at("a", i, j));
} }} }

h! {
    zero_vectors 0 { vsizes!(vzero); }
    zero_matrices 0 { shapes!(mzero); shapes_wide!(mzero); }
    is_zero_vectors 0 { vsizes!(viszero); }
    is_zero_matrices 0 { shapes!(miszero); shapes_wide!(miszero); }
    is_zero_vectors_real 0 { vsizes!(vrzero); }
    is_zero_matrices_real 0 { shapes!(mrzero); shapes_wide!(mrzero); }
    identity 0 { squares!(ident); }
    pow_0 0 { must(m!(U0, U0, "a", S).pow(0).dim() == (0, 0), "0x0 power"); must(m!(U0, U0, "a", S).pow(3).dim() == (0, 0), "0x0 power"); }
    pow_1 0 { pow!(U1 1, 0..33); }
    pow_2 0 { pow!(U2 2, 0..7); }
    pow_3 0 { pow!(U3 3, 0..4); }
    pow_4 0 { pow!(U4 4, 0..4); }
    pow_2_more 1 { pow!(U2 2, 7..13); }
    pow_3_more 1 { pow!(U3 3, 4..7); }
    pow_unipotent 0 {
        // [[1, x], [0, 1]]^e = [[1, e x], [0, 1]] for every exponent up to 200
        let x = S::var("x");
        let a = Matrix::<S, U2, U2>::new([[S::k(1), x], [S::k(0), S::k(1)]]);
        for e in 0..201usize {
            let w = [[S::k(1), x * S::k(e as i64)], [S::k(0), S::k(1)]];
            mchk!(a.pow(e), 2, 2, "unipotent power", |i, j| w[i][j]);
        }
    }
    // exponents around and above what fits small integer types
    pow_large 0 {
        let x = S::var("x");
        let a = Matrix::<S, U2, U2>::new([[S::k(1), x], [S::k(0), S::k(1)]]);
        for e in [254usize, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025] {
            let w = [[S::k(1), x * S::k(e as i64)], [S::k(0), S::k(1)]];
            mchk!(a.pow(e), 2, 2, "unipotent power", |i, j| w[i][j]);
        }
    }
    pow_huge 0 {
        let a = Matrix::<S, U2, U2>::new([[S::k(1), S::k(0)], [S::k(3), S::k(1)]]);
        for e in [32767usize, 32768, 65535, 65536, 65537, 131073] {
            let w = [[S::k(1), S::k(0)], [S::k(3 * e as i64), S::k(1)]];
            mchk!(a.pow(e), 2, 2, "unipotent power", |i, j| w[i][j]);
        }
    }
}
