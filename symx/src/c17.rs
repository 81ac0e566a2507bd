//! C17: sums, norms and conjugates over the real numbers.
use crate::elem::*;
use crate::eng::*;
use crate::{h, m, mchk, shapes, shapes_wide, v, vchk, vsizes};
use num::Complex;
use rowcol::prelude::*;

fn total(it: impl Iterator<Item = S>) -> S { it.fold(S::k(0), |x, y| x + y) }
macro_rules! vsum { ($n:ident $k:literal) => {{
    let a = v!($n, "a", S);
    a.sum().same(total((0..$k).map(|i| S::at("a", i, 0))), "vector sum");
    vchk!(a, $k, "summed vector unchanged", |i| S::at("a", i, 0));
}} }
macro_rules! msum { ($r:ident $rn:literal, $c:ident $cn:literal) => {{
    let a = m!($r, $c, "a", S);
    a.sum().same(total((0..$rn).flat_map(|i| (0..$cn).map(move |j| S::at("a", i, j)))), "matrix sum");
    mchk!(a, $rn, $cn, "summed matrix unchanged", |i, j| S::at("a", i, j));
}} }
fn squares_of(n: usize) -> S { total((0..n).map(|i| S::at("a", i, 0) * S::at("a", i, 0))) }
macro_rules! norm { ($n:ident $k:literal) => {{ if choose($k) {
    let a = v!($n, "a", S);
    let r = a.norm();
    let neg = r.lts(S::k(0));
    prove(with(|c| c.not(neg)), "a norm is not negative");
    (r * r).same(squares_of($k), "the square of the norm is the sum of squares");
    vchk!(a, $k, "vector unchanged by norm", |i| S::at("a", i, 0));
    return } }} }
macro_rules! normalized { ($n:ident $k:literal) => {{ if choose($k) {
    let a = v!($n, "a", S);
    // a real number r is the norm exactly when r >= 0 and r^2 is the sum of squares
    let r = S::var("r");
    let neg = r.lts(S::k(0));
    assume(with(|c| c.not(neg)));
    assume((r * r).eqs(squares_of($k)));
    let z = r.eqs(S::k(0));
    assume(with(|c| c.not(z)));
    let b = a.normalized();
    vchk!(b, $k, "normalized * norm = vector", |i| S::at("a", i, 0) / r);
    vchk!(a, $k, "vector unchanged by normalized", |i| S::at("a", i, 0));
    return } }} }
macro_rules! conj { ($r:ident $rn:literal, $c:ident $cn:literal) => {{
    let a = Matrix::<Complex<S>, $r, $c>::generate(|(i, j)| Complex::new(S::at("re", i, j), S::at("im", i, j)));
    let b = a.conjugate();
    must(b.dim() == ($rn, $cn), "conjugate keeps the dimensions");
    for i in 0..$rn { for j in 0..$cn {
        b[(i, j)].re.same(S::at("re", i, j), "conjugate keeps real parts");
        b[(i, j)].im.same(-S::at("im", i, j), "conjugate negates imaginary parts");
        a[(i, j)].re.same(S::at("re", i, j), "original unchanged");
        a[(i, j)].im.same(S::at("im", i, j), "original unchanged");
    } }
}} }
h! {
    sum_vectors 0 { vsizes!(vsum); }
    sum_matrices 0 { shapes!(msum); shapes_wide!(msum); }
    norms 0 { vsizes!(norm); }
    normalize_1 0 { normalized!(U1 1); }
    normalize_2 0 { normalized!(U2 2); }
    normalize_3 0 { normalized!(U3 3); }
    normalize_4 0 { normalized!(U4 4); }
    normalize_5 0 { normalized!(U5 5); }
    normalize_more 1 { normalized!(U6 6); normalized!(U8 8); normalized!(U16 16); normalized!(U32 32); }
    conjugates 0 { shapes!(conj); shapes_wide!(conj); }
}
