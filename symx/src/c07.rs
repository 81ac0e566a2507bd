//! C07: element-wise and scalar arithmetic, over an arbitrary element type.
use crate::elem::*;
use crate::{h, m, mchk, shapes, shapes_wide, v, vchk, vsizes};
use rowcol::prelude::*;

macro_rules! vec_one { ($n:ident $k:literal) => {{
    let (a, b) = (v!($n, "a", E), v!($n, "b", E));
    let (ai, bi) = (|i| E::at("a", i, 0), |i| E::at("b", i, 0));
    let s = E::var("s");
    vchk!(a.clone() + b.clone(), $k, "v + v", |i| E::f2("eadd", ai(i), bi(i)));
    vchk!(a.clone() + &b, $k, "v + &v", |i| E::f2("eadd", ai(i), bi(i)));
    vchk!(&a + b.clone(), $k, "&v + v", |i| E::f2("eadd", ai(i), bi(i)));
    vchk!(&a + &b, $k, "&v + &v", |i| E::f2("eadd", ai(i), bi(i)));
    vchk!(a.clone() - b.clone(), $k, "v - v", |i| E::f2("esub", ai(i), bi(i)));
    vchk!(a.clone() - &b, $k, "v - &v", |i| E::f2("esub", ai(i), bi(i)));
    vchk!(&a - b.clone(), $k, "&v - v", |i| E::f2("esub", ai(i), bi(i)));
    vchk!(&a - &b, $k, "&v - &v", |i| E::f2("esub", ai(i), bi(i)));
    vchk!({ let mut x = a.clone(); x += b.clone(); x }, $k, "v += v", |i| E::f2("eadd", ai(i), bi(i)));
    vchk!({ let mut x = a.clone(); x -= b.clone(); x }, $k, "v -= v", |i| E::f2("esub", ai(i), bi(i)));
    vchk!(a.clone() * s, $k, "v * s", |i| E::f2("emul", ai(i), s));
    vchk!(a.clone() * &s, $k, "v * &s", |i| E::f2("emul", ai(i), s));
    vchk!({ let mut x = a.clone(); x *= s; x }, $k, "v *= s", |i| E::f2("emul", ai(i), s));
    vchk!({ let mut x = a.clone(); x *= &s; x }, $k, "v *= &s", |i| E::f2("emul", ai(i), s));
    vchk!(a.clone() / s, $k, "v / s", |i| E::f2("ediv", ai(i), s));
    vchk!(a.clone() / &s, $k, "v / &s", |i| E::f2("ediv", ai(i), s));
    vchk!({ let mut x = a.clone(); x /= s; x }, $k, "v /= s", |i| E::f2("ediv", ai(i), s));
    vchk!({ let mut x = a.clone(); x /= &s; x }, $k, "v /= &s", |i| E::f2("ediv", ai(i), s));
    vchk!(-a.clone(), $k, "-v", |i| E::f1("eneg", ai(i)));
    vchk!(&a + &a, $k, "v + itself", |i| E::f2("eadd", ai(i), ai(i)));
    vchk!(&a - &a, $k, "v - itself", |i| E::f2("esub", ai(i), ai(i)));
    vchk!(a, $k, "borrowed left operand unchanged", |i| ai(i));
    vchk!(b, $k, "borrowed right operand unchanged", |i| bi(i));
}} }
macro_rules! vec_het { ($n:ident $k:literal) => {{
    let (a, b) = (v!($n, "a", E), v!($n, "b", E2));
    let (ai, bi) = (|i| E::at("a", i, 0), |i| E::at("b", i, 0));
    let s = E2::at("s", 0, 0);
    let si = E(s.0);
    vchk!(a.clone() + b.clone(), $k, "v + v (two types)", |i| E::f2("hadd", ai(i), bi(i)));
    vchk!(a.clone() + &b, $k, "v + &v (two types)", |i| E::f2("hadd", ai(i), bi(i)));
    vchk!(&a + b.clone(), $k, "&v + v (two types)", |i| E::f2("hadd", ai(i), bi(i)));
    vchk!(&a + &b, $k, "&v + &v (two types)", |i| E::f2("hadd", ai(i), bi(i)));
    vchk!(a.clone() - b.clone(), $k, "v - v (two types)", |i| E::f2("hsub", ai(i), bi(i)));
    vchk!(a.clone() - &b, $k, "v - &v (two types)", |i| E::f2("hsub", ai(i), bi(i)));
    vchk!(&a - b.clone(), $k, "&v - v (two types)", |i| E::f2("hsub", ai(i), bi(i)));
    vchk!(&a - &b, $k, "&v - &v (two types)", |i| E::f2("hsub", ai(i), bi(i)));
    vchk!({ let mut x = a.clone(); x += b.clone(); x }, $k, "v += v (two types)", |i| E::f2("hadd", ai(i), bi(i)));
    vchk!({ let mut x = a.clone(); x -= b.clone(); x }, $k, "v -= v (two types)", |i| E::f2("hsub", ai(i), bi(i)));
    vchk!(a.clone() * s, $k, "v * s (two types)", |i| E::f2("hmul", ai(i), si));
    vchk!(a.clone() / s, $k, "v / s (two types)", |i| E::f2("hdiv", ai(i), si));
    vchk!({ let mut x = a.clone(); x *= s; x }, $k, "v *= s (two types)", |i| E::f2("hmul", ai(i), si));
    vchk!({ let mut x = a.clone(); x /= s; x }, $k, "v /= s (two types)", |i| E::f2("hdiv", ai(i), si));
}} }
macro_rules! mat_one { ($r:ident $rn:literal, $c:ident $cn:literal) => {{
    let (a, b) = (m!($r, $c, "a", E), m!($r, $c, "b", E));
    let (ai, bi) = (|i, j| E::at("a", i, j), |i, j| E::at("b", i, j));
    let s = E::var("s");
    mchk!(a.clone() + b.clone(), $rn, $cn, "m + m", |i, j| E::f2("eadd", ai(i, j), bi(i, j)));
    mchk!(a.clone() + &b, $rn, $cn, "m + &m", |i, j| E::f2("eadd", ai(i, j), bi(i, j)));
    mchk!(&a + b.clone(), $rn, $cn, "&m + m", |i, j| E::f2("eadd", ai(i, j), bi(i, j)));
    mchk!(&a + &b, $rn, $cn, "&m + &m", |i, j| E::f2("eadd", ai(i, j), bi(i, j)));
    mchk!(a.clone() - b.clone(), $rn, $cn, "m - m", |i, j| E::f2("esub", ai(i, j), bi(i, j)));
    mchk!(a.clone() - &b, $rn, $cn, "m - &m", |i, j| E::f2("esub", ai(i, j), bi(i, j)));
    mchk!(&a - b.clone(), $rn, $cn, "&m - m", |i, j| E::f2("esub", ai(i, j), bi(i, j)));
    mchk!(&a - &b, $rn, $cn, "&m - &m", |i, j| E::f2("esub", ai(i, j), bi(i, j)));
    mchk!({ let mut x = a.clone(); x += b.clone(); x }, $rn, $cn, "m += m", |i, j| E::f2("eadd", ai(i, j), bi(i, j)));
    mchk!({ let mut x = a.clone(); x -= b.clone(); x }, $rn, $cn, "m -= m", |i, j| E::f2("esub", ai(i, j), bi(i, j)));
    mchk!(a.clone() * s, $rn, $cn, "m * s", |i, j| E::f2("emul", ai(i, j), s));
    mchk!(a.clone() * &s, $rn, $cn, "m * &s", |i, j| E::f2("emul", ai(i, j), s));
    mchk!({ let mut x = a.clone(); x *= s; x }, $rn, $cn, "m *= s", |i, j| E::f2("emul", ai(i, j), s));
    mchk!(a.clone() / s, $rn, $cn, "m / s", |i, j| E::f2("ediv", ai(i, j), s));
    mchk!(a.clone() / &s, $rn, $cn, "m / &s", |i, j| E::f2("ediv", ai(i, j), s));
    mchk!({ let mut x = a.clone(); x /= s; x }, $rn, $cn, "m /= s", |i, j| E::f2("ediv", ai(i, j), s));
    mchk!(-a.clone(), $rn, $cn, "-m", |i, j| E::f1("eneg", ai(i, j)));
    mchk!(&a + &a, $rn, $cn, "m + itself", |i, j| E::f2("eadd", ai(i, j), ai(i, j)));
    mchk!(&a - &a, $rn, $cn, "m - itself", |i, j| E::f2("esub", ai(i, j), ai(i, j)));
    mchk!(a, $rn, $cn, "borrowed left operand unchanged", |i, j| ai(i, j));
    mchk!(b, $rn, $cn, "borrowed right operand unchanged", |i, j| bi(i, j));
}} }
macro_rules! mat_het { ($r:ident $rn:literal, $c:ident $cn:literal) => {{
    let (a, b) = (m!($r, $c, "a", E), m!($r, $c, "b", E2));
    let (ai, bi) = (|i, j| E::at("a", i, j), |i, j| E::at("b", i, j));
    mchk!({ let mut x = a.clone(); x += b.clone(); x }, $rn, $cn, "m += m (two types)", |i, j| E::f2("hadd", ai(i, j), bi(i, j)));
    mchk!({ let mut x = a.clone(); x -= b.clone(); x }, $rn, $cn, "m -= m (two types)", |i, j| E::f2("hsub", ai(i, j), bi(i, j)));
}} }

h! {
    vectors 0 { vsizes!(vec_one); }
    vectors_two_types 0 { vsizes!(vec_het); }
    matrices 0 { shapes!(mat_one); }
    matrices_two_types 0 { shapes!(mat_het); }
    matrices_wide 1 { shapes_wide!(mat_one); }
}
