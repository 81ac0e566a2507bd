//! Symbolic element types.
use crate::eng::*;
use num::{Num, NumCast, One, Signed, ToPrimitive, Zero};
use std::cmp::Ordering;
use std::ops::*;

fn b(f: impl FnOnce(&mut Cx) -> u32) -> u32 { with(f) }

/// Element of an arbitrary type: every operation is an uninterpreted function.
#[derive(Clone, Copy)]
pub struct E(pub u32);
impl E {
    pub fn var(n: &str) -> E { E(b(|c| c.var(n, Sort::E))) }
    pub fn at(n: &str, i: usize, j: usize) -> E { E::var(&format!("{}_{}_{}", n, i, j)) }
    pub fn f1(f: &'static str, x: E) -> E { E(b(|c| c.app(f, vec![x.0], Sort::E))) }
    pub fn f2(f: &'static str, x: E, y: E) -> E { E(b(|c| c.app(f, vec![x.0, y.0], Sort::E))) }
    pub fn f0(f: &'static str) -> E { E(b(|c| c.app(f, vec![], Sort::E))) }
    pub fn same(self, o: E, msg: &'static str) { prove_eq(self.0, o.0, msg) }
}
macro_rules! e_op { ($($t:ident $f:ident $ta:ident $fa:ident $n:literal),*) => { $(
    impl $t for E { type Output = E; fn $f(self, o: E) -> E { E::f2($n, self, o) } }
    impl<'a> $t<&'a E> for E { type Output = E; fn $f(self, o: &'a E) -> E { E::f2($n, self, *o) } }
    impl<'a> $t<E> for &'a E { type Output = E; fn $f(self, o: E) -> E { E::f2($n, *self, o) } }
    impl<'a, 'b> $t<&'a E> for &'b E { type Output = E; fn $f(self, o: &'a E) -> E { E::f2($n, *self, *o) } }
    impl $ta for E { fn $fa(&mut self, o: E) { *self = E::f2($n, *self, o) } }
    impl<'a> $ta<&'a E> for E { fn $fa(&mut self, o: &'a E) { *self = E::f2($n, *self, *o) } }
)* } }
e_op!(Add add AddAssign add_assign "eadd", Sub sub SubAssign sub_assign "esub", Mul mul MulAssign mul_assign "emul", Div div DivAssign div_assign "ediv");
impl Neg for E { type Output = E; fn neg(self) -> E { E::f1("eneg", self) } }
impl<'a> Neg for &'a E { type Output = E; fn neg(self) -> E { E::f1("eneg", *self) } }
impl Zero for E { fn zero() -> E { E::f0("ezero") } fn is_zero(&self) -> bool { let z = E::zero(); branch(b(|c| c.eq(self.0, z.0))) } }
impl One for E { fn one() -> E { E::f0("eone") } }
impl Default for E { fn default() -> E { E::f0("edefault") } }
impl num::Bounded for E { fn min_value() -> E { E::f0("emin") } fn max_value() -> E { E::f0("emax") } }

/// A second arbitrary element type, for operands of different types.
#[derive(Clone, Copy)]
pub struct E2(pub u32);
impl E2 { pub fn at(n: &str, i: usize, j: usize) -> E2 { E2(E::at(n, i, j).0) } }
macro_rules! e2_op { ($($t:ident $f:ident $ta:ident $fa:ident $n:literal $m:literal $o:literal $op:tt),*) => { $(
    impl $t<E2> for E { type Output = E; fn $f(self, o: E2) -> E { E::f2($n, self, E(o.0)) } }
    impl<'a> $t<&'a E2> for E { type Output = E; fn $f(self, o: &'a E2) -> E { E::f2($n, self, E(o.0)) } }
    impl<'a> $t<E2> for &'a E { type Output = E; fn $f(self, o: E2) -> E { E::f2($n, *self, E(o.0)) } }
    impl<'a, 'b> $t<&'a E2> for &'b E { type Output = E; fn $f(self, o: &'a E2) -> E { E::f2($n, *self, E(o.0)) } }
    impl $ta<E2> for E { fn $fa(&mut self, o: E2) { *self = E::f2($n, *self, E(o.0)) } }
    // the operations the other way round are unrelated functions
    impl $t<E> for E2 { type Output = E; fn $f(self, o: E) -> E { E::f2($m, E(self.0), o) } }
    impl<'a> $t<&'a E> for E2 { type Output = E; fn $f(self, o: &'a E) -> E { E::f2($m, E(self.0), *o) } }
    impl<'a> $t<E> for &'a E2 { type Output = E; fn $f(self, o: E) -> E { E::f2($m, E(self.0), o) } }
    impl<'a, 'b> $t<&'a E> for &'b E2 { type Output = E; fn $f(self, o: &'a E) -> E { E::f2($m, E(self.0), *o) } }
    impl $t<E2> for E2 { type Output = E2; fn $f(self, o: E2) -> E2 { E2(E::f2($o, E(self.0), E(o.0)).0) } }
    impl<'a> $t<&'a E2> for E2 { type Output = E2; fn $f(self, o: &'a E2) -> E2 { E2(E::f2($o, E(self.0), E(o.0)).0) } }
    impl<'a> $t<E2> for &'a E2 { type Output = E2; fn $f(self, o: E2) -> E2 { E2(E::f2($o, E(self.0), E(o.0)).0) } }
    impl $ta for E2 { fn $fa(&mut self, o: E2) { *self = *self $op o } }
)* } }
e2_op!(Add add AddAssign add_assign "hadd" "radd" "gadd" +, Sub sub SubAssign sub_assign "hsub" "rsub" "gsub" -, Mul mul MulAssign mul_assign "hmul" "rmul" "gmul" *, Div div DivAssign div_assign "hdiv" "rdiv" "gdiv" /);
impl Neg for E2 { type Output = E2; fn neg(self) -> E2 { E2(E::f1("gneg", E(self.0)).0) } }

/// Element with an arbitrary, possibly unlawful, equality and approximate equality.
#[derive(Clone, Copy, Debug)]
pub struct Q(pub u32);
impl Q { pub fn at(n: &str, i: usize, j: usize) -> Q { Q(E::at(n, i, j).0) } }
pub fn eqp(x: u32, y: u32) -> u32 { b(|c| c.app("eqp", vec![x, y], Sort::Bool)) }
impl PartialEq for Q { fn eq(&self, o: &Q) -> bool { branch(eqp(self.0, o.0)) } }
#[derive(Clone, Copy, Debug)]
pub struct Q2(pub u32);
impl PartialEq<Q> for Q2 { fn eq(&self, o: &Q) -> bool { branch(b(|c| c.app("eqr", vec![self.0, o.0], Sort::Bool))) } }
impl PartialEq for Q2 { fn eq(&self, o: &Q2) -> bool { branch(b(|c| c.app("eqg", vec![self.0, o.0], Sort::Bool))) } }
impl PartialEq<Q2> for Q { fn eq(&self, o: &Q2) -> bool { branch(b(|c| c.app("eqh", vec![self.0, o.0], Sort::Bool))) } }
pub fn relp(x: u32, y: u32, e: u32, m: u32) -> u32 { b(|c| c.app("relp", vec![x, y, e, m], Sort::Bool)) }
pub fn ulpp(x: u32, y: u32, e: u32, m: u32) -> u32 { b(|c| { let k = c.mk(Node::IConst(m as i64), Sort::Int); c.app("ulpp", vec![x, y, e, k], Sort::Bool) }) }
impl approx::ApproxEq for Q {
    type Epsilon = E;
    fn default_epsilon() -> E { E::f0("deps") }
    fn default_max_relative() -> E { E::f0("dmax") }
    fn default_max_ulps() -> u32 { 4321 }
    fn relative_eq(&self, o: &Q, e: E, m: E) -> bool { branch(relp(self.0, o.0, e.0, m.0)) }
    fn ulps_eq(&self, o: &Q, e: E, m: u32) -> bool { branch(ulpp(self.0, o.0, e.0, m)) }
}

/// Element of the field of real numbers.
#[derive(Clone, Copy, Debug)]
pub struct S(pub u32);
impl S {
    pub fn var(n: &str) -> S { S(b(|c| c.var(n, Sort::Real))) }
    pub fn at(n: &str, i: usize, j: usize) -> S { S::var(&format!("{}_{}_{}", n, i, j)) }
    pub fn k(n: i64) -> S { S(b(|c| c.konst(&rat(n)))) }
    pub fn same(self, o: S, msg: &'static str) { prove_eq(self.0, o.0, msg) }
    pub fn is_const(self, k: i64) -> bool { with(|c| c.as_const(self.0) == Some(rat(k))) }
    pub fn eqs(self, o: S) -> u32 { b(|c| c.eq(self.0, o.0)) }
    pub fn lts(self, o: S) -> u32 { b(|c| c.lt(self.0, o.0)) }
}
macro_rules! s_op { ($($t:ident $f:ident $ta:ident $fa:ident $e:expr),*) => { $(
    impl $t for S { type Output = S; fn $f(self, o: S) -> S { let f: fn(u32, u32) -> u32 = $e; S(f(self.0, o.0)) } }
    impl<'a> $t<&'a S> for S { type Output = S; fn $f(self, o: &'a S) -> S { $t::$f(self, *o) } }
    impl<'a> $t<S> for &'a S { type Output = S; fn $f(self, o: S) -> S { $t::$f(*self, o) } }
    impl<'a, 'b> $t<&'a S> for &'b S { type Output = S; fn $f(self, o: &'a S) -> S { $t::$f(*self, *o) } }
    impl $ta for S { fn $fa(&mut self, o: S) { *self = $t::$f(*self, o) } }
    impl<'a> $ta<&'a S> for S { fn $fa(&mut self, o: &'a S) { *self = $t::$f(*self, *o) } }
)* } }
s_op!(Add add AddAssign add_assign |x, y| with(|c| c.add(x, y)),
      Sub sub SubAssign sub_assign |x, y| with(|c| c.sub(x, y)),
      Mul mul MulAssign mul_assign |x, y| with(|c| c.mul(x, y)),
      Div div DivAssign div_assign |x, y| div(x, y),
      Rem rem RemAssign rem_assign |_, _| panic!("symx: remainder is not modelled"));
impl Neg for S { type Output = S; fn neg(self) -> S { S(b(|c| c.neg(self.0))) } }
impl<'a> Neg for &'a S { type Output = S; fn neg(self) -> S { -*self } }
impl Zero for S { fn zero() -> S { S::k(0) } fn is_zero(&self) -> bool { branch(self.eqs(S::k(0))) } }
impl One for S { fn one() -> S { S::k(1) } }
impl PartialEq for S { fn eq(&self, o: &S) -> bool { branch(self.eqs(*o)) } }
impl Eq for S {}
impl PartialOrd for S {
    fn partial_cmp(&self, o: &S) -> Option<Ordering> { Some(self.cmp(o)) }
    fn lt(&self, o: &S) -> bool { branch(self.lts(*o)) }
    fn gt(&self, o: &S) -> bool { branch(o.lts(*self)) }
    fn le(&self, o: &S) -> bool { !branch(o.lts(*self)) }
    fn ge(&self, o: &S) -> bool { !branch(self.lts(*o)) }
}
impl Ord for S {
    fn cmp(&self, o: &S) -> Ordering {
        if branch(self.lts(*o)) { Ordering::Less } else if branch(self.eqs(*o)) { Ordering::Equal } else { Ordering::Greater }
    }
}
impl Num for S {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<S, ()> { panic!("symx: from_str_radix is not modelled") }
}
impl Signed for S {
    fn abs(&self) -> S { if *self < S::k(0) { -*self } else { *self } }
    fn abs_sub(&self, o: &S) -> S { if *self <= *o { S::k(0) } else { *self - *o } }
    fn signum(&self) -> S { if *self < S::k(0) { S::k(-1) } else if self.is_zero() { S::k(0) } else { S::k(1) } }
    fn is_positive(&self) -> bool { *self > S::k(0) }
    fn is_negative(&self) -> bool { *self < S::k(0) }
}
impl ToPrimitive for S { fn to_i64(&self) -> Option<i64> { None } fn to_u64(&self) -> Option<u64> { None } }
impl NumCast for S { fn from<T: ToPrimitive>(n: T) -> Option<S> {
    match n.to_f64() { Some(x) if x.fract() != 0.0 => S::float(x), f => n.to_i64().map(S::k).or_else(|| f.and_then(S::float)) }
} }
impl S { fn float(x: f64) -> Option<S> { num::rational::Ratio::<num::BigInt>::from_float(x).map(|r| S(b(|c| c.konst(&r)))) } }
macro_rules! nope { ($($f:ident($($a:ident: $t:ty),*) -> $r:ty;)*) => { $( fn $f($($a: $t),*) -> $r { $(let _ = $a;)* panic!(concat!("symx: ", stringify!($f), " is not modelled")) } )* } }
macro_rules! nope1 { ($($f:ident)*) => { $( fn $f(self) -> S { panic!(concat!("symx: ", stringify!($f), " is not modelled")) } )* } }
impl num::Float for S {
    nope! { nan() -> S; infinity() -> S; neg_infinity() -> S; }
    fn neg_zero() -> S { S::k(0) }
    fn epsilon() -> S { S::float(f64::EPSILON).unwrap() }
    fn min_positive_value() -> S { S::float(f64::MIN_POSITIVE).unwrap() }
    fn min_value() -> S { S::float(f64::MIN).unwrap() }
    fn max_value() -> S { S::float(f64::MAX).unwrap() }
    fn is_nan(self) -> bool { false }
    fn is_infinite(self) -> bool { false }
    fn is_finite(self) -> bool { true }
    fn is_normal(self) -> bool { panic!("symx: is_normal is not modelled") }
    fn classify(self) -> std::num::FpCategory { panic!("symx: classify is not modelled") }
    nope1! { floor ceil round trunc fract exp exp2 ln log2 log10 cbrt sin cos tan asin acos atan exp_m1 ln_1p sinh cosh tanh asinh acosh atanh }
    fn abs(self) -> S { Signed::abs(&self) }
    fn signum(self) -> S { Signed::signum(&self) }
    fn is_sign_positive(self) -> bool { self >= S::k(0) }
    fn is_sign_negative(self) -> bool { self < S::k(0) }
    fn mul_add(self, a: S, c: S) -> S { self * a + c }
    fn recip(self) -> S { S::k(1) / self }
    fn powi(self, n: i32) -> S { let mut r = S::k(1); for _ in 0..n.abs() { r = r * self } if n < 0 { S::k(1) / r } else { r } }
    fn powf(self, n: S) -> S {
        match with(|c| c.as_const(n.0)) {
            Some(r) if r.is_integer() => num::Float::powi(self, r.to_integer().to_i32().unwrap()),
            Some(r) if r == rat(1) / rat(2) => num::Float::sqrt(self),
            _ => panic!("symx: powf is not modelled"),
        }
    }
    fn sqrt(self) -> S { S(sqrt(self.0)) }
    fn log(self, _: S) -> S { panic!("symx: log is not modelled") }
    fn max(self, o: S) -> S { if self < o { o } else { self } }
    fn min(self, o: S) -> S { if o < self { o } else { self } }
    fn abs_sub(self, o: S) -> S { Signed::abs_sub(&self, &o) }
    fn hypot(self, o: S) -> S { num::Float::sqrt(self * self + o * o) }
    fn atan2(self, _: S) -> S { panic!("symx: atan2 is not modelled") }
    fn sin_cos(self) -> (S, S) { panic!("symx: sin_cos is not modelled") }
    fn integer_decode(self) -> (u64, i16, i8) { panic!("symx: integer_decode is not modelled") }
}

/// Element of a non-commutative ring: upper triangular 2x2 matrices of reals.
#[derive(Clone, Copy, Debug)]
pub struct T2(pub S, pub S, pub S);
impl T2 {
    pub fn at(n: &str, i: usize, j: usize) -> T2 {
        let v = |k: &str| S::var(&format!("{}{}_{}_{}", n, k, i, j));
        T2(v("p"), v("q"), v("r"))
    }
    pub fn same(self, o: T2, msg: &'static str) { self.0.same(o.0, msg); self.1.same(o.1, msg); self.2.same(o.2, msg) }
}
impl Add for T2 { type Output = T2; fn add(self, o: T2) -> T2 { T2(self.0 + o.0, self.1 + o.1, self.2 + o.2) } }
impl Sub for T2 { type Output = T2; fn sub(self, o: T2) -> T2 { T2(self.0 - o.0, self.1 - o.1, self.2 - o.2) } }
impl Mul for T2 { type Output = T2; fn mul(self, o: T2) -> T2 { T2(self.0 * o.0, self.0 * o.1 + self.1 * o.2, self.2 * o.2) } }
impl Neg for T2 { type Output = T2; fn neg(self) -> T2 { T2(-self.0, -self.1, -self.2) } }
macro_rules! t_ref { ($($t:ident $f:ident $ta:ident $fa:ident),*) => { $(
    impl<'a> $t<&'a T2> for T2 { type Output = T2; fn $f(self, o: &'a T2) -> T2 { $t::$f(self, *o) } }
    impl<'a> $t<T2> for &'a T2 { type Output = T2; fn $f(self, o: T2) -> T2 { $t::$f(*self, o) } }
    impl<'a, 'b> $t<&'a T2> for &'b T2 { type Output = T2; fn $f(self, o: &'a T2) -> T2 { $t::$f(*self, *o) } }
    impl $ta for T2 { fn $fa(&mut self, o: T2) { *self = $t::$f(*self, o) } }
)* } }
t_ref!(Add add AddAssign add_assign, Sub sub SubAssign sub_assign, Mul mul MulAssign mul_assign);
impl Zero for T2 {
    fn zero() -> T2 { T2(S::k(0), S::k(0), S::k(0)) }
    fn is_zero(&self) -> bool { let z = S::k(0); branch(b(|c| { let v = vec![c.eq(self.0 .0, z.0), c.eq(self.1 .0, z.0), c.eq(self.2 .0, z.0)]; c.and(v) })) }
}
impl One for T2 { fn one() -> T2 { T2(S::k(1), S::k(0), S::k(1)) } }
