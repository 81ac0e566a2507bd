//! C12: a position with either coordinate out of range panics, in every build.
use crate::harnesses;
use num::{Num, One, Signed, Zero};
use rowcol::prelude::*;
use std::ops::{Add, Div, Mul, Neg, Rem, Sub};

/// The smallest ring: every value is equal. Positions are what matters here.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Unit;
macro_rules! op { ($($t:ident $f:ident)*) => { $( impl $t for Unit { type Output = Unit; fn $f(self, _: Unit) -> Unit { Unit } } )* } }
op!(Add add Sub sub Mul mul Div div Rem rem);
impl Neg for Unit { type Output = Unit; fn neg(self) -> Unit { Unit } }
impl Zero for Unit { fn zero() -> Unit { Unit } fn is_zero(&self) -> bool { true } }
impl One for Unit { fn one() -> Unit { Unit } }
impl Num for Unit { type FromStrRadixErr = (); fn from_str_radix(_: &str, _: u32) -> Result<Unit, ()> { Ok(Unit) } }
impl Signed for Unit { fn abs(&self) -> Unit { Unit } fn abs_sub(&self, _: &Unit) -> Unit { Unit } fn signum(&self) -> Unit { Unit } fn is_positive(&self) -> bool { true } fn is_negative(&self) -> bool { false } }

macro_rules! out { ($nd:ident, $t:ty, $x:expr, $n:ident $k:literal) => {{
    let m = Matrix::<$t, $n, $n>::new([[$x; $k]; $k]);
    let (i, j) = ($nd.usize(), $nd.usize());
    $nd.assume(i >= $k || j >= $k);
    $nd.must_panic();
    let _x = m.cofactor((i, j));
    $nd.returned();
}} }

harnesses! {
    c12_both_out_2 [6] nd => { out!(nd, i32, 1, U2 2) }
    c12_both_out_3 [6] nd => { out!(nd, i32, 1, U3 3) }
    c12_out_4_rel [8] nd => { out!(nd, Unit, Unit, U4 4) }
    c12_out_4_t [8] nd => { out!(nd, Unit, Unit, U4 4) }
}
