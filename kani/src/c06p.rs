//! C06: which compile-time indices the crate accepts. `accepts!(V, I)` is true
//! exactly when `V: Index<I>` (`IndexMut<I>`) holds, which the compiler's trait
//! solver decides from the crate's impls; an accepted out-of-range index would
//! be an unchecked access outside the elements.
use crate::{harnesses, prop};
use core::marker::PhantomData;
use core::ops::{Index, IndexMut};
use rowcol::prelude::*;

pub struct R<V, I>(PhantomData<(V, I)>);
pub struct W<V, I>(PhantomData<(V, I)>);
pub trait Refused { const YES: bool = false; }
impl<V, I> Refused for R<V, I> {}
impl<V, I> Refused for W<V, I> {}
impl<V: Index<I>, I> R<V, I> { pub const YES: bool = true; }
impl<V: IndexMut<I>, I> W<V, I> { pub const YES: bool = true; }

macro_rules! vecs { ($n:ident; $($ok:ident)*; $($bad:ident)*) => {{
    $( prop!(R::<Vector<u8, $n>, $ok>::YES, "an in-range compile-time index can be read"); prop!(W::<Vector<u8, $n>, $ok>::YES, "an in-range compile-time index can be written"); )*
    $( prop!(!R::<Vector<u8, $n>, $bad>::YES, "an out-of-range compile-time index cannot be read"); prop!(!W::<Vector<u8, $n>, $bad>::YES, "an out-of-range compile-time index cannot be written"); )*
}} }
macro_rules! mats { ($r:ident $c:ident; $(($a:ident $b:ident))*; $(($x:ident $y:ident))*) => {{
    $( prop!(R::<Matrix<u8, $r, $c>, ($a, $b)>::YES, "an in-range compile-time position can be read"); prop!(W::<Matrix<u8, $r, $c>, ($a, $b)>::YES, "an in-range compile-time position can be written"); )*
    $( prop!(!R::<Matrix<u8, $r, $c>, ($x, $y)>::YES, "an out-of-range compile-time position cannot be read"); prop!(!W::<Matrix<u8, $r, $c>, ($x, $y)>::YES, "an out-of-range compile-time position cannot be written"); )*
}} }

harnesses! {
    c06p_vec_0 [2] nd => { vecs!(U0; ; U0 U1 U2 U3 U31 U32 U33) }
    c06p_vec_1 [2] nd => { vecs!(U1; U0; U1 U2 U3 U4 U8 U32 U64) }
    c06p_vec_2 [2] nd => { vecs!(U2; U0 U1; U2 U3 U4 U5 U32 U33) }
    c06p_vec_3 [2] nd => { vecs!(U3; U0 U1 U2; U3 U4 U5 U6 U7 U8 U32) }
    c06p_vec_4 [2] nd => { vecs!(U4; U0 U1 U2 U3; U4 U5 U6 U7 U8 U16 U32) }
    c06p_vec_5 [2] nd => { vecs!(U5; U0 U1 U2 U3 U4; U5 U6 U7 U8 U16) }
    c06p_vec_8 [2] nd => { vecs!(U8; U0 U3 U4 U7; U8 U9 U15 U16) }
    c06p_vec_32 [2] nd => { vecs!(U32; U0 U1 U15 U16 U17 U30 U31; U32 U33 U48 U63 U64 U128) }
    c06p_mat_22 [2] nd => { mats!(U2 U2; (U0 U0) (U0 U1) (U1 U0) (U1 U1); (U0 U2) (U2 U0) (U2 U2) (U1 U2) (U2 U1) (U0 U3) (U3 U0) (U3 U1) (U1 U3) (U4 U4)) }
    c06p_mat_23 [2] nd => { mats!(U2 U3; (U0 U0) (U0 U1) (U0 U2) (U1 U0) (U1 U1) (U1 U2); (U2 U0) (U2 U1) (U2 U2) (U0 U3) (U1 U3) (U2 U3) (U3 U0) (U0 U4) (U1 U4)) }
    c06p_mat_32 [2] nd => { mats!(U3 U2; (U0 U0) (U1 U0) (U2 U0) (U0 U1) (U1 U1) (U2 U1); (U0 U2) (U1 U2) (U2 U2) (U3 U0) (U3 U1) (U3 U2) (U0 U3) (U4 U0)) }
    c06p_mat_11 [2] nd => { mats!(U1 U1; (U0 U0); (U0 U1) (U1 U0) (U1 U1) (U2 U0) (U0 U2)) }
    c06p_mat_empty [2] nd => { mats!(U0 U0; ; (U0 U0) (U1 U0) (U0 U1) (U1 U1)); mats!(U0 U2; ; (U0 U0) (U0 U1) (U1 U0) (U1 U1)); mats!(U2 U0; ; (U0 U0) (U0 U1) (U1 U0) (U1 U1)) }
}
