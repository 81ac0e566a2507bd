//! C03: chunks, every length with every divisor, elements of an arbitrary type.
use crate::drive::drive;
use crate::elem::*;
use crate::eng::*;
use crate::{h, v};
use rowcol::prelude::*;

macro_rules! ch { ($n:ident $k:literal; $($i:ident $l:literal)*) => {{ $(
    drive($k / $l, $k / $l < 5, &|| v!($n, "a", E).into_chunks::<$i>(), &|x: Vector<E, $i>, c| {
        must(x.as_slice().len() == $l, "a chunk has I elements");
        for j in 0..$l { x.as_slice()[j].same(E::at("a", c * $l + j, 0), "chunk k holds elements k*I..(k+1)*I in order") }
    });
)* }} }
macro_rules! boxed { ($n:ident $k:literal; $($i:ident $l:literal)*) => {{ $(
    drive($k / $l, false, &|| Vector::<Box<E>, $n>::generate(|i| Box::new(E::at("a", i, 0))).into_chunks::<$i>(), &|x: Vector<Box<E>, $i>, c| {
        for j in 0..$l { x.as_slice()[j].same(E::at("a", c * $l + j, 0), "chunk k holds elements k*I..(k+1)*I in order") }
    });
)* }} }
h! {
    small 0 {
        ch!(U0 0; U1 1 U2 2 U3 3 U32 32); ch!(U1 1; U1 1); ch!(U2 2; U1 1 U2 2); ch!(U3 3; U1 1 U3 3); ch!(U4 4; U1 1 U2 2 U4 4); ch!(U5 5; U1 1 U5 5);
        ch!(U6 6; U1 1 U2 2 U3 3 U6 6); ch!(U7 7; U1 1 U7 7); ch!(U8 8; U1 1 U2 2 U4 4 U8 8); ch!(U9 9; U1 1 U3 3 U9 9); ch!(U10 10; U1 1 U2 2 U5 5 U10 10);
    }
    middle 0 {
        ch!(U12 12; U1 1 U2 2 U3 3 U4 4 U6 6 U12 12); ch!(U14 14; U2 2 U7 7); ch!(U15 15; U3 3 U5 5 U15 15); ch!(U16 16; U2 2 U4 4 U8 8 U16 16); ch!(U18 18; U2 2 U3 3 U6 6 U9 9);
    }
    large 0 {
        ch!(U20 20; U4 4 U5 5 U10 10); ch!(U21 21; U3 3 U7 7); ch!(U24 24; U2 2 U3 3 U6 6 U8 8 U12 12); ch!(U25 25; U5 5); ch!(U27 27; U3 3 U9 9); ch!(U28 28; U4 4 U7 7 U14 14);
        ch!(U30 30; U2 2 U5 5 U6 6 U10 10 U15 15); ch!(U31 31; U1 1 U31 31); ch!(U32 32; U1 1 U2 2 U4 4 U8 8 U16 16 U32 32);
    }
    owning 0 { boxed!(U4 4; U2 2); boxed!(U6 6; U2 2 U3 3); boxed!(U8 8; U4 4); boxed!(U32 32; U8 8); }
}
