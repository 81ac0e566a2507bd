//! C02: the by-value iterator of a vector, every length, elements of an arbitrary type.
use crate::drive::drive;
use crate::elem::*;
use crate::eng::*;
use crate::{h, v, vsizes};
use rowcol::prelude::*;

macro_rules! it { ($n:ident $k:literal) => {{ drive($k, $k < 6, &|| v!($n, "a", E).into_iter(), &|x: E, i| x.same(E::at("a", i, 0), "the i-th item is the i-th element")) }} }
/// Elements that own something: the iterator's drop has work to do.
macro_rules! boxed { ($n:ident $k:literal) => {{ drive($k, $k < 4, &|| Vector::<Box<E>, $n>::generate(|i| Box::new(E::at("a", i, 0))).into_iter(), &|x: Box<E>, i| x.same(E::at("a", i, 0), "the i-th item is the i-th element")) }} }
macro_rules! deep { ($n:ident $k:literal) => {{ drive($k, true, &|| v!($n, "a", E).into_iter(), &|x: E, i| x.same(E::at("a", i, 0), "the i-th item is the i-th element")) }} }
h! {
    lengths 0 { vsizes!(it); }
    two_calls 1 { vsizes!(deep); }
    lengths_boxed 0 { vsizes!(boxed); }
}
