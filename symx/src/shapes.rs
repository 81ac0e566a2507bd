//! Lists of the shapes a harness is instantiated for.
#[macro_export]
macro_rules! vsizes { ($m:ident) => {
    $m!(U0 0); $m!(U1 1); $m!(U2 2); $m!(U3 3); $m!(U4 4); $m!(U5 5); $m!(U6 6); $m!(U7 7); $m!(U8 8); $m!(U9 9); $m!(U10 10);
    $m!(U11 11); $m!(U12 12); $m!(U13 13); $m!(U14 14); $m!(U15 15); $m!(U16 16); $m!(U17 17); $m!(U18 18); $m!(U19 19); $m!(U20 20);
    $m!(U21 21); $m!(U22 22); $m!(U23 23); $m!(U24 24); $m!(U25 25); $m!(U26 26); $m!(U27 27); $m!(U28 28); $m!(U29 29); $m!(U30 30);
    $m!(U31 31); $m!(U32 32);
} }
#[macro_export]
macro_rules! shapes { ($m:ident) => {
    $m!(U0 0, U0 0); $m!(U0 0, U3 3); $m!(U3 3, U0 0);
    $m!(U1 1, U1 1); $m!(U1 1, U2 2); $m!(U1 1, U5 5); $m!(U2 2, U1 1); $m!(U4 4, U1 1);
    $m!(U2 2, U2 2); $m!(U2 2, U3 3); $m!(U3 3, U2 2); $m!(U3 3, U3 3); $m!(U2 2, U5 5); $m!(U5 5, U2 2); $m!(U4 4, U3 3); $m!(U3 3, U4 4);
    $m!(U4 4, U4 4); $m!(U5 5, U5 5);
} }
/// wider shapes, for cheap harnesses
#[macro_export]
macro_rules! shapes_wide { ($m:ident) => {
    $m!(U1 1, U32 32); $m!(U32 32, U1 1); $m!(U7 7, U9 9); $m!(U9 9, U7 7); $m!(U6 6, U6 6); $m!(U8 8, U8 8); $m!(U2 2, U17 17); $m!(U16 16, U3 3);
} }
#[macro_export]
macro_rules! squares { ($m:ident) => {
    $m!(U0 0); $m!(U1 1); $m!(U2 2); $m!(U3 3); $m!(U4 4); $m!(U5 5); $m!(U6 6); $m!(U7 7);
} }

// Containers filled with named symbolic elements, and element-by-element comparison.
#[macro_export]
macro_rules! v { ($n:ident, $name:literal, $t:ident) => { Vector::<$t, $n>::generate(|i| $t::at($name, i, 0)) } }
#[macro_export]
macro_rules! m { ($r:ident, $c:ident, $name:literal, $t:ident) => { Matrix::<$t, $r, $c>::generate(|(i, j)| $t::at($name, i, j)) } }
#[macro_export]
macro_rules! vchk { ($v:expr, $k:expr, $msg:literal, |$i:ident| $e:expr) => {{ let v = $v; $crate::eng::must(v.as_slice().len() == $k, concat!($msg, ": length")); for $i in 0..$k { v.as_slice()[$i].same($e, $msg) } }} }
#[macro_export]
macro_rules! mchk { ($m:expr, $r:expr, $c:expr, $msg:literal, |$i:ident, $j:ident| $e:expr) => {{ let m = $m; $crate::eng::must(m.dim() == ($r, $c), concat!($msg, ": dimensions")); for $i in 0..$r { for $j in 0..$c { m[($i, $j)].same($e, $msg) } } }} }
