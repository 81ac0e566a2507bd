//! C03: chunking a vector.
use crate::harnesses;
use crate::iterdrive::*;
use rowcol::prelude::*;

fn same<const I: usize>(x: &[u8], a: &[u8], k: usize) -> bool {
    if x.len() != I { return false }
    let mut ok = true;
    let mut t = 0;
    while t < I { if x[t] != a[k * I + t] { ok = false } t += 1; }
    ok
}
macro_rules! win { ($nd:ident, $n:ident, $k:literal, $i:ident, $c:literal, $op:expr) => {{
    let a = $nd.arr::<$k>();
    windows($nd, || Vector::<u8, $n>::new(a).into_chunks::<$i>(), $k / $c, $op,
        |x: Vector<u8, $i>, i| same::<$c>(x.as_slice(), &a, i));
}} }
macro_rules! his { ($h:ident, $nd:ident, $n:ident, $k:literal, $i:ident, $c:literal, $op:expr) => {{
    let a = $nd.arr::<$k>();
    $h($nd, || Vector::<u8, $n>::new(a).into_chunks::<$i>(), $k / $c, $op,
        |x: Vector<u8, $i>, i| same::<$c>(x.as_slice(), &a, i));
}} }

harnesses! {
    c03_all_0_2 [8] nd => { win!(nd, U0, 0, U2, 2, STEP); win!(nd, U0, 0, U2, 2, EAT); win!(nd, U0, 0, U2, 2, NTH); win!(nd, U0, 0, U2, 2, NTHB) }
    c03_all_3_3 [8] nd => { win!(nd, U3, 3, U3, 3, STEP); win!(nd, U3, 3, U3, 3, EAT); win!(nd, U3, 3, U3, 3, NTH); win!(nd, U3, 3, U3, 3, NTHB) }
    c03_step_3_1 [8] nd => { win!(nd, U3, 3, U1, 1, STEP) }
    c03_step_4_2 [8] nd => { win!(nd, U4, 4, U2, 2, STEP) }
    c03_eat_4_2 [8] nd => { win!(nd, U4, 4, U2, 2, EAT) }
    c03_nth_4_2 [8] nd => { win!(nd, U4, 4, U2, 2, NTH) }
    c03_nthb_4_2 [8] nd => { win!(nd, U4, 4, U2, 2, NTHB) }
    c03_step_6_2 [8] nd => { win!(nd, U6, 6, U2, 2, STEP) }
    c03_step_6_3 [8] nd => { win!(nd, U6, 6, U3, 3, STEP) }
    c03_h0_4_2 [8] nd => { his!(hist2, nd, U4, 4, U2, 2, 0) }
    c03_h1_4_2 [8] nd => { his!(hist2, nd, U4, 4, U2, 2, 1) }
    c03_h2_4_2 [8] nd => { his!(hist2, nd, U4, 4, U2, 2, 2) }
    c03_h3_4_2 [8] nd => { his!(hist2, nd, U4, 4, U2, 2, 3) }
    c03_eat_6_2_t [8] nd => { win!(nd, U6, 6, U2, 2, EAT) }
    c03_nth_6_2_t [8] nd => { win!(nd, U6, 6, U2, 2, NTH) }
    c03_nthb_6_2_t [8] nd => { win!(nd, U6, 6, U2, 2, NTHB) }
    c03_step_12_4_t [14] nd => { win!(nd, U12, 12, U4, 4, STEP) }
    c03_eat_12_4_t [14] nd => { win!(nd, U12, 12, U4, 4, EAT) }
    c03_step_32_8_t [36] nd => { win!(nd, U32, 32, U8, 8, STEP) }
    c03_h2_6_2_t [10] nd => { his!(hist, nd, U6, 6, U2, 2, 2) }
    c03_h1_6_2_t [10] nd => { his!(hist, nd, U6, 6, U2, 2, 1) }
}
