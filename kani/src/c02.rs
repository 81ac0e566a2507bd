//! C02: the consuming vector iterator.
use crate::harnesses;
use crate::iterdrive::*;
use rowcol::prelude::*;

macro_rules! win { ($nd:ident, $n:ident, $k:literal, $op:expr) => {{
    let a = $nd.arr::<$k>();
    windows($nd, || Vector::<u8, $n>::new(a).into_iter(), $k, $op, |x, i| x == a[i]);
}} }
macro_rules! his { ($h:ident, $nd:ident, $n:ident, $k:literal, $op:expr) => {{
    let a = $nd.arr::<$k>();
    $h($nd, || Vector::<u8, $n>::new(a).into_iter(), $k, $op, |x, i| x == a[i]);
}} }

harnesses! {
    c02_all_0 [8] nd => { win!(nd, U0, 0, STEP); win!(nd, U0, 0, EAT); win!(nd, U0, 0, NTH); win!(nd, U0, 0, NTHB) }
    c02_all_1 [8] nd => { win!(nd, U1, 1, STEP); win!(nd, U1, 1, EAT); win!(nd, U1, 1, NTH); win!(nd, U1, 1, NTHB) }
    c02_step_3 [8] nd => { win!(nd, U3, 3, STEP) }
    c02_eat_3 [8] nd => { win!(nd, U3, 3, EAT) }
    c02_nth_3 [8] nd => { win!(nd, U3, 3, NTH) }
    c02_nthb_3 [8] nd => { win!(nd, U3, 3, NTHB) }
    c02_step_9 [12] nd => { win!(nd, U9, 9, STEP) }
    c02_nth_6 [10] nd => { win!(nd, U6, 6, NTH) }
    c02_h0_3 [8] nd => { his!(hist2, nd, U3, 3, 0) }
    c02_h1_3 [8] nd => { his!(hist2, nd, U3, 3, 1) }
    c02_h2_3 [8] nd => { his!(hist2, nd, U3, 3, 2) }
    c02_h3_3 [8] nd => { his!(hist2, nd, U3, 3, 3) }
    c02_step_5_t [8] nd => { win!(nd, U5, 5, STEP) }
    c02_eat_5_t [8] nd => { win!(nd, U5, 5, EAT) }
    c02_nth_5_t [8] nd => { win!(nd, U5, 5, NTH) }
    c02_nthb_5_t [8] nd => { win!(nd, U5, 5, NTHB) }
    c02_step_32_t [36] nd => { win!(nd, U32, 32, STEP) }
    c02_eat_32_t [36] nd => { win!(nd, U32, 32, EAT) }
    c02_nth_32_t [36] nd => { win!(nd, U32, 32, NTH) }
    c02_h0_2_t [8] nd => { his!(hist, nd, U2, 2, 0) }
    c02_h1_2_t [8] nd => { his!(hist, nd, U2, 2, 1) }
    c02_h2_2_t [8] nd => { his!(hist, nd, U2, 2, 2) }
    c02_h3_2_t [8] nd => { his!(hist, nd, U2, 2, 3) }
}
