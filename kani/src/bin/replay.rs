//! Replays a solver counterexample against the ordinary build:
//! `replay HARNESS HEX...` (one hex string per drawn value, little endian).
//! Exit: 0 property held, 10/11 violation reproduced, 20 input not allowed.
use std::panic::{catch_unwind, AssertUnwindSafe};

#[cfg(not(kani))]
fn main() {
    let mut args = std::env::args().skip(1);
    let name = args.next().expect("harness name");
    let vals: Vec<Vec<u8>> = args
        .map(|h| (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).expect("hex")).collect())
        .collect();
    let f = rcv::find(&name).expect("unknown harness");
    let mut nd = rcv::nd::Nd::from_vals(vals);
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut nd)));
    if nd.expect_panic {
        match r {
            Ok(()) => { println!("REPRODUCED: returned normally where a panic is required"); std::process::exit(10) }
            Err(_) => println!("HELD: panicked as required"),
        }
    } else {
        match r {
            Ok(()) => println!("HELD"),
            Err(_) => { println!("REPRODUCED: panicked"); std::process::exit(11) }
        }
    }
}
#[cfg(kani)]
fn main() { let _ = catch_unwind(AssertUnwindSafe(|| ())); }
