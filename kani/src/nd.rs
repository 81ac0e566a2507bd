//! Nondeterministic inputs, property assertions and harness registration.
//!
//! Under Kani (`cfg(kani)`) every draw is a fresh symbolic value. Natively the
//! same harness body is fed the bytes of a solver counterexample, so that a
//! reported violation is first reproduced against the ordinary build.

pub struct Nd {
    #[cfg(not(kani))]
    vals: std::collections::VecDeque<Vec<u8>>,
    #[cfg(not(kani))]
    pub expect_panic: bool,
}

#[cfg(kani)]
impl Nd {
    #[inline] pub fn new() -> Self { Nd {} }
    #[inline] pub fn u8(&mut self) -> u8 { kani::any() }
    #[inline] pub fn u32(&mut self) -> u32 { kani::any() }
    #[inline] pub fn u64(&mut self) -> u64 { kani::any() }
    #[inline] pub fn usize(&mut self) -> usize { kani::any() }
    #[inline] pub fn bool(&mut self) -> bool { kani::any::<u8>() & 1 == 1 }
    #[inline] pub fn assume(&mut self, b: bool) { kani::assume(b) }
    /// From here on the harness is expected to panic; returning is a violation.
    #[inline] pub fn must_panic(&mut self) { kani::cover!(true, "REACHED_CALL"); }
    #[inline] pub fn returned(&mut self) { kani::cover!(true, "MUST_NOT_RETURN"); }
    #[inline] pub fn end(&mut self) { kani::cover!(true, "REACHED_END"); }
}

#[cfg(not(kani))]
impl Nd {
    pub fn from_vals(v: Vec<Vec<u8>>) -> Self { Nd { vals: v.into(), expect_panic: false } }
    fn pop(&mut self, n: usize) -> Vec<u8> {
        let mut v = match self.vals.pop_front() { Some(v) => v, None => vec![0; n] };
        if v.len() != n { eprintln!("REPLAY-MISMATCH want {} bytes got {:?}", n, v); v.resize(n, 0); }
        v
    }
    pub fn u8(&mut self) -> u8 { self.pop(1)[0] }
    pub fn u32(&mut self) -> u32 { let v = self.pop(4); u32::from_le_bytes([v[0], v[1], v[2], v[3]]) }
    pub fn u64(&mut self) -> u64 { let v = self.pop(8); let mut a = [0; 8]; a.copy_from_slice(&v); u64::from_le_bytes(a) }
    pub fn usize(&mut self) -> usize { self.u64() as usize }
    pub fn bool(&mut self) -> bool { self.u8() & 1 == 1 }
    pub fn assume(&mut self, b: bool) { if !b { eprintln!("REPLAY-ASSUME-FALSE"); std::process::exit(20) } }
    pub fn must_panic(&mut self) { self.expect_panic = true; }
    pub fn returned(&mut self) { eprintln!("REPRODUCED: returned normally where a panic is required"); std::process::exit(10) }
    pub fn end(&mut self) {}
}

impl Nd {
    /// Arbitrary value below `n`.
    #[inline] pub fn below(&mut self, n: u8) -> u8 { let x = self.u8(); self.assume(x < n); x }
    /// Arbitrary index below `n`.
    #[inline] pub fn idx(&mut self, n: usize) -> usize { let x = self.usize(); self.assume(x < n); x }
    /// Array of arbitrary bytes.
    #[inline] pub fn arr<const K: usize>(&mut self) -> [u8; K] {
        let mut a = [0u8; K];
        let mut i = 0;
        while i < K { a[i] = self.u8(); i += 1; }
        a
    }
    #[inline] pub fn arr2<const R: usize, const C: usize>(&mut self) -> [[u8; C]; R] {
        let mut a = [[0u8; C]; R];
        let mut i = 0;
        while i < R { a[i] = self.arr::<C>(); i += 1; }
        a
    }
}

/// The property assertion. Kani: a solver obligation. Natively: a panic.
#[macro_export]
macro_rules! prop {
    ($c:expr, $m:literal) => {{
        #[cfg(kani)] { kani::assert($c, concat!("PROP: ", $m)); }
        #[cfg(not(kani))] { if !$c { panic!(concat!("PROP: ", $m)); } }
    }};
}

/// Defines harness functions, their Kani entry points and the replay table.
#[macro_export]
macro_rules! harnesses {
    ($( $name:ident [$unwind:literal] $nd:ident => $body:block )*) => {
        $( #[allow(unused_variables, unused_mut)] pub fn $name($nd: &mut $crate::nd::Nd) $body )*
        #[cfg(kani)]
        pub mod proofs {
            $(
                #[kani::proof]
                #[kani::unwind($unwind)]
                pub fn $name() {
                    let mut nd = $crate::nd::Nd::new();
                    super::$name(&mut nd);
                    nd.end();
                }
            )*
        }
        #[cfg(not(kani))]
        pub const TABLE: &[(&str, fn(&mut $crate::nd::Nd))] = &[ $( (stringify!($name), $name) ),* ];
    };
}
