//! C18: debug output; a free variable says which write to the sink fails, another which element's own formatting fails.
use crate::eng::*;
use crate::{h, shapes, shapes_wide, vsizes};
use rowcol::prelude::*;
use std::fmt::{self, Debug, Write};

/// Shows as a text of its own (some of them empty, some with separators in them).
struct D(usize);
fn text(k: usize) -> String { match k % 5 { 3 => String::new(), 4 => format!("{}, [", k), _ => format!("<{}>", k) } }
fn int(n: &str, k: usize) -> u32 { with(|c| { let v = c.var(n, Sort::Int); let k = c.mk(Node::IConst(k as i64), Sort::Int); c.eq(v, k) }) }
impl Debug for D { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { if branch(int("bad_element", self.0)) { return Err(fmt::Error) } f.write_str(&text(self.0)) } }
struct Sink { got: String, writes: usize, failed: bool }
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.writes += 1;
        if branch(int("bad_write", self.writes)) { self.failed = true; return Err(fmt::Error) }
        self.got.push_str(s);
        Ok(())
    }
}
fn list(xs: Vec<String>) -> String { format!("[{}]", xs.join(", ")) }
fn check(x: &dyn Debug, want: String, elements: usize) {
    // either the sink fails, or an element, or nothing
    let bad = choose(1);
    if bad { assume(int("bad_element", usize::MAX >> 1)) } else { assume(int("bad_write", 0)) }
    let mut s = Sink { got: String::new(), writes: 0, failed: false };
    let r = write!(s, "{:?}", x);
    if s.failed { must(r.is_err(), "an error of the sink is passed on"); must(want.starts_with(&s.got), "what was written before the error is right"); return }
    let broken = (0..elements).any(|i| branch(int("bad_element", i)));
    if broken { must(r.is_err(), "an error of an element's formatting is passed on"); must(want.starts_with(&s.got), "what was written before the error is right"); return }
    must(r.is_ok(), "no error without a cause");
    must(s.got == want, "debug text");
}
macro_rules! vdbg { ($n:ident $k:literal) => {{ if choose($k) {
    check(&Vector::<D, $n>::generate(D), format!("Vector{}", list((0..$k).map(text).collect())), $k);
    return } }} }
macro_rules! mdbg { ($r:ident $rn:literal, $c:ident $cn:literal) => {{ if choose($rn * 100 + $cn) {
    check(&Matrix::<D, $r, $c>::generate(|(i, j)| D(i * $cn + j)), format!("Matrix{}", list((0..$rn).map(|i| list((0..$cn).map(|j| text(i * $cn + j)).collect())).collect())), $rn * $cn);
    return } }} }
h! {
    vectors 0 { vdbg!(U0 0); vdbg!(U1 1); vdbg!(U2 2); vdbg!(U3 3); vdbg!(U4 4); vdbg!(U5 5); vdbg!(U8 8); vdbg!(U16 16); vdbg!(U32 32); }
    vectors_all 1 { vsizes!(vdbg); }
    matrices 0 { shapes!(mdbg); }
    matrices_wide 0 { mdbg!(U1 1, U17 17); mdbg!(U17 17, U1 1); mdbg!(U0 0, U1 1); mdbg!(U1 1, U0 0); mdbg!(U0 0, U32 32); mdbg!(U32 32, U0 0); mdbg!(U6 6, U6 6); }
    matrices_all 1 { shapes_wide!(mdbg); }
}
