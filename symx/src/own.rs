//! Elements whose ownership is tracked: every creation, use and drop is checked
//! against a table, and a free variable picks at most one element operation or
//! callback that panics.
use crate::eng::*;
use num::{Bounded, Num, One, Signed, Zero};
use std::cell::RefCell;
use std::cmp::Ordering;
use std::ops::*;

#[derive(Default)]
struct World { alive: Vec<bool>, zsts: usize, tick: usize, armed: bool, used: bool, decided: usize }
thread_local! { static W: RefCell<World> = RefCell::new(World::default()); }
fn w<T>(f: impl FnOnce(&mut World) -> T) -> T { W.with(|w| f(&mut w.borrow_mut())) }
fn is(n: &str, k: usize) -> bool { branch(with(|c| { let v = c.var(n, Sort::Int); let k = c.mk(Node::IConst(k as i64), Sort::Int); c.eq(v, k) })) }

/// A point at which user code may panic.
pub fn tick() {
    if std::thread::panicking() { return }
    let t = w(|w| { w.tick += 1; if w.armed && !w.used { Some(w.tick) } else { None } });
    if let Some(t) = t { if is("fault", t) { w(|w| w.used = true); panic!("user code panics") } }
}
/// A decision of the element type: false, except for at most one call (or a run of calls).
fn odd(span: bool) -> bool {
    let n = w(|w| { w.decided += 1; w.decided });
    if !span { return is("odd", n) }
    let (a, b) = with(|c| { let (a, b) = (c.var("odd_from", Sort::Int), c.var("odd_to", Sort::Int)); let k = c.mk(Node::IConst(n as i64), Sort::Int); let l = c.lt(k, a); (c.not(l), c.lt(k, b)) });
    branch(with(|c| c.and(vec![a, b])))
}
thread_local! { static SPAN: RefCell<bool> = RefCell::new(false); }
fn decide() -> bool { odd(SPAN.with(|s| *s.borrow())) }

/// A tracked element. Its only state is its number in the table.
pub struct R(u64);
impl R {
    pub fn new() -> R { R(w(|w| { w.alive.push(true); w.alive.len() as u64 - 1 })) }
    pub fn touch(&self) { must(w(|w| w.alive.get(self.0 as usize).cloned() == Some(true)), "an element is used while it is alive") }
    pub fn id(&self) -> u64 { self.touch(); self.0 }
}
impl Drop for R {
    fn drop(&mut self) {
        let r = w(|w| match w.alive.get_mut(self.0 as usize) { Some(a) => { let r = *a; *a = false; Some(r) } None => None });
        match r {
            Some(true) => {}
            Some(false) => must(false, "no element is dropped twice"),
            None => must(false, "only elements are dropped"),
        }
        tick();
    }
}
/// A zero-sized tracked element: only the number of them is known.
pub struct Z;
impl Z { pub fn new() -> Z { w(|w| w.zsts += 1); Z } }
impl Drop for Z { fn drop(&mut self) { let had = w(|w| { let z = w.zsts; w.zsts = z.saturating_sub(1); z }); must(had > 0, "no element is dropped twice"); tick() } }
impl Clone for Z { fn clone(&self) -> Z { tick(); Z::new() } }
fn op1(a: &R) -> R { a.touch(); tick(); R::new() }
fn op2(a: &R, b: &R) -> R { a.touch(); b.touch(); tick(); R::new() }
macro_rules! ops { ($($t:ident $f:ident $ta:ident $fa:ident),*) => { $(
    impl $t for R { type Output = R; fn $f(self, o: R) -> R { op2(&self, &o) } }
    impl<'a> $t<&'a R> for R { type Output = R; fn $f(self, o: &'a R) -> R { op2(&self, o) } }
    impl<'a> $t<R> for &'a R { type Output = R; fn $f(self, o: R) -> R { op2(self, &o) } }
    impl<'a, 'b> $t<&'a R> for &'b R { type Output = R; fn $f(self, o: &'a R) -> R { op2(self, o) } }
    impl $ta for R { fn $fa(&mut self, o: R) { *self = op2(self, &o) } }
    impl<'a> $ta<&'a R> for R { fn $fa(&mut self, o: &'a R) { *self = op2(self, o) } }
)* } }
ops!(Add add AddAssign add_assign, Sub sub SubAssign sub_assign, Mul mul MulAssign mul_assign, Div div DivAssign div_assign, Rem rem RemAssign rem_assign);
impl Neg for R { type Output = R; fn neg(self) -> R { op1(&self) } }
impl<'a> Neg for &'a R { type Output = R; fn neg(self) -> R { op1(self) } }
impl Clone for R { fn clone(&self) -> R { op1(self) } }
impl Default for R { fn default() -> R { tick(); R::new() } }
impl Zero for R { fn zero() -> R { tick(); R::new() } fn is_zero(&self) -> bool { self.touch(); tick(); decide() } }
impl One for R { fn one() -> R { tick(); R::new() } }
impl Bounded for R { fn min_value() -> R { tick(); R::new() } fn max_value() -> R { tick(); R::new() } }
impl PartialEq for R { fn eq(&self, o: &R) -> bool { self.touch(); o.touch(); tick(); !decide() } }
impl Eq for R {}
impl PartialOrd for R { fn partial_cmp(&self, o: &R) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for R { fn cmp(&self, o: &R) -> Ordering { self.touch(); o.touch(); tick(); if decide() { Ordering::Greater } else { Ordering::Less } } }
impl Num for R { type FromStrRadixErr = (); fn from_str_radix(_: &str, _: u32) -> Result<R, ()> { Ok(R::new()) } }
impl Signed for R {
    fn abs(&self) -> R { op1(self) }
    fn abs_sub(&self, o: &R) -> R { op2(self, o) }
    fn signum(&self) -> R { op1(self) }
    fn is_positive(&self) -> bool { self.touch(); true }
    fn is_negative(&self) -> bool { self.touch(); false }
}
impl std::fmt::Debug for R { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.touch(); tick(); f.write_str("R") } }

/// Runs one scenario. Without a fault it must not panic and every element must
/// be gone afterwards; with one, the panic must reach the caller.
pub fn scenario(faults: bool, f: impl FnOnce()) { scenario_span(faults, false, f) }
pub fn scenario_span(faults: bool, span: bool, f: impl FnOnce()) {
    SPAN.with(|s| *s.borrow_mut() = span);
    w(|w| *w = World { armed: faults, ..World::default() });
    let p = panics(f);
    if w(|w| w.used) { must(p, "a panic of user code reaches the caller"); return }
    must(!p, "no panic without a cause");
    all_gone();
}
/// Like `scenario`, for calls that must panic even when user code does not.
pub fn refused(faults: bool, f: impl FnOnce()) {
    SPAN.with(|s| *s.borrow_mut() = false);
    w(|w| *w = World { armed: faults, ..World::default() });
    let p = panics(f);
    must(p, "the wrong number of items is refused");
    if !w(|w| w.used) { all_gone() }
}
pub fn all_gone() { must(w(|w| w.zsts == 0 && w.alive.iter().all(|a| !*a)), "every element is handed out or dropped") }
pub fn born() -> usize { w(|w| w.alive.len()) }

pub struct Zs(pub usize);
impl Iterator for Zs { type Item = Z; fn next(&mut self) -> Option<Z> { tick(); if self.0 == 0 { None } else { self.0 -= 1; Some(Z::new()) } } }
/// User iterator with a given number of items and a claimed size.
pub struct Items { pub left: usize, pub hint: (usize, Option<usize>) }
impl Iterator for Items {
    type Item = R;
    fn next(&mut self) -> Option<R> { tick(); if self.left == 0 { None } else { self.left -= 1; Some(R::new()) } }
    fn size_hint(&self) -> (usize, Option<usize>) { self.hint }
}
