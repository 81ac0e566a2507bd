//! Reference model of a double-ended exact-size sequence 0..n, driven in
//! lock-step with a real iterator. `f..b` is the window of positions not yet
//! handed out.
use crate::nd::Nd;
use crate::prop;

pub fn look<I: ExactSizeIterator>(it: &I, f: usize, b: usize) {
    prop!(it.len() == b - f, "len() is the number of items left");
    prop!(it.size_hint() == (b - f, Some(b - f)), "size_hint() is exact");
}

pub fn next<I: Iterator>(it: &mut I, f: &mut usize, b: usize, eq: &impl Fn(I::Item, usize) -> bool) {
    match it.next() {
        Some(x) => {
            prop!(*f < b, "next() yields an item only while items remain");
            prop!(eq(x, *f), "next() yields the first remaining item");
            *f += 1;
        }
        None => prop!(*f == b, "next() is None only when exhausted"),
    }
}

pub fn next_back<I: DoubleEndedIterator>(it: &mut I, f: usize, b: &mut usize, eq: &impl Fn(I::Item, usize) -> bool) {
    match it.next_back() {
        Some(x) => {
            prop!(f < *b, "next_back() yields an item only while items remain");
            *b -= 1;
            prop!(eq(x, *b), "next_back() yields the last remaining item");
        }
        None => prop!(f == *b, "next_back() is None only when exhausted"),
    }
}

pub fn nth<I: Iterator>(it: &mut I, k: usize, f: &mut usize, b: usize, eq: &impl Fn(I::Item, usize) -> bool) {
    let r = it.nth(k);
    if k < b - *f {
        *f += k;
        match r {
            Some(x) => prop!(eq(x, *f), "nth(k) yields the k-th remaining item"),
            None => prop!(false, "nth(k) is Some while more than k items remain"),
        }
        *f += 1;
    } else {
        prop!(r.is_none(), "nth(k) is None when at most k items remain");
        *f = b;
    }
}

pub fn nth_back<I: DoubleEndedIterator>(it: &mut I, k: usize, f: usize, b: &mut usize, eq: &impl Fn(I::Item, usize) -> bool) {
    let r = it.nth_back(k);
    if k < *b - f {
        *b -= k;
        *b -= 1;
        match r {
            Some(x) => prop!(eq(x, *b), "nth_back(k) yields the k-th last remaining item"),
            None => prop!(false, "nth_back(k) is Some while more than k items remain"),
        }
    } else {
        prop!(r.is_none(), "nth_back(k) is None when at most k items remain");
        *b = f;
    }
}

/// Drives `it` to the window `a..n-c`.
pub fn goto<I>(it: &mut I, n: usize, a: usize, c: usize, eq: &impl Fn(I::Item, usize) -> bool)
    where I: Iterator + DoubleEndedIterator + ExactSizeIterator
{
    let (mut f, mut b) = (0, n);
    while f < a { let g = f; next(it, &mut f, b, eq); if f == g { return } }
    while b > n - c { let g = b; next_back(it, f, &mut b, eq); if b == g { return } }
    look(it, f, b);
}

#[derive(Clone, Copy, PartialEq)]
pub enum Op { Next, NextBack, Nth, NthBack, Count, Last, Fold, Rfold }

/// The windows of a sequence of length `n` that are visited: all of them up to
/// length 5, beyond that those whose ends are near 0, n/2 and n.
fn visit(n: usize, x: usize) -> bool { n <= 5 || x <= 1 || x == n / 2 || x + 1 >= n }

/// Every window, each followed by one call from `ops` (with an arbitrary
/// argument) and a look at what is left.
pub fn windows<I>(nd: &mut Nd, mk: impl Fn() -> I, n: usize, ops: &[Op], eq: impl Fn(I::Item, usize) -> bool)
    where I: Iterator + DoubleEndedIterator + ExactSizeIterator
{
    let k = nd.usize();
    let mut a = 0;
    while a <= n {
        let mut c = 0;
        while a + c <= n {
            let mut o = 0;
            while o < ops.len() {
                if visit(n, a) && visit(n, c) {
                    let mut it = mk();
                    goto(&mut it, n, a, c, &eq);
                    one(it, k, a, n - c, ops[o], &eq);
                }
                o += 1;
            }
            c += 1;
        }
        a += 1;
    }
}

pub const STEP: &[Op] = &[Op::Next, Op::NextBack];
pub const END: &[Op] = &[Op::Count, Op::Last];
pub const EAT: &[Op] = &[Op::Count, Op::Last, Op::Fold, Op::Rfold];
pub const NTH: &[Op] = &[Op::Nth];
pub const NTHB: &[Op] = &[Op::NthBack];

/// One call `op` on an iterator whose window is `f..b`, then a look at the rest.
pub fn one<I>(mut it: I, k: usize, mut f: usize, mut b: usize, op: Op, eq: &impl Fn(I::Item, usize) -> bool)
    where I: Iterator + DoubleEndedIterator + ExactSizeIterator
{
    match op {
        Op::Count => { prop!(it.count() == b - f, "count() is the number of items left"); return }
        Op::Last => {
            match it.last() {
                Some(x) => prop!(f < b && eq(x, b - 1), "last() is the last remaining item"),
                None => prop!(f == b, "last() is None only when exhausted"),
            }
            return
        }
        Op::Fold => {
            let mut p = f;
            let n = it.fold(0usize, |a, x| { prop!(p < b && eq(x, p), "fold visits the rest in order"); p += 1; a + 1 });
            prop!(n == b - f, "fold visits every remaining item");
            return
        }
        Op::Rfold => {
            let mut p = b;
            let n = it.rev().fold(0usize, |a, x| { prop!(p > f && eq(x, p - 1), "reversed fold visits the rest backwards"); p -= 1; a + 1 });
            prop!(n == b - f, "reversed fold visits every remaining item");
            return
        }
        Op::Next => next(&mut it, &mut f, b, eq),
        Op::NextBack => next_back(&mut it, f, &mut b, eq),
        Op::Nth => nth(&mut it, k, &mut f, b, eq),
        Op::NthBack => nth_back(&mut it, k, f, &mut b, eq),
    }
    look(&it, f, b);
    next_back(&mut it, f, &mut b, eq);
    next(&mut it, &mut f, b, eq);
    look(&it, f, b);
}

fn call<I>(it: &mut I, op: usize, k: usize, f: &mut usize, b: &mut usize, eq: &impl Fn(I::Item, usize) -> bool)
    where I: Iterator + DoubleEndedIterator + ExactSizeIterator
{
    match op {
        0 => next(it, f, *b, eq),
        1 => next_back(it, *f, b, eq),
        2 => nth(it, k, f, *b, eq),
        _ => nth_back(it, k, *f, b, eq),
    }
    look(it, *f, *b);
}

/// All histories of two calls beginning with `first`, each skip amount
/// arbitrary.
pub fn hist2<I>(nd: &mut Nd, mk: impl Fn() -> I, n: usize, first: usize, eq: impl Fn(I::Item, usize) -> bool)
    where I: Iterator + DoubleEndedIterator + ExactSizeIterator
{
    let ks = [nd.usize(), nd.usize()];
    let mut o2 = 0;
    while o2 < 4 {
        let mut it = mk();
        let (mut f, mut b) = (0, n);
        call(&mut it, first, ks[0], &mut f, &mut b, &eq);
        call(&mut it, o2, ks[1], &mut f, &mut b, &eq);
        o2 += 1;
    }
}

/// All histories of three calls beginning with `first`.
pub fn hist<I>(nd: &mut Nd, mk: impl Fn() -> I, n: usize, first: usize, eq: impl Fn(I::Item, usize) -> bool)
    where I: Iterator + DoubleEndedIterator + ExactSizeIterator
{
    let ks = [nd.usize(), nd.usize(), nd.usize()];
    let mut o2 = 0;
    while o2 < 4 {
        let mut o3 = 0;
        while o3 < 4 {
            let mut it = mk();
            let (mut f, mut b) = (0, n);
            call(&mut it, first, ks[0], &mut f, &mut b, &eq);
            call(&mut it, o2, ks[1], &mut f, &mut b, &eq);
            call(&mut it, o3, ks[2], &mut f, &mut b, &eq);
            o3 += 1;
        }
        o2 += 1;
    }
}
