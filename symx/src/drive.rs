//! Drives a double-ended exact-size iterator in lock-step with the plain
//! sequence 0..n. What happens is enumerated, the elements stay symbolic.
use crate::eng::*;

fn picks(n: usize, all: usize) -> Vec<usize> {
    if n <= all { return (0..=n).collect() }
    let mut v = vec![0, 1, 2, n / 2, n - 1, n];
    v.dedup();
    v
}
fn skips(rest: usize) -> Vec<usize> {
    let mut v = vec![0, 1, 2, 3, rest.wrapping_sub(2), rest.wrapping_sub(1), rest, rest + 1, usize::MAX - 1, usize::MAX, 1 << 32, usize::MAX / 2 + 1];
    v.sort();
    v.dedup();
    v
}
#[derive(Clone, Copy)]
pub enum Op { Next, Back, Nth(usize), NthBack(usize) }
/// One call on the iterator and on the sequence lo..hi.
fn step<T, I: DoubleEndedIterator<Item = T>>(it: &mut I, lo: &mut usize, hi: &mut usize, op: Op, ok: &dyn Fn(T, usize)) {
    let (got, front) = match op { Op::Next => (it.next(), true), Op::Back => (it.next_back(), false), Op::Nth(k) => (it.nth(k), true), Op::NthBack(k) => (it.nth_back(k), false) };
    let k = match op { Op::Nth(k) | Op::NthBack(k) => k, _ => 0 };
    let want = if k < *hi - *lo { Some(if front { *lo + k } else { *hi - 1 - k }) } else { None };
    match want { Some(i) => if front { *lo = i + 1 } else { *hi = i }, None => if front { *lo = *hi } else { *hi = *lo } }
    match (got, want) {
        (Some(x), Some(i)) => ok(x, i),
        (None, None) => (),
        (Some(_), None) => must(false, "an exhausted iterator yields nothing"),
        (None, Some(_)) => must(false, "an iterator does not end before its elements do"),
    }
}
fn lens<I: ExactSizeIterator>(it: &I, left: usize) {
    must(it.len() == left && it.size_hint() == (left, Some(left)), "length and size hint are what is left");
}
/// Ways to take everything that is left.
fn finish<T, I: DoubleEndedIterator<Item = T> + ExactSizeIterator>(mut it: I, mut lo: usize, mut hi: usize, how: usize, ok: &dyn Fn(T, usize)) {
    let left = hi - lo;
    match how {
        0 => { for _ in 0..left + 2 { step(&mut it, &mut lo, &mut hi, Op::Next, ok); lens(&it, hi - lo) } step(&mut it, &mut lo, &mut hi, Op::Back, ok) }
        1 => { for _ in 0..left + 2 { step(&mut it, &mut lo, &mut hi, Op::Back, ok); lens(&it, hi - lo) } step(&mut it, &mut lo, &mut hi, Op::Next, ok) }
        2 => must(it.count() == left, "count is what is left"),
        3 => match it.last() { Some(x) => { must(left > 0, "nothing left has no last"); ok(x, hi - 1) } None => must(left == 0, "what is left has a last") },
        4 => { let mut n = lo; it.fold((), |_, x| { must(n < hi, "folding sees no more than what is left"); ok(x, n); n += 1 }); must(n == hi, "folding sees all that is left") }
        5 => { let mut n = hi; it.rfold((), |_, x| { must(n > lo, "folding backwards sees no more than what is left"); n -= 1; ok(x, n) }); must(n == lo, "folding backwards sees all that is left") }
        6 => { let mut n = hi; for x in it.rev() { must(n > lo, "reversing sees no more than what is left"); n -= 1; ok(x, n) } must(n == lo, "reversing sees all that is left") }
        7 => { let mut n = lo; it.for_each(|x| { must(n < hi, "for_each sees no more than what is left"); ok(x, n); n += 1 }); must(n == hi, "for_each sees all that is left") }
        8 => { let mut n = lo; for x in it.by_ref().take(2) { ok(x, n); n += 1 } must(n == lo + left.min(2), "take(2) takes what is there"); lens(&it, left - left.min(2)) }
        9 => { let mut n = lo; for x in it.skip(1).step_by(2) { n += 1; ok(x, n); n += 1 } must(n + 1 >= hi, "skip and step_by see every second") }
        10 => { let c: Vec<T> = it.collect(); must(c.len() == left, "collecting gives what is left"); for (i, x) in c.into_iter().enumerate() { ok(x, lo + i) } }
        _ => { let r = it.try_fold(lo, |n, x| { ok(x, n); if n + 1 < lo + 2 { Ok(n + 1) } else { Err(n + 1) } });
               let took = left.min(2);
               must(r == if took == 2 { Err(lo + 2) } else { Ok(lo + took) }, "try_fold stops where it is told"); lens(&it, left - took) }
    }
}
/// make() is a fresh iterator over n items; ok checks an item against its number.
pub fn drive<T, I: DoubleEndedIterator<Item = T> + ExactSizeIterator>(n: usize, deep: bool, make: &dyn Fn() -> I, ok: &dyn Fn(T, usize)) {
    lens(&make(), n);
    let window = |a: usize, c: usize, order: usize| {
        let (mut it, mut lo, mut hi) = (make(), 0, n);
        let (mut a, mut c) = (a, c);
        while a + c > 0 {
            let front = match order { 0 => a > 0, 1 => c == 0, _ => a > 0 && (a >= c) };
            step(&mut it, &mut lo, &mut hi, if front { Op::Next } else { Op::Back }, ok);
            if front { a -= 1 } else { c -= 1 }
            lens(&it, hi - lo);
        }
        (it, lo, hi)
    };
    for a in picks(n, 6) { for c in picks(n - a, 6) { for order in 0..3 {
        if order > 0 && (a == 0 || c == 0) { continue }
        let rest = n - a - c;
        for how in 0..12 { let (it, lo, hi) = window(a, c, order); finish(it, lo, hi, how, ok) }
        let mut ops = vec![Op::Next, Op::Back];
        for k in skips(rest) { ops.push(Op::Nth(k)); ops.push(Op::NthBack(k)) }
        for (i, &x) in ops.iter().enumerate() {
            for how in if deep { vec![0, 1, 2, 3, 4, 5] } else { vec![i % 2, 2 + i % 4] } {
                let (mut it, mut lo, mut hi) = window(a, c, order);
                step(&mut it, &mut lo, &mut hi, x, ok);
                lens(&it, hi - lo);
                finish(it, lo, hi, how, ok);
            }
            if !deep { continue }
            for (j, &y) in ops.iter().enumerate() {
                let (mut it, mut lo, mut hi) = window(a, c, order);
                step(&mut it, &mut lo, &mut hi, x, ok);
                step(&mut it, &mut lo, &mut hi, y, ok);
                lens(&it, hi - lo);
                finish(it, lo, hi, (i + j) % 2, ok);
            }
        }
    } } }
}
