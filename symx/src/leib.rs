//! The determinant by definition.
use crate::elem::*;
/// Signed sum over permutations (those through a constant zero are left out).
pub fn leibniz(n: usize, a: &dyn Fn(usize, usize) -> S) -> S {
    fn go(n: usize, i: usize, used: &mut Vec<usize>, t: Option<S>, a: &dyn Fn(usize, usize) -> S, s: &mut Option<S>) {
        if i == n {
            let odd = (0..n).flat_map(|x| (0..x).map(move |y| (x, y))).filter(|&(x, y)| used[y] > used[x]).count() % 2 == 1;
            let t = t.unwrap_or_else(|| S::k(1));
            *s = Some(match *s { None => if odd { -t } else { t }, Some(s) => if odd { s - t } else { s + t } });
            return
        }
        for j in 0..n {
            if used.contains(&j) { continue }
            let x = a(i, j);
            if x.is_const(0) { continue }
            used.push(j);
            go(n, i + 1, used, Some(match t { None => x, Some(t) => t * x }), a, s);
            used.pop();
        }
    }
    let mut s = None;
    go(n, 0, &mut vec![], None, a, &mut s);
    s.unwrap_or_else(|| S::k(0))
}
/// Constant matrices that free entries are put into, for sizes too large to be free
/// altogether: dense without zeros, singular, a band with zeros on the diagonal, a
/// cycle (every pivot zero), the identity.
pub fn base(kind: usize, n: usize, i: usize, j: usize) -> i64 {
    match kind {
        0 => ((i * i * 3 + i * j * 5 + j * 7 + (i ^ j)) % 9) as i64 + 1,
        1 => (i + 1) as i64 * ((j * 5) % 7 + 1) as i64,
        2 => if i == j { if i % 2 == 0 { 0 } else { 2 } } else if i + 1 == j { 3 } else if j + 1 == i { 1 } else { 0 },
        3 => if (i + 1) % n == j { (i + 2) as i64 } else { 0 },
        _ => if i == j { 1 } else { 0 },
    }
}
pub const KINDS: usize = 5;
