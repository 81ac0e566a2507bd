//! C19: Display. How many lines each element's text has and how wide each of
//! them is are free variables, decided when the element is first shown.
use crate::eng::*;
use crate::h;
use rowcol::prelude::*;
use std::fmt::{self, Display, Write};

/// Bounds of the free layout variables of one harness.
#[derive(Clone, Copy)]
struct B { lines: usize, width: usize, classes: usize, ends: bool }
fn pick(name: &str, max: usize) -> usize {
    for v in 0..max { if branch(with(|c| { let x = c.var(name, Sort::Int); let k = c.mk(Node::IConst(v as i64), Sort::Int); c.eq(x, k) })) { return v } }
    assume(with(|c| { let x = c.var(name, Sort::Int); let k = c.mk(Node::IConst(max as i64), Sort::Int); c.eq(x, k) }));
    max
}
// without the width table every character is one column wide
const CLASS: [(char, usize); 3] = [('a', 1), ('\u{e9}', 1), ('\u{6f22}', if cfg!(feature = "uw") { 2 } else { 1 })];
/// The lines of the element at (i, j).
fn lines(i: usize, j: usize, b: B) -> Vec<String> {
    let n = pick(&format!("lines_{}_{}", i, j), b.lines);
    let class = if n > 0 && b.classes > 1 { pick(&format!("class_{}_{}", i, j), b.classes - 1) } else { 0 };
    (0..n).map(|k| {
        let w = pick(&format!("width_{}_{}_{}", i, j, k), b.width);
        // different elements have different letters
        let c = if class == 0 { (b'a' + ((i * 5 + j) % 26) as u8) as char } else { CLASS[class].0 };
        (0..w).map(|_| c).collect()
    }).collect()
}
fn width(l: &str) -> usize { l.chars().map(|c| CLASS.iter().find(|x| x.0 == c).map(|x| x.1).unwrap_or(1)).sum() }
struct X(usize, usize, B);
impl Display for X {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let ls = lines(self.0, self.1, self.2);
        let last = ls.len().wrapping_sub(1);
        for (k, l) in ls.iter().enumerate() {
            f.write_str(l)?;
            // a text may or may not end with a line feed; an empty last line needs one
            if k < last || l.is_empty() || (self.2.ends && pick(&format!("ends_{}_{}", self.0, self.1), 1) == 1) { f.write_char('\n')? }
        }
        Ok(())
    }
}
fn columns(l: &str) -> Vec<Option<char>> { let mut v = vec![]; for c in l.chars() { v.push(Some(c)); for _ in 1..width(&c.to_string()) { v.push(None) } } v }
fn check(out: Option<String>, r: usize, c: usize, b: B) {
    must(out.is_some(), "displaying does not panic");
    let out = out.unwrap();
    let cell: Vec<Vec<Vec<String>>> = (0..r).map(|i| (0..c).map(|j| lines(i, j, b)).collect()).collect();
    let hs: Vec<usize> = cell.iter().map(|row| row.iter().map(|x| x.len()).max().unwrap_or(0)).collect();
    let ws: Vec<usize> = (0..c).map(|j| cell.iter().map(|row| row[j].iter().map(|l| width(l)).max().unwrap_or(0)).max().unwrap_or(0)).collect();
    let got: Vec<&str> = out.lines().collect();
    must(got.len() == hs.iter().sum::<usize>(), "as many text lines as the tallest elements have");
    let total = ws.iter().sum::<usize>() + c.saturating_sub(1);
    let mut at = 0;
    for i in 0..r { for n in 0..hs[i] {
        let l: Vec<char> = got[at].chars().collect();
        at += 1;
        must(l.len() >= 2 && "⎡⎢⎣".contains(l[0]) && "⎤⎥⎦".contains(l[l.len() - 1]), "every line starts and ends with a bracket");
        let inner = columns(&l[1..l.len() - 1].iter().collect::<String>());
        must(inner.len() == total, "all lines have the same width");
        let mut p = 0;
        for j in 0..c {
            if j > 0 { must(inner[p] == Some(' '), "columns are separated by one space"); p += 1 }
            let want = columns(cell[i][j].get(n).map(|s| s.as_str()).unwrap_or(""));
            let have = &inner[p..p + ws[j]];
            let lead = have.iter().take_while(|x| **x == Some(' ')).count();
            if want.is_empty() { must(lead == ws[j], "an element without that line leaves its cell blank") }
            else {
                must(lead + want.len() <= ws[j] && have[lead..lead + want.len()] == want[..], "element (i, j) stands in row block i at column position j");
                must(have[lead + want.len()..].iter().all(|x| *x == Some(' ')), "cells are padded with spaces only");
            }
            p += ws[j];
        }
    } }
}
macro_rules! grid { ($r:ident $rn:literal, $c:ident $cn:literal; $b:expr) => {{ if choose($rn * 100 + $cn) {
    let b: B = $b;
    let mut out = None;
    panics(|| { let m = Matrix::<X, $r, $c>::generate(|(i, j)| X(i, j, b)); let mut s = String::new(); if write!(s, "{}", m).is_ok() { out = Some(s) } });
    check(out, $rn, $cn, b);
    return
} }} }
const FULL: B = B { lines: 3, width: 3, classes: 3, ends: true };
const PAIR: B = B { lines: 2, width: 3, classes: 2, ends: false };
const WIDE: B = B { lines: 1, width: 2, classes: 3, ends: false };
const QUAD: B = B { lines: 2, width: 1, classes: 1, ends: false };
const FLAT: B = B { lines: 1, width: 2, classes: 1, ends: false };
h! {
    empty 0 { grid!(U0 0, U0 0; FULL); grid!(U0 0, U3 3; FULL); grid!(U3 3, U0 0; FULL); grid!(U1 1, U0 0; FULL); }
    single 0 { grid!(U1 1, U1 1; FULL); }
    row 0 { grid!(U1 1, U2 2; PAIR); }
    column 0 { grid!(U2 2, U1 1; PAIR); }
    row_3 0 { grid!(U1 1, U3 3; WIDE); }
    column_3 0 { grid!(U3 3, U1 1; WIDE); }
    square 0 { grid!(U2 2, U2 2; FLAT); }
    square_lines 0 { grid!(U2 2, U2 2; QUAD); }
    long 0 { grid!(U1 1, U4 4; FLAT); grid!(U4 4, U1 1; FLAT); }
    tall 0 { grid!(U3 3, U2 2; B { lines: 1, width: 1, classes: 1, ends: false }); }
    broad 0 { grid!(U2 2, U3 3; B { lines: 1, width: 1, classes: 1, ends: false }); }
    row_deep 1 { grid!(U1 1, U2 2; B { lines: 3, width: 3, classes: 1, ends: false }); }
    column_deep 1 { grid!(U2 2, U1 1; B { lines: 3, width: 3, classes: 1, ends: false }); }
    square_deep 1 { grid!(U2 2, U2 2; B { lines: 1, width: 3, classes: 2, ends: false }); }
    tall_deep 1 { grid!(U3 3, U2 2; FLAT); grid!(U2 2, U3 3; FLAT); }
    square_3 1 { grid!(U3 3, U3 3; B { lines: 1, width: 1, classes: 1, ends: false }); }
}
