//! Symbolic execution of generic code by running it natively on symbolic
//! element values.
//!
//! Every element operation the code under test performs builds a term; every
//! decision it takes on element values (`is_zero`, `==`, `<`, a callback's
//! result, whether a fault happens now) is put to the SMT solver and forks the
//! path when both outcomes are possible. The harness's assertions are proved
//! by the solver under each path condition. The same harness runs on concrete
//! values to replay a counterexample.
use num::bigint::BigInt;
use num::rational::Ratio;
use num::{One, Signed, ToPrimitive, Zero};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

pub type Rat = Ratio<BigInt>;
pub fn rat(n: i64) -> Rat { Ratio::from_integer(BigInt::from(n)) }

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[derive(PartialOrd, Ord)]
pub enum Sort { Real, Int, E, Bool }

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Var(u32),
    Const(BigInt, BigInt),
    IConst(i64),
    True,
    False,
    Add(u32, u32),
    Sub(u32, u32),
    Mul(u32, u32),
    /// the path condition implies a non-zero divisor
    Div(u32, u32),
    Neg(u32),
    App(&'static str, Vec<u32>, Sort),
    Eq(u32, u32),
    Lt(u32, u32),
    Not(u32),
    And(Vec<u32>),
    /// concrete float, replay only
    F64(u64),
}

struct VarInfo { name: String, sort: Sort, def: Option<u32>, input: bool }

pub struct Outcome { pub msg: String, pub values: Vec<(String, String)>, pub how: &'static str }

#[derive(Default, Clone)]
pub struct Stats { pub paths: u64, pub branches: u64, pub obligations: u64, pub queries: u64, pub lemmas: u64, pub solver_ms: f64, pub unknown: u64 }

#[derive(PartialEq, Clone, Copy)]
pub enum Mode { Sym, Conc }

pub struct Cx {
    pub mode: Mode,
    nodes: Vec<Node>,
    sorts: Vec<Sort>,
    index: HashMap<Node, u32>,
    vars: Vec<VarInfo>,
    var_ix: HashMap<String, u32>,
    path: Vec<u32>,
    known: HashMap<u32, bool>,
    trace: Vec<bool>,
    forced: Vec<bool>,
    alts: Vec<Vec<bool>>,
    obls: Vec<(u32, &'static str)>,
    funs: HashMap<&'static str, (Vec<Sort>, Sort)>,
    conc: HashMap<String, String>,
    pub failed: Option<String>,
    solver: Option<Solver>,
    pub stats: Stats,
    rational: bool,
    frac_memo: HashMap<u32, Option<std::rc::Rc<Frac>>>,
    factors: Vec<Poly>,
    nonzero: Vec<u32>,
    lemmas: Vec<(Vec<u32>, String)>,
    proved: HashSet<String>,
    fresh: u32,
    depth: u32,
    timeout_ms: u32,
}

/// Monomial in lexicographic order, as (variable, exponent) pairs sorted by variable.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Mono(Vec<(u32, u32)>);
impl Ord for Mono {
    fn cmp(&self, o: &Mono) -> std::cmp::Ordering {
        use std::cmp::Ordering::*;
        let (mut i, a, b) = (0, &self.0, &o.0);
        loop {
            match (a.get(i), b.get(i)) {
                (None, None) => return Equal,
                (None, _) => return Less,
                (_, None) => return Greater,
                (Some(x), Some(y)) => {
                    if x.0 != y.0 { return if x.0 < y.0 { Greater } else { Less } }
                    if x.1 != y.1 { return x.1.cmp(&y.1) }
                }
            }
            i += 1;
        }
    }
}
impl PartialOrd for Mono { fn partial_cmp(&self, o: &Mono) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Mono {
    fn times(&self, o: &Mono) -> Mono {
        let (mut i, mut j, a, b) = (0, 0, &self.0, &o.0);
        let mut r = Vec::with_capacity(a.len() + b.len());
        while i < a.len() || j < b.len() {
            if j >= b.len() || (i < a.len() && a[i].0 < b[j].0) { r.push(a[i]); i += 1 }
            else if i >= a.len() || b[j].0 < a[i].0 { r.push(b[j]); j += 1 }
            else { r.push((a[i].0, a[i].1 + b[j].1)); i += 1; j += 1 }
        }
        Mono(r)
    }
    fn over(&self, o: &Mono) -> Option<Mono> {
        let mut r = Vec::new();
        let mut j = 0;
        for &(v, e) in &self.0 {
            if j < o.0.len() && o.0[j].0 < v { return None }
            if j < o.0.len() && o.0[j].0 == v { let d = o.0[j].1; j += 1; if d > e { return None } if e > d { r.push((v, e - d)) } } else { r.push((v, e)) }
        }
        if j < o.0.len() { None } else { Some(Mono(r)) }
    }
}
type Poly = BTreeMap<Mono, Rat>;
const POLY_CAP: usize = 400000;
const POLY_TERMS: usize = 6000;

fn pconst(c: Rat) -> Poly { let mut p = Poly::new(); if !c.is_zero() { p.insert(Mono(vec![]), c); } p }
fn pvar(v: u32) -> Poly { let mut p = Poly::new(); p.insert(Mono(vec![(v, 1)]), Rat::one()); p }
fn is_pconst(p: &Poly) -> Option<Rat> { if p.is_empty() { Some(Rat::zero()) } else if p.len() == 1 { p.get(&Mono(vec![])).cloned() } else { None } }
fn padd_in(r: &mut Poly, m: Mono, c: Rat) {
    let z = { let e = r.entry(m.clone()).or_insert_with(Rat::zero); *e = &*e + &c; e.is_zero() };
    if z { r.remove(&m); }
}
fn padd(a: &Poly, b: &Poly, s: &Rat) -> Poly { let mut r = a.clone(); for (m, c) in b { padd_in(&mut r, m.clone(), c * s) } r }
fn pmul(a: &Poly, b: &Poly) -> Option<Poly> {
    if a.len() * b.len() > POLY_CAP { return None }
    let mut r = Poly::new();
    for (m, c) in a { for (n, d) in b { padd_in(&mut r, m.times(n), c * d) } }
    if r.len() > POLY_TERMS { None } else { Some(r) }
}
fn pscale(a: &Poly, c: &Rat) -> Poly { if c.is_zero() { Poly::new() } else { a.iter().map(|(m, x)| (m.clone(), x * c)).collect() } }
/// a / d when the division is exact.
fn pdiv(a: &Poly, d: &Poly) -> Option<Poly> {
    let (lm, lc) = d.iter().next_back()?;
    let mut r = a.clone();
    let mut q = Poly::new();
    while !r.is_empty() {
        let (m, c) = { let (m, c) = r.iter().next_back().unwrap(); (m.clone(), c.clone()) };
        let t = m.over(lm)?;
        let k = c / lc;
        let nk = -k.clone();
        for (n, x) in d { padd_in(&mut r, t.times(n), x * &nk) }
        q.insert(t, k);
        if q.len() > POLY_TERMS { return None }
    }
    Some(q)
}
/// num / product of factor^exp; the factors are known to be non-zero.
#[derive(Clone, Debug)]
struct Frac { num: Poly, den: BTreeMap<usize, u32> }

struct Solver { child: Child, inp: ChildStdin, out: BufReader<ChildStdout> }
impl Solver {
    fn new() -> Solver {
        let bin = std::env::var("SYMX_SOLVER").unwrap_or_else(|_| "z3-new".to_string());
        let mut child = Command::new(bin).arg("-in").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("solver");
        let inp = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        Solver { child, inp, out }
    }
    fn ask(&mut self, text: &str) -> Vec<String> {
        let t = format!("(reset)\n{}\n(echo \"--done--\")\n", text);
        let mut lines = Vec::new();
        if self.inp.write_all(t.as_bytes()).is_err() || self.inp.flush().is_err() { return vec!["(error dead)".into()] }
        loop {
            let mut l = String::new();
            match self.out.read_line(&mut l) {
                Ok(0) | Err(_) => { lines.push("(error dead)".into()); break }
                Ok(_) => {}
            }
            let l = l.trim().to_string();
            if l == "--done--" || l == "\"--done--\"" { break }
            if !l.is_empty() { lines.push(l) }
        }
        lines
    }
}
impl Drop for Solver { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }

fn rtext(c: &Rat) -> String { if c.denom().is_one() { format!("{}.0", c.numer()) } else { format!("(/ {}.0 {}.0)", c.numer(), c.denom()) } }
fn rtext2(c: &Rat) -> String { if c.is_negative() { format!("(- {})", rtext(&-c)) } else { rtext(c) } }
#[derive(PartialEq, Clone, Copy, Debug)]
pub enum Ans { Sat, Unsat, Unknown }

thread_local! { pub static CX: RefCell<Cx> = RefCell::new(Cx::new()); }
pub fn with<R>(f: impl FnOnce(&mut Cx) -> R) -> R { CX.with(|c| f(&mut c.borrow_mut())) }

/// Payload of the panics this engine raises on purpose.
pub struct Stop(pub &'static str);

impl Cx {
    fn new() -> Cx {
        Cx { mode: Mode::Sym, nodes: vec![], sorts: vec![], index: HashMap::new(), vars: vec![], var_ix: HashMap::new(), path: vec![],
             known: HashMap::new(), trace: vec![], forced: vec![], alts: vec![], obls: vec![], funs: HashMap::new(), conc: HashMap::new(),
             failed: None, solver: None, stats: Stats::default(), rational: false, frac_memo: HashMap::new(), factors: vec![], nonzero: vec![], lemmas: vec![], proved: HashSet::new(), fresh: 0, depth: 0, timeout_ms: 20000 }
    }
    fn reset_path(&mut self) {
        self.nodes.clear(); self.sorts.clear(); self.index.clear(); self.vars.clear(); self.var_ix.clear(); self.path.clear();
        self.known.clear(); self.trace.clear(); self.obls.clear(); self.frac_memo.clear(); self.factors.clear(); self.nonzero.clear(); self.lemmas.clear(); self.rational = false; self.failed = None; self.fresh = 0; self.depth = 0;
    }
    pub fn mk(&mut self, n: Node, s: Sort) -> u32 {
        if let Some(&i) = self.index.get(&n) { return i }
        let i = self.nodes.len() as u32;
        self.nodes.push(n.clone()); self.sorts.push(s); self.index.insert(n, i);
        i
    }
    pub fn node(&self, i: u32) -> &Node { &self.nodes[i as usize] }
    pub fn sort(&self, i: u32) -> Sort { self.sorts[i as usize] }
    pub fn konst(&mut self, r: &Rat) -> u32 { let (n, d) = (r.numer().clone(), r.denom().clone()); self.mk(Node::Const(n, d), Sort::Real) }
    pub fn as_const(&self, i: u32) -> Option<Rat> { if let Node::Const(n, d) = self.node(i) { Some(Ratio::new(n.clone(), d.clone())) } else { None } }
    fn as_f64(&self, i: u32) -> Option<f64> {
        match self.node(i) {
            Node::F64(b) => Some(f64::from_bits(*b)),
            Node::Const(n, d) => Some(n.to_f64().unwrap_or(f64::NAN) / d.to_f64().unwrap_or(f64::NAN)),
            _ => None,
        }
    }
    fn isf(&self, i: u32) -> bool { matches!(self.node(i), Node::F64(_)) }
    fn fl(&mut self, x: f64) -> u32 { self.mk(Node::F64(x.to_bits()), Sort::Real) }
    pub fn boolean(&mut self, b: bool) -> u32 { self.mk(if b { Node::True } else { Node::False }, Sort::Bool) }

    pub fn var(&mut self, name: &str, sort: Sort) -> u32 {
        if self.mode == Mode::Conc {
            let v = self.conc.get(name).cloned();
            return match sort {
                Sort::Real => { let r = v.map(|s| parse_rat(&s)).unwrap_or_else(Rat::zero); self.konst(&r) }
                Sort::Int => { let r = v.and_then(|s| s.parse::<i64>().ok()).unwrap_or(0); self.mk(Node::IConst(r), Sort::Int) }
                Sort::Bool => { let b = v.map(|s| s == "true").unwrap_or(false); self.boolean(b) }
                // elements of the free algebra: equal exactly when the model says so
                Sort::E => {
                    let key = v.unwrap_or_else(|| format!("free:{}", name));
                    self.input(&key, Sort::E, true)
                }
            };
        }
        self.input(name, sort, true)
    }
    fn input(&mut self, name: &str, sort: Sort, input: bool) -> u32 {
        let v = match self.var_ix.get(name) {
            Some(&v) => v,
            None => {
                let v = self.vars.len() as u32;
                self.vars.push(VarInfo { name: name.to_string(), sort, def: None, input });
                self.var_ix.insert(name.to_string(), v);
                v
            }
        };
        self.mk(Node::Var(v), sort)
    }
    fn fresh(&mut self, sort: Sort) -> u32 { self.fresh += 1; let n = format!("t!{}", self.fresh); self.input(&n, sort, false) }

    pub fn add(&mut self, a: u32, b: u32) -> u32 {
        if self.isf(a) || self.isf(b) { let r = self.as_f64(a).unwrap() + self.as_f64(b).unwrap(); return self.fl(r) }
        match (self.as_const(a), self.as_const(b)) {
            (Some(x), Some(y)) => { let r = x + y; self.konst(&r) }
            _ => self.mk(Node::Add(a, b), Sort::Real),
        }
    }
    pub fn sub(&mut self, a: u32, b: u32) -> u32 {
        if self.isf(a) || self.isf(b) { let r = self.as_f64(a).unwrap() - self.as_f64(b).unwrap(); return self.fl(r) }
        match (self.as_const(a), self.as_const(b)) {
            (Some(x), Some(y)) => { let r = x - y; self.konst(&r) }
            _ => self.mk(Node::Sub(a, b), Sort::Real),
        }
    }
    pub fn mul(&mut self, a: u32, b: u32) -> u32 {
        if self.isf(a) || self.isf(b) { let r = self.as_f64(a).unwrap() * self.as_f64(b).unwrap(); return self.fl(r) }
        match (self.as_const(a), self.as_const(b)) {
            (Some(x), Some(y)) => { let r = x * y; self.konst(&r) }
            _ => self.mk(Node::Mul(a, b), Sort::Real),
        }
    }
    pub fn neg(&mut self, a: u32) -> u32 {
        if self.isf(a) { let r = -self.as_f64(a).unwrap(); return self.fl(r) }
        match self.as_const(a) { Some(x) => { let r = -x; self.konst(&r) } None => self.mk(Node::Neg(a), Sort::Real) }
    }
    pub fn app(&mut self, f: &'static str, args: Vec<u32>, s: Sort) -> u32 {
        let sig = (args.iter().map(|&a| self.sort(a)).collect::<Vec<_>>(), s);
        let old = self.funs.entry(f).or_insert_with(|| sig.clone());
        assert!(*old == sig, "symx: signature of {} changed", f);
        if self.mode == Mode::Conc && s == Sort::E {
            // the model's interpretation of the function, where it has one
            let k = format!("{}({})", f, args.iter().map(|a| self.show(*a)).collect::<Vec<_>>().join(","));
            if let Some(v) = self.conc.get(&k).cloned() { return self.input(&v, Sort::E, true) }
        }
        let n = self.mk(Node::App(f, args, s), s);
        if self.mode == Mode::Conc && s == Sort::Bool {
            let k = self.show(n);
            let b = self.conc.get(&k).map(|s| s == "true").unwrap_or(false);
            return self.boolean(b);
        }
        n
    }
    pub fn eq(&mut self, a: u32, b: u32) -> u32 {
        if self.isf(a) || self.isf(b) {
            let (x, y) = (self.as_f64(a).unwrap(), self.as_f64(b).unwrap());
            let r = x == y || (x - y).abs() <= 1e-9 * (1.0 + x.abs().max(y.abs()));
            return self.boolean(r);
        }
        match (self.node(a).clone(), self.node(b).clone()) {
            (Node::Const(x, y), Node::Const(z, w)) => self.boolean(x == z && y == w),
            (Node::IConst(x), Node::IConst(y)) => self.boolean(x == y),
            _ if self.mode == Mode::Conc => self.boolean(a == b),
            _ => self.mk(Node::Eq(a, b), Sort::Bool),
        }
    }
    pub fn lt(&mut self, a: u32, b: u32) -> u32 {
        if self.isf(a) || self.isf(b) { let r = self.as_f64(a).unwrap() < self.as_f64(b).unwrap(); return self.boolean(r) }
        match (self.node(a).clone(), self.node(b).clone()) {
            (Node::Const(..), Node::Const(..)) => { let r = self.as_const(a).unwrap() < self.as_const(b).unwrap(); self.boolean(r) }
            (Node::IConst(x), Node::IConst(y)) => self.boolean(x < y),
            _ => self.mk(Node::Lt(a, b), Sort::Bool),
        }
    }
    pub fn not(&mut self, a: u32) -> u32 {
        match self.node(a).clone() {
            Node::True => self.boolean(false),
            Node::False => self.boolean(true),
            Node::Not(x) => x,
            _ => self.mk(Node::Not(a), Sort::Bool),
        }
    }
    pub fn and(&mut self, v: Vec<u32>) -> u32 {
        let mut w = vec![];
        for x in v {
            match self.node(x) { Node::True => {}, Node::False => return self.boolean(false), _ => w.push(x) }
        }
        if w.is_empty() { return self.boolean(true) }
        self.mk(Node::And(w), Sort::Bool)
    }

    // ---- rational-function view ----
    // Values are normalised to polynomial fractions; every normalisation step
    // is itself put to the solver as a polynomial identity (`lemmas`).
    fn frac(&mut self, i: u32) -> Option<std::rc::Rc<Frac>> {
        if let Some(p) = self.frac_memo.get(&i) { return p.clone() }
        let r = self.frac1(i).map(std::rc::Rc::new);
        self.frac_memo.insert(i, r.clone());
        r
    }
    fn fprod(&self, d: &BTreeMap<usize, u32>) -> Option<Poly> {
        let mut p = pconst(Rat::one());
        for (f, e) in d { for _ in 0..*e { p = pmul(&p, &self.factors[*f])? } }
        Some(p)
    }
    /// Cancels factors of `den` out of `num`; records num == result * removed.
    fn reduce(&mut self, mut num: Poly, mut den: BTreeMap<usize, u32>, lhs: String, used: Vec<u32>) -> Option<Frac> {
        if num.is_empty() { den.clear() }
        let mut removed = vec![];
        let ks: Vec<usize> = den.keys().cloned().collect();
        for f in ks {
            while den.get(&f).cloned().unwrap_or(0) > 0 {
                match pdiv(&num, &self.factors[f]) { Some(q) => { num = q; *den.get_mut(&f).unwrap() -= 1; removed.push(f) } None => break }
            }
            if den.get(&f) == Some(&0) { den.remove(&f); }
        }
        let mut vs = used;
        let mut rhs = self.ptext(&num, &mut vs);
        for f in removed { let p = self.factors[f].clone(); rhs = format!("(* {} {})", rhs, self.ptext(&p, &mut vs)) }
        self.lemma(vs, lhs, rhs);
        Some(Frac { num, den })
    }
    fn lemma(&mut self, vs: Vec<u32>, l: String, r: String) { if l != r { let t = format!("(= {} {})", l, r); if !self.proved.contains(&t) { self.lemmas.push((vs, t)) } } }
    fn ptext(&self, p: &Poly, vs: &mut Vec<u32>) -> String {
        let mut out = String::new();
        for (m, c) in p {
            let k = if c.is_negative() { format!("(- {})", rtext(&-c)) } else { rtext(c) };
            if m.0.is_empty() { out += &format!(" {}", k); continue }
            out += " (*";
            if !c.is_one() { out += &format!(" {}", k) }
            for (v, e) in &m.0 { if !vs.contains(v) { vs.push(*v) } for _ in 0..*e { out += &format!(" |{}|", self.vars[*v as usize].name) } }
            out += ")";
        }
        match p.len() { 0 => "0.0".into(), 1 => out.trim().replacen("(* |", "(* 1.0 |", 1).to_string(), _ => format!("(+{})", out) }
    }
    /// p = c * product of factors * rest; a non-constant rest becomes a factor when `known` (p is known non-zero).
    fn factorise(&mut self, p: &Poly, known: bool) -> (Rat, BTreeMap<usize, u32>, Option<Poly>) {
        let mut rest = p.clone();
        let mut fs: BTreeMap<usize, u32> = BTreeMap::new();
        for f in 0..self.factors.len() {
            loop {
                if is_pconst(&rest).is_some() { break }
                match pdiv(&rest, &self.factors[f]) { Some(q) => { rest = q; *fs.entry(f).or_insert(0) += 1 } None => break }
            }
        }
        let mut c = Rat::one();
        let mut left = None;
        if let Some(k) = is_pconst(&rest) { c = k } else if known {
            c = rest.iter().next_back().unwrap().1.clone();
            let f = pscale(&rest, &(Rat::one() / &c));
            self.factors.push(f);
            fs.insert(self.factors.len() - 1, 1);
        } else { left = Some(rest) }
        if !fs.is_empty() {
            let mut vs = vec![];
            let l = self.ptext(p, &mut vs);
            let mut r = rtext2(&c);
            for (f, e) in fs.clone() { for _ in 0..e { let q = self.factors[f].clone(); r = format!("(* {} {})", r, self.ptext(&q, &mut vs)) } }
            if let Some(x) = &left { let x = x.clone(); r = format!("(* {} {})", r, self.ptext(&x, &mut vs)) }
            self.lemma(vs, l, r);
        }
        (c, fs, left)
    }
    fn frac1(&mut self, i: u32) -> Option<Frac> {
        match self.node(i).clone() {
            Node::Var(v) => match self.vars[v as usize].def {
                Some(d) => self.frac(d).map(|f| (*f).clone()),
                None => Some(Frac { num: pvar(v), den: BTreeMap::new() }),
            },
            Node::Const(n, d) => Some(Frac { num: pconst(Ratio::new(n, d)), den: BTreeMap::new() }),
            Node::Neg(a) => { let f = self.frac(a)?; Some(Frac { num: pscale(&f.num, &-Rat::one()), den: f.den.clone() }) }
            Node::Add(a, b) | Node::Sub(a, b) => {
                let sub = matches!(self.node(i), Node::Sub(..));
                let (x, y) = (self.frac(a)?, self.frac(b)?);
                let (mut mx, mut my, mut l) = (BTreeMap::new(), BTreeMap::new(), x.den.clone());
                for (f, e) in &y.den { let h = l.entry(*f).or_insert(0); if *h < *e { *h = *e } }
                for (f, e) in &l { let (p, q) = (x.den.get(f).cloned().unwrap_or(0), y.den.get(f).cloned().unwrap_or(0)); if *e > p { mx.insert(*f, e - p); } if *e > q { my.insert(*f, e - q); } }
                let (px, py) = (self.fprod(&mx)?, self.fprod(&my)?);
                let num = padd(&pmul(&x.num, &px)?, &pmul(&y.num, &py)?, &if sub { -Rat::one() } else { Rat::one() });
                if num.len() > POLY_TERMS { return None }
                let mut vs = vec![];
                let lhs = format!("({} (* {} {}) (* {} {}))", if sub { "-" } else { "+" }, self.ptext(&x.num, &mut vs), self.ptext(&px, &mut vs), self.ptext(&y.num, &mut vs), self.ptext(&py, &mut vs));
                self.reduce(num, l, lhs, vs)
            }
            Node::Mul(a, b) => {
                let (x, y) = (self.frac(a)?, self.frac(b)?);
                let (mut p, mut q, mut den) = (x.num.clone(), y.num.clone(), x.den.clone());
                for (f, e) in &y.den { *den.entry(*f).or_insert(0) += e }
                // cancel across before multiplying out
                let mut vs = vec![];
                let mut lhs = format!("(* {} {})", self.ptext(&p, &mut vs), self.ptext(&q, &mut vs));
                let ks: Vec<usize> = den.keys().cloned().collect();
                let mut gone = vec![];
                for f in ks {
                    while den[&f] > 0 { match pdiv(&p, &self.factors[f]) { Some(t) if !p.is_empty() => { p = t; *den.get_mut(&f).unwrap() -= 1; gone.push(f) } _ => break } }
                    while den[&f] > 0 { match pdiv(&q, &self.factors[f]) { Some(t) if !q.is_empty() => { q = t; *den.get_mut(&f).unwrap() -= 1; gone.push(f) } _ => break } }
                    if den[&f] == 0 { den.remove(&f); }
                }
                if !gone.is_empty() {
                    let mut rhs = format!("(* {} {})", self.ptext(&p, &mut vs), self.ptext(&q, &mut vs));
                    for f in gone { let t = self.factors[f].clone(); rhs = format!("(* {} {})", rhs, self.ptext(&t, &mut vs)) }
                    let l = std::mem::replace(&mut lhs, String::new());
                    self.lemma(vs.clone(), l, rhs);
                    lhs = format!("(* {} {})", self.ptext(&p, &mut vs), self.ptext(&q, &mut vs));
                }
                let num = pmul(&p, &q)?;
                self.reduce(num, den, lhs, vs)
            }
            Node::Div(a, b) => {
                let (x, y) = (self.frac(a)?, self.frac(b)?);
                let (c, fs, _) = self.factorise(&y.num, true);
                if c.is_zero() { return None }
                let up = self.fprod(&y.den)?;
                let mut den = x.den.clone();
                for (f, e) in fs { *den.entry(f).or_insert(0) += e }
                let k = Rat::one() / c;
                let num = pscale(&pmul(&x.num, &up)?, &k);
                let mut vs = vec![];
                let lhs = format!("(* {} {} {})", rtext2(&k), self.ptext(&x.num, &mut vs), self.ptext(&up, &mut vs));
                self.reduce(num, den, lhs, vs)
            }
            _ => None,
        }
    }
    fn pnode(&mut self, p: &Poly) -> u32 {
        let mut acc: Option<u32> = None;
        for (m, c) in p {
            let mut t = self.konst(c);
            for (w, e) in &m.0 { let x = self.mk(Node::Var(*w), Sort::Real); for _ in 0..*e { t = if self.as_const(t) == Some(Rat::one()) { x } else { self.mul(t, x) } } }
            acc = Some(match acc { None => t, Some(a) => self.add(a, t) });
        }
        acc.unwrap_or_else(|| self.konst(&Rat::zero()))
    }
    /// a/b where the path condition already implies b != 0.
    fn quotient(&mut self, a: u32, b: u32) -> u32 {
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) { let r = x / y; return self.konst(&r) }
        self.known_nonzero(b);
        self.mk(Node::Div(a, b), Sort::Real)
    }
    fn known_nonzero(&mut self, b: u32) {
        if !self.nonzero.contains(&b) {
            self.nonzero.push(b);
            if self.rational { if let Some(f) = self.frac(b) { self.factorise(&f.num.clone(), true); } }
        }
    }
    /// Adds a condition to the path. In rational mode an equality that is
    /// linear in a variable with a non-zero coefficient eliminates it.
    fn assume_raw(&mut self, b: u32) {
        if self.rational {
            let (eq, pos) = match *self.node(b) { Node::Eq(x, y) => (Some((x, y)), true), Node::Not(n) => (if let Node::Eq(x, y) = *self.node(n) { Some((x, y)) } else { None }, false), _ => (None, true) };
            if let Some((x, y)) = eq { if self.sort(x) == Sort::Real {
                let d = if self.as_const(y).map_or(false, |c| c.is_zero()) { x } else { self.sub(x, y) };
                if !pos { self.path.push(b); self.known_nonzero(d); return }
                if let Some(f) = self.frac(d) {
                    if let Some((v, node)) = self.solve_for(&f.num) {
                        self.vars[v as usize].def = Some(node);
                        self.known.clear(); self.frac_memo.clear(); self.factors.clear();
                        for n in self.nonzero.clone() { if let Some(f) = self.frac(n) { self.factorise(&f.num.clone(), true); } }
                        return;
                    }
                }
            } }
        }
        if !self.path.contains(&b) { self.path.push(b) }
    }
    fn solve_for(&mut self, p: &Poly) -> Option<(u32, u32)> {
        let mut cand: BTreeMap<u32, (u32, usize)> = BTreeMap::new();
        for m in p.keys() { for (v, e) in &m.0 { let c = cand.entry(*v).or_insert((0, 0)); if c.0 < *e { c.0 = *e } c.1 += 1 } }
        let mut vs: Vec<(usize, u32)> = cand.into_iter().filter(|(_, c)| c.0 == 1).map(|(v, c)| (c.1, v)).collect();
        vs.sort();
        for (_, v) in vs {
            let one = Mono(vec![(v, 1)]);
            let (mut a, mut b) = (Poly::new(), Poly::new());
            for (m, c) in p { match m.over(&one) { Some(t) => { a.insert(t, c.clone()); } None => { b.insert(m.clone(), -c.clone()); } } }
            let (c, _, left) = self.factorise(&a, false);
            if left.is_none() && !c.is_zero() {
                let (nb, na) = (self.pnode(&b), self.pnode(&a));
                let d = if is_pconst(&a).is_some() { let k = self.konst(&(Rat::one() / c)); self.mul(nb, k) } else { self.mk(Node::Div(nb, na), Sort::Real) };
                return Some((v, d));
            }
        }
        None
    }
    /// Text of `a = b` through the rational view: some factor of the numerator vanishes.
    fn eq_text(&mut self, a: u32, b: u32) -> Option<(String, Vec<u32>)> {
        let d = if self.as_const(b).map_or(false, |c| c.is_zero()) { a } else { self.sub(a, b) };
        let f = self.frac(d)?;
        let mut vs = vec![];
        if let Some(c) = is_pconst(&f.num) { return Some((format!("(= {} 0.0)", rtext2(&c)), vs)) }
        let (_, fs, left) = self.factorise(&f.num.clone(), false);
        let mut alts: Vec<Poly> = fs.keys().map(|k| self.factors[*k].clone()).collect();
        alts.extend(left);
        let t = alts.iter().map(|p| format!("(= {} 0.0)", self.ptext(p, &mut vs))).collect::<Vec<_>>();
        Some((if t.len() == 1 { t[0].clone() } else { format!("(or {})", t.join(" ")) }, vs))
    }

    // ---- solver ----
    fn emit(&mut self, roots: &[u32], out: &mut String) -> HashSet<u32> {
        let mut seen: HashSet<u32> = HashSet::new();
        let mut used: HashSet<u32> = HashSet::new();
        for r in roots { self.emit1(*r, &mut seen, &mut used, out) }
        used
    }
    fn sname(s: Sort) -> &'static str { match s { Sort::Real => "Real", Sort::Int => "Int", Sort::E => "E", Sort::Bool => "Bool" } }
    fn emit1(&mut self, i: u32, seen: &mut HashSet<u32>, used: &mut HashSet<u32>, out: &mut String) {
        if !seen.insert(i) { return }
        let n = self.node(i).clone();
        if let (true, Node::Eq(a, b)) = (self.rational, &n) {
            if self.sort(*a) == Sort::Real {
                if let Some((t, vs)) = self.eq_text(*a, *b) {
                    for v in vs { let n = self.mk(Node::Var(v), Sort::Real); self.emit1(n, seen, used, out) }
                    writeln!(out, "(define-fun n{} () Bool {})", i, t).unwrap();
                    return;
                }
            }
        }
        let body = match &n {
            Node::Var(v) => {
                match self.vars[*v as usize].def {
                    Some(d) => { self.emit1(d, seen, used, out); format!("n{}", d) }
                    None => { let vi = &self.vars[*v as usize]; used.insert(*v); writeln!(out, "(declare-const |{}| {})", vi.name, Self::sname(vi.sort)).unwrap(); format!("|{}|", vi.name) }
                }
            }
            Node::Const(a, d) => {
                let s = if a.is_negative() { format!("(- {}.0)", -a) } else { format!("{}.0", a) };
                if d.is_one() { s } else { format!("(/ {} {}.0)", s, d) }
            }
            Node::IConst(k) => if *k < 0 { format!("(- {})", -k) } else { k.to_string() },
            Node::True => "true".into(),
            Node::False => "false".into(),
            Node::F64(_) => "0.0".into(),
            Node::Add(a, b) | Node::Sub(a, b) | Node::Mul(a, b) | Node::Div(a, b) | Node::Eq(a, b) | Node::Lt(a, b) => {
                self.emit1(*a, seen, used, out); self.emit1(*b, seen, used, out);
                let op = match n { Node::Add(..) => "+", Node::Sub(..) => "-", Node::Mul(..) => "*", Node::Div(..) => "/", Node::Eq(..) => "=", _ => "<" };
                format!("({} n{} n{})", op, a, b)
            }
            Node::Neg(a) => { self.emit1(*a, seen, used, out); format!("(- n{})", a) }
            Node::Not(a) => { self.emit1(*a, seen, used, out); format!("(not n{})", a) }
            Node::And(v) => { for a in v { self.emit1(*a, seen, used, out) } format!("(and true{})", v.iter().map(|a| format!(" n{}", a)).collect::<String>()) }
            Node::App(f, v, _) => {
                for a in v { self.emit1(*a, seen, used, out) }
                if v.is_empty() { f.to_string() } else { format!("({}{})", f, v.iter().map(|a| format!(" n{}", a)).collect::<String>()) }
            }
        };
        writeln!(out, "(define-fun n{} () {} {})", i, Self::sname(self.sort(i)), body).unwrap();
    }
    fn header(&self) -> String {
        let mut s = "(declare-sort E 0)\n".to_string();
        let mut fs: Vec<_> = self.funs.iter().collect();
        fs.sort();
        for (f, (a, r)) in fs {
            writeln!(s, "(declare-fun {} ({}) {})", f, a.iter().map(|x| Self::sname(*x)).collect::<Vec<_>>().join(" "), Self::sname(*r)).unwrap();
        }
        s
    }
    /// Variables below a node (through definitions); function symbols count as variables.
    fn vars_of(&mut self, i: u32) -> HashSet<i64> {
        let mut out = HashSet::new();
        let mut seen = HashSet::new();
        let mut st = vec![i];
        while let Some(i) = st.pop() {
            if !seen.insert(i) { continue }
            match self.node(i) {
                Node::Var(v) => match self.vars[*v as usize].def { Some(d) => st.push(d), None => { out.insert(*v as i64); } },
                Node::Add(a, b) | Node::Sub(a, b) | Node::Mul(a, b) | Node::Div(a, b) | Node::Eq(a, b) | Node::Lt(a, b) => { st.push(*a); st.push(*b) }
                Node::Neg(a) | Node::Not(a) => st.push(*a),
                Node::And(v) => st.extend(v.iter().cloned()),
                Node::App(f, v, _) => { out.insert(-1 - (f.as_ptr() as i64)); st.extend(v.iter().cloned()) }
                _ => {}
            }
        }
        out
    }
    /// Path conditions connected to `roots`; the others cannot matter, the path being feasible.
    fn slice(&mut self, roots: &[u32]) -> Vec<u32> {
        let mut vs: HashSet<i64> = HashSet::new();
        for r in roots { vs.extend(self.vars_of(*r)) }
        let mut rest: Vec<(u32, HashSet<i64>)> = self.path.clone().into_iter().map(|p| { let v = self.vars_of(p); (p, v) }).collect();
        let mut keep = HashSet::new();
        loop {
            let mut again = false;
            rest.retain(|(p, v)| { if v.is_empty() || v.iter().any(|x| vs.contains(x)) { vs.extend(v.iter().cloned()); keep.insert(*p); again = true; false } else { true } });
            if !again { break }
        }
        self.path.iter().cloned().filter(|p| keep.contains(p)).collect()
    }
    /// Is path and every formula in `extra` (and one of `disj`) satisfiable?
    fn check(&mut self, extra: &[u32], disj: &[u32]) -> Ans {
        let mut roots: Vec<u32> = extra.iter().chain(disj).cloned().collect();
        let path = if roots.is_empty() { self.path.clone() } else { self.slice(&roots) };
        roots.extend(path.iter());
        let mut t = String::new();
        let used = self.emit(&roots, &mut t);
        for a in path.iter().chain(extra) { writeln!(t, "(assert n{})", a).unwrap() }
        if !disj.is_empty() { writeln!(t, "(assert (or{}))", disj.iter().map(|d| format!(" n{}", d)).collect::<String>()).unwrap() }
        let real = used.iter().any(|v| self.vars[*v as usize].sort == Sort::Real);
        let pure = !t.contains("|| ") && used.iter().all(|v| self.vars[*v as usize].sort == Sort::Real) && !t.contains(" Int ") && !t.contains(") E") && !t.contains(" () E ");
        let mut plan: Vec<(&str, &str, u32)> = vec![("", "(check-sat)", self.timeout_ms)];
        if real {
            let som = "(check-sat-using (then (using-params simplify :som true :som_blowup 1000000) qfnra-nlsat))";
            plan = vec![("(set-option :smt.arith.solver 2)\n", "(check-sat)", 700)];
            if pure { plan.push(("", som, 3000)) }
            plan.push(("", "(check-sat)", 3000));
            if pure { plan.push(("", "(check-sat-using qfnra-nlsat)", 8000)); plan.push(("", som, 25000)) }
            plan.push(("(set-option :smt.arith.solver 2)\n", "(check-sat)", 15000));
        }
        let h = self.header();
        let mut last = Ans::Unknown;
        for (opt, cmd, ms) in plan {
            last = self.raw(&format!("{}(set-option :timeout {})\n{}{}{}\n", opt, ms, h, t, cmd)).0;
            if last != Ans::Unknown { return last }
        }
        last
    }
    fn raw(&mut self, t: &str) -> (Ans, Vec<String>) {
        let t0 = Instant::now();
        if self.solver.is_none() { self.solver = Some(Solver::new()) }
        let lines = self.solver.as_mut().unwrap().ask(t);
        self.stats.queries += 1;
        self.stats.solver_ms += t0.elapsed().as_secs_f64() * 1000.0;
        if std::env::var("SYMX_DUMP").is_ok() { eprintln!("{}\n; -> {:?} in {:?}", t, lines, t0.elapsed()) }
        if lines.iter().any(|l| l.contains("dead")) { self.solver = None; return (Ans::Unknown, lines) }
        let a = match lines.first().map(|s| s.as_str()) { Some("sat") => Ans::Sat, Some("unsat") => Ans::Unsat, _ => Ans::Unknown };
        if a != Ans::Sat && lines.iter().any(|l| l.contains("error")) { eprintln!("solver: {:?}", lines); return (Ans::Unknown, lines) }
        (a, lines)
    }
    pub fn show(&self, i: u32) -> String { self.show_in(i, &HashMap::new()) }
    fn show_in(&self, i: u32, cls: &HashMap<u32, String>) -> String {
        if let Some(v) = cls.get(&i) { return v.clone() }
        match self.node(i) {
            Node::Var(v) => self.vars[*v as usize].name.clone(),
            Node::App(f, v, _) => format!("{}({})", f, v.iter().map(|a| self.show_in(*a, cls)).collect::<Vec<_>>().join(",")),
            Node::Const(a, d) => format!("{}/{}", a, d),
            Node::IConst(k) => k.to_string(),
            Node::Add(a, b) => format!("({}+{})", self.show_in(*a, cls), self.show_in(*b, cls)),
            Node::Sub(a, b) => format!("({}-{})", self.show_in(*a, cls), self.show_in(*b, cls)),
            Node::Div(a, b) => format!("({}/{})", self.show_in(*a, cls), self.show_in(*b, cls)),
            Node::Mul(a, b) => format!("({}*{})", self.show_in(*a, cls), self.show_in(*b, cls)),
            n => format!("{:?}", n),
        }
    }
    /// Values of all inputs in a model of path + extra (+ one of disj).
    fn model(&mut self, extra: &[u32], disj: &[u32]) -> Option<Vec<(String, String)>> {
        let mut t = format!("(set-option :timeout 6000)\n{}", self.header());
        let mut roots: Vec<u32> = self.path.iter().chain(extra).chain(disj).cloned().collect();
        // every input and every predicate application met so far
        let mut ins: Vec<u32> = vec![];
        for i in 0..self.nodes.len() as u32 {
            match self.node(i) {
                Node::Var(v) if self.vars[*v as usize].input && !self.vars[*v as usize].name.starts_with("t!") => ins.push(i),
                Node::App(_, _, Sort::Bool) | Node::App(_, _, Sort::E) => ins.push(i),
                _ => {}
            }
        }
        roots.extend(&ins);
        let used = self.emit(&roots, &mut t);
        for a in self.path.iter().chain(extra) { writeln!(t, "(assert n{})", a).unwrap() }
        if !disj.is_empty() { writeln!(t, "(assert (or{}))", disj.iter().map(|d| format!(" n{}", d)).collect::<String>()).unwrap() }
        let mut ints = String::new();
        for v in &used { let vi = &self.vars[*v as usize]; if vi.sort == Sort::Real { writeln!(ints, "(assert (and (<= (- 4.0) |{0}|) (<= |{0}| 4.0)))", vi.name).unwrap() } }
        let mut strict = ints.clone();
        for v in &used { let vi = &self.vars[*v as usize]; if vi.sort == Sort::Real { writeln!(strict, "(assert (is_int |{}|))", vi.name).unwrap() } }
        let get = format!("(get-value ({}))\n", ins.iter().map(|i| format!("n{} ", i)).collect::<String>());
        // nonlinear conditions may need another procedure than the default one
        let mut plan: Vec<(&str, &str)> = vec![("", "(check-sat)")];
        if used.iter().any(|v| self.vars[*v as usize].sort == Sort::Real) {
            plan.push(("(set-option :smt.arith.solver 2)\n", "(check-sat)"));
            plan.push(("", "(check-sat-using qfnra-nlsat)"));
            plan.push(("", "(check-sat-using (then simplify solve-eqs qfnra-nlsat))"));
        }
        let tries: Vec<(String, (&str, &str))> = plan.iter().take(1).flat_map(|p| [&strict, &ints].into_iter().map(move |x| (x.clone(), *p)))
            .chain(plan.iter().map(|p| (String::new(), *p))).chain(plan.iter().skip(1).map(|p| (ints.clone(), *p))).collect();
        for (pre, (opt, cmd)) in &tries {
            let (a, lines) = self.raw(&format!("(set-option :pp.decimal false)\n{}{}{}{}\n{}", opt, t, pre, cmd, if ins.is_empty() { "" } else { &get }));
            if a == Ans::Sat {
                let txt = lines[1..].join(" ");
                let vals = parse_values(&txt);
                let mut out = vec![];
                let mut cls: HashMap<u32, String> = HashMap::new();
                let mut ok = true;
                for i in &ins {
                    match vals.get(&format!("n{}", i)) {
                        Some(v) if !v.contains("root-obj") => {
                            if self.sort(*i) == Sort::E { cls.insert(*i, v.clone()); }
                            out.push((*i, v.clone()))
                        }
                        _ => ok = false,
                    }
                }
                let out: Vec<(String, String)> = out.into_iter().map(|(i, v)| {
                    // predicate arguments are named by their class in the model
                    (match self.node(i) {
                        Node::App(f, a, _) => format!("{}({})", f, a.iter().map(|a| self.show_in(*a, &cls)).collect::<Vec<_>>().join(",")),
                        _ => self.show(i),
                    }, v)
                }).collect();
                if ok { return Some(out) }
            }
        }
        None
    }
}

fn parse_values(t: &str) -> HashMap<String, String> {
    // ((n1 v1) (n2 v2) ...)
    let mut out = HashMap::new();
    let b: Vec<char> = t.chars().collect();
    let mut depth = 0; let mut cur = String::new();
    for c in b {
        if c == '(' { depth += 1; if depth == 2 { cur.clear(); continue } }
        if c == ')' { depth -= 1; if depth == 1 {
            let s = cur.trim();
            if let Some(k) = s.find(' ') { out.insert(s[..k].to_string(), s[k + 1..].trim().to_string()); }
            continue
        } }
        if depth >= 2 { cur.push(c) }
    }
    out
}
pub fn parse_rat(s: &str) -> Rat {
    let s = s.trim();
    if let Some(t) = s.strip_prefix("(-") { return -parse_rat(&t[..t.len() - 1]) }
    if let Some(t) = s.strip_prefix("(/") {
        let t = t[..t.len() - 1].trim();
        // two operands, the first possibly parenthesised
        let mut d = 0; let mut cut = t.len();
        for (i, c) in t.char_indices() { if c == '(' { d += 1 } if c == ')' { d -= 1 } if c == ' ' && d == 0 { cut = i; break } }
        return parse_rat(&t[..cut]) / parse_rat(&t[cut..]);
    }
    if let Some(k) = s.find('/') { return parse_rat(&s[..k]) / parse_rat(&s[k + 1..]) }
    let s = s.trim_end_matches('?');
    if let Some(k) = s.find('.') {
        let (a, f) = (&s[..k], &s[k + 1..]);
        let digits: BigInt = format!("{}{}", a, f).parse().unwrap_or_else(|_| BigInt::zero());
        let mut den = BigInt::one();
        for _ in 0..f.len() { den = den * BigInt::from(10) }
        return Ratio::new(digits, den);
    }
    Ratio::from_integer(s.parse().unwrap_or_else(|_| BigInt::zero()))
}

// ---- operations used by element types and harnesses ----

/// Decides a symbolic condition, forking when both outcomes are possible.
pub fn branch(b: u32) -> bool {
    with(|c| {
        match c.node(b) { Node::True => return true, Node::False => return false, _ => {} }
        if c.mode == Mode::Conc { panic!("symx: undecided condition in replay: {}", c.show(b)) }
        if let Some(&k) = c.known.get(&b) { return k }
        c.stats.branches += 1;
        let n = c.not(b);
        let d = if c.trace.len() < c.forced.len() {
            c.forced[c.trace.len()]
        } else {
            let t = c.check(&[b], &[]) != Ans::Unsat;
            let f = if t { c.check(&[n], &[]) != Ans::Unsat } else { true };
            if t && f {
                let mut alt = c.trace.clone();
                alt.push(false);
                c.alts.push(alt);
            }
            t
        };
        c.trace.push(d);
        c.assume_raw(if d { b } else { n });
        c.known.insert(b, d);
        d
    })
}
/// Restricts the inputs. Must come before the code it constrains.
pub fn assume(b: u32) {
    let done = with(|c| match c.node(b) { Node::True => true, Node::False => { if c.mode == Mode::Conc { eprintln!("REPLAY-ASSUME-FALSE"); } false } _ => { c.path.push(b); true } });
    if !done { std::panic::panic_any(Stop("assume")) }
}
/// The property assertion.
pub fn prove(b: u32, msg: &'static str) {
    with(|c| match c.mode {
        Mode::Conc => if *c.node(b) != Node::True && c.failed.is_none() { c.failed = Some(msg.to_string()) },
        Mode::Sym => c.obls.push((b, msg)),
    })
}
pub fn prove_eq(a: u32, b: u32, msg: &'static str) { let e = with(|c| c.eq(a, b)); prove(e, msg) }
/// An assertion about the concrete skeleton of this path.
pub fn must(b: bool, msg: &'static str) { let n = with(|c| c.boolean(b)); prove(n, msg) }
pub fn div(a: u32, b: u32) -> u32 {
    if with(|c| c.isf(a) || c.isf(b)) { return with(|c| { let r = c.as_f64(a).unwrap() / c.as_f64(b).unwrap(); c.fl(r) }) }
    let z = with(|c| { let z = c.konst(&Rat::zero()); c.eq(b, z) });
    if branch(z) { panic!("division by zero") }
    with(|c| c.quotient(a, b))
}
fn isqrt(n: &BigInt) -> Option<BigInt> {
    if n.is_negative() { return None }
    if n.is_zero() { return Some(n.clone()) }
    let two = BigInt::from(2);
    let mut x = BigInt::one();
    while &(&x * &x) < n { x = &x * &two }
    loop {
        let y = (&x + n / &x) / &two;
        if y >= x { break }
        x = y;
    }
    if &(&x * &x) == n { Some(x) } else { None }
}
fn rsqrt(r: &Rat) -> Option<Rat> { Some(Ratio::new(isqrt(r.numer())?, isqrt(r.denom())?)) }
pub fn sqrt(a: u32) -> u32 {
    // concretely: exact where the root is rational, a double otherwise
    if let Some(r) = with(|c| if c.mode == Mode::Conc { c.as_const(a).and_then(|r| rsqrt(&r)) } else { None }) { return with(|c| c.konst(&r)) }
    if with(|c| c.isf(a) || (c.mode == Mode::Conc)) { return with(|c| { let r = c.as_f64(a).unwrap().sqrt(); c.fl(r) }) }
    let neg = with(|c| { let z = c.konst(&Rat::zero()); c.lt(a, z) });
    if branch(neg) { panic!("square root of a negative number") }
    with(|c| {
        let s = c.fresh(Sort::Real);
        let ss = c.mul(s, s);
        let e = c.mk(Node::Eq(ss, a), Sort::Bool);
        let z = c.konst(&Rat::zero());
        let ge = { let l = c.lt(s, z); c.not(l) };
        c.path.push(e); c.path.push(ge);
        s
    })
}

/// From here on values are kept as normalised rational functions.
pub fn rational() { with(|c| c.rational = c.mode == Mode::Sym) }

fn discharge() -> Option<Outcome> {
    let r = discharge1();
    // the normalisation steps this path relied on
    with(|c| {
        let ls = std::mem::take(&mut c.lemmas);
        let mut uniq: Vec<(Vec<u32>, String)> = vec![];
        let mut seen = HashSet::new();
        for (v, t) in ls { if !c.proved.contains(&t) && seen.insert(t.clone()) { uniq.push((v, t)) } }
        for ch in uniq.chunks(60) {
            let mut vs: Vec<u32> = ch.iter().flat_map(|x| x.0.iter().cloned()).collect();
            vs.sort(); vs.dedup();
            let mut t = String::new();
            for v in vs { writeln!(t, "(declare-const |{}| Real)", c.vars[v as usize].name).unwrap() }
            writeln!(t, "(assert (or{}))", ch.iter().map(|x| format!(" (not {})", x.1)).collect::<String>()).unwrap();
            let som = "(check-sat-using (then (using-params simplify :som true :som_blowup 1000000) qfnra-nlsat))";
            c.stats.lemmas += ch.len() as u64;
            if c.raw(&format!("(set-option :timeout 60000)\n{}{}\n", t, som)).0 != Ans::Unsat {
                return Some(Outcome { msg: "normalisation step not confirmed by the solver".into(), values: vec![], how: "unknown" });
            }
            for x in ch { c.proved.insert(x.1.clone()); }
        }
        None
    }).or(r)
}
fn discharge1() -> Option<Outcome> {
    with(|c| {
        let obls = std::mem::take(&mut c.obls);
        c.stats.obligations += obls.len() as u64;
        let mut neg: Vec<(u32, u32, &'static str)> = vec![];
        let mut seen = HashSet::new();
        for (b, m) in obls { let n = match c.node(b) { Node::True => continue, _ => c.not(b) }; if seen.insert(n) { neg.push((n, b, m)) } }
        if neg.is_empty() { return None }
        // in chunks: one query each
        for ch in neg.chunks(200) {
            let ds: Vec<u32> = ch.iter().map(|x| x.0).collect();
            match c.check(&[], &ds) {
                Ans::Unsat => continue,
                _ => {}
            }
            for (n, _, m) in ch {
                match c.check(&[*n], &[]) {
                    Ans::Unsat => {}
                    Ans::Sat => {
                        let vals = c.model(&[*n], &[]).unwrap_or_default();
                        return Some(Outcome { msg: m.to_string(), values: vals, how: "assertion" });
                    }
                    Ans::Unknown => { c.stats.unknown += 1; return Some(Outcome { msg: m.to_string(), values: vec![], how: "unknown" }) }
                }
            }
        }
        None
    })
}

pub struct Report { pub stats: Stats, pub violation: Option<Outcome>, pub error: Option<String> }

/// Explores every path of `h`.
pub fn explore(h: &dyn Fn(), max_paths: u64, deadline: Instant) -> Report {
    with(|c| { c.mode = Mode::Sym; c.alts = vec![vec![]]; c.stats = Stats::default(); c.funs.clear(); });
    let mut done = 0u64;
    let mut proved_paths = 0u64;
    loop {
        let next = with(|c| c.alts.pop());
        let pre = match next { Some(p) => p, None => break };
        if done >= max_paths { return rep(None, Some(format!("more than {} paths", max_paths))) }
        if Instant::now() > deadline { return rep(None, Some("time limit".into())) }
        with(|c| { c.reset_path(); c.forced = pre; });
        done += 1;
        let r = catch_unwind(AssertUnwindSafe(|| h()));
        with(|c| c.stats.paths += 1);
        match r {
            Ok(()) => {
                if let Some(o) = discharge() {
                    if o.how == "unknown" { return rep(None, Some(format!("solver undecided: {}", o.msg))) }
                    return rep(Some(o), None);
                }
                proved_paths += 1;
            }
            Err(p) => {
                if p.downcast_ref::<Stop>().is_some() { continue }
                let msg = panic_text(&p);
                if msg.starts_with("symx:") { return rep(None, Some(msg)) }
                // the path condition is the counterexample
                let sat = with(|c| c.check(&[], &[]));
                match sat {
                    Ans::Unsat => continue,
                    Ans::Unknown => return rep(None, Some(format!("solver undecided on a panicking path: {}", msg))),
                    Ans::Sat => {
                        let vals = with(|c| c.model(&[], &[])).unwrap_or_default();
                        return rep(Some(Outcome { msg: format!("panicked: {}", msg), values: vals, how: "panic" }), None);
                    }
                }
            }
        }
    }
    if proved_paths == 0 { return rep(None, Some("vacuous: no path reached the end".into())) }
    // vacuity witness: the last completed path's condition is satisfiable
    rep(None, None)
}
fn rep(v: Option<Outcome>, e: Option<String>) -> Report { Report { stats: with(|c| c.stats.clone()), violation: v, error: e } }

pub fn panic_text(p: &Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into())
}

/// Runs `h` on concrete values. Some(text) when the property is broken.
pub fn replay(h: &dyn Fn(), vals: &[(String, String)]) -> Option<String> {
    with(|c| { c.reset_path(); c.funs.clear(); c.mode = Mode::Conc; c.conc = vals.iter().cloned().collect(); });
    let r = catch_unwind(AssertUnwindSafe(|| h()));
    match r {
        Err(p) => { if p.downcast_ref::<Stop>().is_some() { None } else { Some(format!("panicked: {}", panic_text(&p))) } }
        Ok(()) => with(|c| c.failed.clone()),
    }
}
/// True when `f` panics (with a panic that is not the engine's own).
pub fn panics<R>(f: impl FnOnce() -> R) -> bool {
    match catch_unwind(AssertUnwindSafe(|| { f(); })) {
        Ok(()) => false,
        Err(p) => { if p.downcast_ref::<Stop>().is_some() { std::panic::resume_unwind(p) } if panic_text(&p).starts_with("symx:") { std::panic::resume_unwind(p) } true }
    }
}
/// Case split: true on exactly one path per distinct `k` (and false for all on one
/// more). A split taken inside a case has a variable of its own.
pub fn choose(k: usize) -> bool {
    let b = with(|c| { let n = format!("choice{}", c.depth); let v = c.var(&n, Sort::Int); let k = c.mk(Node::IConst(k as i64), Sort::Int); c.eq(v, k) });
    let t = branch(b);
    if t { with(|c| c.depth += 1) }
    t
}
