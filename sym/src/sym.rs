//! A symbolic coefficient type. The real generic code of the repository is instantiated with it and run;
//! arithmetic builds terms, comparisons split the path, and z3 decides feasibility and obligations.
use rustyalgebra::coefficients::*;
use std::borrow::Borrow;
use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Node { C(i128, i128), V(u32), Add(u32, u32), Neg(u32), Mul(u32, u32), Inv(u32) }

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Atom {
    EqS(u32, u32), // two terms are equal
    EqK(u32, u32), // two keys are equal
}

#[derive(Clone, Default, Debug)]
pub struct Region { pub atoms: Vec<(Atom, bool)>, pub choices: HashMap<u32, usize> }

#[derive(Clone, Default, Debug)]
pub struct Model { pub vars: Vec<(i128, i128)>, pub keys: Vec<i128>, pub choices: Vec<usize> }

pub struct Failure { pub what: String, pub model: Option<Model> }

#[derive(Default)]
pub struct Stats { pub paths: u64, pub obligations: u64, pub queries: u64, pub solver_s: f64, pub undecided: u64 }

struct Z3 { _p: Child, i: ChildStdin, o: BufReader<ChildStdout>, sent: usize }

impl Z3 {
    fn new() -> Z3 {
        let mut p = Command::new("z3").args(["-in", "-smt2"]).stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().expect("z3");
        let i = p.stdin.take().unwrap();
        let o = BufReader::new(p.stdout.take().unwrap());
        let mut z = Z3 { _p: p, i, o, sent: 0 };
        z.send("(set-option :produce-models true)\n(set-option :timeout 30000)\n");
        z
    }
    fn send(&mut self, s: &str) { self.i.write_all(s.as_bytes()).unwrap(); }
    /// One answer, a balanced S-expression or an atom.
    fn answer(&mut self) -> String {
        self.i.flush().unwrap();
        let mut out = String::new();
        let mut depth = 0i32;
        loop {
            let mut l = String::new();
            if self.o.read_line(&mut l).unwrap() == 0 { panic!("SOLVER: z3 ended") }
            for c in l.chars() { if c == '(' { depth += 1 } else if c == ')' { depth -= 1 } }
            out.push_str(&l);
            if depth <= 0 && !out.trim().is_empty() { return out.trim().to_string(); }
        }
    }
}

pub struct Cx {
    nodes: Vec<Node>,
    index: HashMap<Node, u32>,
    z3: Option<Z3>,
    // the current path
    nvars: u32,
    nkeys: u32,
    nchoices: u32,
    region: Region,
    known: HashMap<Atom, bool>,
    nonzero: Vec<u32>,
    invs: Vec<u32>,
    obligations: Vec<(u32, u32, String)>,
    maxvars: u32,
    maxkeys: u32,
    // exploration
    work: Vec<Region>,
    pub stats: Stats,
    // replay
    model: Option<Model>,
    quiet: bool,
    pub sample: String,
}

thread_local!(static CX: RefCell<Cx> = RefCell::new(Cx {
    nodes: vec![Node::C(0, 1), Node::C(1, 1), Node::C(-1, 1)],
    index: [(Node::C(0, 1), 0), (Node::C(1, 1), 1), (Node::C(-1, 1), 2)].into_iter().collect(),
    z3: None, nvars: 0, nkeys: 0, nchoices: 0, region: Region::default(), known: HashMap::new(), nonzero: vec![], invs: vec![],
    obligations: vec![], maxvars: 0, maxkeys: 0, work: vec![], stats: Stats::default(), model: None, quiet: false, sample: String::new(),
}));

fn cx<R>(f: impl FnOnce(&mut Cx) -> R) -> R { CX.with(|c| f(&mut c.borrow_mut())) }

fn gcd(a: i128, b: i128) -> i128 { if b == 0 { a.abs() } else { gcd(b, a % b) } }
fn ov<T>(x: Option<T>) -> T { match x { Some(v) => v, None => { eprintln!("REPLAY-OVERFLOW"); std::process::exit(79) } } }
fn norm(n: i128, d: i128) -> Node { let g = gcd(n, d).max(1); let s = if d < 0 { -1 } else { 1 }; Node::C(s * n / g, s * d / g) }

impl Cx {
    fn mk(&mut self, n: Node) -> u32 {
        if let Some(&i) = self.index.get(&n) { return i; }
        let i = self.nodes.len() as u32;
        self.nodes.push(n);
        self.index.insert(n, i);
        i
    }
    fn add(&mut self, a: u32, b: u32) -> u32 {
        let n = match (self.nodes[a as usize], self.nodes[b as usize]) {
            (Node::C(p, q), Node::C(r, s)) => norm(ov(ov(p.checked_mul(s)).checked_add(ov(r.checked_mul(q)))), ov(q.checked_mul(s))),
            _ => Node::Add(a, b),
        };
        self.mk(n)
    }
    fn mul(&mut self, a: u32, b: u32) -> u32 {
        let n = match (self.nodes[a as usize], self.nodes[b as usize]) {
            (Node::C(p, q), Node::C(r, s)) => norm(ov(p.checked_mul(r)), ov(q.checked_mul(s))),
            _ => Node::Mul(a, b),
        };
        self.mk(n)
    }
    fn neg(&mut self, a: u32) -> u32 {
        let n = match self.nodes[a as usize] { Node::C(p, q) => Node::C(-p, q), _ => Node::Neg(a) };
        self.mk(n)
    }
    fn smt(&self, n: Node) -> String {
        match n {
            Node::C(p, q) => if p < 0 { format!("(- (/ {}.0 {}.0))", -p, q) } else { format!("(/ {}.0 {}.0)", p, q) },
            Node::V(i) => format!("v{}", i),
            Node::Add(a, b) => format!("(+ t{} t{})", a, b),
            Node::Neg(a) => format!("(- t{})", a),
            Node::Mul(a, b) => format!("(* t{} t{})", a, b),
            Node::Inv(a) => format!("i{}", a),
        }
    }
    /// Sends the terms made since the last query.
    fn flush(&mut self) {
        if self.z3.is_none() { self.z3 = Some(Z3::new()); }
        let from = self.z3.as_ref().unwrap().sent;
        let mut s = String::new();
        for i in from..self.nodes.len() {
            match self.nodes[i] {
                Node::V(v) => s += &format!("(declare-const v{} Real)\n", v),
                Node::Inv(a) => s += &format!("(declare-const i{} Real)\n", a),
                _ => {}
            }
            s += &format!("(define-fun t{} () Real {})\n", i, self.smt(self.nodes[i]));
        }
        let n = self.nodes.len();
        let mk = self.maxkeys;
        for k in mk..self.nkeys { s += &format!("(declare-const k{} Real)\n", k); }
        self.maxkeys = mk.max(self.nkeys);
        let z = self.z3.as_mut().unwrap();
        z.sent = n;
        z.send(&s);
    }
    fn atom(a: Atom) -> String {
        match a { Atom::EqS(x, y) => format!("(= t{} t{})", x, y), Atom::EqK(x, y) => format!("(= k{} k{})", x, y) }
    }
    fn pc(&self) -> String {
        let mut s = String::new();
        for &(a, b) in &self.region.atoms {
            s += &if b { format!("(assert {})\n", Self::atom(a)) } else { format!("(assert (not {}))\n", Self::atom(a)) };
        }
        for &n in &self.nonzero { s += &format!("(assert (not (= t{} 0.0)))\n", n); }
        for &i in &self.invs { s += &format!("(assert (= (* t{} i{}) 1.0))\n", i, i); }
        s
    }
    const TACTIC: &'static str = "(check-sat-using (then (using-params simplify :som true :hoist_mul false) propagate-values (using-params simplify :som true) qfnra-nlsat))\n";
    /// sat, unsat or unknown. Leaves the solver inside the push if `stay`.
    fn query(&mut self, extra: &str, stay: bool) -> String {
        self.flush();
        let pc = self.pc();
        let z = self.z3.as_mut().unwrap();
        let t = Instant::now();
        z.send("(push)\n");
        z.send(&pc);
        z.send(extra);
        z.send(Self::TACTIC);
        let r = z.answer();
        if !stay { z.send("(pop)\n"); }
        self.stats.queries += 1;
        self.stats.solver_s += t.elapsed().as_secs_f64();
        if r.contains("error") { panic!("SOLVER: {}", r); }
        r
    }
    /// Small rational values for everything on this path, satisfying the path condition and `extra`.
    fn concretise(&mut self, extra: &str) -> Option<Model> {
        let mut fixed = extra.to_string();
        if self.query(&fixed, false) != "sat" { return None; }
        let mut m = Model::default();
        for v in 0..self.nvars {
            let mut val = None;
            for (p, q) in [(2i128, 1i128), (3, 1), (1, 1), (-1, 1), (0, 1), (5, 1), (-2, 1), (7, 1), (-3, 1), (1, 2), (11, 1), (4, 1), (-5, 1), (1, 3), (6, 1), (-7, 1)] {
                // vary the first candidates from variable to variable
                let (p, q) = if q == 1 && p > 1 { (p + (v as i128 % 3), q) } else { (p, q) };
                let c = format!("{}(assert (= v{} {}))\n", fixed, v, self.smt(Node::C(p, q)));
                if self.query(&c, false) == "sat" { fixed = c; val = Some((p, q)); break; }
            }
            if val.is_none() {
                if self.query(&fixed, true) == "sat" {
                    let z = self.z3.as_mut().unwrap();
                    z.send(&format!("(get-value (v{}))\n", v));
                    let a = z.answer();
                    val = parse_value(&a);
                }
                self.z3.as_mut().unwrap().send("(pop)\n");
                let (p, q) = val?;
                fixed += &format!("(assert (= v{} {}))\n", v, self.smt(Node::C(p, q)));
            }
            m.vars.push(val.unwrap());
        }
        for k in 0..self.nkeys {
            let mut val = None;
            for c in 0..(2 * self.nkeys as i128 + 1) {
                let e = format!("{}(assert (= k{} {}.0))\n", fixed, k, c);
                if self.query(&e, false) == "sat" { fixed = e; val = Some(c); break; }
            }
            m.keys.push(val?);
        }
        for i in 0..self.nchoices { m.choices.push(*self.region.choices.get(&i).unwrap_or(&0)); }
        Some(m)
    }
    fn learn(&mut self, a: Atom, b: bool) { self.region.atoms.push((a, b)); self.known.insert(a, b); }
    fn decide(&mut self, a: Atom) -> bool {
        if let Some(&b) = self.known.get(&a) { return b; }
        let t = self.query(&format!("(assert {})\n", Self::atom(a)), false);
        if t == "unsat" { self.known.insert(a, false); return false; }
        let f = self.query(&format!("(assert (not {}))\n", Self::atom(a)), false);
        if f == "unsat" { self.known.insert(a, true); return true; }
        if t != "sat" || f != "sat" { self.stats.undecided += 1; }
        let mut other = self.region.clone();
        other.atoms.push((a, false));
        self.work.push(other);
        self.learn(a, true);
        true
    }
}

fn parse_value(s: &str) -> Option<(i128, i128)> {
    // ((v0 (- (/ 1.0 2.0))))
    let inner = s.trim().trim_start_matches('(').splitn(2, ' ').nth(1)?.trim().to_string();
    let inner = inner.strip_suffix("))")?.trim().to_string();
    fn p(s: &str) -> Option<(i128, i128)> {
        let s = s.trim();
        if let Some(r) = s.strip_prefix("(-") { let (n, d) = p(r.strip_suffix(')')?)?; return Some((-n, d)); }
        if let Some(r) = s.strip_prefix("(/") {
            let r = r.strip_suffix(')')?.trim();
            let mut it = r.split_whitespace();
            let (a, _) = p(it.next()?)?;
            let (b, _) = p(it.next()?)?;
            return Some((a, b));
        }
        let (i, f) = s.split_once('.').unwrap_or((s, "0"));
        if f.trim_end_matches('0').is_empty() { Some((i.parse().ok()?, 1)) } else { None }
    }
    p(&inner)
}

/// The coefficient. D only carries the truncation degree for the free tensor operations.
pub struct Sc<const D: u32>(pub u32);
pub type Sym = Sc<0>;

impl<const D: u32> Clone for Sc<D> { fn clone(&self) -> Self { Sc(self.0) } }
impl<const D: u32> fmt::Debug for Sc<D> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "t{}", self.0) } }
impl<const D: u32> fmt::Display for Sc<D> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "<t{}>", self.0) } }
impl<const D: u32> PartialEq for Sc<D> {
    fn eq(&self, o: &Self) -> bool {
        if self.0 == o.0 { return true; }
        cx(|c| match (c.nodes[self.0 as usize], c.nodes[o.0 as usize]) {
            (Node::C(..), Node::C(..)) => false,
            _ => c.decide(Atom::EqS(self.0.min(o.0), self.0.max(o.0))),
        })
    }
}
impl<const D: u32> From<i8> for Sc<D> { fn from(x: i8) -> Self { Sc(cx(|c| c.mk(Node::C(x as i128, 1)))) } }
impl<const D: u32> From<i16> for Sc<D> { fn from(x: i16) -> Self { Sc(cx(|c| c.mk(Node::C(x as i128, 1)))) } }
impl<const D: u32> FromDegreeType for Sc<D> { fn from_degree(d: &u32) -> Self { Sc(cx(|c| c.mk(Node::C(*d as i128, 1)))) } }
impl<const D: u32> CoefficientBase for Sc<D> {}
impl<const D: u32> Commutative for Sc<D> {}

fn inverse(r: u32) -> u32 {
    let bad = cx(|c| match c.nodes[r as usize] {
        Node::C(p, q) => if p == 0 { Err(true) } else { Ok(c.mk(norm(q, p))) },
        n => {
            let i = c.mk(Node::Inv(r));
            if !c.invs.contains(&r) {
                if !c.nonzero.contains(&r) && c.query(&format!("(assert (= {} 0.0))\n", c.smt(n)), false) != "unsat" { return Err(false); }
                c.invs.push(r);
            }
            Ok(i)
        }
    });
    match bad { Ok(i) => i, Err(_) => { cx(|c| { let _ = c.neg(r); if !c.known.contains_key(&Atom::EqS(0, r)) && r != 0 { c.learn(Atom::EqS(0, r), true); } }); panic!("division by zero") } }
}

impl<const D: u32> CoefficientField for Sc<D> {
    type RationalType = Sc<D>;
    const ZERO: Self = Sc(0);
    const ONE: Self = Sc(1);
    const MONE: Self = Sc(2);
    fn uminus(&self) -> Self { Sc(cx(|c| c.neg(self.0))) }
    fn inv(arg: impl Borrow<Self>) -> Self { Sc(inverse(arg.borrow().0)) }
    fn add(&self, o: &Self) -> Self { Sc(cx(|c| c.add(self.0, o.0))) }
    fn sub(&self, o: &Self) -> Self { Sc(cx(|c| { let n = c.neg(o.0); c.add(self.0, n) })) }
    fn mul(&self, o: &Self) -> Self { Sc(cx(|c| c.mul(self.0, o.0))) }
    fn div(&self, o: &Self) -> Self { let i = inverse(o.0); Sc(cx(|c| c.mul(self.0, i))) }
    fn add_inplace(&mut self, o: &Self) -> &mut Self { *self = self.add(o); self }
    fn sub_inplace(&mut self, o: &Self) -> &mut Self { *self = self.sub(o); self }
    fn mul_inplace(&mut self, o: &Self) -> &mut Self { *self = self.mul(o); self }
    fn div_inplace(&mut self, o: &Self) -> &mut Self { *self = self.div(o); self }
}

/// From here on keys are numbers: two of them are equal only if they are the same. Not to be mixed with the others.
const NUMBERED: u32 = 1 << 20;
pub fn numbered(i: usize) -> Key { Key(NUMBERED + i as u32) }
/// A key about which nothing is known except which keys it equals.
pub struct Key(pub u32);
impl Clone for Key { fn clone(&self) -> Self { Key(self.0) } }
impl PartialEq for Key {
    fn eq(&self, o: &Self) -> bool {
        if self.0 == o.0 { return true; }
        if self.0 >= NUMBERED && o.0 >= NUMBERED { return false; }
        cx(|c| {
            if let Some(m) = &c.model { return m.keys[self.0 as usize] == m.keys[o.0 as usize]; }
            c.decide(Atom::EqK(self.0.min(o.0), self.0.max(o.0)))
        })
    }
}
impl Eq for Key {}
impl std::hash::Hash for Key { fn hash<H: std::hash::Hasher>(&self, _h: &mut H) {} }
impl fmt::Display for Key { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "k{}", self.0) } }
impl fmt::Debug for Key { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "k{}", self.0) } }

// What scenarios use.

/// An arbitrary coefficient.
pub fn var<const D: u32>() -> Sc<D> {
    Sc(cx(|c| {
        let i = c.nvars;
        c.nvars += 1;
        let n = match &c.model { Some(m) => { let (p, q) = m.vars.get(i as usize).copied().unwrap_or((1, 1)); norm(p, q) } None => Node::V(i) };
        c.mk(n)
    }))
}
/// An arbitrary coefficient other than zero.
pub fn nonzero<const D: u32>() -> Sc<D> {
    let v = var::<D>();
    assume_nonzero(&v);
    v
}
pub fn assume_nonzero<const D: u32>(v: &Sc<D>) {
    cx(|c| if c.model.is_none() { if !c.nonzero.contains(&v.0) { c.nonzero.push(v.0) } } else if v.0 == 0 { eprintln!("REPLAY-ASSUME"); std::process::exit(77) });
}
pub fn key() -> Key { Key(cx(|c| { let i = c.nkeys; c.nkeys += 1; i })) }
pub fn vars<const D: u32>(n: usize) -> Vec<Sc<D>> { (0..n).map(|_| var()).collect() }

/// A number below n; every one is explored.
pub fn choose(n: usize) -> usize {
    cx(|c| {
        let i = c.nchoices;
        c.nchoices += 1;
        if let Some(m) = &c.model { return m.choices.get(i as usize).copied().unwrap_or(0); }
        if let Some(&v) = c.region.choices.get(&i) { return v; }
        for v in (1..n).rev() {
            let mut other = c.region.clone();
            other.choices.insert(i, v);
            c.work.push(other);
        }
        c.region.choices.insert(i, 0);
        0
    })
}

/// The two coefficients must be equal for every value.
pub fn same<const D: u32>(got: &Sc<D>, want: &Sc<D>, what: impl FnOnce() -> String) {
    cx(|c| {
        if c.model.is_some() {
            if got.0 != want.0 {
                println!("REPRODUCED: {}: got {:?}, want {:?}", what(), c.nodes[got.0 as usize], c.nodes[want.0 as usize]);
                std::process::exit(101);
            }
        } else {
            c.stats.obligations += 1;
            c.obligations.push((got.0, want.0, what()));
        }
    })
}

/// This must be true (on this path).
pub fn must(b: bool, what: impl FnOnce() -> String) {
    let replay = cx(|c| { c.stats.obligations += 1; c.model.is_some() });
    if !b {
        if replay { println!("REPRODUCED: {}", what()); std::process::exit(101); }
        panic!("MUST: {}", what());
    }
}

pub fn replaying() -> bool { cx(|c| c.model.is_some()) }

fn reset(r: Region) {
    cx(|c| {
        c.nvars = 0; c.nkeys = 0; c.nchoices = 0;
        c.known = r.atoms.iter().cloned().collect();
        c.region = r;
        c.nonzero.clear(); c.invs.clear(); c.obligations.clear();
    })
}

pub enum Verdict { Pass, Undecided(String), Violation(Failure) }

/// Explore every path of the scenario; decide the obligations of each with the solver.
pub fn explore(f: fn(), seconds: f64, trace: Option<&str>) -> (Verdict, Stats, String) {
    let t0 = Instant::now();
    let models = std::env::var("VS_MODELS").is_ok();
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() } else { String::new() };
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST.with(|x| *x.borrow_mut() = format!("{} at {}", msg, at));
    }));
    cx(|c| c.work.push(Region::default()));
    let mut unknown = 0u64;
    let verdict = loop {
        let r = match cx(|c| c.work.pop()) { Some(r) => r, None => break if unknown == 0 { Verdict::Pass } else { Verdict::Undecided(format!("{} paths with an unknown answer", unknown)) } };
        if t0.elapsed().as_secs_f64() > seconds {
            break Verdict::Undecided("time".into());
        }
        reset(r.clone());
        if let Some(p) = trace {
            // written before the path runs, in case it brings the process down
            let n = r.choices.keys().map(|k| k + 1).max().unwrap_or(0);
            let ch: Vec<String> = (0..n).map(|i| r.choices.get(&i).copied().unwrap_or(0).to_string()).collect();
            let mut head = String::from(";");
            if models && !r.atoms.is_empty() {
                let m = cx(|c| { c.nvars = c.maxvars; c.nkeys = c.maxkeys; c.nchoices = 0; c.concretise("") });
                if let Some(m) = m {
                    head = format!("{};{}", m.vars.iter().map(|(n, d)| format!("{}/{}", n, d)).collect::<Vec<_>>().join(","),
                        m.keys.iter().map(|k| k.to_string()).collect::<Vec<_>>().join(","));
                }
            }
            let _ = std::fs::write(p, format!("{};{}", head, ch.join(",")));
        }
        let res = std::panic::catch_unwind(f);
        cx(|c| { c.stats.paths += 1; c.maxvars = c.maxvars.max(c.nvars); });
        if res.is_err() {
            let msg = LAST.with(|x| x.borrow().clone());
            if msg.starts_with("SOLVER") { break Verdict::Undecided(msg); }
            let m = cx(|c| c.concretise(""));
            // a path whose condition is not satisfiable after all is no path
            if m.is_none() && cx(|c| c.query("", false)) == "unsat" { continue; }
            break Verdict::Violation(Failure { what: format!("panic: {}", msg), model: m });
        }
        let bad = cx(|c| {
            if c.obligations.is_empty() { return Ok(()); }
            let neg = |o: &[(u32, u32, String)]| {
                let mut s = String::from("(assert (or false");
                for (a, b, _) in o { s += &format!(" (not (= t{} t{}))", a, b); }
                s + "))\n"
            };
            let obs = std::mem::take(&mut c.obligations);
            if c.sample.is_empty() || c.sample.len() < 400 {
                let p: String = c.region.atoms.iter().map(|(a, b)| format!("{}{} ", if *b { "" } else { "not " }, Cx::atom(*a))).collect();
                let mut ch: Vec<_> = c.region.choices.iter().map(|(a, b)| (*a, *b)).collect();
                ch.sort();
                c.sample = format!("path: choices {:?}, condition [{}], {} obligations, e.g. {}", ch, p.trim(), obs.len(), obs[obs.len() / 2].2);
            }
            let r = c.query(&neg(&obs), false);
            if r == "unsat" { return Ok(()); }
            let mut und = false;
            for o in &obs {
                let one = neg(std::slice::from_ref(o));
                let r = c.query(&one, false);
                if r == "sat" { let m = c.concretise(&one); return Err(Some(Failure { what: o.2.clone(), model: m })); }
                if r != "unsat" { und = true; }
            }
            if und { Err(None) } else { Ok(()) }
        });
        match bad {
            Ok(()) => {}
            Err(None) => unknown += 1,
            Err(Some(f)) => break Verdict::Violation(f),
        }
    };
    let (stats, sample) = cx(|c| (std::mem::take(&mut c.stats), c.sample.clone()));
    (verdict, stats, sample)
}

thread_local!(static LAST: RefCell<String> = RefCell::new(String::new()));

/// Run the scenario on the values of a counterexample, over exact rationals.
pub fn replay(f: fn(), m: Model) {
    cx(|c| c.model = Some(m));
    reset(Region::default());
    if std::panic::catch_unwind(f).is_err() {
        println!("REPRODUCED: panic");
        std::process::exit(101);
    }
    println!("NOT-REPRODUCED");
}
