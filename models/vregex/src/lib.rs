//! A small regular-expression engine standing in for the `regex` crate in the symbolic build.
//! Same leftmost-first semantics (backtracking in priority order, each (instruction, position)
//! visited once), covering the syntax lexer tables use: literals, escapes, classes, groups,
//! alternation, greedy and lazy `* + ? {m,n}`, `^`, `$`, `.`, `(?s)`-style flags.
//! Anything else makes `Regex::new` panic with "vregex: unsupported", which a check reports as
//! an engine error, never as a verdict.
use std::fmt;

#[derive(Clone, Debug, PartialEq)]
pub enum Error { Syntax(String) }
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { match self { Error::Syntax(s) => f.write_str(s) } } }
impl std::error::Error for Error {}

#[derive(Clone, Debug)]
enum Node { Empty, Class(Vec<(u32, u32)>, bool), Cat(Vec<Node>), Alt(Vec<Node>), Rep(Box<Node>, u32, Option<u32>, bool), Start, End }
#[derive(Clone, Debug)]
enum I { Class(Vec<(u32, u32)>, bool), Split(usize, usize), Jmp(usize), Start, End, Match }

#[derive(Clone)]
pub struct Regex { src: String, prog: Vec<I> }
impl fmt::Debug for Regex { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "Regex({:?})", self.src) } }
impl fmt::Display for Regex { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.src) } }

struct P { s: Vec<char>, i: usize, dotall: bool, icase: bool }
type Res<T> = Result<T, Error>;
fn err<T>(s: &str) -> Res<T> { Err(Error::Syntax(s.to_string())) }
const META: &str = "\\.+*?()|[]{}^$#&-~/<>\"'`%!@:;,=_ ";

impl P {
    fn peek(&self) -> Option<char> { self.s.get(self.i).copied() }
    fn eat(&mut self, c: char) -> bool { if self.peek() == Some(c) { self.i += 1; true } else { false } }
    fn alt(&mut self) -> Res<Node> {
        let mut v = vec![self.cat()?];
        while self.eat('|') { v.push(self.cat()?); }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { Node::Alt(v) })
    }
    fn cat(&mut self) -> Res<Node> {
        let mut v = vec![];
        while let Some(c) = self.peek() {
            if c == '|' || c == ')' { break; }
            let a = self.atom()?;
            v.push(self.post(a)?);
        }
        Ok(if v.len() == 1 { v.pop().unwrap() } else if v.is_empty() { Node::Empty } else { Node::Cat(v) })
    }
    fn post(&mut self, mut a: Node) -> Res<Node> {
        loop {
            let (lo, hi) = match self.peek() {
                Some('*') => { self.i += 1; (0, None) }
                Some('+') => { self.i += 1; (1, None) }
                Some('?') => { self.i += 1; (0, Some(1)) }
                Some('{') => {
                    self.i += 1;
                    let lo = self.int()?;
                    let hi = if self.eat(',') { if self.peek() == Some('}') { None } else { Some(self.int()?) } } else { Some(lo) };
                    if !self.eat('}') { return err("unclosed counted repetition"); }
                    (lo, hi)
                }
                _ => return Ok(a),
            };
            let lazy = self.eat('?');
            a = Node::Rep(Box::new(a), lo, hi, lazy);
        }
    }
    fn int(&mut self) -> Res<u32> { let st = self.i; let mut v = 0; while let Some(c) = self.peek() { match c.to_digit(10) { Some(d) => { v = v * 10 + d; self.i += 1; } None => break } } if st == self.i { err("repetition quantifier expects a valid decimal") } else { Ok(v) } }
    fn fold(&self, mut r: Vec<(u32, u32)>) -> Vec<(u32, u32)> {
        if self.icase { for (a, b) in r.clone() { for c in a..=b.min(127) { let c = c as u8; if c.is_ascii_alphabetic() { r.push(((c ^ 32) as u32, (c ^ 32) as u32)); } } } }
        r
    }
    fn atom(&mut self) -> Res<Node> {
        let c = self.peek().unwrap();
        self.i += 1;
        match c {
            '(' => {
                if self.eat('?') {
                    // flags, non-capturing and named groups
                    if self.eat('P') { if !self.eat('<') { return err("unrecognized flag"); } while !self.eat('>') { if self.peek().is_none() { return err("unclosed group name"); } self.i += 1; } }
                    else if self.peek() == Some('<') { self.i += 1; while !self.eat('>') { if self.peek().is_none() { return err("unclosed group name"); } self.i += 1; } }
                    else {
                        let (od, oi) = (self.dotall, self.icase);
                        let mut neg = false;
                        loop {
                            match self.peek() {
                                Some('s') => { self.dotall = !neg; self.i += 1; }
                                Some('i') => { self.icase = !neg; self.i += 1; }
                                Some('u') if !neg => { self.i += 1; }
                                Some('-') => { neg = true; self.i += 1; }
                                Some(')') => { self.i += 1; return Ok(Node::Empty); }
                                Some(':') => { self.i += 1; break; }
                                _ => panic!("vregex: unsupported flag in pattern"),
                            }
                        }
                        let n = self.alt()?;
                        if !self.eat(')') { return err("unclosed group"); }
                        self.dotall = od; self.icase = oi;
                        return Ok(n);
                    }
                }
                let (od, oi) = (self.dotall, self.icase);
                let n = self.alt()?;
                if !self.eat(')') { return err("unclosed group"); }
                self.dotall = od; self.icase = oi;
                Ok(n)
            }
            ')' => err("unopened group"),
            '[' => self.class(),
            '.' => Ok(if self.dotall { Node::Class(vec![(0, 0x10ffff)], false) } else { Node::Class(vec![(10, 10)], true) }),
            '^' => Ok(Node::Start),
            '$' => Ok(Node::End),
            '*' | '+' | '?' | '{' => err("repetition operator missing expression"),
            '\\' => { match self.peek() { Some('A') => { self.i += 1; return Ok(Node::Start); } Some('z') => { self.i += 1; return Ok(Node::End); } _ => {} } let (r, n) = self.escape()?; Ok(Node::Class(if n { r } else { self.fold(r) }, n)) }
            c => Ok(Node::Class(self.fold(vec![(c as u32, c as u32)]), false)),
        }
    }
    /// after a backslash: ranges and "negated"
    fn escape(&mut self) -> Res<(Vec<(u32, u32)>, bool)> {
        let c = match self.peek() { Some(c) => c, None => return err("incomplete escape sequence") };
        self.i += 1;
        let one = |x: u32| (vec![(x, x)], false);
        Ok(match c {
            'n' => one(10), 'r' => one(13), 't' => one(9), 'f' => one(12), 'v' => one(11), 'a' => one(7), '0' => return err("backreferences are not supported"),
            // non-ASCII members of \d, \w, \s are outside this model (inputs with them are not explored)
            'd' => (vec![(48, 57)], false), 'D' => (vec![(48, 57)], true),
            'w' => (vec![(48, 57), (65, 90), (95, 95), (97, 122)], false), 'W' => (vec![(48, 57), (65, 90), (95, 95), (97, 122)], true),
            's' => (vec![(9, 13), (32, 32)], false), 'S' => (vec![(9, 13), (32, 32)], true),
            'x' | 'u' | 'U' => {
                let mut v = 0u32;
                if self.eat('{') { while let Some(c) = self.peek() { if c == '}' { break; } match c.to_digit(16) { Some(d) => v = v * 16 + d, None => return err("invalid hexadecimal digit") } self.i += 1; } if !self.eat('}') { return err("unclosed hex"); } }
                else { let n = if c == 'x' { 2 } else if c == 'u' { 4 } else { 8 }; for _ in 0..n { match self.peek().and_then(|c| c.to_digit(16)) { Some(d) => { v = v * 16 + d; self.i += 1; } None => return err("invalid hexadecimal digit") } } }
                one(v)
            }
            c if c.is_ascii_digit() => return err("backreferences are not supported"),
            'b' | 'B' | 'p' | 'P' | 'G' => panic!("vregex: unsupported escape"),
            c if META.contains(c) || (c as u32) > 127 && false => one(c as u32),
            _ => return err("unrecognized escape sequence"),
        })
    }
    fn class(&mut self) -> Res<Node> {
        let neg = self.eat('^');
        let mut r: Vec<(u32, u32)> = vec![];
        let mut first = true;
        loop {
            let c = match self.peek() { Some(c) => c, None => return err("unclosed character class") };
            if c == ']' && !first { self.i += 1; break; }
            first = false;
            self.i += 1;
            let lo = match c {
                '[' => { if self.peek() == Some(':') { panic!("vregex: unsupported posix class"); } panic!("vregex: unsupported nested class") }
                '\\' => { let (x, n) = self.escape()?; if n { panic!("vregex: unsupported negated escape in class"); } if x.len() != 1 || x[0].0 != x[0].1 { r.extend(x); continue; } x[0].0 }
                '&' | '~' | '-' if self.peek() == Some(c) => panic!("vregex: unsupported set operation"),
                c => c as u32,
            };
            if self.peek() == Some('-') && self.s.get(self.i + 1).map_or(false, |c| *c != ']') {
                self.i += 1;
                let c = self.peek().unwrap();
                self.i += 1;
                let hi = if c == '\\' { let (x, n) = self.escape()?; if n || x.len() != 1 || x[0].0 != x[0].1 { return err("invalid class range"); } x[0].0 } else { c as u32 };
                if hi < lo { return err("invalid character class range"); }
                r.push((lo, hi));
            } else { r.push((lo, lo)); }
        }
        let r = self.fold(r);
        Ok(Node::Class(r, neg))
    }
}
fn emit(n: &Node, p: &mut Vec<I>) {
    match n {
        Node::Empty => {}
        Node::Start => p.push(I::Start),
        Node::End => p.push(I::End),
        Node::Class(r, neg) => p.push(I::Class(r.clone(), *neg)),
        Node::Cat(v) => for x in v { emit(x, p) },
        Node::Alt(v) => {
            let mut ends = vec![];
            for (k, x) in v.iter().enumerate() {
                if k + 1 < v.len() {
                    let s = p.len();
                    p.push(I::Split(s + 1, 0));
                    emit(x, p);
                    ends.push(p.len());
                    p.push(I::Jmp(0));
                    let here = p.len();
                    p[s] = I::Split(s + 1, here);
                } else { emit(x, p); }
            }
            let here = p.len();
            for e in ends { p[e] = I::Jmp(here); }
        }
        Node::Rep(x, lo, hi, lazy) => {
            for _ in 0..*lo { emit(x, p); }
            let split = |a: usize, b: usize| if *lazy { I::Split(b, a) } else { I::Split(a, b) };
            match hi {
                None => {
                    let s = p.len();
                    p.push(I::Jmp(0));
                    emit(x, p);
                    p.push(I::Jmp(s));
                    let e = p.len();
                    p[s] = split(s + 1, e);
                }
                Some(h) => {
                    let mut ss = vec![];
                    for _ in *lo..*h { ss.push(p.len()); p.push(I::Jmp(0)); emit(x, p); }
                    let e = p.len();
                    for s in ss { p[s] = split(s + 1, e); }
                }
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Match<'h> { h: &'h str, s: usize, e: usize }
impl<'h> Match<'h> {
    pub fn start(&self) -> usize { self.s }
    pub fn end(&self) -> usize { self.e }
    pub fn len(&self) -> usize { self.e - self.s }
    pub fn is_empty(&self) -> bool { self.s == self.e }
    pub fn range(&self) -> std::ops::Range<usize> { self.s..self.e }
    pub fn as_str(&self) -> &'h str { &self.h[self.s..self.e] }
}

impl Regex {
    pub fn new(s: &str) -> Result<Regex, Error> {
        let mut p = P { s: s.chars().collect(), i: 0, dotall: false, icase: false };
        let n = p.alt()?;
        if p.i < p.s.len() { return err("unopened group"); }
        let mut prog = vec![];
        emit(&n, &mut prog);
        prog.push(I::Match);
        Ok(Regex { src: s.to_string(), prog })
    }
    pub fn as_str(&self) -> &str { &self.src }
    /// match anchored at `at`
    fn run(&self, cs: &[(u32, usize)], end: usize, at: usize) -> Option<usize> {
        let n = cs.len() + 1;
        let mut seen = vec![false; self.prog.len() * n];
        let mut st: Vec<(usize, usize)> = vec![(0, at)];
        while let Some((mut pc, mut i)) = st.pop() {
            loop {
                if seen[pc * n + i] { break; }
                seen[pc * n + i] = true;
                match &self.prog[pc] {
                    I::Match => return Some(if i < cs.len() { cs[i].1 } else { end }),
                    I::Jmp(t) => pc = *t,
                    I::Split(a, b) => { st.push((*b, i)); pc = *a; }
                    I::Start => { if i != 0 { break; } pc += 1; }
                    I::End => { if i != cs.len() { break; } pc += 1; }
                    I::Class(r, neg) => {
                        if i >= cs.len() { break; }
                        let c = cs[i].0;
                        let mut hit = false;
                        for &(lo, hi) in r { hit |= (c.wrapping_sub(lo)) <= (hi - lo); }
                        if hit == *neg { break; }
                        pc += 1;
                        i += 1;
                    }
                }
            }
        }
        None
    }
    fn chars(h: &str) -> Vec<(u32, usize)> {
        let b = h.as_bytes();
        let mut v = Vec::with_capacity(b.len());
        let mut i = 0;
        while i < b.len() {
            let x = b[i] as u32;
            if x < 0x80 { v.push((x, i)); i += 1; }
            else if x < 0xe0 { v.push(((x & 31) << 6 | (b[i + 1] as u32 & 63), i)); i += 2; }
            else if x < 0xf0 { v.push(((x & 15) << 12 | (b[i + 1] as u32 & 63) << 6 | (b[i + 2] as u32 & 63), i)); i += 3; }
            else { v.push(((x & 7) << 18 | (b[i + 1] as u32 & 63) << 12 | (b[i + 2] as u32 & 63) << 6 | (b[i + 3] as u32 & 63), i)); i += 4; }
        }
        v
    }
    fn anchored(&self) -> bool { matches!(self.prog[0], I::Start) }
    pub fn find_at<'h>(&self, h: &'h str, start: usize) -> Option<Match<'h>> {
        let cs = Self::chars(h);
        let mut k = 0;
        while k <= cs.len() {
            let pos = if k < cs.len() { cs[k].1 } else { h.len() };
            if pos >= start {
                if let Some(e) = self.run(&cs, h.len(), k) { return Some(Match { h, s: pos, e }); }
            }
            if self.anchored() { break; }
            k += 1;
        }
        None
    }
    pub fn find<'h>(&self, h: &'h str) -> Option<Match<'h>> { self.find_at(h, 0) }
    pub fn is_match(&self, h: &str) -> bool { self.find_at(h, 0).is_some() }
    pub fn is_match_at(&self, h: &str, start: usize) -> bool { self.find_at(h, start).is_some() }
    pub fn shortest_match(&self, h: &str) -> Option<usize> { self.find(h).map(|m| m.e) }
}
pub fn escape(s: &str) -> String { let mut o = String::new(); for c in s.chars() { if "\\.+*?()|[]{}^$#&-~".contains(c) { o.push('\\'); } o.push(c); } o }
