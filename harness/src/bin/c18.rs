//! C18: from the rules as written to the tree: a sentence of an LL(1) grammar, lexed and parsed by what the visitors and
//! tables make of the grammar, gives the tree of its rules, in which blocks and suffixes leave no trace.
#[path = "../ebnf.rs"] #[allow(dead_code)] mod ebnf;
#[path = "../tree.rs"] #[allow(dead_code)] mod tree;
use ebnf::*;
use symrt::*;
use syntaxis::runtime::ast::{ast_context::ASTContext, rule_context::RuleContext};
use syntaxis::runtime::lexer::Lexer;
use syntaxis::tool::grammar::Grammar;
use syntaxis::tool::parser::ll1_parser::LL1Parser;
use syntaxis::tool::syntaxis::syntaxis_context::RuleListContext;
use syntaxis::tool::v1::{syntaxis_lexer::SyntaxisLexer as V1, syntaxis_parser::SyntaxisParser};
use syntaxis::tool::visitor::grammar_visitor::{ProductionVisitor, StringLiteralToTokenVisitor, SymbolVisitor};
use tree::{upto, CLOSE, OPEN};

type Alts = Vec<Vec<El>>;
/// what each rule can begin with, can vanish, can be followed by; bit i is token i, bit 32 + i literal i
struct Info { nul: Vec<bool>, first: Vec<u64>, follow: Vec<u64> }
impl Info {
    fn base(&self, e: &El) -> (bool, u64) {
        match &e.b { Base::Tok(i) => (false, 1 << *i), Base::Lit(i) => (false, 1 << (32 + *i)), Base::Rule(i) => (self.nul[*i as usize], self.first[*i as usize]), Base::Block(b) => self.alts(b) }
    }
    fn el(&self, e: &El) -> (bool, u64) { let (n, f) = self.base(e); (n || e.suffix != 0, f) }
    fn seq(&self, a: &[El]) -> (bool, u64) { let mut f = 0; for e in a { let (n, g) = self.el(e); f |= g; if !n { return (false, f); } } (true, f) }
    fn alts(&self, b: &Alts) -> (bool, u64) { let (mut n, mut f) = (false, 0); for a in b { let (m, g) = self.seq(a); n |= m; f |= g; } (n, f) }
    fn flow(&mut self, b: &Alts, after: u64) {
        for a in b { for i in 0..a.len() {
            let (n, mut f) = self.seq(&a[i + 1..]);
            if n { f |= after; }
            if a[i].suffix == 1 { f |= self.base(&a[i]).1; }
            match &a[i].b { Base::Rule(r) => self.follow[*r as usize] |= f, Base::Block(b) => self.flow(b, f), _ => () }
        } }
    }
    /// one token decides every choice
    fn ll1(&self, b: &Alts, after: u64) -> bool {
        let mut seen = 0;
        for a in b {
            let (n, mut f) = self.seq(a);
            if n { f |= after; }
            if f & seen != 0 { return false; }
            seen |= f;
            for i in 0..a.len() {
                let (n, mut f) = self.seq(&a[i + 1..]);
                if n { f |= after; }
                let (n, g) = self.base(&a[i]);
                if a[i].suffix != 0 && (n || f & g != 0) { return false; }
                if a[i].suffix == 1 { f |= g; }
                if let Base::Block(b) = &a[i].b { if !self.ll1(b, f) { return false; } }
            }
        }
        true
    }
}
fn ll1(rules: &[Alts]) -> bool {
    let k = rules.len();
    let mut n = Info { nul: vec![false; k], first: vec![0; k], follow: vec![0; k] };
    n.follow[0] = 1 << 63;
    for _ in 0..=2 * k { for i in 0..k { let (a, b) = n.alts(&rules[i]); n.nul[i] = a; n.first[i] = b; } }
    for _ in 0..=k { for i in 0..k { let f = n.follow[i]; n.flow(&rules[i], f); } }
    (0..k).all(|i| n.ll1(&rules[i], n.follow[i]))
}
// tokens: a name, a number, an operator with slashes, a quoted text, and names of their own
const RE: [&str; 4] = ["/[a-z]+/", "/[0-9]+/", "/;|\\/\\//", "/\"[^\"]*\"/"];
/// a sentence under construction
struct S<'a> { rules: &'a [Alts], rot: usize, fuel: usize, max: usize, times: usize, ev: Vec<u64>, toks: Vec<(&'static str, Vec<u8>)>, plan: Option<Plan> }
/// choices made in turn by a step, and, once so many are made, the shortest way out
#[derive(Clone)]
struct Plan { left: usize, at: usize, step: usize, height: Vec<usize> }
impl Plan {
    fn pick(&mut self, n: usize) -> usize { self.at += self.step; (self.at / 2) % n }
    fn el(&self, e: &El) -> usize { if e.suffix != 0 { return 0; } match &e.b { Base::Rule(r) => self.height[*r as usize], Base::Block(b) => self.alts(b), _ => 0 } }
    fn seq(&self, a: &[El]) -> usize { a.iter().map(|e| self.el(e)).max().unwrap_or(0) }
    fn alts(&self, b: &Alts) -> usize { b.iter().map(|a| self.seq(a)).min().unwrap().saturating_add(1) }
    fn new(rules: &[Alts], left: usize, step: usize) -> Plan {
        let mut p = Plan { left, at: 0, step, height: vec![usize::MAX; rules.len()] };
        for _ in rules { for i in 0..rules.len() { p.height[i] = p.alts(&rules[i]); } }
        p
    }
}
impl S<'_> {
    fn alts(&mut self, b: &Alts) { assume(self.fuel > 0); self.fuel -= 1; let k = match &mut self.plan { None => upto(b.len()), Some(p) if p.left == 0 => (0..b.len()).min_by_key(|k| p.seq(&b[*k])).unwrap(), Some(p) => { p.left -= 1; p.pick(b.len()) } }; for e in &b[k] { self.el(e); } }
    fn el(&mut self, e: &El) { let m = match e.suffix { 0 => 1, 1 => self.times + 1, _ => 2 }; let n = if e.suffix == 0 { 1 } else { match &mut self.plan { None => upto(m), Some(p) if p.left == 0 => 0, Some(p) => p.pick(m) } }; for _ in 0..n { self.base(e); } }
    fn base(&mut self, e: &El) {
        match &e.b {
            Base::Tok(i) => { let t = word(*i as usize, self.rot, self.toks.len(), self.plan.is_some()); self.leaf(TOK[*i as usize], t) }
            Base::Lit(i) => { let l = LIT[*i as usize]; self.leaf(l, l.as_bytes()[1..l.len() - 1].to_vec()) }
            Base::Rule(r) => self.rule(*r as usize),
            Base::Block(b) => self.alts(b),
        }
    }
    fn rule(&mut self, r: usize) { let rules = self.rules; self.ev.push(OPEN + r as u64); self.alts(&rules[r]); self.ev.push(CLOSE); }
    fn leaf(&mut self, name: &'static str, t: Vec<u8>) { assume(self.toks.len() < self.max); self.ev.push(self.toks.len() as u64); self.toks.push((name, t)); }
}
/// a text of token i, any of the kind
fn word(i: usize, rot: usize, at: usize, fixed: bool) -> Vec<u8> {
    if i >= 4 { return format!("@{}", i).into_bytes(); }
    let mut c = if fixed { [b'p', b'7', 0, b' '][(i + rot) % 4] } else { bits(7) as u8 };
    match (i + rot) % 4 {
        0 => { assume((c >= b'a') & (c <= b'z')); if at % 2 == 0 { assume(c != b'i'); vec![c, b'f'] } else { assume((c != b'x') & (c != b'y')); vec![c] } }
        1 => { assume((c >= b'0') & (c <= b'9')); if at % 2 == 0 { vec![c] } else { vec![c, c, b'0'] } }
        2 => if at % 2 == 0 { vec![b';'] } else { vec![b'/', b'/'] },
        _ => { if at % 3 == 1 { c = b'\n'; } assume(c != b'"'); vec![b'"', c, b'"'] }
    }
}
fn regex(i: usize, rot: usize) -> String { if i < 4 { RE[(i + rot) % 4].to_owned() } else { format!("/@{}/", i) } }
/// a sentence of the rules through everything
fn through(rules: &[Alts], rot: usize, nt: usize, fuel: usize, max: usize, times: usize) { planned(rules, rot, nt, fuel, max, times, None) }
fn planned(rules: &[Alts], rot: usize, nt: usize, fuel: usize, max: usize, times: usize, plan: Option<Plan>) {
    assume(ll1(rules));
    let mut s = S { rules, rot, fuel, max, times, ev: vec![], toks: vec![], plan };
    s.rule(0);
    let (ev, toks) = (s.ev, s.toks);
    // the grammar, tokens first or last
    let mut asts = vec![];
    for (i, r) in rules.iter().enumerate() { asts.push(parser_rule(RULE[i], r)); }
    let mut lex: Vec<_> = (0..nt).map(|i| lexer_rule(TOK[i], &regex(i, rot))).collect();
    lex.push(lexer_rule("WHITE_SPACE", "/[ \\n\\t]+/"));
    let first = upto(2) == 1;
    let ast = rule_list(if first { lex.append(&mut asts); lex } else { asts.append(&mut lex); asts });
    let mut g = Grammar::new("g");
    let (n, data) = { let mut v = StringLiteralToTokenVisitor::new(&mut g, 2); RuleListContext::accept(&ast, &mut v); (v.next_token_id, v.data) };
    let (n, data) = { let mut v = SymbolVisitor::new(&mut g, n, 0, data); RuleListContext::accept(&ast, &mut v); (v.next_rule_id, v.data) };
    { let mut v = ProductionVisitor::new(&mut g, n); RuleListContext::accept(&ast, &mut v); }
    let (fs, fp) = g.first_set();
    let fo = g.follow_set(&fs);
    let table = g.ll1_table(&fp, &fo);
    // the lexer
    let sep = [b' ', b'\n'][first as usize];
    let mut src = vec![];
    if rot % 2 == 1 { src.push(b'\n'); }
    for (k, (_, t)) in toks.iter().enumerate() { if k > 0 { src.push(sep); } src.extend(t); }
    let src = unsafe { String::from_utf8_unchecked(src) };
    let mut lx = V1::new(&src);
    lx.regex_list = data.iter().map(|d| regex::Regex::new(&d.regex).unwrap()).collect();
    lx.token_names = vec!["_"; data.len() + 2];
    let white = g.vocabulary.get_terminal_id_by_name("WHITE_SPACE").unwrap();
    for (i, d) in data.iter().enumerate() { check(d.token_type == i + 2, "end-token-number"); }
    let mut ts = vec![];
    loop { match lx.scan() { Ok(t) => { let stop = t.token_type == 1; if t.token_type != white { ts.push(t); } if stop { break; } } Err(_) => { check(false, "end-scan"); return; } } }
    check(ts.len() == toks.len() + 1, "end-token-count");
    for (t, (n, x)) in ts.iter().zip(&toks) {
        check(t.text.as_bytes() == &x[..], "end-token-text");
        check(g.vocabulary.get_terminal_id_by_name(n) == Some(t.token_type), "end-token-type");
    }
    for (k, t) in ts.iter_mut().enumerate() { t.token_index = k; }
    // the parser
    let r = if first { LL1Parser::new(ts, table, g).parse() } else { SyntaxisParser::new(ts, table, g.vocabulary).parse() };
    let mut got = vec![];
    tree::flat(&r, &mut got);
    for x in &got { observe(*x); }
    check(got == ev, "end-tree");
    names(&r, &toks);
}
fn names(r: &RuleContext, toks: &[(&'static str, Vec<u8>)]) {
    check(r.rule_name == RULE[r.rule_index], "end-rule-name");
    for c in r.children.iter() {
        match c {
            ASTContext::Rule(r) => names(r, toks),
            ASTContext::Terminal(t) => check(t.symbol.text.as_bytes() == &toks[t.symbol.token_index].1[..], "end-leaf-text"),
            ASTContext::Error(_) => check(false, "end-error-node"),
        }
    }
}
/// any grammar: rules of up to `alts` alternatives of up to `els` elements; new tokens come in order
struct A { used: u8, nt: u8, nl: u8, nr: u8, left: usize }
impl A {
    fn alts(&mut self, alts: usize, els: usize, depth: usize) -> Alts {
        let n = 1 + upto(alts);
        let mut r = vec![];
        for _ in 0..n { let k = upto(els + 1); let mut v = vec![]; for _ in 0..k { v.push(self.el(depth)); } r.push(v); }
        r
    }
    fn el(&mut self, depth: usize) -> El {
        assume(self.left > 0);
        self.left -= 1;
        let b = match upto(if depth > 0 { 4 } else { 3 }) {
            0 => { let m = (self.used + 1).min(self.nt); let i = upto(m as usize) as u8; if i == self.used { self.used += 1; } Base::Tok(i) }
            1 => { assume(self.nl > 0); Base::Lit(upto(self.nl as usize) as u8) }
            2 => { assume(self.nr > 1); Base::Rule(upto(self.nr as usize) as u8) }
            _ => Base::Block(self.alts(2, 2, depth - 1)),
        };
        let suffix = [0, 1, 3][upto(3)];
        El { b, suffix, lazy: suffix > 0 && self.left % 2 == 1 }
    }
}
fn any(shape: &[(usize, usize)], nt: u8, nl: u8, left: usize, depth: usize, fuel: usize, max: usize) {
    let mut a = A { used: 0, nt, nl, nr: shape.len() as u8, left };
    let rules: Vec<Alts> = shape.iter().map(|(x, y)| a.alts(*x, *y, depth)).collect();
    through(&rules, 0, nt as usize, fuel, max, 2);
}
fn t(i: u8) -> El { el(Base::Tok(i)) }
fn l(i: u8) -> El { el(Base::Lit(i)) }
fn r(i: u8) -> El { el(Base::Rule(i)) }
fn b(x: Alts, suffix: u8) -> El { El { b: Base::Block(x), suffix, lazy: false } }
fn sx(e: El, suffix: u8) -> El { El { suffix, ..e } }
/// grammars as people write them
fn written(k: usize) -> (Vec<Alts>, usize) {
    match k {
        // sums, products, calls
        0 => (vec![vec![vec![r(1), b(vec![vec![l(0), r(1)]], 1)]], vec![vec![r(2), b(vec![vec![l(1), r(2)]], 1)]], vec![vec![t(0), b(vec![vec![t(2), b(vec![vec![r(0), b(vec![vec![l(2), r(0)]], 1)]], 3), t(3)]], 3)], vec![t(1)], vec![t(4), r(0), t(5)]]], 6),
        // statements with optional parts
        1 => (vec![vec![vec![sx(r(1), 1)]], vec![vec![l(2), t(0), r(1), b(vec![vec![l(3), r(1)]], 3), t(4)], vec![t(0), l(0), r(2), t(2)], vec![t(5), sx(r(1), 1), t(6)]], vec![vec![sx(l(1), 3), b(vec![vec![t(0)], vec![t(1)], vec![t(3)]], 0), b(vec![vec![l(1), r(2)]], 3)]]], 7),
        // lists and members
        2 => (vec![vec![vec![t(0)], vec![t(1)], vec![r(1)], vec![r(2)]], vec![vec![t(4), b(vec![vec![r(0), b(vec![vec![l(0), r(0)]], 1)], vec![]], 0), t(5)]], vec![vec![t(6), b(vec![vec![r(3), b(vec![vec![l(0), r(3)]], 1)]], 3), t(7)]], vec![vec![t(3), l(1), r(0)]]], 8),
        // the same block and repeated item in several places, under other suffixes too
        3 => { let e = || vec![vec![t(0), sx(t(1), 1)], vec![t(2)]]; (vec![vec![vec![b(e(), 3), t(3), b(e(), 1), t(3), b(e(), 0), t(4), sx(r(1), 1)]], vec![vec![l(0), sx(t(1), 1), b(e(), 3)], vec![l(1), sx(t(1), 3), b(e(), 1), b(vec![vec![sx(t(4), 3), l(1)]], 0)]]], 5) }
        // nothing here and there
        _ => (vec![vec![vec![r(1), b(vec![vec![r(2)], vec![t(0)]], 0), t(3)]], vec![vec![sx(t(1), 3), sx(t(2), 1)]], vec![vec![], vec![l(0), r(2)]]], 4),
    }
}
fn long(k: usize, fuel: usize, max: usize) { let rot = upto(4); let (rules, nt) = written(k); through(&rules, rot, nt, fuel, max, 2) }
/// long sentences: any of the grammars, choices taken in turn
fn longer(left: usize, times: usize) { let (rules, nt) = written(upto(5)); let p = Plan::new(&rules, left, 1 + upto(7)); planned(&rules, upto(4), nt, 99999, 99999, times, Some(p)) }
#[no_mangle] #[inline(never)] fn c18_j() { longer(40, 3) }
#[no_mangle] #[inline(never)] fn c18_k() { longer(70, 5) }
#[no_mangle] #[inline(never)] fn c18_s() { any(&[(2, 2), (2, 2)], 3, 1, 5, 0, 12, 6) }
#[no_mangle] #[inline(never)] fn c18_t() { any(&[(2, 3)], 3, 1, 6, 2, 12, 5) }
#[no_mangle] #[inline(never)] fn c18_u() { long(0, 20, 8) }
#[no_mangle] #[inline(never)] fn c18_v() { long(1, 20, 11) }
#[no_mangle] #[inline(never)] fn c18_a() { any(&[(2, 2)], 3, 0, 3, 0, 9, 4) }
#[no_mangle] #[inline(never)] fn c18_b() { any(&[(1, 2), (2, 1)], 2, 0, 4, 0, 9, 4) }
#[no_mangle] #[inline(never)] fn c18_c() { any(&[(1, 2)], 2, 0, 4, 1, 9, 4) }
#[no_mangle] #[inline(never)] fn c18_d() { any(&[(2, 2)], 2, 2, 3, 0, 9, 3) }
#[no_mangle] #[inline(never)] fn c18_e() { long(0, 12, 6) }
#[no_mangle] #[inline(never)] fn c18_f() { long(1, 12, 8) }
#[no_mangle] #[inline(never)] fn c18_g() { long(2, 12, 8) }
#[no_mangle] #[inline(never)] fn c18_h() { long(3, 12, 8) }
#[no_mangle] #[inline(never)] fn c18_i() { long(4, 12, 8) }
fn main() { entry(&[("c18_j", c18_j), ("c18_k", c18_k), ("c18_s", c18_s), ("c18_t", c18_t), ("c18_u", c18_u), ("c18_v", c18_v), ("c18_a", c18_a), ("c18_b", c18_b), ("c18_c", c18_c), ("c18_d", c18_d), ("c18_e", c18_e), ("c18_f", c18_f), ("c18_g", c18_g), ("c18_h", c18_h), ("c18_i", c18_i)]) }
