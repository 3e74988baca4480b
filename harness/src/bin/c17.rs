//! C17: what grammars, tokens, positions and trees print as can be read back.
#[path = "../tree.rs"] #[allow(dead_code)] mod tree;
use tree::*;
use symrt::*;
use syntaxis::runtime::ast::{ast_context::ASTContext, rule_context::RuleContext};
use syntaxis::runtime::token::{Position, Token};
use syntaxis::tool::grammar::{Grammar, Production, ProductionItem};

fn s(v: Vec<u8>) -> String { unsafe { String::from_utf8_unchecked(v) } }
/// n symbolic printable characters
fn name(n: usize) -> String { let mut v = Vec::new(); for _ in 0..n { let c = bits(7) as u8; assume((c > 32) & (c < 127)); v.push(c); } s(v) }
/// any n ASCII characters
fn text(n: usize) -> String { let mut v = Vec::new(); for _ in 0..n { v.push(bits(7) as u8); } s(v) }

struct Rd<'a> { b: &'a [u8], i: usize, ok: bool }
impl Rd<'_> {
    fn lit(&mut self, l: &str) { for c in l.bytes() { if self.i < self.b.len() { self.ok &= self.b[self.i] == c; self.i += 1; } else { self.ok = false; } } }
    fn num(&mut self) -> u64 {
        let (mut v, st) = (0u64, self.i);
        while self.i < self.b.len() && self.b[self.i].is_ascii_digit() { v = v.wrapping_mul(10).wrapping_add((self.b[self.i] - b'0') as u64); self.i += 1; }
        let n = self.i - st;
        if n == 0 || n > 20 || (n > 1 && self.b[st] == b'0') { self.ok = false; }
        v
    }
}
fn token(w: [u32; 7], tl: usize, nl: usize) {
    let n = |k: usize| if w[k] == 0 { k + 3 } else { bits(w[k]) as usize };
    let t = Token { token_index: n(0), char_start_index: n(1), char_stop_index: n(2), token_type: n(3), start: Position { line: n(4), char_position: n(5) }, stop: Position { line: n(6), char_position: 70 }, channel: 5, text: text(tl), token_name: name(nl) };
    let o = t.to_string();
    let mut r = Rd { b: o.as_bytes(), i: 0, ok: true };
    let mut bad = 0u64;
    r.lit("[@"); bad |= r.num() ^ t.token_index as u64;
    r.lit(", "); bad |= r.num() ^ t.char_start_index as u64;
    r.lit(":"); bad |= r.num() ^ t.char_stop_index as u64;
    r.lit("='"); r.lit(&t.text);
    r.lit("', <"); r.lit(&t.token_name);
    r.lit(">, <"); bad |= r.num() ^ t.token_type as u64;
    r.lit(">, start: <line: "); bad |= r.num() ^ t.start.line as u64;
    r.lit(", position: "); bad |= r.num() ^ t.start.char_position as u64;
    r.lit(">, stop: <line: "); bad |= r.num() ^ t.stop.line as u64;
    r.lit(", position: "); bad |= r.num() ^ t.stop.char_position as u64;
    r.lit(">]");
    check(r.ok && r.i == r.b.len(), "token-format");
    check(bad == 0, "token-number");
    observe(r.b.len() as u64);
    for c in o.bytes() { observe(c as u64); }
}
fn tree(shape: &[usize], left: &mut usize) -> ASTContext {
    let n = text(1 + (*left & 1)); *left += 1;
    match if shape.is_empty() { conc(bits(1)) } else { let k = conc(bits(2)); assume(k < 3); k } {
        0 => term(tok(3, &n, "x", 1)), 1 => error(tok(3, &n, "y", 2)), _ => sub(&n, 4, children(shape, left)) }
}
fn children(shape: &[usize], left: &mut usize) -> Vec<ASTContext> {
    let k = conc(bits(3)) as usize; assume(k <= shape[0]);
    (0..k).map(|_| tree(&shape[1..], left)).collect()
}
/// the tree, printed
fn expect(r: &RuleContext, o: &mut Vec<u8>) {
    o.extend(r.rule_name.bytes()); o.extend(b" (");
    for c in r.children.iter() {
        match c { ASTContext::Terminal(t) => o.extend(t.symbol.token_name.bytes()), ASTContext::Error(t) => o.extend(t.symbol.token_name.bytes()), ASTContext::Rule(r) => expect(r, o) }
        o.push(b' ');
    }
    o.push(b')');
}
fn trees(shape: &[usize]) {
    let mut n = 0;
    let t = rule(&text(2), 0, children(shape, &mut n));
    let (o, mut w) = (t.to_string(), Vec::new());
    expect(&t, &mut w);
    check(o.len() == w.len(), "tree-print");
    let mut d = 0; for (x, y) in o.bytes().zip(&w) { d |= x ^ *y; }
    check(d == 0, "tree-print");
    observe(w.len() as u64); for c in o.bytes() { observe(c as u64); }
    for c in t.children.iter() {
        let o = c.to_string(); let mut w = Vec::new();
        match c { ASTContext::Terminal(t) => w.extend(t.symbol.token_name.bytes()), ASTContext::Error(t) => w.extend(t.symbol.token_name.bytes()), ASTContext::Rule(r) => expect(r, &mut w) }
        check(o.as_bytes() == &w[..], "child-print");
    }
}
/// large trees, every part of them printed
fn large(max: usize) {
    fn each(t: &RuleContext) {
        let mut w = Vec::new(); expect(t, &mut w);
        check(t.to_string().as_bytes() == &w[..], "tree-print");
        for c in t.children.iter() {
            match c { ASTContext::Rule(r) => each(r), ASTContext::Terminal(t) => { check(c.to_string() == t.symbol.token_name && t.to_string() == t.symbol.token_name, "child-print") } ASTContext::Error(t) => { check(c.to_string() == t.symbol.token_name && t.to_string() == t.symbol.token_name, "child-print") } }
        }
    }
    let t = Large { rule: &|i| i * 3, tok: &|_| 2, at: 0, leaves: 0, errors: true }.tree_or_huge(max);
    if max > 99 { let mut w = Vec::new(); expect(&t, &mut w); check(t.to_string().as_bytes() == &w[..], "tree-print"); } else { each(&t); }
}
/// names with white space of all sorts, empty ones, long ones
fn names() {
    const N: [&str; 8] = ["", " ", "\u{a0}", "a\u{3000}", "\u{85}b\t", "( ", ") )", "a name of some length, longer than any buffer that might be used for it, with words in it"];
    let mut p = || N[conc(bits(3)) as usize];
    let (a, b, c) = (p(), p(), p());
    let t = rule(a, 0, vec![term(tok(3, b, "x", 1)), sub(c, 4, vec![error(tok(3, b, "y", 2))]), sub(b, 4, vec![])]);
    let mut w = Vec::new(); expect(&t, &mut w);
    check(t.to_string().as_bytes() == &w[..], "tree-print");
}
/// a grammar of two rules and an anonymous one, two tokens, productions of the given lengths: it can be read back
fn grammar(lens: &[usize]) {
    let mut g = Grammar::new("g");
    let nm: Vec<String> = vec![{ let mut n = String::from("a"); n.push_str(&name(1)); n }, "b_".into(), "7".into()];
    let tn: Vec<String> = vec![{ let mut n = String::from("A"); n.push_str(&name(1)); n }, "';->'".into()];
    g.vocabulary.add_named_nonterminal(0, &nm[0]); g.vocabulary.add_named_nonterminal(1, &nm[1]); g.vocabulary.add_unnamed_nonterminal(7);
    g.vocabulary.add_terminal(2, &tn[0]); g.vocabulary.add_terminal(3, &tn[1]);
    let nt = [0usize, 1, 7];
    let mut want: Vec<(usize, Vec<usize>)> = Vec::new();
    for l in lens {
        let left = conc(bits(2)) as usize; assume(left < 3);
        let right: Vec<usize> = (0..*l).map(|_| { let k = conc(bits(3)) as usize; assume(k < 5); k }).collect();
        g.productions.insert(Production::new(nt[left], &right.iter().map(|k| if *k < 3 { ProductionItem::NonTerminal(nt[*k]) } else { ProductionItem::Terminal(*k - 1) }).collect()));
        if !want.iter().any(|w| w.0 == left && w.1 == right) { want.push((left, right)); }
    }
    let o = g.to_string();
    let sym = |k: usize| if k < 3 { nm[k].as_bytes() } else { tn[k - 3].as_bytes() };
    read_back(o.as_bytes(), &want, &sym);
}
fn read_back<'a>(o: &[u8], want: &[(usize, Vec<usize>)], sym: &dyn Fn(usize) -> &'a [u8]) {
    // one line each: left -> item item ... ;
    let mut seen = vec![false; want.len()];
    let (mut i, mut lines) = (0, 0);
    while i < o.len() {
        let mut hit = None;
        for (k, w) in want.iter().enumerate() {
            if seen[k] { continue; }
            if let Some(n) = line(&o[i..], w, sym) { hit = Some((k, n)); break; }
        }
        match hit { Some((k, n)) => { seen[k] = true; i += n; lines += 1; } None => { check(false, "grammar-line"); return } }
    }
    check(lines == want.len(), "grammar-lines");
    observe(o.len() as u64);
}
/// the length of the line `w` prints as at the front of `b`; symbols are set apart by spaces
fn line<'a>(b: &[u8], w: &(usize, Vec<usize>), sym: &dyn Fn(usize) -> &'a [u8]) -> Option<usize> {
    let mut i = 0;
    let eat = |i: &mut usize, t: &[u8], gap: bool| -> bool {
        let st = *i;
        while *i < b.len() && b[*i] == b' ' { *i += 1; }
        if gap && *i == st { return false; }
        for c in t { if *i >= b.len() || b[*i] != *c { return false; } *i += 1; }
        true
    };
    if !eat(&mut i, sym(w.0), false) || !eat(&mut i, b"->", true) { return None; }
    for k in &w.1 { if !eat(&mut i, sym(*k), true) { return None; } }
    if !eat(&mut i, b";", false) || !eat(&mut i, b"\n", false) { return None; }
    Some(i)
}
/// n productions of l symbols or more, every third of them longer by one, over tokens and rules of names of several lengths
fn big_grammar(n: usize, l: usize) {
    let mut g = Grammar::new("g");
    let nm: Vec<String> = (0..5).map(|k| "rule_name_"[..k * 2 + 1].to_string()).collect();
    let tn: Vec<String> = vec!["T".into(), "'a'".into(), "'é\\n'".into(), "TOKEN_12".into(), "'->'".into(), "_STOP".into()];
    for (k, s) in nm.iter().enumerate() { g.vocabulary.add_named_nonterminal(k * 3, s); }
    for (k, s) in tn[..5].iter().enumerate() { g.vocabulary.add_terminal(k + 9, s); }
    let step = 1 + upto(3);
    let start = upto(11);
    let mut want: Vec<(usize, Vec<usize>)> = Vec::new();
    let mut at = start;
    for i in 0..n {
        let right: Vec<usize> = (0..l + (i % 3) / 2).map(|_| { at = (at + step) % 11; at }).collect();
        let left = (i * step) % 5;
        g.productions.insert(Production::new(left * 3, &right.iter().map(|k| match *k { k if k < 5 => ProductionItem::NonTerminal(k * 3), 10 => ProductionItem::Terminal(1), k => ProductionItem::Terminal(k + 4) }).collect()));
        if !want.iter().any(|w| w.0 == left && w.1 == right) { want.push((left, right)); }
    }
    let o = g.to_string();
    let sym = |k: usize| if k < 5 { nm[k].as_bytes() } else { tn[k - 5].as_bytes() };
    read_back(o.as_bytes(), &want, &sym);
}
#[no_mangle] #[inline(never)] fn c17_a() { grammar(&[2]) }
#[no_mangle] #[inline(never)] fn c17_b() { grammar(&[1, 1]) }
#[no_mangle] #[inline(never)] fn c17_c() { grammar(&[3, 0]) }
#[no_mangle] #[inline(never)] fn c17_d() { token([7, 0, 0, 0, 0, 0, 0], 2, 2) }
#[no_mangle] #[inline(never)] fn c17_e() { token([3, 3, 3, 3, 3, 3, 3], 1, 1) }
#[no_mangle] #[inline(never)] fn c17_f() { token([0, 5, 5, 0, 0, 0, 0], 0, 0) }
#[no_mangle] #[inline(never)] fn c17_g() { token([0, 0, 0, 5, 5, 0, 0], 4, 4) }
#[no_mangle] #[inline(never)] fn c17_h() { token([0, 0, 0, 0, 0, 5, 5], 1, 1) }
#[no_mangle] #[inline(never)] fn c17_i() { trees(&[2, 1]) }
#[no_mangle] #[inline(never)] fn c17_j() { trees(&[3, 2]) }
#[no_mangle] #[inline(never)] fn c17_k() { trees(&[1, 1, 2]) }
#[no_mangle] #[inline(never)] fn c17_s() { trees(&[2, 2, 2]) }
#[no_mangle] #[inline(never)] fn c17_t() { grammar(&[2, 2, 1]) }
#[no_mangle] #[inline(never)] fn c17_u() { token([10, 10, 10, 0, 0, 0, 0], 2, 2) }
#[no_mangle] #[inline(never)] fn c17_v() { token([0, 0, 0, 20, 0, 0, 0], 2, 2) }
#[no_mangle] #[inline(never)] fn c17_w() { token([14, 0, 0, 0, 0, 14, 0], 2, 2) }
#[no_mangle] #[inline(never)] fn c17_l() { large(7) }
#[no_mangle] #[inline(never)] fn c17_m() { names() }
#[no_mangle] #[inline(never)] fn c17_n() { big_grammar(1 + upto(12), upto(9)) }
#[no_mangle] #[inline(never)] fn c17_o() { large(999) }
#[no_mangle] #[inline(never)] fn c17_p() { big_grammar(40, 40) }
fn main() { entry(&[("c17_o", c17_o), ("c17_p", c17_p), ("c17_n", c17_n), ("c17_m", c17_m), ("c17_l", c17_l), ("c17_v", c17_v), ("c17_w", c17_w), ("c17_a", c17_a), ("c17_b", c17_b), ("c17_c", c17_c), ("c17_d", c17_d), ("c17_e", c17_e), ("c17_f", c17_f), ("c17_g", c17_g), ("c17_h", c17_h), ("c17_i", c17_i), ("c17_j", c17_j), ("c17_k", c17_k), ("c17_s", c17_s), ("c17_t", c17_t), ("c17_u", c17_u)]) }
