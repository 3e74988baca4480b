//! C16: the shipped notation, run through the whole pipeline, reads every grammar text written in it.
#[path = "../tree.rs"] #[allow(dead_code)] mod tree;
use symrt::*;
use syntaxis::runtime::{lexer::Lexer, token::Token};
use syntaxis::runtime::ast::{ast_context::ASTContext, rule_context::RuleContext};
use syntaxis::tool::grammar::Grammar;
use syntaxis::tool::serde_ast;
use syntaxis::tool::syntaxis::syntaxis_context::RuleListContext;
use syntaxis::tool::v1::{syntaxis_lexer::SyntaxisLexer as L, syntaxis_parser::SyntaxisParser as P};
use syntaxis::tool::visitor::grammar_visitor::{ProductionVisitor, StringLiteralToTokenVisitor, SymbolVisitor};
use tree::{CLOSE, OPEN};

const JSON: &str = include_str!("/repo/src/tool/syntaxis/syntaxis2.json");
/// grammar tree -> symbols -> productions -> FIRST, FOLLOW -> table, as src/main.rs does
fn notation() -> (RuleContext, P) {
    let ast = serde_ast::from_str(JSON).unwrap();
    let mut g = Grammar::new("notation");
    let (nt, data) = { let mut v = StringLiteralToTokenVisitor::new(&mut g, 2); RuleListContext::accept(&ast, &mut v); (v.next_token_id, v.data) };
    let nr = { let mut v = SymbolVisitor::new(&mut g, nt, 0, data); RuleListContext::accept(&ast, &mut v); v.next_rule_id };
    { let mut v = ProductionVisitor::new(&mut g, nr); RuleListContext::accept(&ast, &mut v); }
    let (fs, fp) = g.first_set();
    let fo = g.follow_set(&fs);
    let t = g.ll1_table(&fp, &fo);
    (ast, P::new(vec![], t, g.vocabulary))
}
/// a grammar text under construction: what is written, and the tree it stands for
struct W { lex: bool, colons: bool, out: Vec<u8>, ev: Vec<u64>, toks: Vec<(usize, Vec<u8>)>, left: usize, sep: u8, at: usize }
impl W {
    fn tok(&mut self, ty: usize, text: &[u8]) {
        assume(self.left > 0); self.left -= 1;
        // what stands between two tokens: a blank, or, at one place, any white space or none where tokens stay apart
        if self.toks.len() > 0 || self.at == 0 { if self.toks.len() == self.at { if self.sep != 0 { self.out.push(self.sep); } else if self.glued(ty, text) { self.out.push(b' '); } } else { self.out.push(b' '); } }
        self.out.extend_from_slice(text);
        self.ev.push(self.toks.len() as u64);
        self.toks.push((ty, text.to_vec()));
    }
    /// would this token run into the one before it
    fn glued(&self, ty: usize, _t: &[u8]) -> bool {
        let w = |t: usize| t == L::RULE_REF || t == L::TOKEN_REF || t == L::EPSILON;
        match self.toks.last() { Some((p, _)) => w(*p) && w(ty), None => false }
    }
    fn open(&mut self, r: usize) { self.ev.push(OPEN + r as u64); }
    fn close(&mut self) { self.ev.push(CLOSE); }
    fn name(&mut self, upper: bool) {
        let c = if self.lex { let c = bits(7) as u8; assume(if upper { c >= b'A' && c <= b'Z' } else { c >= b'a' && c <= b'z' }); c } else if upper { b'T' } else { b'r' };
        let t = if upper { L::TOKEN_REF } else { L::RULE_REF };
        self.tok(t, &[c, b'q', b'_', b'1']);
    }
    fn colon(&mut self) { let k = if self.colons { conc(bits(3)) as usize } else { 4 }; assume(k < 6); self.tok(L::COLON, [":", "::=", ":=", "->", "=>", "="][k].as_bytes()); }
    fn file(&mut self, rules: usize, depth: usize, alts: usize, els: usize) {
        self.open(P::RULE_LIST);
        let n = conc(bits(2)) as usize; assume(n <= rules);
        for _ in 0..n { self.rule(depth, alts, els); }
        self.close();
    }
    fn rule(&mut self, depth: usize, alts: usize, els: usize) {
        if conc(bits(1)) == 0 {
            self.open(P::PARSER_RULE);
            self.name(false); self.colon(); self.block(depth, alts, els);
        } else {
            self.open(P::LEXER_RULE);
            self.name(true); self.colon();
            self.open(P::REGULAR);
            let c = if self.lex { let c = bits(7) as u8; assume(c >= 32 && c != 127 && c != b'/' && c != b'\\'); c } else { b'x' };
            self.tok(L::REGULAR_LITERAL, &[b'/', c, b'\\', b'/', b'/']);
            self.close();
        }
        self.tok(L::SEMI, b";");
        self.close();
    }
    fn block(&mut self, depth: usize, alts: usize, els: usize) {
        self.open(P::BLOCK);
        let n = conc(bits(2)) as usize; assume(n > 0 && n <= alts);
        for i in 0..n {
            if i > 0 { self.tok(L::OR, b"|"); }
            self.open(P::ALTERNATIVE);
            let k = conc(bits(2)) as usize; assume(k <= els);
            if k == 0 { self.open(P::EPSILON); self.tok(L::EPSILON, "ε".as_bytes()); self.close(); }
            for _ in 0..k { self.element(depth, alts, els); }
            self.close();
        }
        self.close();
    }
    fn element(&mut self, depth: usize, alts: usize, els: usize) {
        self.open(P::ELEMENT);
        match conc(bits(2)) {
            0 => self.name(true),
            1 => self.name(false),
            2 => { let c = if self.lex { let c = bits(7) as u8; assume(c >= 32 && c < 127 && c != b'\'' && c != b'\\'); c } else { b's' }; self.tok(L::STRING_LITERAL, &[b'\'', c, b'\'']) }
            _ => { assume(depth > 0); self.tok(L::LPAREN, b"("); self.block(depth - 1, alts, els); self.tok(L::RPAREN, b")"); }
        }
        let s = conc(bits(2));
        if s > 0 {
            self.open(P::EBNF_SUFFIX);
            self.tok([L::STAR, L::PLUS, L::QUESTION][s as usize - 1], [b"*", b"+", b"?"][s as usize - 1]);
            if conc(bits(1)) == 1 { self.tok(L::QUESTION, b"?"); }
            self.close();
        }
        self.close();
    }
}
fn s(v: Vec<u8>) -> String { unsafe { String::from_utf8_unchecked(v) } }
const NAMES: [&str; 9] = ["rule_list", "parser_rule", "block", "alternative", "epsilon", "element", "ebnf_suffix", "lexer_rule", "regular"];
const TOKENS: [&str; 16] = ["_START", "_STOP", "RULE_REF", "TOKEN_REF", "COLON", "SEMI", "OR", "EPSILON", "STAR", "PLUS", "QUESTION", "LPAREN", "RPAREN", "STRING_LITERAL", "REGULAR_LITERAL", "WHITE_SPACE"];
/// the tree as events; terminals in order of appearance, with their tokens
fn events(r: &RuleContext, ev: &mut Vec<u64>, ts: &mut Vec<Token>) {
    check(r.rule_index < 9 && r.rule_name == NAMES[r.rule_index], "notation-rule-name");
    ev.push(OPEN + r.rule_index as u64);
    for c in r.children.iter() {
        match c { ASTContext::Rule(r) => events(r, ev, ts), ASTContext::Terminal(t) => { ev.push(ts.len() as u64); ts.push(t.symbol.clone()); } ASTContext::Error(_) => check(false, "notation-error-node") }
    }
    ev.push(CLOSE);
}
fn same(a: &[u8], b: &[u8]) -> bool { if a.len() != b.len() { return false; } let mut d = 0; for (x, y) in a.iter().zip(b) { d |= x ^ y; } d == 0 }
fn compare(ast: &RuleContext, w: &W) {
    let (mut ev, mut ts) = (vec![], vec![]);
    events(ast, &mut ev, &mut ts);
    check(ev == w.ev, "notation-tree");
    check(ts.len() == w.toks.len(), "notation-tokens");
    for (t, (ty, x)) in ts.iter().zip(&w.toks) {
        check(t.token_type == *ty && t.token_name == TOKENS[*ty], "notation-token-type");
        check(same(t.text.as_bytes(), x), "notation-token-text");
    }
    for e in &ev { observe(*e); }
}
fn stop(k: usize) -> Token { tree::tok(1, "_STOP", "_STOP", k) }
/// grammar texts through lexer and parser
fn text(rules: usize, depth: usize, alts: usize, els: usize, left: usize, at: usize) {
    let sep = if at == 99 { b' ' } else { [b'\n', b'\t', 0x0c, 0][conc(bits(2)) as usize] };
    let mut w = W { lex: true, colons: false, out: vec![], ev: vec![], toks: vec![], left, sep, at };
    w.colons = at == 99;
    w.file(rules, depth, alts, els);
    let (_, mut p) = notation();
    w.out.push(b'\n');
    let src = s(w.out.clone());
    let toks = L::new(&src).scan_all_on_channel_tokens(0);
    check(toks.len() == w.toks.len() + 1, "notation-scan");
    p.tokens = toks;
    compare(&p.parse(), &w);
}
/// token sequences through the parser
fn tokens(rules: usize, depth: usize, alts: usize, els: usize, left: usize) {
    let (_, mut p) = notation();
    let mut w = W { lex: false, colons: false, out: vec![], ev: vec![], toks: vec![], left, sep: b' ', at: 99 };
    w.file(rules, depth, alts, els);
    let mut toks: Vec<Token> = w.toks.iter().enumerate().map(|(i, (ty, x))| tree::tok(*ty, TOKENS[*ty], &s(x.clone()), i)).collect();
    toks.push(stop(toks.len()));
    p.tokens = toks;
    compare(&p.parse(), &w);
}
/// the notation's own grammar, written out from its tree with any white space between two tokens, reads as that tree
fn itself() {
    let (ast, mut p) = notation();
    fn walk(r: &RuleContext, w: &mut W) {
        w.open(r.rule_index);
        for c in r.children.iter() { match c { ASTContext::Rule(r) => walk(r, w), ASTContext::Terminal(t) => { let ty = TOKENS.iter().position(|n| *n == t.symbol.token_name).unwrap_or(0); w.tok(ty, t.symbol.text.as_bytes()) } _ => check(false, "notation-error-node") } }
        w.close();
    }
    let at = conc(bits(2)) as usize * 32 + 3;
    let sep = [b'\n', b'\t', b'\r', 0][conc(bits(2)) as usize];
    let mut w = W { lex: true, colons: false, out: vec![], ev: vec![], toks: vec![], left: 1000, sep, at };
    walk(&ast, &mut w);
    // every token of the notation keeps its number
    for k in 0..15 { check(p.vocabulary.get_terminal_name_by_id(k).as_deref() == Some(TOKENS[k]), "notation-token-number"); }
    for k in 0..9 { check(p.vocabulary.get_nonterminal_name_by_id(k).as_deref() == Some(NAMES[k]), "notation-rule-number"); }
    w.out.push(b'\n');
    let toks = L::new(&s(w.out.clone())).scan_all_on_channel_tokens(0);
    check(toks.len() == w.toks.len() + 1, "notation-scan");
    p.tokens = toks;
    compare(&p.parse(), &w);
}
/// the v1 entry for blocks, on token sequences
fn blocks(depth: usize, alts: usize, els: usize, left: usize) {
    let (_, mut p) = notation();
    let mut w = W { lex: false, colons: false, out: vec![], ev: vec![], toks: vec![], left, sep: b' ', at: 99 };
    w.block(depth, alts, els);
    let mut toks: Vec<Token> = w.toks.iter().enumerate().map(|(i, (ty, x))| tree::tok(*ty, TOKENS[*ty], &s(x.clone()), i)).collect();
    // a block ends where the notation lets something follow it
    let k = toks.len(); toks.push(tree::tok(L::SEMI, "SEMI", ";", k)); toks.push(stop(k + 1));
    p.tokens = toks;
    let b = p.block();
    compare(b.as_rule(), &w);
}
/// large grammar texts: many rules, alternatives or elements, deep blocks, long names and literals, through either parser
fn large(n: usize) {
    let mut w = W { lex: true, colons: false, out: vec![], ev: vec![], toks: vec![], left: 10000, sep: [b'\n', b' '][conc(bits(1)) as usize], at: 5 };
    let step = 1 + tree::upto(3);
    fn name(w: &mut W, i: usize, upper: bool, n: usize) { let mut s = String::from(if upper { "T" } else { "r" }); for k in 0..1 + i % n { s.push_str(["a", "_", "9", "Z", "q1"][(k + i) % 5]); } w.tok(if upper { L::TOKEN_REF } else { L::RULE_REF }, s.as_bytes()); }
    fn lit(w: &mut W, i: usize, n: usize) { let mut s = String::from("'"); for k in 0..i % n { s.push_str(["a", "é", "\\'", "\\\\", " ", "/", "|", "\\u{3bb}"][(k + i) % 8]); } s.push('\''); w.tok(L::STRING_LITERAL, s.as_bytes()); }
    fn body(w: &mut W, i: usize, n: usize) { let mut s = String::from("/"); for k in 0..1 + i % n { s.push_str(["a", "\\/", "é", "[^'\\/]", ";", " ", "|"][(k + i) % 7]); } s.push('/'); w.open(P::REGULAR); w.tok(L::REGULAR_LITERAL, s.as_bytes()); w.close(); }
    fn suffix(w: &mut W, i: usize) { if i % 4 > 0 { w.open(P::EBNF_SUFFIX); w.tok([L::STAR, L::PLUS, L::QUESTION][i % 4 - 1], [b"*", b"+", b"?"][i % 4 - 1]); if i % 3 == 0 { w.tok(L::QUESTION, b"?"); } w.close(); } }
    fn element(w: &mut W, i: usize, depth: usize, step: usize, n: usize) {
        w.open(P::ELEMENT);
        if depth > 0 { w.tok(L::LPAREN, b"("); block(w, i + 1, depth - 1, 1 + i % 2, 1, step, n); w.tok(L::RPAREN, b")"); }
        else { match i % 3 { 0 => name(w, i, true, n), 1 => name(w, i, false, n), _ => lit(w, i, n) } }
        suffix(w, i * step);
        w.close();
    }
    fn block(w: &mut W, i: usize, depth: usize, alts: usize, els: usize, step: usize, n: usize) {
        w.open(P::BLOCK);
        for a in 0..alts {
            if a > 0 { w.tok(L::OR, b"|"); }
            w.open(P::ALTERNATIVE);
            if a > 0 && (a + i) % 3 == 0 { w.open(P::EPSILON); w.tok(L::EPSILON, "ε".as_bytes()); w.close(); }
            else { for e in 0..els { element(w, i + a * step + e, if a == 0 && e == 0 { depth } else { 0 }, step, n); } }
            w.close();
        }
        w.close();
    }
    let (rules, depth, alts, els, long) = match tree::upto(5) { 0 => (n, 0, 1, 1, 3), 1 => (1, n, 1, 1, 2), 2 => (1, 1, n, 1, 3), 3 => (2, 0, 1, n, 4), _ => (2, 1, 2, 2, 4 * n) };
    w.open(P::RULE_LIST);
    for i in 0..rules {
        let i = i * step;
        if i % 3 == 1 || long > n && i > 0 {
            w.open(P::LEXER_RULE); name(&mut w, i + long, true, long); w.tok(L::COLON, b":"); body(&mut w, i + long * 2 - 1, long); w.tok(L::SEMI, b";"); w.close();
        } else {
            w.open(P::PARSER_RULE); name(&mut w, i + long - 1, false, long); w.tok(L::COLON, ["::=", "->", "=", ":", "=>", ":="][i % 6].as_bytes()); block(&mut w, i + long - 1, depth, alts, els, step, long); w.tok(L::SEMI, b";"); w.close();
        }
    }
    w.close();
    let (_, mut p) = notation();
    w.out.push(b'\n');
    let toks = L::new(&s(w.out.clone())).scan_all_on_channel_tokens(0);
    check(toks.len() == w.toks.len() + 1, "notation-scan");
    p.tokens = toks;
    if conc(bits(1)) == 1 { compare(&p.parse(), &w); return; }
    let mut g = Grammar::new("notation");
    g.vocabulary = p.vocabulary;
    compare(&syntaxis::tool::parser::ll1_parser::LL1Parser::new(p.tokens, p.table, g).parse(), &w);
}
#[no_mangle] #[inline(never)] fn c16_h() { large(9) }
#[no_mangle] #[inline(never)] fn c16_i() { large(24) }
#[no_mangle] #[inline(never)] fn c16_a() { tokens(1, 0, 2, 1, 10) }
#[no_mangle] #[inline(never)] fn c16_b() { tokens(3, 0, 1, 1, 14) }
#[no_mangle] #[inline(never)] fn c16_c() { blocks(2, 2, 2, 7) }
#[no_mangle] #[inline(never)] fn c16_d() { text(1, 0, 1, 1, 7, 99) }
#[no_mangle] #[inline(never)] fn c16_e() { text(1, 1, 1, 1, 7, 2) }
#[no_mangle] #[inline(never)] fn c16_f() { itself() }
#[no_mangle] #[inline(never)] fn c16_g() { text(2, 0, 1, 1, 8, 4) }
#[no_mangle] #[inline(never)] fn c16_s() { tokens(2, 1, 2, 2, 13) }
#[no_mangle] #[inline(never)] fn c16_t() { text(1, 1, 2, 2, 9, 5) }
fn main() { entry(&[("c16_h", c16_h), ("c16_i", c16_i), ("c16_a", c16_a), ("c16_b", c16_b), ("c16_c", c16_c), ("c16_d", c16_d), ("c16_e", c16_e), ("c16_f", c16_f), ("c16_g", c16_g), ("c16_s", c16_s), ("c16_t", c16_t)]) }
