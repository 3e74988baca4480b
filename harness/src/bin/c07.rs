//! C07: symbol numbering and the lexer rule data drawn from a grammar's syntax tree.
#[path = "../tree.rs"] #[allow(dead_code)] mod tree;
#[path = "../ebnf.rs"] #[allow(dead_code)] mod ebnf;
use ebnf::*;
use symrt::*;
use syntaxis::tool::grammar::Grammar;
use syntaxis::tool::syntaxis::syntaxis_context::RuleListContext;
use syntaxis::tool::visitor::grammar_visitor::SymbolVisitor;
use syntaxis::tool::visitor::lexer_rule_visitor::{LexerRuleData, LexerRuleVisitor};

fn ch(lo: u64, hi: u64) -> char { let c = bits(8); assume(c >= lo); assume(c <= hi); c as u8 as char }
/// a body the lexer admits between slashes: any printable ASCII, a slash only after a backslash
fn body(n: usize) -> String {
    let mut s: Vec<u8> = vec![];
    for i in 0..n { let c = bits(8) as u8; assume((c >= 0x20) & (c < 0x7f)); if i == 0 { assume(c != b'/'); } else { assume((c != b'/') | (s[i - 1] == b'\\')); } s.push(c); }
    String::from_utf8(s).unwrap()
}
/// a body of n items: an escaped slash, a multi-byte letter, an escaped backslash, or any printable ASCII but a slash
fn items(n: usize) -> String {
    let mut s: Vec<u8> = vec![];
    for _ in 0..n { match conc(bits(2)) { 0 => s.extend(b"\\/"), 1 => s.extend("é".bytes()), 2 => s.extend(b"\\\\"), _ => { let c = bits(8) as u8; assume((c >= 0x20) & (c < 0x7f) & (c != b'/')); s.push(c); } } }
    String::from_utf8(s).unwrap()
}
/// the body with every escaped slash replaced by a slash
fn unslash(b: &str) -> String {
    let b = b.as_bytes();
    let (mut o, mut i) = (vec![], 0);
    while i < b.len() { if b[i] == b'\\' && i + 1 < b.len() && b[i + 1] == b'/' { o.push(b'/'); i += 2; } else { o.push(b[i]); i += 1; } }
    String::from_utf8(o).unwrap()
}
fn item_rules(n: usize, lexer: bool) {
    let rs = vec![R { lexer: true, name: "TA".into(), body: items(n) }];
    let a = ast(&rs);
    let data = if lexer { let mut v = LexerRuleVisitor::new(vec![], 2); RuleListContext::accept(&a, &mut v); v.data } else {
        let mut g = Grammar::new("g"); let mut v = SymbolVisitor::new(&mut g, 2, 0, vec![]); RuleListContext::accept(&a, &mut v); v.data };
    expect_data(&data, &rs, 2, 0);
}
struct R { lexer: bool, name: String, body: String }
fn expect_data(d: &[LexerRuleData], rules: &[R], first: usize, pre: usize) -> Vec<String> {
    let mut names: Vec<String> = vec![];
    let mut k = pre;
    for r in rules.iter().filter(|r| r.lexer) {
        if names.contains(&r.name) { continue; }
        if k >= d.len() { check(false, "rules-missing"); break; }
        check(d[k].token_type == first + k - pre, "rules-token-type");
        check(d[k].token_name == r.name, "rules-token-name");
        check(d[k].regex == format!("^({})", unslash(&r.body)), "rules-regex");
        for b in d[k].regex.bytes() { observe(b as u64); }
        names.push(r.name.clone());
        k += 1;
    }
    check(d.len() == k, "rules-extra");
    names
}
/// any letter, digit or underscore
fn word() -> char { let c = bits(7); assume(((c >= 48) & (c <= 57)) | ((c >= 65) & (c <= 90)) | ((c >= 97) & (c <= 122)) | (c == 95)); c as u8 as char }
/// rules whose names are any of two or three letters, digits and underscores
fn named(n: usize) -> Vec<R> {
    (0..n).map(|_| {
        let lexer = conc(bits(1)) == 1;
        let mut name = String::from(if lexer { "T" } else { "t" });
        for _ in 0..1 + conc(bits(1)) { name.push(word()); }
        R { lexer, name, body: "a".into() }
    }).collect()
}
/// n rules of both kinds, one of which may repeat the name of any other
fn many(n: usize) -> Vec<R> {
    let step = 1 + tree::upto(3);
    let mut rs: Vec<R> = (0..n).map(|i| { let lexer = i % 4 != step; R { lexer, name: format!("{}{}", if lexer { "T" } else { "t" }, i), body: format!("b\\/{}", i) } }).collect();
    let (a, b) = (tree::upto(n), tree::upto(n));
    if a != b && rs[a].lexer == rs[b].lexer { rs[a].name = rs[b].name.clone(); }
    rs
}
fn rules(kinds: &[u64], blen: usize) -> Vec<R> {
    kinds.iter().map(|k| {
        let lexer = match k { 0 => false, 1 => true, _ => conc(bits(1)) == 1 };
        // a name of two characters, the second symbolic, so that rules may be defined twice
        let name = if lexer { let mut s = String::from("T"); s.push(ch(0x41, 0x5a)); s } else { let mut s = String::from("r"); s.push(ch(0x61, 0x7a)); s };
        R { lexer, name, body: if lexer { body(blen) } else { String::new() } }
    }).collect()
}
fn ast(rs: &[R]) -> syntaxis::runtime::ast::rule_context::RuleContext {
    rule_list(rs.iter().map(|r| if r.lexer { lexer_rule(&r.name, &format!("/{}/", r.body)) } else { parser_rule(&r.name, &[vec![el(Base::Tok(0))]]) }).collect())
}
fn symbols(kinds: &[u64], blen: usize, first: usize) { symbols_of(rules(kinds, blen), first) }
fn symbols_of(rs: Vec<R>, first: usize) {
    let a = ast(&rs);
    let mut g = Grammar::new("g");
    // what earlier passes found is kept in front
    let mut pre = vec![];
    if first > 2 { g.vocabulary.add_terminal(2, "'x'"); pre.push(LexerRuleData { token_type: 2, token_name: "_T_2".into(), regex: "x".into() }); }
    let np = pre.len();
    let (data, nt, nr) = { let mut v = SymbolVisitor::new(&mut g, first, 0, pre); RuleListContext::accept(&a, &mut v); (v.data, v.next_token_id, v.next_rule_id) };
    if np == 1 { check(data.len() > 0 && data[0].token_type == 2 && data[0].token_name == "_T_2" && data[0].regex == "x", "rules-kept"); }
    let names = expect_data(&data, &rs, first, np);
    for (i, n) in names.iter().enumerate() { check(g.vocabulary.get_terminal_id_by_name(n) == Some(first + i), "symbols-terminal"); check(g.vocabulary.get_terminal_name_by_id(first + i).as_deref() == Some(n), "symbols-terminal"); }
    check(g.vocabulary.get_all_terminals().len() == 2 + np + names.len(), "symbols-terminal");
    check(nt == first + names.len(), "symbols-next");
    let mut pn: Vec<String> = vec![];
    for r in rs.iter().filter(|r| !r.lexer) { if !pn.contains(&r.name) { pn.push(r.name.clone()); } }
    for (i, n) in pn.iter().enumerate() { check(g.vocabulary.get_nonterminal_id_by_name(n) == Some(i), "symbols-nonterminal"); check(g.vocabulary.get_nonterminal_name_by_id(i).as_deref() == Some(n), "symbols-nonterminal"); }
    check(g.vocabulary.get_all_nonterminals().len() == pn.len(), "symbols-nonterminal");
    check(nr == pn.len(), "symbols-next");
    observe(nt as u64); observe(nr as u64);
}
fn lexer_rules(kinds: &[u64], blen: usize) { lexer_rules_of(rules(kinds, blen)) }
fn lexer_rules_of(rs: Vec<R>) {
    let a = ast(&rs);
    let first = 2 + conc(bits(1)) as usize;
    let mut v = LexerRuleVisitor::new(vec![], first);
    RuleListContext::accept(&a, &mut v);
    let n = expect_data(&v.data, &rs, first, 0).len();
    check(v.next_token_type == first + n, "symbols-next");
}
/// long names, alike but for any one character, and long bodies
fn long() -> Vec<R> {
    let n = [6, 18, 45, 300][tree::upto(4)];
    let at = [1, n / 2, n - 1][tree::upto(3)];
    (0..3).map(|i| {
        let lexer = i != 1 || conc(bits(1)) == 1;
        let mut name = String::from(if lexer { "T" } else { "t" });
        for k in 1..n { if k == at { name.push(word()) } else { name.push((b'a' + (k % 26) as u8) as char) } }
        let mut body = String::new();
        for k in 0..n { body.push_str(["a", "\\/", "é", "\\\\", "[^/]", "  ", "/\\"][if k == at { (i + n) % 6 } else { (k + i) % 6 }]); }
        R { lexer, name, body: body.replace("[^/]", "[^\\/]") }
    }).collect()
}
#[no_mangle] #[inline(never)] fn c07_o() { symbols_of(long(), 2) }
#[no_mangle] #[inline(never)] fn c07_p() { lexer_rules_of(long()) }
#[no_mangle] #[inline(never)] fn c07_a() { symbols(&[9, 9, 9], 1, 2) }
#[no_mangle] #[inline(never)] fn c07_b() { symbols(&[1], 4, 2) }
#[no_mangle] #[inline(never)] fn c07_c() { symbols(&[1, 0, 1], 2, 3) }
#[no_mangle] #[inline(never)] fn c07_d() { symbols(&[9, 9, 9, 9], 1, 2) }
#[no_mangle] #[inline(never)] fn c07_l() { lexer_rules(&[9, 9, 1], 1) }
#[no_mangle] #[inline(never)] fn c07_m() { lexer_rules(&[1], 4) }
#[no_mangle] #[inline(never)] fn c07_e() { symbols(&[1], 6, 2) }
#[no_mangle] #[inline(never)] fn c07_i() { item_rules(5, false) }
#[no_mangle] #[inline(never)] fn c07_j() { item_rules(5, true) }
#[no_mangle] #[inline(never)] fn c07_n() { lexer_rules(&[1], 6) }
#[no_mangle] #[inline(never)] fn c07_t() { symbols(&[1], 8, 2) }
#[no_mangle] #[inline(never)] fn c07_u() { item_rules(7, false) }
#[no_mangle] #[inline(never)] fn c07_v() { item_rules(7, true) }
#[no_mangle] #[inline(never)] fn c07_f() { symbols_of(named(3), 2) }
#[no_mangle] #[inline(never)] fn c07_g() { lexer_rules_of(named(3)) }
#[no_mangle] #[inline(never)] fn c07_h() { symbols_of(many(12), 3) }
#[no_mangle] #[inline(never)] fn c07_k() { lexer_rules_of(many(12)) }
#[no_mangle] #[inline(never)] fn c07_w() { symbols_of(named(4), 2) }
fn main() { entry(&[("c07_o", c07_o), ("c07_p", c07_p), ("c07_f", c07_f), ("c07_g", c07_g), ("c07_h", c07_h), ("c07_k", c07_k), ("c07_w", c07_w), ("c07_a", c07_a), ("c07_b", c07_b), ("c07_c", c07_c), ("c07_d", c07_d), ("c07_l", c07_l), ("c07_m", c07_m), ("c07_t", c07_t), ("c07_e", c07_e), ("c07_i", c07_i), ("c07_j", c07_j), ("c07_n", c07_n), ("c07_u", c07_u), ("c07_v", c07_v)]) }
