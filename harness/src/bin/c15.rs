//! C15: the token rule collected for a string literal matches exactly the string the literal denotes.
#[path = "../tree.rs"] #[allow(dead_code)] mod tree;
#[path = "../ebnf.rs"] #[allow(dead_code)] mod ebnf;
use tree::*;
use ebnf::*;
use symrt::*;
use regex::Regex;
use syntaxis::runtime::ast::{ast_context::ASTContext, rule_context::RuleContext};
use syntaxis::tool::syntaxis::syntaxis_visitor::SyntaxisVisitor;
use syntaxis::tool::syntaxis::syntaxis_context::RuleListContext;
use syntaxis::tool::grammar::{Grammar, ProductionItem};
use syntaxis::tool::visitor::grammar_visitor::{StringLiteralToTokenVisitor, SymbolVisitor, ProductionVisitor};
use syntaxis::tool::visitor::lexer_rule_visitor::StringLiteralVisitor;

/// one item of a literal: its spelling is appended to `out`, what it denotes to `den`
fn item(out: &mut Vec<u8>, den: &mut Vec<u8>, esc: bool) {
    let k = if esc { conc(bits(4)) as usize } else { 15 }; assume(k < 12 || k == 15);
    const E: [(&str, &str); 12] = [("\\n", "\n"), ("\\t", "\t"), ("\\r", "\r"), ("\\\\", "\\"), ("\\'", "'"), ("\\f", "\x0c"), ("\\v", "\x0b"), ("\\a", "\x07"), ("\\u{41}", "A"), ("\\u{0x2b}", "+"), ("é", "é"), ("\\u{3bb}", "λ")];
    if k < 12 { out.extend(E[k].0.bytes()); den.extend(E[k].1.bytes()); }
    else { let c = bits(7) as u8; assume(c >= 32 && c < 127 && c != b'\'' && c != b'\\'); out.push(c); den.push(c); }
}
fn s(v: Vec<u8>) -> String { unsafe { String::from_utf8_unchecked(v) } }
fn literal(n: usize, esc: bool) -> (String, Vec<u8>) {
    let (mut o, mut d) = (vec![b'\''], Vec::new());
    for _ in 0..n { item(&mut o, &mut d, esc); }
    o.push(b'\'');
    (s(o), d)
}
fn probe(re: &str, den: &[u8], input: &str) {
    let r = match Regex::new(re) { Ok(r) => r, Err(_) => { check(false, "literal-regex"); return } };
    let b = input.as_bytes();
    let mut starts = b.len() >= den.len();
    if starts { for (x, y) in den.iter().zip(b) { starts &= x == y; } }
    match r.find(input) { Some(m) => check(starts && m.start() == 0 && m.end() == den.len(), "literal-match"), None => check(!starts, "literal-no-match") }
}
/// what the literal denotes is matched whole, and so is it with any m characters behind it
fn itself(n: usize, esc: bool, m: usize) {
    let (l, den) = literal(n, esc);
    let t = rule("element", 5, vec![term(tok(19, "STRING_LITERAL", &l, 0))]);
    let mut v = StringLiteralVisitor::new();
    v.visit(&t);
    check(v.data.len() == 1, "literal-rule");
    let mut i = den.clone(); for _ in 0..m { let c = bits(7) as u8; i.push(c); }
    probe(&v.data[0].regex, &den, &s(i));
    observe(den.len() as u64);
}
/// any other input of m ASCII characters
fn other(n: usize, esc: bool, m: usize) {
    let (l, den) = literal(n, esc);
    let t = rule("element", 5, vec![term(tok(19, "STRING_LITERAL", &l, 0))]);
    let mut v = StringLiteralVisitor::new();
    v.visit(&t);
    check(v.data.len() == 1, "literal-rule");
    let mut i = Vec::new(); for _ in 0..m { let c = bits(7) as u8; i.push(c); }
    probe(&v.data[0].regex, &den, &s(i));
}
/// a tree of n terminals, any of them a literal: one rule per distinct literal, numbered in order from 2
fn any(c: u8) -> bool { (c >= 32) & (c < 127) & (c != b'\'') & (c != b'\\') }
fn few(c: u8) -> bool { (c == b'a') | (c == b'A') | (c == b'b') | (c == b'1') | (c == b'+') }
fn collect(n: usize, f: fn(u8) -> bool) {
    let mut ch = Vec::new(); let mut want: Vec<u8> = Vec::new();
    for _ in 0..n {
        let ty = bits(64) as usize;
        let c = bits(7) as u8; assume(f(c));
        let x = term(tok(ty, "T", &s(vec![b'\'', c, b'\'']), 0));
        ch.push(match conc(bits(2)) { 0 => x, 1 => sub("q", 5, vec![x]), 2 => { if let ASTContext::Terminal(t) = x { error(t.symbol) } else { x } } _ => sub("d", 77, vec![sub("q", 2, vec![]), x]) });
        let err = matches!(ch.last(), Some(ASTContext::Error(_)));
        if !err && ty == 19 && !want.contains(&c) { want.push(c); }
    }
    let t: RuleContext = rule("r", 0, ch);
    let mut v = StringLiteralVisitor::new();
    v.visit(&t);
    check(v.data.len() == want.len() && v.next_token_type == 2 + want.len(), "literals-count");
    for (k, d) in v.data.iter().enumerate() {
        check(d.token_type == 2 + k, "literals-number");
        check(d.token_name == ["T_2", "T_3", "T_4"][k], "literals-name");
        probe(&d.regex, &[want[k]], &s(vec![want[k]]));
    }
    observe(want.len() as u64);
}
/// n literals of m characters each: one rule per distinct one, in order, each matching its own literal
fn distinct(n: usize, m: usize, f: fn(u8) -> bool) {
    let mut ch = Vec::new(); let mut want: Vec<Vec<u8>> = Vec::new();
    for _ in 0..n {
        let mut w = Vec::new();
        for _ in 0..m { let c = bits(7) as u8; assume(f(c)); w.push(c); }
        let mut l = vec![b'\'']; l.extend(w.iter()); l.push(b'\'');
        ch.push(term(tok(19, "STRING_LITERAL", &s(l), 0)));
        if !want.contains(&w) { want.push(w); }
    }
    let mut v = StringLiteralVisitor::new();
    v.visit(&rule("element", 5, ch));
    check(v.data.len() == want.len() && v.next_token_type == 2 + want.len(), "literals-count");
    for (k, d) in v.data.iter().enumerate() {
        check(d.token_type == 2 + k, "literals-number");
        probe(&d.regex, &want[k], &s(want[k].clone()));
    }
    observe(want.len() as u64);
}
/// literals that are all different, and alike
const ALIKE: [(&str, &str); 32] = [("''", ""), ("' '", " "), ("'  '", "  "), ("'a'", "a"), ("'A'", "A"), ("'a '", "a "), ("' a'", " a"), ("'aa'", "aa"), ("'a a'", "a a"), ("'ab'", "ab"), ("'ba'", "ba"), ("'abc'", "abc"), ("'\\n'", "\n"), ("'n'", "n"), ("'\\\\n'", "\\n"), ("'\\\\'", "\\"),
    ("'\\''", "'"), ("'/'", "/"), ("'.'", "."), ("'a.'", "a."), ("'a*'", "a*"), ("'^a'", "^a"), ("'(a)'", "(a)"), ("'[a]'", "[a]"), ("'a|b'", "a|b"), ("'é'", "é"), ("'e\u{301}'", "e\u{301}"), ("'\\u{e8}'", "è"), ("'u{61}'", "u{61}"), ("'T_2'", "T_2"), ("'_STOP'", "_STOP"), ("'1'", "1")];
fn alike() {
    let (a, b) = (upto(32), upto(32));
    let mut ch = Vec::new();
    for k in [a, b, a] { ch.push(sub("element", 5, vec![term(tok(19, "STRING_LITERAL", ALIKE[k].0, 0))])); }
    let mut v = StringLiteralVisitor::new();
    v.visit(&rule("alternative", 3, ch));
    let want = if a == b { vec![a] } else { vec![a, b] };
    check(v.data.len() == want.len() && v.next_token_type == 2 + want.len(), "literals-count");
    for (d, k) in v.data.iter().zip(&want) { probe(&d.regex, ALIKE[*k].1.as_bytes(), ALIKE[*k].1); }
}
/// literals at any two of several places of a grammar of two rules: their tokens, and the productions' use of them
fn places(few: bool) {
    const FEW: [usize; 6] = [1, 2, 3, 4, 25, 12];
    let (a, b) = if few { (FEW[upto(6)], FEW[upto(6)]) } else { (upto(32), upto(32)) };
    let (p, q) = (upto(8), upto(8)); assume(p != q);
    let suffix = (p % 4) as u8;
    let mut n = 0;
    let mut at = |els: &mut Vec<ASTContext>| { if n == p { els.push(literal_element(ALIKE[a].0, suffix)); } if n == q { els.push(literal_element(ALIKE[b].0, 0)); } n += 1; };
    let tk = || sub("element", 5, vec![term(tok(6, "TOKEN_REF", "TA", 0))]);
    let (mut e0, mut e1, mut e2, mut e3, mut e4, mut e5) = (vec![], vec![tk()], vec![tk()], vec![], vec![tk()], vec![]);
    at(&mut e0); at(&mut e1); at(&mut e2);
    e2.push(group(block_of(vec![{ at(&mut e3); e3.push(tk()); at(&mut e3); e3 }, { e4.push(group(block_of(vec![{ at(&mut e5); e5.push(tk()); e5 }]), 1)); e4 }]), 2));
    at(&mut e2);
    if e0.is_empty() { e0.push(tk()); }
    let a2 = { let mut e = vec![tk()]; at(&mut e); e };
    let ast = rule_list(vec![rule_of("ra", block_of(vec![e0, e1, e2])), lexer_rule("TA", "/a/"), rule_of("rb", block_of(vec![a2]))]);
    let first = 2 + 3 * (q % 2);
    let mut g = Grammar::new("g");
    let (data, nt) = { let mut v = StringLiteralToTokenVisitor::new(&mut g, first); RuleListContext::accept(&ast, &mut v); (v.data, v.next_token_id) };
    // in order of appearance
    let (x, y) = if p < q { (a, b) } else { (b, a) };
    let want = if x == y { vec![x] } else { vec![x, y] };
    check(nt == first + want.len() && data.len() == want.len(), "grammar-literals");
    for (i, k) in want.iter().enumerate() {
        check(data[i].token_type == first + i, "grammar-literals");
        check(data[i].token_name.len() > 0 && data.iter().filter(|d| d.token_name == data[i].token_name).count() == 1 && data[i].token_name != "TA", "grammar-literals");
        check(g.vocabulary.get_terminal_id_by_name(ALIKE[*k].0) == Some(first + i) && g.vocabulary.get_terminal_name_by_id(first + i).as_deref() == Some(ALIKE[*k].0), "grammar-literals");
        probe(&data[i].regex, ALIKE[*k].1.as_bytes(), ALIKE[*k].1);
    }
    let (data, nt, nr) = { let mut v = SymbolVisitor::new(&mut g, nt, 0, data); RuleListContext::accept(&ast, &mut v); (v.data, v.next_token_id, v.next_rule_id) };
    check(nt == first + want.len() + 1 && data.len() == want.len() + 1 && nr == 2, "grammar-literals-tokens");
    { let mut v = ProductionVisitor::new(&mut g, nr); RuleListContext::accept(&ast, &mut v); }
    for i in 0..want.len() { check(g.productions.iter().any(|p| p.right.contains(&ProductionItem::Terminal(first + i))), "grammar-literals-productions"); }
    check(g.productions.iter().all(|p| p.right.iter().all(|i| match i { ProductionItem::Terminal(t) => *t >= first && *t <= first + want.len(), _ => true })), "grammar-literals-productions");
    observe(data.len() as u64);
}
/// the grammar's rule for a literal, as `itself`
fn grammar_itself(n: usize, m: usize) {
    let (l, den) = literal(n, true);
    let ast = rule_list(vec![rule_of("ra", block_of(vec![vec![literal_element(&l, 0)]]))]);
    let mut g = Grammar::new("g");
    let data = { let mut v = StringLiteralToTokenVisitor::new(&mut g, 2); RuleListContext::accept(&ast, &mut v); v.data };
    check(data.len() == 1, "literal-rule");
    let mut i = den.clone(); for _ in 0..m { let c = bits(7) as u8; i.push(c); }
    probe(&data[0].regex, &den, &s(i));
}
/// the whole pipeline on grammars with literals: `n` elements, each a literal, a token, or a block around two of them
fn pipeline(n: usize, nest: u32) {
    let mut lits: Vec<u8> = Vec::new();
    let mut els = Vec::new(); let mut want: Vec<Vec<u8>> = Vec::new();
    fn atom(lits: &mut Vec<u8>, w: &mut Vec<u8>) -> El {
        let k = conc(bits(2)) as u8;
        let e = el(if k < 2 { Base::Lit(k) } else { Base::Tok(k - 2) });
        if k < 2 && !lits.contains(&k) { lits.push(k); }
        w.push(k);
        e
    }
    for _ in 0..n {
        let mut w = Vec::new();
        let mut e = atom(&mut lits, &mut w);
        if conc(bits(1)) == 1 {
            let f = atom(&mut lits, &mut w);
            e = el(Base::Block(vec![vec![e], vec![f]]));
            for _ in 1..nest { e = el(Base::Block(vec![vec![e]])); }
            e.suffix = conc(bits(2)) as u8;
        }
        els.push(e); want.push(w);
    }
    let a = rule_list(vec![parser_rule("ra", &[els]), lexer_rule("TA", "/a/"), lexer_rule("TB", "/b/")]);
    let mut g = Grammar::new("g");
    let (data, nt) = { let mut v = StringLiteralToTokenVisitor::new(&mut g, 2); RuleListContext::accept(&a, &mut v); (v.data, v.next_token_id) };
    check(nt == 2 + lits.len() && data.len() == lits.len(), "grammar-literals");
    for (i, l) in lits.iter().enumerate() {
        check(data[i].token_type == 2 + i, "grammar-literals");
        check(g.vocabulary.get_terminal_id_by_name(LIT[*l as usize]) == Some(2 + i), "grammar-literals");
        let t = ["x", "y"][*l as usize];
        probe(&data[i].regex, t.as_bytes(), t);
    }
    let (data, nt, nr) = { let mut v = SymbolVisitor::new(&mut g, nt, 0, data); RuleListContext::accept(&a, &mut v); (v.data, v.next_token_id, v.next_rule_id) };
    check(nt == 4 + lits.len() && data.len() == 2 + lits.len() && nr == 1, "grammar-literals-tokens");
    { let mut v = ProductionVisitor::new(&mut g, nr); RuleListContext::accept(&a, &mut v); }
    let id = |k: u8| if k < 2 { 2 + lits.iter().position(|l| *l == k).unwrap() } else { 2 + lits.len() + k as usize - 2 };
    // the first word of the rule's language: the first symbol of every element
    let p: Vec<_> = g.productions.iter().filter(|p| p.left == 0).collect();
    check(p.len() == 1 && p[0].right.len() == n, "grammar-literals-productions");
    for (it, w) in p[0].right.iter().zip(&want) {
        if w.len() == 1 { check(*it == ProductionItem::Terminal(id(w[0])), "grammar-literals-productions"); }
        else { check(matches!(it, ProductionItem::NonTerminal(_)), "grammar-literals-productions"); }
    }
    let mut used = 0u64; let mut all = 0u64;
    for p in g.productions.iter() { for i in p.right.iter() { if let ProductionItem::Terminal(t) = i { check(*t < 6, "grammar-literals-productions"); used |= 1 << *t; } } }
    for w in &want { for k in w { all |= 1 << id(*k); } }
    check(used == all, "grammar-literals-productions");
    observe(used);
}
/// long literals: any of 12 pieces 4, 12 or 40 times, any printable character or escape, the piece again
fn long(grammar: bool) {
    const P: [(&str, &str); 12] = [("a", "a"), ("ab ", "ab "), ("é", "é"), ("\\n", "\n"), ("\\\\", "\\"), ("\\'", "'"), ("+", "+"), ("(.)", "(.)"), ("\\u{1f600}", "\u{1f600}"), ("\\u{0x41}", "A"), ("/", "/"), ("{2}", "{2}")];
    let p = P[upto(12)];
    let n = [4, 12, 40][upto(3)];
    let (mut l, mut den) = (vec![b'\''], vec![]);
    for _ in 0..n { l.extend(p.0.bytes()); den.extend(p.1.bytes()); }
    item(&mut l, &mut den, true);
    l.extend(p.0.bytes()); den.extend(p.1.bytes()); l.push(b'\'');
    let l = s(l);
    let regex = if grammar {
        let ast = rule_list(vec![rule_of("ra", block_of(vec![vec![literal_element(&l, 0)]]))]);
        let mut g = Grammar::new("g");
        let data = { let mut v = StringLiteralToTokenVisitor::new(&mut g, 2); RuleListContext::accept(&ast, &mut v); v.data };
        check(data.len() == 1 && g.vocabulary.get_terminal_id_by_name(&l) == Some(2), "literal-rule");
        data[0].regex.clone()
    } else {
        let mut v = StringLiteralVisitor::new();
        v.visit(&rule("element", 5, vec![term(tok(19, "STRING_LITERAL", &l, 0))]));
        check(v.data.len() == 1, "literal-rule");
        v.data[0].regex.clone()
    };
    probe(&regex, &den, &s(den.clone()));
    // one character short, one more
    let k = den.iter().rposition(|b| b & 0xc0 != 0x80).unwrap();
    probe(&regex, &den, &s(den[..k].to_vec()));
    let mut m = den.clone(); m.push(b'a');
    probe(&regex, &den, &s(m));
}
/// 14 literals in a grammar of 14 rules, any of them like any other
fn many() {
    let step = 1 + upto(3);
    let (a, b) = (upto(14), upto(14));
    let text = |i: usize| { let i = if i == a { b } else { i }; (format!("'{}.{}'", i * step, ["a", "é", "\\n", "\\'"][i % 4]), format!("{}.{}", i * step, ["a", "é", "\n", "'"][i % 4])) };
    let mut want: Vec<(String, String)> = vec![];
    let mut rules = vec![];
    for i in 0..14 {
        let t = text(i);
        let e = literal_element(&t.0, (i % 4) as u8);
        let e = if i % 3 == 2 { group(block_of(vec![vec![e], vec![sub("element", 5, vec![term(tok(6, "TOKEN_REF", "TA", 0))])]]), 1) } else { e };
        rules.push(rule_of(&format!("r{}", i), block_of(vec![vec![e]])));
        if !want.contains(&t) { want.push(t); }
    }
    rules.push(lexer_rule("TA", "/a/"));
    let ast = rule_list(rules);
    let mut v = StringLiteralVisitor::new();
    v.visit(&ast);
    check(v.data.len() == want.len() && v.next_token_type == 2 + want.len(), "literals-count");
    for (k, d) in v.data.iter().enumerate() {
        check(d.token_type == 2 + k, "literals-number");
        check(d.token_name == format!("T_{}", 2 + k), "literals-name");
        probe(&d.regex, want[k].1.as_bytes(), &want[k].1);
    }
    let mut g = Grammar::new("g");
    let (data, nt) = { let mut v = StringLiteralToTokenVisitor::new(&mut g, 2); RuleListContext::accept(&ast, &mut v); (v.data, v.next_token_id) };
    check(nt == 2 + want.len() && data.len() == want.len(), "grammar-literals");
    for (i, w) in want.iter().enumerate() {
        check(data[i].token_type == 2 + i && g.vocabulary.get_terminal_id_by_name(&w.0) == Some(2 + i), "grammar-literals");
        check(data.iter().filter(|d| d.token_name == data[i].token_name).count() == 1, "grammar-literals");
        probe(&data[i].regex, w.1.as_bytes(), &w.1);
    }
    let (data, nt, nr) = { let mut v = SymbolVisitor::new(&mut g, nt, 0, data); RuleListContext::accept(&ast, &mut v); (v.data, v.next_token_id, v.next_rule_id) };
    check(nt == 3 + want.len() && data.len() == 1 + want.len() && nr == 14, "grammar-literals-tokens");
    { let mut v = ProductionVisitor::new(&mut g, nr); RuleListContext::accept(&ast, &mut v); }
    for i in 0..want.len() { check(g.productions.iter().any(|p| p.right.contains(&ProductionItem::Terminal(2 + i))), "grammar-literals-productions"); }
    observe(data.len() as u64);
}
#[no_mangle] #[inline(never)] fn c15_aa() { long(false) }
#[no_mangle] #[inline(never)] fn c15_ab() { long(true) }
#[no_mangle] #[inline(never)] fn c15_ac() { many() }
#[no_mangle] #[inline(never)] fn c15_p() { pipeline(2, 1) }
#[no_mangle] #[inline(never)] fn c15_q() { pipeline(2, 2) }
#[no_mangle] #[inline(never)] fn c15_r() { pipeline(3, 1) }
#[no_mangle] #[inline(never)] fn c15_a() { itself(1, true, 1) }
#[no_mangle] #[inline(never)] fn c15_b() { other(1, true, 2) }
#[no_mangle] #[inline(never)] fn c15_c() { itself(2, true, 1) }
#[no_mangle] #[inline(never)] fn c15_d() { other(2, false, 2) }
#[no_mangle] #[inline(never)] fn c15_e() { collect(2, any) }
#[no_mangle] #[inline(never)] fn c15_f() { itself(3, false, 0) }
#[no_mangle] #[inline(never)] fn c15_g() { collect(3, few) }
#[no_mangle] #[inline(never)] fn c15_k() { collect(3, any) }
#[no_mangle] #[inline(never)] fn c15_h() { distinct(2, 2, few) }
#[no_mangle] #[inline(never)] fn c15_j() { distinct(2, 2, any) }
#[no_mangle] #[inline(never)] fn c15_i() { distinct(3, 1, any) }
#[no_mangle] #[inline(never)] fn c15_u() { distinct(2, 3, few) }
#[no_mangle] #[inline(never)] fn c15_v() { distinct(3, 2, few) }
#[no_mangle] #[inline(never)] fn c15_s() { itself(3, true, 0) }
#[no_mangle] #[inline(never)] fn c15_t() { other(3, false, 3) }
#[no_mangle] #[inline(never)] fn c15_l() { alike() }
#[no_mangle] #[inline(never)] fn c15_m() { places(true) }
#[no_mangle] #[inline(never)] fn c15_w() { places(false) }
#[no_mangle] #[inline(never)] fn c15_n() { grammar_itself(1, 1) }
#[no_mangle] #[inline(never)] fn c15_o() { grammar_itself(2, 0) }
fn main() { entry(&[("c15_aa", c15_aa), ("c15_ab", c15_ab), ("c15_ac", c15_ac), ("c15_l", c15_l), ("c15_m", c15_m), ("c15_w", c15_w), ("c15_n", c15_n), ("c15_o", c15_o), ("c15_p", c15_p), ("c15_q", c15_q), ("c15_r", c15_r), ("c15_a", c15_a), ("c15_b", c15_b), ("c15_c", c15_c), ("c15_d", c15_d), ("c15_e", c15_e), ("c15_f", c15_f), ("c15_g", c15_g), ("c15_s", c15_s), ("c15_t", c15_t), ("c15_j", c15_j), ("c15_k", c15_k), ("c15_h", c15_h), ("c15_i", c15_i), ("c15_u", c15_u), ("c15_v", c15_v)]) }
