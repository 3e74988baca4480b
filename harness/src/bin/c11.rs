//! C11: the typed views of grammar-notation trees, bootstrap and v1.
#[path = "../tree.rs"] #[allow(dead_code)] mod tree;
use std::rc::Rc;
use tree::*;
use symrt::*;
use syntaxis::runtime::ast::{ast_context::ASTContext, rule_context::RuleContext, terminal_context::TerminalContext};
use syntaxis::runtime::vocabulary::Vocabulary;
use syntaxis::tool::grammar::{Production, ProductionItem};

/// the address of the i-th direct child of kind k (0 terminal, 2 rule) with number q, 0 if there is none
fn pick(t: &RuleContext, k: u64, q: usize, i: usize) -> usize {
    let mut j = 0;
    for c in t.children.iter() {
        let a = match c { ASTContext::Terminal(x) if k == 0 && x.symbol.token_type == q => x as *const _ as usize, ASTContext::Rule(x) if k == 2 && x.rule_index == q => x as *const _ as usize, _ => 0 };
        if a != 0 { if j == i { return a; } j += 1; }
    }
    0
}
fn t1(x: Option<&TerminalContext>) -> usize { x.map(|x| x as *const _ as usize).unwrap_or(0) }
fn tn(x: Vec<&TerminalContext>, t: &RuleContext, q: usize) -> bool { let mut ok = true; for (i, x) in x.iter().enumerate() { ok &= pick(t, 0, q, i) == *x as *const _ as usize; } ok && pick(t, 0, q, x.len()) == 0 }
macro_rules! r1 { ($x:expr) => { $x.map(|x| x.as_rule() as *const _ as usize).unwrap_or(0) } }
macro_rules! rn { ($x:expr, $t:expr, $q:expr) => {{ let x = $x; let mut ok = true; for (i, x) in x.iter().enumerate() { ok &= pick($t, 2, $q, i) == x.as_rule() as *const _ as usize; } ok && pick($t, 2, $q, x.len()) == 0 }} }

/// token numbers
struct N { rule_ref: usize, token_ref: usize, colon: usize, or: usize, semi: usize, star: usize, plus: usize, question: usize, lparen: usize, rparen: usize, string: usize, regular: usize, epsilon: usize }
const B: N = N { rule_ref: 7, token_ref: 6, colon: 8, or: 9, semi: 10, star: 11, plus: 12, question: 13, lparen: 16, rparen: 17, string: 19, regular: 21, epsilon: 22 };
const V: N = N { rule_ref: 2, token_ref: 3, colon: 4, semi: 5, or: 6, epsilon: 7, star: 8, plus: 9, question: 10, lparen: 11, rparen: 12, string: 13, regular: 14 };

macro_rules! views { ($f:ident, $m:path, $n:expr) => { fn $f(t: &RuleContext, which: u64) {
    use $m::*;
    let n = $n;
    let one = |q: usize| pick(t, 0, q, 0);
    let rule = |q: usize| pick(t, 2, q, 0);
    match which {
        0 => { let v = t as &dyn RuleListContext; check(rn!(v.parser_rule_list(), t, 1), "view-list"); check(rn!(v.lexer_rule_list(), t, 7), "view-list"); check(std::ptr::eq(v.as_rule(), t), "view-rule"); }
        1 => { let v = t as &dyn ParserRuleContext; check(t1(v.rule_ref()) == one(n.rule_ref), "view-terminal"); check(t1(v.colon()) == one(n.colon), "view-terminal"); check(t1(v.semi()) == one(n.semi), "view-terminal"); check(r1!(v.block()) == rule(2), "view-child"); check(std::ptr::eq(v.as_rule(), t), "view-rule"); }
        2 => { let v = t as &dyn BlockContext; check(rn!(v.alternative_list(), t, 3), "view-list"); check(tn(v.or_list(), t, n.or), "view-terminals"); check(std::ptr::eq(v.as_rule(), t), "view-rule"); }
        3 => { let v = t as &dyn AlternativeContext; check(rn!(v.element_list(), t, 5), "view-list"); check(r1!(v.epsilon()) == rule(4), "view-child"); check(std::ptr::eq(v.as_rule(), t), "view-rule"); }
        4 => { let v = t as &dyn EpsilonContext; check(t1(v.epsilon()) == one(n.epsilon), "view-terminal"); check(std::ptr::eq(v.as_rule(), t), "view-rule"); }
        5 => { let v = t as &dyn ElementContext; check(t1(v.token_ref()) == one(n.token_ref), "view-terminal"); check(t1(v.string_literal()) == one(n.string), "view-terminal"); check(t1(v.rule_ref()) == one(n.rule_ref), "view-terminal"); check(t1(v.lparen()) == one(n.lparen), "view-terminal"); check(t1(v.rparen()) == one(n.rparen), "view-terminal"); check(r1!(v.block()) == rule(2), "view-child"); check(r1!(v.ebnf_suffix()) == rule(6), "view-child"); check(std::ptr::eq(v.as_rule(), t), "view-rule"); }
        6 => { let v = t as &dyn EbnfSuffixContext; check(t1(v.star()) == one(n.star), "view-terminal"); check(t1(v.plus()) == one(n.plus), "view-terminal"); check(tn(v.question_list(), t, n.question), "view-terminals"); check(std::ptr::eq(v.as_rule(), t), "view-rule"); }
        7 => { let v = t as &dyn LexerRuleContext; check(t1(v.token_ref()) == one(n.token_ref), "view-terminal"); check(t1(v.colon()) == one(n.colon), "view-terminal"); check(t1(v.semi()) == one(n.semi), "view-terminal"); check(r1!(v.regular()) == rule(8), "view-child"); check(std::ptr::eq(v.as_rule(), t), "view-rule"); }
        _ => { let v = t as &dyn RegularContext; check(t1(v.regular_literal()) == one(n.regular), "view-terminal"); check(std::ptr::eq(v.as_rule(), t), "view-rule"); }
    }
} } }
views!(boot, syntaxis::tool::syntaxis::syntaxis_context, B);
views!(v1, syntaxis::tool::v1::syntaxis_context, V);

fn any(n: usize, f: fn(&RuleContext, u64)) {
    let which = conc(bits(4)); assume(which < 9);
    let bare = conc(bits(1)) == 1;
    let mut ch = Vec::new();
    for i in 0..n {
        let k = conc(bits(2)); assume(k < 3);
        let ty = bits(64) as usize;
        ch.push(match k { 0 => term(any_tok(ty, bits(64) as usize)), 1 => error(any_tok(ty, bits(64) as usize)), _ if bare => sub("", ty, vec![]), _ => sub("q", ty, vec![term(tok(ty, "T", "x", 50 + i)), sub("d", ty, vec![])]) });
    }
    let t = rule("r", bits(64) as usize, ch);
    f(&t, which);
    observe(which);
}
/// up to 10 children, of one number or the next, kinds in turn
fn large(f: fn(&RuleContext, u64), sizes: &[usize]) {
    let (which, n, ty, off) = (upto(9), if sizes.is_empty() { upto(11) } else { sizes[upto(sizes.len())] }, upto(23), upto(4));
    let mut ch = Vec::new();
    for i in 0..n {
        let q = if i % 4 == 3 { ty + 1 } else { ty };
        ch.push(match (off + i) % 4 { 0 | 1 if off != 3 => term(tok(q, "T", "x", i)), 2 if i % 3 == 1 => error(tok(q, "T", "x", i)), _ => sub("q", q, vec![term(tok(q, "T", "x", 50 + i)), sub("d", q, vec![])]) });
    }
    let t = rule("r", bits(64) as usize, ch);
    f(&t, which as u64);
    observe(n as u64);
}
/// the views the v1 parser's typed entry points hand out, on trees of v1 tokens (types any)
fn typed(n: usize) {
    use syntaxis::tool::v1::syntaxis_parser::SyntaxisParser as P;
    let which = conc(bits(4)) as usize; assume(which < 9);
    let mut toks = Vec::new(); let mut prod = Production::new(which, &vec![]); let mut voc = Vocabulary::new();
    for i in 0..9 { voc.add_named_nonterminal(i, &"abcdefghi"[i..i + 1]); }
    for i in 0..n { let t = 2 + conc(bits(4)) as usize; assume(t < 16); toks.push(tok(t, "T", "x", i)); prod.right.push(ProductionItem::Terminal(t)); }
    voc.add_terminal(0, "S");
    toks.push(tok(1, "_STOP", "", n));
    let key = (which, toks[0].token_type);
    for t in 1..16 { voc.add_terminal(t, &"ABCDEFGHIJKLMNOP"[t..t + 1]); }
    let types: Vec<usize> = toks.iter().take(n).map(|t| t.token_type).collect();
    let mut p = P::new(toks, Default::default(), voc);
    p.table.insert(key, Rc::new(prod));
    // the token_index + 1 of the i-th token of a type
    let nth = |q: usize, i: usize| types.iter().enumerate().filter(|(_, t)| **t == q).nth(i).map(|(k, _)| k + 1).unwrap_or(0);
    let ix = |x: Option<&TerminalContext>| x.map(|x| x.symbol.token_index + 1).unwrap_or(0);
    let all = |x: Vec<&TerminalContext>, q: usize| { let mut ok = true; for (i, x) in x.iter().enumerate() { ok &= nth(q, i) == x.symbol.token_index + 1; } ok && nth(q, x.len()) == 0 };
    const G: &str = "entry-view";
    match which {
        0 => { let v = p.rule_list(); check(v.parser_rule_list().is_empty() && v.lexer_rule_list().is_empty(), G); check(v.as_rule().children.len() == n, G); }
        1 => { let v = p.parser_rule(); check(ix(v.rule_ref()) == nth(V.rule_ref, 0), G); check(ix(v.colon()) == nth(V.colon, 0), G); check(ix(v.semi()) == nth(V.semi, 0), G); check(v.block().is_none(), G); }
        2 => { let v = p.block(); check(all(v.or_list(), V.or), G); check(v.alternative_list().is_empty(), G); }
        3 => { let v = p.alternative(); check(v.element_list().is_empty() && v.epsilon().is_none(), G); check(v.as_rule().children.len() == n, G); }
        4 => { let v = p.epsilon(); check(ix(v.epsilon()) == nth(V.epsilon, 0), G); }
        5 => { let v = p.element(); check(ix(v.token_ref()) == nth(V.token_ref, 0), G); check(ix(v.string_literal()) == nth(V.string, 0), G); check(ix(v.rule_ref()) == nth(V.rule_ref, 0), G); check(ix(v.lparen()) == nth(V.lparen, 0), G); check(ix(v.rparen()) == nth(V.rparen, 0), G); }
        6 => { let v = p.ebnf_suffix(); check(ix(v.star()) == nth(V.star, 0), G); check(ix(v.plus()) == nth(V.plus, 0), G); check(all(v.question_list(), V.question), G); }
        7 => { let v = p.lexer_rule(); check(ix(v.token_ref()) == nth(V.token_ref, 0), G); check(ix(v.colon()) == nth(V.colon, 0), G); check(ix(v.semi()) == nth(V.semi, 0), G); check(v.regular().is_none(), G); }
        _ => { let v = p.regular(); check(ix(v.regular_literal()) == nth(V.regular, 0), G); }
    }
}
/// the rule numbers the constants give
fn consts() {
    use syntaxis::tool::syntaxis::syntaxis_parser::SyntaxisParser as Q;
    use syntaxis::tool::v1::syntaxis_parser::SyntaxisParser as P;
    let a = [P::RULE_LIST, P::PARSER_RULE, P::BLOCK, P::ALTERNATIVE, P::EPSILON, P::ELEMENT, P::EBNF_SUFFIX, P::LEXER_RULE, P::REGULAR];
    let b = [Q::RULE_LIST, Q::PARSER_RULE, Q::BLOCK, Q::ALTERNATIVE, Q::EPSILON, Q::ELEMENT, Q::EBNF_SUFFIX, Q::LEXER_RULE, Q::REGULAR];
    for i in 0..9 { check(a[i] == i && b[i] == i, "rule-constants"); }
}
#[no_mangle] #[inline(never)] fn c11_k() { consts() }
#[no_mangle] #[inline(never)] fn c11_a() { any(2, boot) }
#[no_mangle] #[inline(never)] fn c11_b() { any(2, v1) }
#[no_mangle] #[inline(never)] fn c11_c() { any(3, boot) }
#[no_mangle] #[inline(never)] fn c11_d() { any(3, v1) }
#[no_mangle] #[inline(never)] fn c11_e() { typed(2) }
#[no_mangle] #[inline(never)] fn c11_s() { any(4, boot) }
#[no_mangle] #[inline(never)] fn c11_t() { any(4, v1) }
#[no_mangle] #[inline(never)] fn c11_u() { typed(3) }
#[no_mangle] #[inline(never)] fn c11_f() { large(boot, &[]) }
#[no_mangle] #[inline(never)] fn c11_g() { large(v1, &[]) }
#[no_mangle] #[inline(never)] fn c11_h() { large(boot, &[40, 270]) }
#[no_mangle] #[inline(never)] fn c11_i() { large(v1, &[40, 270]) }
fn main() { entry(&[("c11_h", c11_h), ("c11_i", c11_i), ("c11_f", c11_f), ("c11_g", c11_g), ("c11_k", c11_k), ("c11_a", c11_a), ("c11_b", c11_b), ("c11_c", c11_c), ("c11_d", c11_d), ("c11_e", c11_e), ("c11_s", c11_s), ("c11_t", c11_t), ("c11_u", c11_u)]) }
