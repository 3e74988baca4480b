// Syntax trees of grammar files, as the bootstrap parser numbers them, and the languages they denote.
use crate::tree::*;
use syntaxis::runtime::ast::{ast_context::ASTContext, rule_context::RuleContext};
use syntaxis::tool::syntaxis::{syntaxis_lexer::SyntaxisLexer as L, syntaxis_parser::SyntaxisParser as P};

fn t(ty: usize, name: &str, text: &str) -> ASTContext { term(tok(ty, name, text, 0)) }
#[derive(Clone)]
pub enum Base { Tok(u8), Lit(u8), Rule(u8), Block(Vec<Vec<El>>) }
#[derive(Clone)]
pub struct El { pub b: Base, pub suffix: u8, pub lazy: bool }
pub fn el(b: Base) -> El { El { b, suffix: 0, lazy: false } }
pub const TOK: [&str; 40] = ["TA", "TB", "TC", "TD", "TE", "TF", "TG", "TH", "TI", "TJ", "TK", "TL", "TM", "TN", "TO", "TP", "TQ", "TR", "TS", "TT", "TU", "TV", "TW", "TX", "TY", "TZ", "TAA", "TAB", "TAC", "TAD", "TAE", "TAF", "TAG", "TAH", "TAI", "TAJ", "TAK", "TAL", "TAM", "TAN"];
pub const LIT: [&str; 4] = ["'x'", "'y'", "'if'", "'=='"];
pub const RULE: [&str; 40] = ["ra", "rb", "rc", "rd", "re", "rf", "rg", "rh", "ri", "rj", "rk", "rl", "rm", "rn", "ro", "rp", "rq", "rr", "rs", "rt", "ru", "rv", "rw", "rx", "ry", "rz", "raa", "rab", "rac", "rad", "rae", "raf", "rag", "rah", "rai", "raj", "rak", "ral", "ram", "ran"];

fn block(alts: &[Vec<El>]) -> ASTContext {
    let mut ch = vec![];
    for (i, a) in alts.iter().enumerate() {
        if i > 0 { ch.push(t(L::OR, "OR", "|")); }
        let els = if a.is_empty() { vec![sub("epsilon", P::EPSILON, vec![t(L::EPSILON, "EPSILON", "ε")])] } else { a.iter().map(element).collect() };
        ch.push(sub("alternative", P::ALTERNATIVE, els));
    }
    sub("block", P::BLOCK, ch)
}
fn element(e: &El) -> ASTContext {
    let mut ch = match &e.b {
        Base::Tok(i) => vec![t(L::TOKEN_REF, "TOKEN_REF", TOK[*i as usize])],
        Base::Lit(i) => vec![t(L::STRING_LITERAL, "STRING_LITERAL", LIT[*i as usize])],
        Base::Rule(i) => vec![t(L::RULE_REF, "RULE_REF", RULE[*i as usize])],
        Base::Block(b) => vec![t(L::LPAREN, "LPAREN", "("), block(b), t(L::RPAREN, "RPAREN", ")")],
    };
    if e.suffix > 0 {
        let mut s = vec![match e.suffix { 1 => t(L::STAR, "STAR", "*"), 2 => t(L::PLUS, "PLUS", "+"), _ => t(L::QUESTION, "QUESTION", "?") }];
        if e.lazy { s.push(t(L::QUESTION, "QUESTION", "?")); }
        ch.push(sub("ebnf_suffix", P::EBNF_SUFFIX, s));
    }
    sub("element", P::ELEMENT, ch)
}
pub fn parser_rule(name: &str, alts: &[Vec<El>]) -> ASTContext {
    sub("parser_rule", P::PARSER_RULE, vec![t(L::RULE_REF, "RULE_REF", name), t(L::COLON, "COLON", ":"), block(alts), t(L::SEMI, "SEMI", ";")])
}
pub fn lexer_rule(name: &str, re: &str) -> ASTContext {
    sub("lexer_rule", P::LEXER_RULE, vec![t(L::TOKEN_REF, "TOKEN_REF", name), t(L::COLON, "COLON", ":"), sub("regular", P::REGULAR, vec![t(L::REGULAR_LITERAL, "REGULAR_LITERAL", re)]), t(L::SEMI, "SEMI", ";")])
}
pub fn rule_list(rules: Vec<ASTContext>) -> RuleContext { rule("rule_list", P::RULE_LIST, rules) }

/// sets of words over two letters, of length <= MAX: the word of length k and bits b is bit 2^k - 1 + b
pub const MAX: u32 = 3;
pub const EPS: u32 = 1;
pub fn letter(i: u8) -> u32 { 1 << (1 + i) }
pub fn concat(a: u32, b: u32) -> u32 {
    let mut r = 0;
    let mut k1 = 0;
    while k1 <= MAX {
        let mut b1 = 0;
        while b1 < (1 << k1) {
            if a >> ((1 << k1) - 1 + b1) & 1 == 1 {
                let mut k2 = 0;
                while k1 + k2 <= MAX {
                    let blk = (b >> ((1 << k2) - 1)) & (((1u64 << (1u32 << k2)) - 1) as u32);
                    r |= blk << ((1u32 << (k1 + k2)) - 1 + (b1 << k2));
                    k2 += 1;
                }
            }
            b1 += 1;
        }
        k1 += 1;
    }
    r
}
/// the language, token i standing for `l4(i)` and literal i for `l4(2 + i)`
pub fn lang_by(alts: &[Vec<El>], rules: &[u32], l4: &dyn Fn(usize) -> u32) -> u32 {
    let mut r = 0;
    for a in alts { let mut l = EPS; for e in a { l = concat(l, lang_el(e, rules, l4)); } r |= l; }
    r
}
fn lang_el(e: &El, rules: &[u32], l4: &dyn Fn(usize) -> u32) -> u32 {
    let l = match &e.b { Base::Tok(i) => l4(*i as usize), Base::Lit(i) => l4(2 + *i as usize), Base::Rule(i) => rules[*i as usize], Base::Block(b) => lang_by(b, rules, l4) };
    match e.suffix {
        0 => l,
        3 => l | EPS,
        s => { let mut r = if s == 1 { EPS } else { l }; for _ in 0..MAX + 1 { r |= concat(r, l); } r }
    }
}
pub fn lang(alts: &[Vec<El>], rules: &[u32]) -> u32 { lang_by(alts, rules, &|i| letter(i as u8 & 1)) }
/// the same trees from ready-made elements
pub fn block_of(alts: Vec<Vec<ASTContext>>) -> ASTContext {
    let mut ch = vec![];
    for (i, a) in alts.into_iter().enumerate() { if i > 0 { ch.push(t(L::OR, "OR", "|")); } ch.push(sub("alternative", P::ALTERNATIVE, a)); }
    sub("block", P::BLOCK, ch)
}
pub fn literal_element(text: &str, suffix: u8) -> ASTContext { with_suffix(vec![t(L::STRING_LITERAL, "STRING_LITERAL", text)], suffix) }
pub fn group(b: ASTContext, suffix: u8) -> ASTContext { with_suffix(vec![t(L::LPAREN, "LPAREN", "("), b, t(L::RPAREN, "RPAREN", ")")], suffix) }
fn with_suffix(mut ch: Vec<ASTContext>, s: u8) -> ASTContext {
    if s > 0 { ch.push(sub("ebnf_suffix", P::EBNF_SUFFIX, vec![match s { 1 => t(L::STAR, "STAR", "*"), 2 => t(L::PLUS, "PLUS", "+"), _ => t(L::QUESTION, "QUESTION", "?") }])); }
    sub("element", P::ELEMENT, ch)
}
pub fn rule_of(name: &str, b: ASTContext) -> ASTContext { sub("parser_rule", P::PARSER_RULE, vec![t(L::RULE_REF, "RULE_REF", name), t(L::COLON, "COLON", ":"), b, t(L::SEMI, "SEMI", ";")]) }
