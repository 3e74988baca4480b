//! C04: predictive parsing rebuilds the derivation tree of every sentence of an LL(1) grammar.
#[path = "../gram.rs"] #[allow(dead_code)] mod gram;
#[path = "../tree.rs"] #[allow(dead_code)] mod tree;
use gram::*;
use symrt::*;
use syntaxis::runtime::ast::{ast_context::ASTContext, rule_context::RuleContext};
use syntaxis::runtime::token::Token;
use syntaxis::tool::grammar::{Grammar, ProductionItem};
use syntaxis::tool::parser::ll1_parser::LL1Parser;
use syntaxis::tool::v1::syntaxis_parser::SyntaxisParser;
use tree::*;

/// a leftmost derivation from nonterminal n with solver-chosen productions: tokens and the expected tree
struct D<'a> { g: &'a G, unnamed: u64, fuel: usize, toks: Vec<Token>, ev: Vec<u64>, maxlen: usize, plan: Option<Vec<usize>> }
impl<'a> D<'a> {
    fn derive(&mut self, n: u64) {
        assume(self.fuel > 0);
        self.fuel -= 1;
        let np = self.g.left.len() as u64;
        let p = match &mut self.plan { Some(v) => { assume(!v.is_empty()); v.remove(0) } None => conc(below(np)) as usize };
        assume(self.g.left[p] == n);
        for i in 0..self.g.item[p].len() {
            let c = conc(self.g.item[p][i]);
            if c < self.g.nn as u64 {
                let open = self.unnamed >> c & 1 == 0;
                if open { self.ev.push(OPEN + c * self.g.ns); }
                self.derive(c);
                if open { self.ev.push(CLOSE); }
            } else {
                assume(self.toks.len() < self.maxlen);
                let k = self.toks.len();
                self.ev.push(k as u64);
                self.toks.push(any_tok(T0 + (c as usize - self.g.nn) * self.g.ts as usize, k));
            }
        }
    }
}
fn compare(r: &RuleContext, want: &[u64], toks: &[Token], unnamed: u64, ns: u64) {
    let mut got = vec![];
    flat(r, &mut got);
    for x in &got { observe(*x); }
    check(got == want, "parse-tree");
    names(r, toks, unnamed, ns);
}
fn names(r: &RuleContext, toks: &[Token], unnamed: u64, ns: u64) {
    let k = r.rule_index / ns as usize;
    if unnamed >> k & 1 == 0 { check(r.rule_name == rname(k), "parse-rule-name"); }
    for c in r.children.iter() {
        match c {
            ASTContext::Rule(r) => names(r, toks, unnamed, ns),
            ASTContext::Terminal(t) => { let k = t.symbol.token_index; check(same_tok(&t.symbol, &toks[k]), "parse-token"); }
            ASTContext::Error(_) => check(false, "parse-error-node"),
        }
    }
}
fn run(nn: usize, nt: usize, lens: &[usize], unnamed: usize, fuel: usize, maxlen: usize, v1: bool) { decide(sym_grammar_u(nn, nt, lens, unnamed), if unnamed < nn { 1 << unnamed } else { 0 }, fuel, maxlen, v1) }
fn decide(g: G, unnamed: u64, fuel: usize, maxlen: usize, v1: bool) { planned(g, unnamed, fuel, maxlen, v1, None) }
/// the derivation taken from a plan, if there is one
fn planned(g: G, unnamed: u64, fuel: usize, maxlen: usize, v1: bool, plan: Option<Vec<usize>>) {
    let mut g = g;
    // LL(1): predict sets of one nonterminal's productions are disjoint, and the productions distinct
    let (nul, f) = g.first();
    let w = g.follow(&nul, &f);
    let pm = g.predict(&nul, &f, &w);
    for a in 0..g.left.len() { for b in 0..a { assume((g.left[a] != g.left[b]) | (pm[a] & pm[b] == 0)); } }
    let mut d = D { g: &g, unnamed, fuel, toks: vec![], ev: vec![OPEN], maxlen, plan };
    d.derive(0);
    d.ev.push(CLOSE);
    let (ev, toks) = (d.ev, d.toks);
    let (fs, fp) = g.g.first_set();
    let fo = g.g.follow_set(&fs);
    let table = g.g.ll1_table(&fp, &fo);
    let mut all = toks.clone();
    let k = all.len();
    all.push(any_tok(1, k));
    let ns = g.ns;
    let gr = std::mem::replace(&mut g.g, Grammar::new("x"));
    let r = if v1 { SyntaxisParser::new(all, table, gr.vocabulary).parse() } else { LL1Parser::new(all, table, gr).parse() };
    compare(&r, &ev, &toks, unnamed, ns);
}
/// long right-hand sides, many alternatives; the rules behind the first named, anonymous or every other one
fn row(n: usize) {
    let k = n as u64;
    let un = [0, !1, 0x5555_5554][conc(below(3)) as usize];
    let (g, plan) = match conc(below(4)) {
        // n tokens of their own, at one place a rule that takes the last one or nothing
        0 => { let at = [0, 1, n / 2, n - 2, n - 1][conc(below(5)) as usize]; let mut v: Vec<u64> = (0..k).map(|i| 2 + i).collect(); v[at] = 1; let e = conc(below(2)) as usize; (build(2, n + 1, 1, 1, un, vec![(0, v), (1, vec![2 + k]), (1, vec![])]), vec![0, 1 + e]) }
        // n times the same rule
        1 => (build(2, 1, 1, 1, un, vec![(0, vec![1; n]), (1, vec![2])]), [vec![0], vec![1; n]].concat()),
        // n rules, each with a token of its own or nothing
        2 => { let mut r = vec![(0, (1..=k).collect::<Vec<_>>())]; let mut p = vec![0]; let e = conc(below(3)) as usize; for i in 1..=k { p.push(r.len() + [0, 1, i as usize % 2][e]); r.push((i, vec![k + i])); r.push((i, vec![])); } (build(n + 1, n, 1, 1, un, r), p) }
        // n alternatives
        _ => { let at = [0, 1, n / 2, n - 1][conc(below(4)) as usize]; let mut r = vec![(0, vec![1, 1])]; for i in 0..k { r.push((1, vec![2 + i])); } (build(2, n, 1, 1, un, r), vec![0, 1 + at, n - at]) }
    };
    planned(g, un as u64, 4 * n, 2 * n, conc(bits(1)) == 1, Some(plan))
}
/// rules that call themselves, n deep
fn deep(n: usize) {
    let k = conc(below(4)) as usize;
    let (g, u) = rec_grammar(k);
    let plan = match k { 0 | 2 => [vec![0; n], vec![1]].concat(), 1 => [vec![0], vec![1; n], vec![2]].concat(), _ => [[0, 1].repeat(n), vec![0, 2]].concat() };
    planned(g, u, 4 * n + 9, 4 * n + 9, conc(bits(1)) == 1, Some(plan))
}
/// every typed entry point of the v1 parser starts at its own rule
fn entries() {
    let mut g = Grammar::new("g");
    const N: [&str; 9] = ["rule_list", "parser_rule", "block", "alternative", "epsilon", "element", "ebnf_suffix", "lexer_rule", "regular"];
    for i in 0..9 {
        g.vocabulary.add_named_nonterminal(i, N[i]);
        g.vocabulary.add_terminal(2 + i, N[i]);
        g.productions.insert(syntaxis::tool::grammar::Production::new(i, &vec![ProductionItem::Terminal(2 + i)]));
    }
    let (fs, fp) = g.first_set();
    let fo = g.follow_set(&fs);
    let table = g.ll1_table(&fp, &fo);
    let k = conc(below(9)) as usize;
    use syntaxis::runtime::ast::to_rule::ToRule;
    let p = SyntaxisParser::new(vec![tok(2 + k, "T", "x", 0), tok(1, "_STOP", "_STOP", 1)], table, g.vocabulary);
    fn ck(r: &RuleContext, k: usize) { check(r.rule_index == k && r.rule_name == N[k] && r.children.len() == 1, "parse-entry"); }
    match k {
        0 => ck(p.rule_list().as_rule(), k), 1 => ck(p.parser_rule().as_rule(), k), 2 => ck(p.block().as_rule(), k),
        3 => ck(p.alternative().as_rule(), k), 4 => ck(p.epsilon().as_rule(), k), 5 => ck(p.element().as_rule(), k),
        6 => ck(p.ebnf_suffix().as_rule(), k), 7 => ck(p.lexer_rule().as_rule(), k), _ => ck(p.regular().as_rule(), k),
    }
    // parse() is the start rule
    if k == 0 { ck(&p.parse(), 0) }
}
#[no_mangle] #[inline(never)] fn c04_a() { run(2, 2, &[2, 2], 9, 4, 3, false) }
#[no_mangle] #[inline(never)] fn c04_u() { run(2, 2, &[2, 2, 1], 1, 5, 3, false) }
#[no_mangle] #[inline(never)] fn c04_v() { run(2, 2, &[2, 2, 1], 1, 5, 3, true) }
#[no_mangle] #[inline(never)] fn c04_w() { run(2, 2, &[2, 2, 1], 9, 5, 3, true) }
#[no_mangle] #[inline(never)] fn c04_b() { run(2, 2, &[3, 2, 0], 9, 6, 4, false) }
#[no_mangle] #[inline(never)] fn c04_e() { entries() }
#[no_mangle] #[inline(never)] fn c04_t() { run(3, 2, &[2, 2, 2], 1, 6, 4, false) }
#[no_mangle] #[inline(never)] fn c04_c() { decide(spread_grammar(2, 2, &[2, 2]), 0, 4, 3, false) }
#[no_mangle] #[inline(never)] fn c04_d() { decide(expr_grammar(), 0b01010, 24, 7, conc(bits(1)) == 1) }
#[no_mangle] #[inline(never)] fn c04_f() { decide(list_grammar(), 0b1110, 40, 9, conc(bits(1)) == 1) }
#[no_mangle] #[inline(never)] fn c04_g() { decide(unit_grammar(8), 0, 8, 1, conc(bits(1)) == 1) }
#[no_mangle] #[inline(never)] fn c04_h() { decide(wide_grammar(4), 0, 12, 6, conc(bits(1)) == 1) }
#[no_mangle] #[inline(never)] fn c04_x() { decide(expr_grammar(), 0b01010, 32, 11, false) }
#[no_mangle] #[inline(never)] fn c04_y() { decide(list_grammar(), 0b1110, 80, 14, false) }
#[no_mangle] #[inline(never)] fn c04_z() { decide(spread_grammar(2, 2, &[2, 2, 1]), 0, 5, 4, true) }
#[no_mangle] #[inline(never)] fn c04_i() { let (g, u) = rec_grammar(conc(below(5)) as usize); decide(g, u, 100, 40, conc(bits(1)) == 1) }
#[no_mangle] #[inline(never)] fn c04_j() { decide(unit_grammar(26), 0, 26, 1, conc(bits(1)) == 1) }
#[no_mangle] #[inline(never)] fn c04_k() { row(12) }
#[no_mangle] #[inline(never)] fn c04_l() { row(28) }
#[no_mangle] #[inline(never)] fn c04_m() { deep(300) }
fn main() { entry(&[("c04_k", c04_k), ("c04_l", c04_l), ("c04_m", c04_m), ("c04_i", c04_i), ("c04_j", c04_j), ("c04_a", c04_a), ("c04_u", c04_u), ("c04_v", c04_v), ("c04_w", c04_w), ("c04_b", c04_b), ("c04_e", c04_e), ("c04_t", c04_t), ("c04_c", c04_c), ("c04_d", c04_d), ("c04_f", c04_f), ("c04_g", c04_g), ("c04_h", c04_h), ("c04_x", c04_x), ("c04_y", c04_y), ("c04_z", c04_z)]) }
