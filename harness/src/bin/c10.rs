//! C10: reading a syntax tree back: first/last token, covered text, child lookup by kind and number.
#[path = "../tree.rs"] #[allow(dead_code)] mod tree;
use tree::*;
use symrt::*;
use syntaxis::runtime::ast::{ast_context::ASTContext, rule_context::RuleContext, to_rule::ToRule};

/// one leaf, as the reference sees it
#[derive(Clone, Copy)]
struct Leaf { idx: usize, err: bool, a: usize, b: usize }
const INPUT: &str = "ab cd,ef;gh ij.k";
/// a tree of any shape (at most dims[0] children, theirs at most dims[1], ...); leaves take consecutive stretches of INPUT
fn gen(dims: &[usize], leaves: &mut Vec<Leaf>, at: &mut usize, errors: bool) -> RuleContext {
    let n = conc(bits(2)) as usize; assume(n <= dims[0]);
    let mut ch = Vec::new();
    for _ in 0..n {
        let k = conc(bits(2)); assume(k < 3 && (dims.len() > 1 || k < 2) && (errors || k != 1));
        if k == 2 { ch.push(ASTContext::Rule(gen(&dims[1..], leaves, at, errors))); }
        else {
            let (gap, len) = (bits(1) as usize, 1 + bits(1) as usize);
            let a = *at + gap; let b = a + len; *at = b;
            let mut t = tok(2, "T", "x", leaves.len()); t.char_start_index = a; t.char_stop_index = b;
            leaves.push(Leaf { idx: t.token_index, err: k == 1, a, b });
            ch.push(if k == 1 { error(t) } else { term(t) });
        }
    }
    rule("r", 3, ch)
}
fn tokens(dims: &[usize], errors: bool) {
    let (mut l, mut at) = (Vec::new(), 0);
    let t = gen(dims, &mut l, &mut at, errors);
    assume(at <= INPUT.len());
    let id = |t: Option<syntaxis::runtime::token::Token>| t.map(|t| t.token_index + 1).unwrap_or(0);
    check(id(t.get_start_token()) == l.first().map(|x| x.idx + 1).unwrap_or(0), "tree-start-token");
    check(id(t.get_stop_token()) == l.last().map(|x| x.idx + 1).unwrap_or(0), "tree-stop-token");
    if l.iter().all(|x| !x.err) {
        check(t.get_first_terminal().map(|x| x.symbol.token_index + 1).unwrap_or(0) == l.first().map(|x| x.idx + 1).unwrap_or(0), "tree-first-terminal");
        check(t.get_last_terminal().map(|x| x.symbol.token_index + 1).unwrap_or(0) == l.last().map(|x| x.idx + 1).unwrap_or(0), "tree-last-terminal");
    }
    let s = t.get_text(INPUT);
    match (l.first(), l.last()) {
        (Some(f), Some(z)) => check(s.len() == z.b - f.a && s.as_ptr() as usize == INPUT.as_ptr() as usize + f.a, "tree-text"),
        _ => check(s.is_empty(), "tree-text-empty"),
    }
    observe(l.len() as u64);
    observe(s.len() as u64);
}
/// large trees: the reference walk collects the leaves
fn collect(t: &RuleContext, out: &mut Vec<(usize, bool)>) { for c in t.children.iter() { match c { ASTContext::Terminal(x) => out.push((x.symbol.token_index, false)), ASTContext::Error(x) => out.push((x.symbol.token_index, true)), ASTContext::Rule(r) => collect(r, out) } } }
fn large(max: usize, errors: bool) {
    let mut l = Large { rule: &|i| i % 5, tok: &|i| i % 5, at: 0, leaves: 0, errors };
    let t = l.tree_or_huge(max);
    let mut l = Vec::new(); collect(&t, &mut l);
    let id = |t: Option<syntaxis::runtime::token::Token>| t.map(|t| t.token_index + 1).unwrap_or(0);
    check(id(t.get_start_token()) == l.first().map(|x| x.0 + 1).unwrap_or(0), "tree-start-token");
    check(id(t.get_stop_token()) == l.last().map(|x| x.0 + 1).unwrap_or(0), "tree-stop-token");
    if l.iter().all(|x| !x.1) {
        check(t.get_first_terminal().map(|x| x.symbol.token_index + 1).unwrap_or(0) == l.first().map(|x| x.0 + 1).unwrap_or(0), "tree-first-terminal");
        check(t.get_last_terminal().map(|x| x.symbol.token_index + 1).unwrap_or(0) == l.last().map(|x| x.0 + 1).unwrap_or(0), "tree-last-terminal");
    }
    let long: String = (0..if max > 99 { 900 } else { 64 }).map(|i| (b'!' + (i % 90) as u8) as char).collect();
    let s = t.get_text(&long);
    match (l.first(), l.last()) { (Some(f), Some(z)) => check(s == &long[f.0..z.0 + 1] && s.as_ptr() as usize == long.as_ptr() as usize + f.0, "tree-text"), _ => check(s.is_empty(), "tree-text-empty") }
    // children by kind and number
    {
        let (q, i) = (bits(64) as usize, bits(64) as usize);
        let pos = |k: u8| -> Vec<usize> { t.children.iter().filter_map(|c| match c { ASTContext::Terminal(x) if k == 0 && x.symbol.token_type == q => Some(x as *const _ as usize), ASTContext::Error(x) if k == 1 && x.symbol.token_type == q => Some(x as *const _ as usize), ASTContext::Rule(x) if k == 2 && x.rule_index == q => Some(x as *const _ as usize), _ => None }).collect() };
        let (a, b, c) = (pos(0), pos(1), pos(2));
        check(t.get_terminals(q).iter().map(|x| *x as *const _ as usize).collect::<Vec<_>>() == a, "tree-terminals");
        check(t.get_errornodes(q).iter().map(|x| *x as *const _ as usize).collect::<Vec<_>>() == b, "tree-errors");
        check(t.get_rule_contexts(q).iter().map(|x| *x as *const _ as usize).collect::<Vec<_>>() == c, "tree-rules");
        check(t.get_terminal(q, i).map(|x| x as *const _ as usize) == a.get(i).copied(), "tree-terminal-at");
        check(t.get_errornode(q, i).map(|x| x as *const _ as usize) == b.get(i).copied(), "tree-error-at");
        check(t.get_rule_context(q, i).map(|x| x as *const _ as usize) == c.get(i).copied(), "tree-rule-at");
    }
    check(t.get_child_count() == t.children.len(), "tree-shape");
    observe(l.len() as u64);
}
/// n children of any kind with any numbers, looked up by any number and any position
fn lookup(n: usize) {
    let bare = conc(bits(1)) == 1;
    let mut ch = Vec::new(); let mut kinds = Vec::new();
    for i in 0..n {
        let k = conc(bits(2)); assume(k < 3);
        let ty = bits(64) as usize;
        kinds.push((k, ty));
        ch.push(match k {
            0 => term(any_tok(ty, bits(64) as usize)), 1 => error(any_tok(ty, bits(64) as usize)),
            _ if bare => sub("", ty, vec![]),
            // what lies below a child must not be found in its place
            _ => sub("q", ty, vec![term(tok(ty, "T", "x", 50 + i)), error(tok(ty, "T", "x", 60 + i)), sub("d", ty, vec![]), sub("d", ty, vec![term(tok(ty, "T", "x", 70 + i))])]),
        });
    }
    let me = bits(64) as usize;
    let t = rule("r", me, ch);
    check(t.get_rule_index() == me && t.get_child_count() == n && t.get_children().len() == n, "tree-shape");
    check(t.as_rule().get_rule_index() == me && std::ptr::eq(t.as_rule(), &t), "tree-as-rule");
    let q = bits(64) as usize; let i = bits(64) as usize;
    let tag = |k: u64| ["tree-terminals", "tree-errors", "tree-rules"][k as usize];
    for k in 0..3u64 {
        let got: Vec<usize> = match k {
            0 => t.get_terminals(q).iter().map(|x| *x as *const _ as usize).collect(),
            1 => t.get_errornodes(q).iter().map(|x| *x as *const _ as usize).collect(),
            _ => t.get_rule_contexts(q).iter().map(|x| *x as *const _ as usize).collect(),
        };
        let one = match k { 0 => t.get_terminal(q, i).map(|x| x as *const _ as usize), 1 => t.get_errornode(q, i).map(|x| x as *const _ as usize), _ => t.get_rule_context(q, i).map(|x| x as *const _ as usize) };
        let mut j = 0; let mut ok = true; let mut pick = 0;
        for (c, (kk, ty)) in kinds.iter().enumerate() {
            if *kk == k && *ty == q {
                let addr = match &t.children[c] { ASTContext::Terminal(x) => x as *const _ as usize, ASTContext::Error(x) => x as *const _ as usize, ASTContext::Rule(x) => x as *const _ as usize };
                ok &= j < got.len() && got[j] == addr;
                if j == i { pick = addr; }
                j += 1;
            }
        }
        check(ok && got.len() == j, tag(k));
        check(one.unwrap_or(0) == pick, ["tree-terminal-at", "tree-error-at", "tree-rule-at"][k as usize]);
        observe(j as u64);
    }
}
/// the text of a leaf is its token's text, and a token with a multi-byte text is covered whole
fn leaf() {
    let k = conc(bits(2)) as usize;
    let inp = "αβ γ";
    let cuts = [(0usize, 2usize), (0, 4), (2, 5), (5, 7)][k];
    let mut t = tok(2, "T", &inp[cuts.0..cuts.1], 0); t.char_start_index = cuts.0; t.char_stop_index = cuts.1;
    let r = rule("r", 0, vec![sub("e", 1, vec![]), term(t.clone()), sub("e", 1, vec![])]);
    check(r.get_text(inp) == &inp[cuts.0..cuts.1], "tree-text");
    if let ASTContext::Terminal(x) = term(t.clone()) { check(x.get_text() == &inp[cuts.0..cuts.1], "leaf-text"); }
    if let ASTContext::Error(x) = error(t) { check(x.get_text() == &inp[cuts.0..cuts.1], "leaf-text"); }
}
#[no_mangle] #[inline(never)] fn c10_a() { tokens(&[2, 2], true) }
#[no_mangle] #[inline(never)] fn c10_b() { tokens(&[2, 2, 1], true) }
#[no_mangle] #[inline(never)] fn c10_c() { tokens(&[3, 2], false) }
#[no_mangle] #[inline(never)] fn c10_d() { tokens(&[1, 1, 2, 2], true) }
#[no_mangle] #[inline(never)] fn c10_e() { tokens(&[2, 1, 1, 1], true) }
#[no_mangle] #[inline(never)] fn c10_t() { tokens(&[2, 2, 2], true) }
#[no_mangle] #[inline(never)] fn c10_l() { lookup(2) }
#[no_mangle] #[inline(never)] fn c10_m() { lookup(4) }
#[no_mangle] #[inline(never)] fn c10_n() { lookup(6) }
#[no_mangle] #[inline(never)] fn c10_u() { leaf() }
#[no_mangle] #[inline(never)] fn c10_f() { large(12, true) }
#[no_mangle] #[inline(never)] fn c10_g() { large(12, false) }
#[no_mangle] #[inline(never)] fn c10_v() { large(16, true) }
#[no_mangle] #[inline(never)] fn c10_h() { large(999, conc(bits(1)) == 1) }
fn main() { entry(&[("c10_h", c10_h), ("c10_f", c10_f), ("c10_g", c10_g), ("c10_v", c10_v), ("c10_a", c10_a), ("c10_b", c10_b), ("c10_c", c10_c), ("c10_d", c10_d), ("c10_e", c10_e), ("c10_t", c10_t), ("c10_l", c10_l), ("c10_m", c10_m), ("c10_n", c10_n), ("c10_u", c10_u)]) }
