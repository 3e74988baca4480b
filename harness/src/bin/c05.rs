//! C05: lowering an EBNF rule to productions keeps its language.
#[path = "../tree.rs"] #[allow(dead_code)] mod tree;
#[path = "../ebnf.rs"] #[allow(dead_code)] mod ebnf;
use ebnf::*;
use symrt::*;
use syntaxis::tool::grammar::{Grammar, ProductionItem};
use syntaxis::tool::syntaxis::syntaxis_context::RuleListContext;
use syntaxis::tool::visitor::grammar_visitor::{ProductionVisitor, SymbolVisitor};

fn below(n: u64) -> u64 { let mut w = 1; while (1u64 << w) < n { w += 1; } let x = bits(w); if (1u64 << w) != n { assume(x < n); } conc(x) }
/// atoms: 2 tokens (or literals), and rule references
fn atom(rules: u64, lit: bool) -> Base { let c = below(2 + rules); if c < 2 { if lit { Base::Lit(c as u8) } else { Base::Tok(c as u8) } } else { Base::Rule((c - 2) as u8) } }
fn suffix() -> u8 { below(4) as u8 }
fn inner(rules: u64) -> Vec<Vec<El>> {
    match below(5) {
        0 => vec![vec![el(atom(rules, false))]],
        1 => vec![vec![el(Base::Tok(0)), el(Base::Tok(1))]],
        2 => vec![vec![el(Base::Tok(0))], vec![el(Base::Tok(1))]],
        3 => vec![vec![El { b: Base::Tok(below(2) as u8), suffix: suffix(), lazy: false }]],
        _ => vec![vec![el(Base::Tok(0))], vec![]],
    }
}
fn elem(rules: u64, nest: bool, lit: bool) -> El {
    let b = if nest && below(2) == 1 { Base::Block(inner(rules)) } else { atom(rules, lit) };
    let suffix = suffix();
    El { b, suffix, lazy: false }
}
fn judge(rules: Vec<Vec<Vec<El>>>, lits: bool) {
    let nr = rules.len();
    let mut asts = vec![];
    for (i, r) in rules.iter().enumerate() { asts.push(parser_rule(RULE[i], r)); }
    if !lits { asts.push(lexer_rule("TA", "/a/")); asts.push(lexer_rule("TB", "/b/")); }
    let ast = rule_list(asts);
    let mut g = Grammar::new("g");
    // tokens of string literals are entered in the vocabulary before the symbols are numbered
    let mut first = 2;
    if lits { g.vocabulary.add_terminal(2, LIT[0]); g.vocabulary.add_terminal(3, LIT[1]); first = 4; }
    let next = { let mut v = SymbolVisitor::new(&mut g, first, 0, vec![]); RuleListContext::accept(&ast, &mut v); v.next_rule_id };
    check(next == nr, "lower-named-rules");
    { let mut v = ProductionVisitor::new(&mut g, next); RuleListContext::accept(&ast, &mut v); }
    // well-formed: every symbol is in the vocabulary, named rules keep their numbers, the rest is anonymous
    for i in 0..nr { check(g.vocabulary.get_nonterminal_id_by_name(RULE[i]) == Some(i), "lower-named-rules"); }
    let ids: Vec<usize> = g.vocabulary.get_all_nonterminals().iter().copied().collect();
    let mut n = 0;
    for i in &ids { if *i >= n { n = *i + 1; } if *i >= nr { check(g.vocabulary.get_nonterminal_name_by_id(*i).is_none(), "lower-anonymous"); } }
    for p in g.productions.iter() {
        check(g.vocabulary.is_nonterminal_id(p.left), "lower-symbols");
        for it in &p.right { match it { ProductionItem::NonTerminal(x) => check(g.vocabulary.is_nonterminal_id(*x), "lower-symbols"), ProductionItem::Terminal(x) => check(g.vocabulary.is_terminal_id(*x) && *x >= 2, "lower-symbols") } }
    }
    // languages, truncated to words of length <= MAX, as least fixpoints
    let mut want = vec![0u32; nr];
    loop { let mut ch = false; for i in 0..nr { let l = lang(&rules[i], &want); if l != want[i] { want[i] = l; ch = true; } } if !ch { break; } }
    let mut got = vec![0u32; n];
    loop {
        let mut ch = false;
        for p in g.productions.iter() {
            let mut l = EPS;
            for it in &p.right { l = concat(l, match it { ProductionItem::NonTerminal(x) => got[*x], ProductionItem::Terminal(x) => letter((*x - 2) as u8) }); }
            if l | got[p.left] != got[p.left] { got[p.left] |= l; ch = true; }
        }
        if !ch { break; }
    }
    for i in 0..nr { observe(got[i] as u64); check(got[i] == want[i], "lower-language"); }
}
/// two tokens and two literals as four letters: each pair the two letters of the judged language, the others empty
fn mixed(rules: Vec<Vec<Vec<El>>>) {
    let at = below(3) as usize;
    let mut asts = vec![];
    for (i, r) in rules.iter().enumerate() { asts.push(parser_rule(RULE[i], r)); }
    asts.insert(at, lexer_rule("TA", "/a/"));
    asts.insert(below(4) as usize, lexer_rule("TB", "/b/"));
    let ast = rule_list(asts);
    let mut g = Grammar::new("g");
    g.vocabulary.add_terminal(2, LIT[1]); g.vocabulary.add_terminal(3, LIT[0]);
    let next = { let mut v = SymbolVisitor::new(&mut g, 4, 0, vec![]); RuleListContext::accept(&ast, &mut v); v.next_rule_id };
    check(next == rules.len(), "lower-named-rules");
    let n = { let mut v = ProductionVisitor::new(&mut g, next); RuleListContext::accept(&ast, &mut v); v.next_rule_id };
    let id = |name: &str| g.vocabulary.get_terminal_id_by_name(name).unwrap();
    let ids = [id(TOK[0]), id(TOK[1]), id(LIT[0]), id(LIT[1])];
    // a projection keeps two of the four symbols apart and reads the other two as nothing
    for (x, y) in [(0, 1), (2, 3), (0, 3), (1, 2)] {
        let l4 = |k: usize| if k == x { letter(0) } else if k == y { letter(1) } else { EPS };
        let mut want = vec![0u32; rules.len()];
        loop { let mut ch = false; for i in 0..rules.len() { let l = lang_by(&rules[i], &want, &l4); if l != want[i] { want[i] = l; ch = true; } } if !ch { break; } }
        let mut got = vec![0u32; n];
        loop {
            let mut ch = false;
            for p in g.productions.iter() {
                let mut l = EPS;
                for it in &p.right { l = concat(l, match it { ProductionItem::NonTerminal(x) => got[*x], ProductionItem::Terminal(t) => match ids.iter().position(|i| i == t) { Some(k) => l4(k), None => { check(false, "lower-symbols"); 0 } } }); }
                if l | got[p.left] != got[p.left] { got[p.left] |= l; ch = true; }
            }
            if !ch { break; }
        }
        for i in 0..rules.len() { observe(got[i] as u64); check(got[i] == want[i], "lower-language"); }
    }
}
/// grammars over many tokens: for every two of the tokens, or neighbours only, the languages with the other tokens read as nothing
fn projected(rules: Vec<Vec<Vec<El>>>, nt: usize) {
    let mut asts = vec![];
    for (i, r) in rules.iter().enumerate() { asts.push(parser_rule(RULE[i], r)); }
    for i in 0..nt { asts.push(lexer_rule(TOK[i], "/a/")); }
    let ast = rule_list(asts);
    let mut g = Grammar::new("g");
    let next = { let mut v = SymbolVisitor::new(&mut g, 2, 0, vec![]); RuleListContext::accept(&ast, &mut v); v.next_rule_id };
    check(next == rules.len(), "lower-named-rules");
    let n = { let mut v = ProductionVisitor::new(&mut g, next); RuleListContext::accept(&ast, &mut v); v.next_rule_id };
    for i in next..n { check(g.vocabulary.is_nonterminal_id(i) && g.vocabulary.get_nonterminal_name_by_id(i).is_none(), "lower-anonymous"); }
    let ps: Vec<(usize, Vec<(bool, usize)>)> = g.productions.iter().map(|p| (p.left, p.right.iter().map(|i| match i { ProductionItem::NonTerminal(x) => (false, *x), ProductionItem::Terminal(t) => (true, *t) }).collect())).collect();
    for (l, r) in &ps { check(*l < n && r.iter().all(|(t, x)| if *t { *x >= 2 && *x < 2 + nt } else { *x < n }), "lower-symbols"); }
    // every two tokens, or, of many, these with all the others
    let k = if nt > 12 { [0, nt / 2][tree::upto(2)] } else { tree::upto(nt) };
    for x in 0..nt {
        let y = (x + 1 + k) % nt;
        if y == x { continue; }
        let l4 = |k: usize| if k == x { letter(0) } else if k == y { letter(1) } else { EPS };
        let mut want = vec![0u32; next];
        loop { let mut ch = false; for i in (0..next).rev() { let l = lang_by(&rules[i], &want, &l4); if l != want[i] { want[i] = l; ch = true; } } if !ch { break; } }
        let mut got = vec![0u32; n];
        loop {
            let mut ch = false;
            for (left, r) in ps.iter().rev() {
                let mut l = EPS;
                for (t, x) in r { l = concat(l, if *t { l4(*x - 2) } else { got[*x] }); }
                if l | got[*left] != got[*left] { got[*left] |= l; ch = true; }
            }
            if !ch { break; }
        }
        for i in 0..next { observe(got[i] as u64); check(got[i] == want[i], "lower-language"); }
    }
}
fn big(n: usize) {
    let step = tree::upto(4);
    let t = |i: usize| El { b: Base::Tok((i % n) as u8), suffix: (i * step % 4) as u8, lazy: false };
    let b = |b: Vec<Vec<El>>, i: usize| El { b: Base::Block(b), suffix: ((i + 1) * step % 4) as u8, lazy: false };
    let rules = match tree::upto(7) {
        // an alternative of n elements
        0 => vec![vec![(0..n).map(t).collect::<Vec<_>>()]],
        // n alternatives
        1 => vec![(0..n).map(|i| match i % 3 { 0 => vec![t(i)], 1 => vec![t(i), t(i + 1), t(i + 2)], _ => if i == 5 { vec![] } else { vec![t(i), t(i)] } }).collect()],
        // n blocks in each other
        2 => { let mut e = t(0); for i in 1..n { e = b(vec![vec![t(i), e]], i); } vec![vec![vec![e]]] }
        // n blocks side by side, some of them the same
        3 => { let m = 1 + n / (1 + tree::upto(3)); vec![vec![(0..n).map(|i| b(vec![vec![t(i % m)], vec![t(i % m + 1), t(i % m)]], i)).collect()]] }
        // a chain of n rules
        4 => (0..n).map(|i| vec![if i + 1 < n { vec![t(i), El { b: Base::Rule(i as u8 + 1), suffix: ((i + 1) * step % 4) as u8, lazy: i % 2 == 1 && (i + 1) * step % 4 > 0 }] } else { vec![t(i)] }]).collect(),
        // n alternatives in a block
        5 => vec![vec![vec![b((0..n).map(|i| if i % 5 == 4 { vec![] } else { vec![t(i), t(i + step)] }).collect(), 1), t(1)]]],
        // the same repeated items in n rules
        _ => { let m = 1 + tree::upto(4); (0..n).map(|i| vec![vec![t(i % m), t(i)], vec![b(vec![vec![t(i % m), t(1)]], i)]]).collect() }
    };
    projected(rules, n)
}
#[no_mangle] #[inline(never)] fn c05_l() { big(6) }
#[no_mangle] #[inline(never)] fn c05_m() { big(12) }
#[no_mangle] #[inline(never)] fn c05_o() { big(30) }
/// the elements are those of `ra`; `rb` is a token
#[no_mangle] #[inline(never)] fn c05_a() { let r = vec![vec![vec![elem(2, true, false), elem(2, true, false)]], vec![vec![el(Base::Tok(0))]]]; judge(r, false) }
#[no_mangle] #[inline(never)] fn c05_b() { let r = vec![vec![vec![elem(2, false, false), elem(2, false, false)], vec![elem(2, false, false)]], vec![vec![el(Base::Tok(1))], vec![]]]; judge(r, false) }
/// three rules: the third has the number of the first token
#[no_mangle] #[inline(never)] fn c05_c() {
    let mut e1 = elem(3, false, false); e1.lazy = e1.suffix > 0 && below(2) == 1;
    let e2 = elem(3, false, false);
    judge(vec![vec![vec![e1]], vec![vec![e2]], vec![vec![el(Base::Tok(1)), el(Base::Tok(0))]]], false)
}
#[no_mangle] #[inline(never)] fn c05_d() { let r = vec![vec![vec![elem(2, false, true)], vec![elem(2, false, true)]], vec![vec![el(Base::Lit(1))], vec![]]]; judge(r, true) }
/// two blocks with two alternatives each: equal blocks may share, different ones may not
#[no_mangle] #[inline(never)] fn c05_e() {
    let b = || { let n = below(3); let mk = |x: u64| if x == 2 { vec![] } else { vec![el(Base::Tok(x as u8))] }; let a = mk(below(3)); match n { 0 => vec![a], 1 => vec![a, mk(below(3))], _ => vec![vec![el(Base::Tok(0)), el(Base::Tok(below(2) as u8))]] } };
    let (b1, b2) = (b(), b());
    let (s1, s2) = (suffix(), suffix());
    judge(vec![vec![vec![El { b: Base::Block(b1), suffix: s1, lazy: false }, El { b: Base::Block(b2), suffix: s2, lazy: false }]]], false)
}
/// symbol numbers are symbolic: the two tokens, the two rules and the first free number are arbitrary
fn numbered(e: Vec<El>) {
    let (ta, tb, ra, rb, next) = (bits(16), bits(16), bits(16), bits(16), bits(16));
    assume(ta >= 2); assume(tb >= 2); assume(ta != tb); assume(ra != rb); assume(next > ra); assume(next > rb); assume(next < 60000);
    let mut g = Grammar::new("g");
    g.vocabulary.add_terminal(ta as usize, TOK[0]); g.vocabulary.add_terminal(tb as usize, TOK[1]);
    g.vocabulary.add_named_nonterminal(ra as usize, RULE[0]); g.vocabulary.add_named_nonterminal(rb as usize, RULE[1]);
    let rules = vec![vec![e], vec![vec![el(Base::Tok(1)), el(Base::Tok(0))]]];
    let ast = rule_list(vec![parser_rule(RULE[0], &rules[0]), parser_rule(RULE[1], &rules[1])]);
    let last = { let mut v = ProductionVisitor::new(&mut g, next as usize); RuleListContext::accept(&ast, &mut v); v.next_rule_id as u64 };
    let anon = conc(last - next) as usize;
    let mut want = vec![0u32; 2];
    loop { let mut ch = false; for i in 0..2 { let l = lang(&rules[i], &want); if l != want[i] { want[i] = l; ch = true; } } if !ch { break; } }
    // productions over indices; a symbol that is none of the known numbers is an error
    let nt = |x: u64| -> usize { if x == ra { return 0 } if x == rb { return 1 } for i in 0..anon { if x == next + i as u64 { return 2 + i } } 99 };
    let mut ps: Vec<(usize, Vec<usize>)> = vec![];
    for p in g.productions.iter() {
        let r: Vec<usize> = p.right.iter().map(|it| match it { ProductionItem::NonTerminal(x) => nt(*x as u64), ProductionItem::Terminal(x) => if *x as u64 == ta { 100 } else if *x as u64 == tb { 101 } else { 99 } }).collect();
        let l = nt(p.left as u64);
        check(l != 99 && !r.iter().any(|x| *x == 99), "lower-symbols");
        ps.push((l, r));
    }
    for i in 0..anon { check(g.vocabulary.is_nonterminal_id(next as usize + i), "lower-symbols"); }
    let mut got = vec![0u32; 2 + anon];
    loop {
        let mut ch = false;
        for (l, r) in &ps {
            let mut w = EPS;
            for x in r { w = concat(w, if *x >= 100 { letter((*x - 100) as u8) } else { got[*x] }); }
            if w | got[*l] != got[*l] { got[*l] |= w; ch = true; }
        }
        if !ch { break; }
    }
    for i in 0..2 { observe(got[i] as u64); check(got[i] == want[i], "lower-language"); }
}
#[no_mangle] #[inline(never)] fn c05_s() { let e = vec![elem(2, false, false), elem(2, false, false)]; numbered(e) }
#[no_mangle] #[inline(never)] fn c05_n() { let e = vec![elem(2, false, false), El { b: Base::Block(inner(2)), suffix: suffix(), lazy: false }]; numbered(e) }
fn el_s(b: Base) -> El { El { b, suffix: suffix(), lazy: false } }
fn tok_s() -> El { el_s(Base::Tok(below(2) as u8)) }
/// one alternative of n tokens with any suffixes
#[no_mangle] #[inline(never)] fn c05_f() { judge(vec![vec![(0..4).map(|_| tok_s()).collect()]], false) }
/// blocks in blocks, suffixes at every level
#[no_mangle] #[inline(never)] fn c05_g() {
    let mut b = vec![vec![el_s(Base::Block(inner(1)))], vec![tok_s()]];
    if below(2) == 1 { b[0].push(el(Base::Tok(below(2) as u8))); }
    judge(vec![vec![vec![el_s(Base::Block(b)), el(Base::Tok(1))]]], false)
}
#[no_mangle] #[inline(never)] fn c05_h() {
    let mut e = el(Base::Tok(below(2) as u8));
    let n = 1 + below(4);
    for _ in 0..n { e = el_s(Base::Block(vec![vec![e]])); }
    judge(vec![vec![vec![e, tok_s()]]], false)
}
/// four alternatives, of a rule or a block
#[no_mangle] #[inline(never)] fn c05_i() {
    let alts: Vec<Vec<El>> = (0..4).map(|i| match below(4) { 0 => vec![], 1 => vec![el(Base::Tok(i % 2)), el(Base::Tok(0))], 2 => vec![el(Base::Tok(1)), el(Base::Rule(1))], _ => vec![El { b: Base::Tok(0), suffix: i % 4, lazy: false }] }).collect();
    let rb = vec![vec![el(Base::Tok(1))], vec![el(Base::Tok(1)), el(Base::Tok(1))], vec![el(Base::Tok(0)), el(Base::Tok(1)), el(Base::Tok(0))]];
    if below(2) == 1 { judge(vec![alts, rb], false) } else { judge(vec![vec![vec![el_s(Base::Block(alts))]], rb], false) }
}
/// the same items and blocks, repeated in different ways in three rules
#[no_mangle] #[inline(never)] fn c05_j() {
    let b = inner(1);
    let r = |b: Vec<Vec<El>>| vec![vec![el_s(Base::Block(b)), tok_s()]];
    judge(vec![r(b.clone()), r(b.clone()), vec![vec![el(Base::Rule(0))], vec![el(Base::Tok(0)), el_s(Base::Rule(1))]]], false)
}
/// lexer rules before, between and behind parser rules, literals and tokens together
#[no_mangle] #[inline(never)] fn c05_k() {
    let e = |k: u64| match k { 0 => el_s(Base::Block(vec![vec![el(Base::Lit(0))], vec![el(Base::Lit(1)), tok_s()]])), 1 => el_s(Base::Lit(below(2) as u8)), _ => tok_s() };
    mixed(vec![vec![vec![e(below(3))]], vec![vec![el(Base::Rule(0)), e(below(3))], vec![el(Base::Lit(1))]]])
}
#[no_mangle] #[inline(never)] fn c05_u() { judge(vec![vec![(0..5).map(|_| tok_s()).collect()]], false) }
#[no_mangle] #[inline(never)] fn c05_v() {
    let mut b = vec![vec![el_s(Base::Block(inner(2))), tok_s()], vec![el_s(Base::Block(inner(2)))]];
    if below(2) == 1 { b.push(vec![]); }
    judge(vec![vec![vec![el_s(Base::Block(b))]], vec![vec![el(Base::Tok(1))]]], false)
}
#[no_mangle] #[inline(never)] fn c05_t() { let r = vec![vec![vec![elem(2, true, false), elem(2, true, false)], vec![elem(2, false, false)]], vec![vec![elem(2, false, false)]]]; judge(r, false) }
fn main() { entry(&[("c05_l", c05_l), ("c05_m", c05_m), ("c05_o", c05_o), ("c05_a", c05_a), ("c05_b", c05_b), ("c05_c", c05_c), ("c05_d", c05_d), ("c05_e", c05_e), ("c05_s", c05_s), ("c05_n", c05_n), ("c05_t", c05_t), ("c05_f", c05_f), ("c05_g", c05_g), ("c05_h", c05_h), ("c05_i", c05_i), ("c05_j", c05_j), ("c05_k", c05_k), ("c05_u", c05_u), ("c05_v", c05_v)]) }
