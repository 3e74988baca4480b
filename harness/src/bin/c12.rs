//! C12: visitors and the listener walk meet every node once, in order, through the right method.
#[path = "../tree.rs"] #[allow(dead_code)] mod tree;
use std::any::Any;
use tree::*;
use symrt::*;
use syntaxis::runtime::ast::{ast_context::ASTContext, error_context::ErrorContext, rule_context::RuleContext, terminal_context::TerminalContext};

type Ev = (u64, usize);
const TERM: u64 = 20; const ERR: u64 = 21; const NEXT: u64 = 22; const DEF: u64 = 23; const AGG: u64 = 24; const OTHER: u64 = 9; const EVERY: u64 = 25; const EXIT: u64 = 100;
fn addr<T>(x: &T) -> usize { x as *const T as usize }
fn val(x: &dyn Any) -> usize { match x.downcast_ref::<usize>() { Some(v) => *v, None => { check(false, "visit-result-type"); 0 } } }
fn gen(dims: &[usize], lim: u64) -> RuleContext {
    let n = conc(bits(2)) as usize; assume(n <= dims[0]);
    let mut ch = Vec::new();
    for i in 0..n {
        let k = conc(bits(2)); assume(k < 3 && (dims.len() > 1 || k < 2));
        let _ = i;
        ch.push(match k { 0 => term(any_tok(bits(64) as usize, bits(64) as usize)), 1 => error(any_tok(bits(64) as usize, bits(64) as usize)), _ => ASTContext::Rule(gen(&dims[1..], lim)) });
    }
    let ix = if lim == 0 { bits(64) } else { let x = bits(4); assume(x < lim); x };
    rule("r", ix as usize, ch)
}
fn gen_any(dims: &[usize], lim: u64) -> RuleContext { if dims.is_empty() { let off = upto(2) * 7; Large { rule: &|i| (i * 5 + off) % 11, tok: &|_| 2, at: 0, leaves: 0, errors: true }.tree_or_huge(lim as usize) } else { gen(dims, lim) } }
/// the reference traversal: events in order, stopping where `stops` says so; returns the result
fn walk(t: &RuleContext, out: &mut Vec<Ev>, stops: &[bool], s: &mut usize, count: &mut usize, all: bool, agg: bool) -> usize {
    if all && t.rule_index < 9 { out.push((t.rule_index as u64, addr(t))); }
    if all { out.push((DEF, 0)); }
    let mut r = { *count += 1; *count };
    for c in t.children.iter() {
        if all { out.push((NEXT, r)); let stop = stops[*s]; *s += 1; if stop { break; } }
        let x = match c {
            ASTContext::Terminal(x) => { out.push((TERM, addr(x))); *count += 1; *count }
            ASTContext::Error(x) => { out.push((ERR, addr(x))); *count += 1; *count }
            ASTContext::Rule(x) => walk(x, out, stops, s, count, all, agg),
        };
        if agg { out.push((AGG, r * 1000 + x)); *count += 1; r = *count; } else { r = x; }
    }
    r
}
macro_rules! visitor { ($full:ident, $plain:ident, $bare:ident, $run:ident, $acc:ident, $c:ident, $v:path) => {
    /// every method recorded
    struct $full { log: Vec<Ev>, stops: Vec<bool>, s: usize, count: usize }
    impl $v for $full {
        fn visit_rule_list(&mut self, x: &dyn $c::RuleListContext) -> Box<dyn Any> { self.log.push((0, addr(x.as_rule()))); self.visit_children(x.as_rule()) }
        fn visit_parser_rule(&mut self, x: &dyn $c::ParserRuleContext) -> Box<dyn Any> { self.log.push((1, addr(x.as_rule()))); self.visit_children(x.as_rule()) }
        fn visit_block(&mut self, x: &dyn $c::BlockContext) -> Box<dyn Any> { self.log.push((2, addr(x.as_rule()))); self.visit_children(x.as_rule()) }
        fn visit_alternative(&mut self, x: &dyn $c::AlternativeContext) -> Box<dyn Any> { self.log.push((3, addr(x.as_rule()))); self.visit_children(x.as_rule()) }
        fn visit_epsilon(&mut self, x: &dyn $c::EpsilonContext) -> Box<dyn Any> { self.log.push((4, addr(x.as_rule()))); self.visit_children(x.as_rule()) }
        fn visit_element(&mut self, x: &dyn $c::ElementContext) -> Box<dyn Any> { self.log.push((5, addr(x.as_rule()))); self.visit_children(x.as_rule()) }
        fn visit_ebnf_suffix(&mut self, x: &dyn $c::EbnfSuffixContext) -> Box<dyn Any> { self.log.push((6, addr(x.as_rule()))); self.visit_children(x.as_rule()) }
        fn visit_lexer_rule(&mut self, x: &dyn $c::LexerRuleContext) -> Box<dyn Any> { self.log.push((7, addr(x.as_rule()))); self.visit_children(x.as_rule()) }
        fn visit_regular(&mut self, x: &dyn $c::RegularContext) -> Box<dyn Any> { self.log.push((8, addr(x.as_rule()))); self.visit_children(x.as_rule()) }
        fn visit_terminal(&mut self, x: &TerminalContext) -> Box<dyn Any> { self.log.push((TERM, addr(x))); self.count += 1; Box::new(self.count) }
        fn visit_errornode(&mut self, x: &ErrorContext) -> Box<dyn Any> { self.log.push((ERR, addr(x))); self.count += 1; Box::new(self.count) }
        fn default_result(&mut self) -> Box<dyn Any> { self.log.push((DEF, 0)); self.count += 1; Box::new(self.count) }
        fn aggregate_result(&mut self, a: Box<dyn Any>, b: Box<dyn Any>) -> Box<dyn Any> { self.log.push((AGG, val(&*a) * 1000 + val(&*b))); self.count += 1; Box::new(self.count) }
        fn should_visit_next_child(&mut self, _: &RuleContext, r: &dyn Any) -> bool { self.log.push((NEXT, val(r))); let stop = self.stops[self.s]; self.s += 1; !stop }
    }
    /// only leaves and the default result; the rest as the trait has it
    struct $plain { log: Vec<Ev>, count: usize }
    impl $v for $plain {
        fn visit_terminal(&mut self, x: &TerminalContext) -> Box<dyn Any> { self.log.push((TERM, addr(x))); self.count += 1; Box::new(self.count) }
        fn visit_errornode(&mut self, x: &ErrorContext) -> Box<dyn Any> { self.log.push((ERR, addr(x))); self.count += 1; Box::new(self.count) }
        fn default_result(&mut self) -> Box<dyn Any> { self.count += 1; Box::new(self.count) }
    }
    /// nothing of its own but the default result: the trait's leaf methods hand that out
    struct $bare { count: usize }
    impl $v for $bare { fn default_result(&mut self) -> Box<dyn Any> { self.count += 1; Box::new(self.count) } }
    fn $run(dims: &[usize], lim: u64, full: bool) {
        use $v as _;
        let t = gen_any(dims, lim);
        let mut stops = Vec::new();
        let mut want = Vec::new(); let (mut s, mut n) = (0, 0);
        if full {
            // any answer of should_visit_next_child, child by child
            for _ in 0..if lim > 99 { 2000 } else { 60 } { stops.push(false); }
            let k = conc(bits(3)) as usize; if lim > 99 { if k > 0 { stops[[5, 33, 90, 130, 257, 264, 300][k - 1]] = true; } } else if k < 7 { stops[k] = true; } else if dims.is_empty() && conc(bits(1)) == 1 { stops[7 + upto(5)] = true; }
            let r = walk(&t, &mut want, &stops, &mut s, &mut n, true, true);
            let mut v = $full { log: Vec::new(), stops, s: 0, count: 0 };
            let got = v.visit(&t);
            check(v.log == want, "visit-order"); check(val(&*got) == r, "visit-result");
        } else {
            let r = walk(&t, &mut want, &stops, &mut s, &mut n, false, false);
            let mut v = $plain { log: Vec::new(), count: 0 };
            let got = v.visit(&t);
            check(v.log == want, "visit-default-order"); check(val(&*got) == r, "visit-default-result");
            let mut b = $bare { count: 0 };
            check(val(&*b.visit(&t)) == r && b.count == n, "visit-leaf-default");
        }
        observe(want.len() as u64);
    }
    /// accept of each view reaches the method of that view, whatever the number in the tree
    fn $acc() {
        use $c::*;
        let t = rule("r", bits(64) as usize, vec![]);
        let k = conc(bits(4)); assume(k < 9);
        let mut v = $full { log: Vec::new(), stops: vec![], s: 0, count: 0 };
        let r = match k { 0 => RuleListContext::accept(&t, &mut v), 1 => ParserRuleContext::accept(&t, &mut v), 2 => BlockContext::accept(&t, &mut v), 3 => AlternativeContext::accept(&t, &mut v), 4 => EpsilonContext::accept(&t, &mut v), 5 => ElementContext::accept(&t, &mut v), 6 => EbnfSuffixContext::accept(&t, &mut v), 7 => LexerRuleContext::accept(&t, &mut v), _ => RegularContext::accept(&t, &mut v) };
        check(v.log == vec![(k, addr(&t)), (DEF, 0)] && val(&*r) == 1, "view-accept");
    }
} }
use syntaxis::tool::syntaxis::syntaxis_context as bc; use syntaxis::tool::v1::syntaxis_context as vc;
visitor!(BFull, BPlain, BBare, boot, boot_accept, bc, syntaxis::tool::syntaxis::syntaxis_visitor::SyntaxisVisitor);
visitor!(VFull, VPlain, VBare, v1, v1_accept, vc, syntaxis::tool::v1::syntaxis_visitor::SyntaxisVisitor);

use syntaxis::tool::syntaxis::{syntaxis_context::*, syntaxis_listener::SyntaxisListener, syntaxis_walker::SyntaxisWalker};
struct L { log: Vec<Ev> }
impl SyntaxisListener for L {
    fn enter_rule_list(&mut self, x: &dyn RuleListContext) { self.log.push((0, addr(x.as_rule()))) }
    fn exit_rule_list(&mut self, x: &dyn RuleListContext) { self.log.push((EXIT, addr(x.as_rule()))) }
    fn enter_parser_rule(&mut self, x: &dyn ParserRuleContext) { self.log.push((1, addr(x.as_rule()))) }
    fn exit_parser_rule(&mut self, x: &dyn ParserRuleContext) { self.log.push((EXIT + 1, addr(x.as_rule()))) }
    fn enter_block(&mut self, x: &dyn BlockContext) { self.log.push((2, addr(x.as_rule()))) }
    fn exit_block(&mut self, x: &dyn BlockContext) { self.log.push((EXIT + 2, addr(x.as_rule()))) }
    fn enter_alternative(&mut self, x: &dyn AlternativeContext) { self.log.push((3, addr(x.as_rule()))) }
    fn exit_alternative(&mut self, x: &dyn AlternativeContext) { self.log.push((EXIT + 3, addr(x.as_rule()))) }
    fn enter_epsilon(&mut self, x: &dyn EpsilonContext) { self.log.push((4, addr(x.as_rule()))) }
    fn exit_epsilon(&mut self, x: &dyn EpsilonContext) { self.log.push((EXIT + 4, addr(x.as_rule()))) }
    fn enter_element(&mut self, x: &dyn ElementContext) { self.log.push((5, addr(x.as_rule()))) }
    fn exit_element(&mut self, x: &dyn ElementContext) { self.log.push((EXIT + 5, addr(x.as_rule()))) }
    fn enter_ebnf_suffix(&mut self, x: &dyn EbnfSuffixContext) { self.log.push((6, addr(x.as_rule()))) }
    fn exit_ebnf_suffix(&mut self, x: &dyn EbnfSuffixContext) { self.log.push((EXIT + 6, addr(x.as_rule()))) }
    fn enter_lexer_rule(&mut self, x: &dyn LexerRuleContext) { self.log.push((7, addr(x.as_rule()))) }
    fn exit_lexer_rule(&mut self, x: &dyn LexerRuleContext) { self.log.push((EXIT + 7, addr(x.as_rule()))) }
    fn enter_regular(&mut self, x: &dyn RegularContext) { self.log.push((8, addr(x.as_rule()))) }
    fn exit_regular(&mut self, x: &dyn RegularContext) { self.log.push((EXIT + 8, addr(x.as_rule()))) }
    fn enter_every_rule(&mut self, x: &RuleContext) { self.log.push((EVERY, addr(x))) }
    fn exit_every_rule(&mut self, x: &RuleContext) { self.log.push((EXIT + EVERY, addr(x))) }
    fn enter_terminal(&mut self, x: &TerminalContext) { self.log.push((TERM, addr(x))) }
    fn exit_terminal(&mut self, x: &TerminalContext) { self.log.push((EXIT + TERM, addr(x))) }
    fn enter_errornode(&mut self, x: &ErrorContext) { self.log.push((ERR, addr(x))) }
    fn exit_errornode(&mut self, x: &ErrorContext) { self.log.push((EXIT + ERR, addr(x))) }
}
struct W; impl SyntaxisWalker for W {}
fn events(t: &RuleContext, out: &mut Vec<Ev>) {
    out.push((EVERY, addr(t)));
    if t.rule_index < OTHER as usize { out.push((t.rule_index as u64, addr(t))); }
    for c in t.children.iter() {
        match c {
            ASTContext::Terminal(x) => { out.push((TERM, addr(x))); out.push((EXIT + TERM, addr(x))); }
            ASTContext::Error(x) => { out.push((ERR, addr(x))); out.push((EXIT + ERR, addr(x))); }
            ASTContext::Rule(x) => events(x, out),
        }
    }
    if t.rule_index < OTHER as usize { out.push((EXIT + t.rule_index as u64, addr(t))); }
    out.push((EXIT + EVERY, addr(t)));
}
fn listen(dims: &[usize], lim: u64) {
    let t = gen_any(dims, lim);
    let mut l = L { log: Vec::new() };
    W.walk(&mut l, &t);
    let mut want = Vec::new(); events(&t, &mut want);
    check(l.log == want, "walk-order");
    observe(want.len() as u64);
}
fn enter_exit() {
    let t = rule("r", bits(64) as usize, vec![]);
    let k = conc(bits(4)); assume(k < 9);
    let mut l = L { log: Vec::new() };
    match k { 0 => { RuleListContext::enter(&t, &mut l); RuleListContext::exit(&t, &mut l) } 1 => { ParserRuleContext::enter(&t, &mut l); ParserRuleContext::exit(&t, &mut l) } 2 => { BlockContext::enter(&t, &mut l); BlockContext::exit(&t, &mut l) } 3 => { AlternativeContext::enter(&t, &mut l); AlternativeContext::exit(&t, &mut l) } 4 => { EpsilonContext::enter(&t, &mut l); EpsilonContext::exit(&t, &mut l) } 5 => { ElementContext::enter(&t, &mut l); ElementContext::exit(&t, &mut l) } 6 => { EbnfSuffixContext::enter(&t, &mut l); EbnfSuffixContext::exit(&t, &mut l) } 7 => { LexerRuleContext::enter(&t, &mut l); LexerRuleContext::exit(&t, &mut l) } _ => { RegularContext::enter(&t, &mut l); RegularContext::exit(&t, &mut l) } }
    check(l.log == vec![(k, addr(&t)), (EXIT + k, addr(&t))], "view-enter-exit");
}
#[no_mangle] #[inline(never)] fn c12_a() { boot(&[2, 1], 0, true) }
#[no_mangle] #[inline(never)] fn c12_b() { v1(&[2, 1], 0, true) }
#[no_mangle] #[inline(never)] fn c12_c() { boot(&[2, 2], 0, false) }
#[no_mangle] #[inline(never)] fn c12_d() { v1(&[2, 2], 0, false) }
#[no_mangle] #[inline(never)] fn c12_e() { boot_accept() }
#[no_mangle] #[inline(never)] fn c12_f() { v1_accept() }
#[no_mangle] #[inline(never)] fn c12_g() { listen(&[2, 1], 0) }
#[no_mangle] #[inline(never)] fn c12_h() { enter_exit() }
#[no_mangle] #[inline(never)] fn c12_i() { boot(&[3, 3], 1, true) }
#[no_mangle] #[inline(never)] fn c12_j() { v1(&[3, 3], 1, true) }
#[no_mangle] #[inline(never)] fn c12_k() { listen(&[2, 2, 1], 1) }
#[no_mangle] #[inline(never)] fn c12_l() { boot(&[1, 1, 1, 3], 2, true) }
#[no_mangle] #[inline(never)] fn c12_m() { v1(&[1, 1, 1, 3], 2, true) }
#[no_mangle] #[inline(never)] fn c12_s() { boot(&[2, 2, 2], 1, false) }
#[no_mangle] #[inline(never)] fn c12_t() { v1(&[2, 2, 2], 1, false) }
#[no_mangle] #[inline(never)] fn c12_n() { boot(&[], 12, true) }
#[no_mangle] #[inline(never)] fn c12_o() { v1(&[], 12, true) }
#[no_mangle] #[inline(never)] fn c12_p() { boot(&[], 12, false) }
#[no_mangle] #[inline(never)] fn c12_q() { v1(&[], 12, false) }
#[no_mangle] #[inline(never)] fn c12_r() { listen(&[], 12) }
#[no_mangle] #[inline(never)] fn c12_u() { boot(&[], 999, true) }
#[no_mangle] #[inline(never)] fn c12_v() { v1(&[], 999, true) }
#[no_mangle] #[inline(never)] fn c12_w() { boot(&[], 999, false) }
#[no_mangle] #[inline(never)] fn c12_x() { v1(&[], 999, false) }
#[no_mangle] #[inline(never)] fn c12_y() { listen(&[], 999) }
fn main() { entry(&[("c12_u", c12_u), ("c12_v", c12_v), ("c12_w", c12_w), ("c12_x", c12_x), ("c12_y", c12_y), ("c12_n", c12_n), ("c12_o", c12_o), ("c12_p", c12_p), ("c12_q", c12_q), ("c12_r", c12_r), ("c12_a", c12_a), ("c12_b", c12_b), ("c12_c", c12_c), ("c12_d", c12_d), ("c12_e", c12_e), ("c12_f", c12_f), ("c12_g", c12_g), ("c12_h", c12_h), ("c12_i", c12_i), ("c12_j", c12_j), ("c12_k", c12_k), ("c12_l", c12_l), ("c12_m", c12_m), ("c12_s", c12_s), ("c12_t", c12_t)]) }
