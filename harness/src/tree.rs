// Reading syntax trees back as flat event lists, and building tokens.
use syntaxis::runtime::ast::{ast_context::ASTContext, rule_context::RuleContext, terminal_context::TerminalContext, error_context::ErrorContext};
use syntaxis::runtime::token::{Position, Token};
pub const OPEN: u64 = 1000; pub const CLOSE: u64 = 999;
pub fn tok(ty: usize, name: &str, text: &str, idx: usize) -> Token {
    Token { token_type: ty, token_name: name.to_owned(), start: Position { line: 0, char_position: idx }, stop: Position { line: 0, char_position: idx + 1 }, channel: 0, text: text.to_owned(), token_index: idx, char_start_index: idx, char_stop_index: idx + 1 }
}
/// a token of that type and index, everything else any value at all
pub fn any_tok(ty: usize, idx: usize) -> Token {
    fn n() -> usize { symrt::bits(64) as usize }
    fn c() -> String { unsafe { String::from_utf8_unchecked(vec![symrt::bits(7) as u8]) } }
    Token { token_type: ty, token_name: c(), start: Position { line: n(), char_position: n() }, stop: Position { line: n(), char_position: n() }, channel: n(), text: c(), token_index: idx, char_start_index: n(), char_stop_index: n() }
}
/// every attribute the same
pub fn same_tok(a: &Token, b: &Token) -> bool {
    let d = (a.token_type ^ b.token_type) | (a.token_index ^ b.token_index) | (a.channel ^ b.channel) | (a.char_start_index ^ b.char_start_index) | (a.char_stop_index ^ b.char_stop_index) | (a.start.line ^ b.start.line) | (a.start.char_position ^ b.start.char_position) | (a.stop.line ^ b.stop.line) | (a.stop.char_position ^ b.stop.char_position);
    (d == 0) & (a.text == b.text) & (a.token_name == b.token_name)
}
/// pre-order: OPEN + rule_index, children, CLOSE; a terminal is its token_index (2000 + for an error node)
pub fn flat(r: &RuleContext, out: &mut Vec<u64>) {
    out.push(OPEN + r.rule_index as u64);
    for c in r.children.iter() {
        match c { ASTContext::Terminal(t) => out.push(t.symbol.token_index as u64), ASTContext::Error(t) => out.push(2000 + t.symbol.token_index as u64), ASTContext::Rule(r) => flat(r, out) }
    }
    out.push(CLOSE);
}
pub fn term(t: Token) -> ASTContext { ASTContext::Terminal(TerminalContext { symbol: t }) }
pub fn error(t: Token) -> ASTContext { ASTContext::Error(ErrorContext { symbol: t }) }
pub fn rule(name: &str, i: usize, ch: Vec<ASTContext>) -> RuleContext { RuleContext { rule_name: name.to_owned(), rule_index: i, children: ch } }
pub fn sub(name: &str, i: usize, ch: Vec<ASTContext>) -> ASTContext { ASTContext::Rule(rule(name, i, ch)) }
/// a number below k, one path each
pub fn upto(k: usize) -> usize { let mut w = 1; while 1usize << w < k { w += 1; } let x = symrt::conc(symrt::bits(w as u32)) as usize; symrt::assume(x < k); x }
/// large trees: a node with any number of children up to `max` (of each kind in turn, by any step, rules with up to two leaves of their own),
/// or a chain of rules up to `max` deep with leaves before, behind, both or none; every node gets the next number, name and text
pub struct Large<'a> { pub rule: &'a dyn Fn(usize) -> usize, pub tok: &'a dyn Fn(usize) -> usize, pub at: usize, pub leaves: usize, pub errors: bool }
impl Large<'_> {
    fn leaf(&mut self, err: bool) -> ASTContext {
        let (i, l) = (self.at, self.leaves); self.at += 1; self.leaves += 1;
        let t = tok((self.tok)(i), &format!("T{}", i), &format!("x{}", i), l);
        if err && self.errors { error(t) } else { term(t) }
    }
    fn node(&mut self, ch: Vec<ASTContext>) -> RuleContext { let i = self.at; self.at += 1; rule(&format!("r{}", i), (self.rule)(i), ch) }
    pub fn tree(&mut self, max: usize) -> RuleContext { let n = upto(max + 1); if symrt::conc(symrt::bits(1)) == 0 { self.wide(n) } else { self.chain(n) } }
    pub fn tree_or_huge(&mut self, max: usize) -> RuleContext { if max > 99 { self.huge(&[40, 270], &[40, 270]) } else { self.tree(max) } }
    /// one of the sizes, a wide tree or a chain
    pub fn huge(&mut self, wide: &[usize], deep: &[usize]) -> RuleContext { if symrt::conc(symrt::bits(1)) == 0 { let n = wide[upto(wide.len())]; self.wide(n) } else { let n = deep[upto(deep.len())]; self.chain(n) } }
    pub fn wide(&mut self, n: usize) -> RuleContext {
        {
            let (off, step) = (upto(3), upto(3));
            let mut ch = Vec::new();
            for i in 0..n {
                let k = (off + i * step) % 3;
                ch.push(if k == 2 { let mut c = Vec::new(); for j in 0..i % 3 { c.push(self.leaf(j == 1)); } ASTContext::Rule(self.node(c)) } else { self.leaf(k == 1) });
            }
            self.node(ch)
        }
    }
    pub fn chain(&mut self, n: usize) -> RuleContext {
        {
            let how = upto(4);
            let mut before = Vec::new();
            for i in 0..n { before.push(if how & 1 == 1 { Some(self.leaf(i % 3 == 1)) } else { None }); }
            let mut c = self.leaf(false);
            for i in 0..n {
                let mut ch = Vec::new();
                if let Some(x) = before.pop().unwrap() { ch.push(x); }
                ch.push(c);
                if how & 2 == 2 { ch.push(self.leaf(i % 3 == 2)); }
                c = ASTContext::Rule(self.node(ch));
            }
            self.node(vec![c])
        }
    }
}
