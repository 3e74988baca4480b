// Grammars with symbolic productions, and branch-free reference FIRST / FOLLOW / predict sets.
// Symbol sets are bit masks over terminal ids (bit 1 = _STOP).
use symrt::*;
use syntaxis::tool::grammar::{Grammar, Production, ProductionItem};

pub struct G { pub nn: usize, pub nt: usize, pub left: Vec<u64>, pub len: Vec<u64>, pub item: Vec<Vec<u64>>, pub g: Grammar, pub prods: Vec<Production>, pub ns: u64, pub ts: u64 }
#[inline(always)] pub fn sel(c: bool, a: u64, b: u64) -> u64 { let m = (c as u64).wrapping_neg(); (a & m) | (b & !m) }
pub const T0: usize = 2;

/// a symbolic number below `n`
pub fn below(n: u64) -> u64 { let mut w = 1; while (1u64 << w) < n { w += 1; } let x = bits(w); if (1u64 << w) != n { assume(x < n); } x }

fn vocab(g: &mut Grammar, nn: usize, nt: usize, unnamed: usize) {
    const NAMES: [&str; 6] = ["na", "nb", "nc", "nd", "ne", "nf"];
    const TN: [&str; 6] = ["TA", "TB", "TC", "TD", "TE", "TF"];
    for i in 0..nn { if i == unnamed { g.vocabulary.add_unnamed_nonterminal(i); } else { g.vocabulary.add_named_nonterminal(i, NAMES[i]); } }
    for i in 0..nt { g.vocabulary.add_terminal(T0 + i, TN[i]); }
}
/// item code: c < nn is nonterminal c, otherwise terminal T0 + c - nn
pub fn item(nn: usize, c: u64) -> ProductionItem { if c < nn as u64 { ProductionItem::NonTerminal(c as usize) } else { ProductionItem::Terminal(T0 + c as usize - nn) } }

/// `lens[p]` bounds the length of production p's right-hand side
pub fn sym_grammar(nn: usize, nt: usize, lens: &[usize]) -> G { sym_grammar_u(nn, nt, lens, 99) }
/// nonterminal `unnamed` is anonymous
pub fn sym_grammar_u(nn: usize, nt: usize, lens: &[usize], unnamed: usize) -> G {
    let mut g = Grammar::new("g");
    vocab(&mut g, nn, nt, unnamed);
    let (mut left, mut len, mut it, mut prods) = (vec![], vec![], vec![], vec![]);
    for &l in lens {
        let a = below(nn as u64);
        let n = conc(below(l as u64 + 1));
        let v: Vec<u64> = (0..n).map(|_| below((nn + nt) as u64)).collect();
        let p = Production::new(a as usize, &v.iter().map(|c| item(nn, *c)).collect());
        g.productions.insert(p.clone());
        prods.push(p);
        left.push(a); len.push(n); it.push(v);
    }
    G { nn, nt, left, len, item: it, g, prods, ns: 1, ts: 1 }
}
/// nonterminals in a chain, each production the next nonterminal, with or without a symbol behind it, the last one a
/// terminal or nothing; the productions added in any order
pub fn chain_grammar(nn: usize, behind: bool) -> G {
    let mut g = Grammar::new("g");
    vocab(&mut g, nn, 2, 99);
    let mut rest: Vec<usize> = (0..nn).collect();
    let (mut left, mut len, mut it, mut prods) = (vec![], vec![], vec![], vec![]);
    for i in 0..nn {
        let k = conc(below((nn - i) as u64)) as usize;
        let n = rest.remove(k);
        let mut v = vec![];
        if n + 1 < nn { v.push(n as u64 + 1); if behind { v.push(nn as u64 - 1); if n % 2 == 1 { v.push(nn as u64 + 1); } } } else if conc(bits(1)) == 1 { v.push(nn as u64); }
        let p = Production::new(n, &v.iter().map(|c| item(nn, *c)).collect());
        g.productions.insert(p.clone());
        prods.push(p); left.push(n as u64); len.push(v.len() as u64); it.push(v);
    }
    G { nn, nt: 2, left, len, item: it, g, prods, ns: 1, ts: 1 }
}
/// numbers of the symbols: nonterminal i is i * ns, terminal i is T0 + i * ts
pub fn build(nn: usize, nt: usize, ns: u64, ts: u64, unnamed: usize, rules: Vec<(u64, Vec<u64>)>) -> G {
    let mut g = Grammar::new("g");
    for i in 0..nn { let id = i * ns as usize; if unnamed >> i & 1 == 1 { g.vocabulary.add_unnamed_nonterminal(id); } else { g.vocabulary.add_named_nonterminal(id, &rname(i)); } }
    for i in 0..nt { let mut s = String::from("T"); s.push((b'A' + i as u8) as char); g.vocabulary.add_terminal(T0 + i * ts as usize, &s); }
    let (mut left, mut len, mut it, mut prods) = (vec![], vec![], vec![], vec![]);
    for (a, v) in rules {
        let p = Production::new((a * ns) as usize, &v.iter().map(|c| if *c < nn as u64 { ProductionItem::NonTerminal((*c * ns) as usize) } else { ProductionItem::Terminal(T0 + ((*c - nn as u64) * ts) as usize) }).collect());
        g.productions.insert(p.clone());
        prods.push(p); left.push(a); len.push(v.len() as u64); it.push(v);
    }
    G { nn, nt, left, len, item: it, g, prods, ns, ts }
}
/// na, nb, ...
pub fn rname(i: usize) -> String { let mut s = String::from("n"); s.push((b'a' + i as u8) as char); s }
/// large grammars of up to n rules, their productions added in order or in reverse
pub fn deep_grammar(n: usize) -> G {
    let n = n - conc(below(3)) as usize;
    let last = |nn: usize, v: &mut Vec<u64>| if conc(bits(1)) == 1 { v.push(nn as u64) };
    let (nn, nt, mut rules) = match conc(below(6)) {
        // a chain of rules, a terminal or nothing at its end
        0 => { let r = (0..n).map(|i| (i as u64, { let mut v = vec![]; if i + 1 < n { v.push(i as u64 + 1) } else { last(n, &mut v) }; v })).collect::<Vec<_>>(); (n, 1, r) }
        // a chain of rules behind terminals of their own, the last may be nothing
        1 => { let r = (0..n).map(|i| (i as u64, { let mut v = vec![(n + 1 + i) as u64]; if i + 1 < n { v.push(i as u64 + 1) } else { last(n, &mut v) }; v })).collect::<Vec<_>>(); (n, n + 1, r) }
        // a chain of rules in front of terminals of their own
        2 => { let r = (0..n).map(|i| (i as u64, { let mut v = vec![]; if i + 1 < n { v.push(i as u64 + 1); v.push((n + 1 + i) as u64) } else { last(n, &mut v) }; v })).collect::<Vec<_>>(); (n, n + 1, r) }
        // a cycle of rules, a way out of one of them
        3 => { let mut r = (0..n).map(|i| (i as u64, vec![((i + 1) % n) as u64])).collect::<Vec<_>>(); let mut v = vec![]; last(n, &mut v); r.push(([0, n as u64 / 2, n as u64 - 1][conc(below(3)) as usize], v)); (n, 1, r) }
        // a right-hand side of n rules, all of which or all but one may vanish
        4 => { let k = n - 1; let mut r = vec![(0, (1..=k).map(|i| i as u64).collect::<Vec<_>>())]; let out = [0, 1, k / 2, k][conc(below(4)) as usize]; for i in 1..=k { r.push((i as u64, vec![(n + i - 1) as u64])); if i != out { r.push((i as u64, vec![])); } } (n, k, r) }
        // a right-hand side of n symbols, a rule that may vanish or not at one place
        _ => { let at = [0, 1, n / 2, n - 2, n - 1][conc(below(5)) as usize]; let mut v: Vec<u64> = (0..n).map(|i| (2 + i) as u64).collect(); v[at] = 1; let mut w = vec![]; last(2 + n, &mut w); (2, n + 1, vec![(0, v), (1, w)]) }
    };
    if conc(bits(1)) == 1 { rules.reverse(); }
    build(nn, nt, 1, 1, 0, rules)
}
/// as `sym_grammar`, the numbers of the symbols far apart: 64, 256, 65536, 2^32 or (nonterminals only) 1
pub fn spread_grammar(nn: usize, nt: usize, lens: &[usize]) -> G {
    let k = conc(below(8)) as usize;
    let (ns, ts) = [(1, 64), (64, 1), (1, 256), (256, 256), (1 << 16, 1 << 16), (1, 1 << 32), (1 << 32, 1), (1 << 32, 1 << 32)][k];
    let mut rules = vec![];
    for &l in lens {
        let a = below(nn as u64);
        let n = conc(below(l as u64 + 1));
        rules.push((a, (0..n).map(|_| below((nn + nt) as u64)).collect()));
    }
    build(nn, nt, ns, ts, 0, rules)
}
/// a rule with a right-hand side of n symbols of any kind, over two rules each of which may vanish or not
pub fn long_grammar(n: usize) -> G {
    let mut rules = vec![(0, (0..n).map(|_| below(5)).collect())];
    for i in 1..3 { let k = conc(bits(2)); if k & 1 == 1 { rules.push((i, vec![])); } if k & 2 == 2 { rules.push((i, vec![2 + i])); } }
    build(3, 2, 1, 1, 0, rules)
}
/// a rule with n alternatives, each a terminal of its own or absent, the terminals behind one or two occurrences of it
pub fn wide_grammar(n: usize) -> G {
    let mut rules = vec![];
    let nn = 3u64;
    for i in 0..n as u64 { if conc(bits(1)) == 1 { rules.push((1, vec![nn + i])); } }
    if conc(bits(1)) == 1 { rules.push((1, vec![])); }
    if conc(bits(1)) == 1 { rules.push((0, vec![2, 1])); } else { rules.push((0, vec![1, 2])); }
    for i in 0..n as u64 { rules.push((2, vec![nn + n as u64 + i, 1])); }
    rules.push((2, vec![]));
    build(3, 2 * n, 1, 1, 0, rules)
}
/// expressions: two levels of operators and parentheses, the tails anonymous
pub fn expr_grammar() -> G { build(5, 5, 1, 1, 0b01010, vec![(0, vec![2, 1]), (1, vec![5, 2, 1]), (1, vec![]), (2, vec![4, 3]), (3, vec![6, 4, 3]), (3, vec![]), (4, vec![7, 0, 8]), (4, vec![9])]) }
/// a list of a and b, an anonymous rule inside an anonymous rule around each
pub fn list_grammar() -> G { build(4, 3, 1, 1, 0b1110, vec![(0, vec![1, 6]), (1, vec![2, 1]), (1, vec![]), (2, vec![3]), (3, vec![4]), (3, vec![5])]) }
/// lists by a rule that calls itself in front or behind, named or anonymous, and nested parentheses
pub fn rec_grammar(k: usize) -> (G, u64) {
    match k {
        0 => (build(1, 1, 1, 1, 0, vec![(0, vec![1, 0]), (0, vec![])]), 0),
        1 => (build(2, 1, 1, 1, 2, vec![(0, vec![1]), (1, vec![2, 1]), (1, vec![])]), 2),
        2 => (build(1, 3, 1, 1, 0, vec![(0, vec![1, 0, 2]), (0, vec![3])]), 0),
        3 => (build(2, 3, 1, 1, 2, vec![(0, vec![2, 1, 3]), (1, vec![0]), (1, vec![4])]), 2),
        _ => (build(3, 2, 1, 1, 4, vec![(0, vec![2]), (1, vec![3]), (2, vec![1, 2]), (2, vec![4])]), 4),
    }
}
/// named rules in a chain, n deep, the last a token
pub fn unit_grammar(n: usize) -> G { build(n, 1, 1, 1, 0, (0..n as u64).map(|i| (i, if i as usize + 1 < n { vec![i + 1] } else { vec![n as u64] })).collect()) }
impl G {
    pub fn nid(&self, n: usize) -> usize { n * self.ns as usize }
    /// the bit of a terminal number, 0 for none
    pub fn tbit(&self, x: usize) -> u64 {
        if self.ts == 1 { return sel((x == 1) | ((x >= T0) & (x < T0 + self.nt)), 1u64 << (x & 63), 0); }
        let mut m = sel(x == 1, 2, 0);
        for t in 0..self.nt { m |= sel(x == T0 + t * self.ts as usize, 1 << (T0 + t), 0); }
        m
    }
    /// bit mask of a set of terminal numbers; `ok` is cleared by one that is no terminal here
    pub fn mask<'a>(&self, it: impl Iterator<Item = &'a usize>, ok: &mut bool) -> u64 {
        let mut m = 0;
        for &x in it { let b = self.tbit(x); *ok &= b != 0; m |= b; }
        m
    }
    pub fn code(&self, it: ProductionItem) -> u64 { match it { ProductionItem::NonTerminal(n) => if self.ns == 1 { n as u64 } else { n as u64 / self.ns }, ProductionItem::Terminal(t) => if self.ts == 1 { (t + self.nn) as u64 - T0 as u64 } else { (t - T0) as u64 / self.ts + self.nn as u64 } } }
    fn tmask(&self, c: u64) -> u64 { let mut m = 0; for t in 0..self.nt { m |= sel(c == (self.nn + t) as u64, 1 << (T0 + t), 0); } m }
    fn pick(&self, c: u64, a: &[u64]) -> u64 { let mut m = 0; for n in 0..self.nn { m |= sel(c == n as u64, a[n], 0); } m }
    /// (nullable flags, FIRST masks)
    pub fn first(&self) -> (Vec<u64>, Vec<u64>) {
        let mut nul = vec![0u64; self.nn];
        for _ in 0..self.nn { for p in 0..self.left.len() { let mut e = 1; for &c in &self.item[p] { e &= self.pick(c, &nul); } for n in 0..self.nn { nul[n] |= sel(self.left[p] == n as u64, e, 0); } } }
        let mut f = vec![0u64; self.nn];
        for _ in 0..self.nn { for p in 0..self.left.len() { let (m, _) = self.first_of(&self.item[p], &nul, &f); for n in 0..self.nn { f[n] |= sel(self.left[p] == n as u64, m, 0); } } }
        (nul, f)
    }
    pub fn first_of(&self, s: &[u64], nul: &[u64], f: &[u64]) -> (u64, u64) {
        let (mut m, mut e) = (0, 1);
        for &c in s { m |= sel(e == 1, self.tmask(c) | self.pick(c, f), 0); e &= self.pick(c, nul); }
        (m, e)
    }
    pub fn follow(&self, nul: &[u64], f: &[u64]) -> Vec<u64> {
        let mut w = vec![0u64; self.nn];
        w[0] = 2;
        for _ in 0..self.nn { for p in 0..self.left.len() {
            let up = self.pick(self.left[p], &w);
            for i in 0..self.item[p].len() {
                let (m, e) = self.first_of(&self.item[p][i + 1..], nul, f);
                let add = m | sel(e == 1, up, 0);
                for n in 0..self.nn { w[n] |= sel(self.item[p][i] == n as u64, add, 0); }
            }
        } }
        w
    }
    /// per production, the symbols that predict it
    pub fn predict(&self, nul: &[u64], f: &[u64], w: &[u64]) -> Vec<u64> {
        (0..self.left.len()).map(|p| { let (m, e) = self.first_of(&self.item[p], nul, f); m | sel(e == 1, self.pick(self.left[p], w), 0) }).collect()
    }
}
