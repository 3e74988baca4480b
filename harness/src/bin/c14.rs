//! C14: the page drawn for a tree carries that tree, whatever its names and texts contain.
#[path = "../tree.rs"] #[allow(dead_code)] mod tree;
use tree::*;
use symrt::*;
use syntaxis::runtime::ast::{ast_context::ASTContext, rule_context::RuleContext};
use syntaxis::tool::gui::ast_drawer::ASTDrawer;

/// a reader of the JavaScript data expression in the page
struct Js<'a> { b: &'a [u8], p: usize, ok: bool }
enum Val { Str(Vec<u8>), Arr(Vec<Val>), Obj(Vec<(Vec<u8>, Val)>), Num(u64), Bad }
impl Js<'_> {
    fn at(&self) -> u8 { if self.p < self.b.len() { self.b[self.p] } else { 0 } }
    fn ws(&mut self) { while matches!(self.at(), b' ' | b'\n' | b'\t' | b'\r') { self.p += 1; } }
    fn bad(&mut self) -> Val { self.ok = false; self.p = self.b.len(); Val::Bad }
    fn hex(&mut self, n: usize) -> u32 {
        let mut v = 0;
        for _ in 0..n { let c = self.at(); let d = match c { b'0'..=b'9' => c - b'0', b'a'..=b'f' => c - b'a' + 10, b'A'..=b'F' => c - b'A' + 10, _ => { self.ok = false; 0 } }; v = v * 16 + d as u32; self.p += 1; }
        v
    }
    fn string(&mut self, q: u8) -> Val {
        let mut o = Vec::new();
        self.p += 1;
        loop {
            if self.p >= self.b.len() { return self.bad(); }
            let c = self.at(); self.p += 1;
            if c == q { return Val::Str(o); }
            if c == b'\\' {
                let e = self.at(); self.p += 1;
                match e {
                    b'n' => o.push(10), b't' => o.push(9), b'r' => o.push(13), b'b' => o.push(8), b'f' => o.push(12), b'v' => o.push(11),
                    b'0' => { if self.at().is_ascii_digit() { return self.bad(); } o.push(0) }
                    b'1'..=b'9' => return self.bad(),
                    b'x' => { let v = self.hex(2); push(&mut o, v) }
                    b'u' => { let v = if self.at() == b'{' { self.p += 1; let mut n = 0; while self.p + n < self.b.len() && n < 6 && self.b[self.p + n] != b'}' { n += 1; } let v = self.hex(n); self.p += 1; v } else { self.hex(4) }; push(&mut o, v) }
                    b'\n' => {} b'\r' => { if self.at() == b'\n' { self.p += 1; } }
                    e => o.push(e),
                }
            } else if q == b'`' && c == b'$' && self.at() == b'{' { return self.bad(); }
            else if q == b'`' && c == b'\r' { if self.at() == b'\n' { self.p += 1; } o.push(10); }
            else if q != b'`' && (c == b'\n' || c == b'\r') { return self.bad(); }
            else { o.push(c); }
        }
    }
    fn value(&mut self) -> Val {
        self.ws();
        match self.at() {
            q @ (b'`' | b'"' | b'\'') => self.string(q),
            b'[' => {
                self.p += 1; let mut v = Vec::new();
                loop { self.ws(); if self.at() == b']' { self.p += 1; return Val::Arr(v); } v.push(self.value()); self.ws(); if self.at() == b',' { self.p += 1; } else if self.at() != b']' { return self.bad(); } }
            }
            b'{' => {
                self.p += 1; let mut v = Vec::new();
                loop {
                    self.ws();
                    if self.at() == b'}' { self.p += 1; return Val::Obj(v); }
                    let k = match self.at() { q @ (b'"' | b'\'') => match self.string(q) { Val::Str(s) => s, _ => return Val::Bad }, _ => { let a = self.p; while self.at().is_ascii_alphanumeric() || self.at() == b'_' { self.p += 1; } self.b[a..self.p].to_vec() } };
                    self.ws(); if self.at() != b':' { return self.bad(); } self.p += 1;
                    let x = self.value(); v.push((k, x));
                    self.ws(); if self.at() == b',' { self.p += 1; } else if self.at() != b'}' { return self.bad(); }
                }
            }
            b'0'..=b'9' => { let mut v = 0u64; while self.at().is_ascii_digit() { v = v * 10 + (self.at() - b'0') as u64; self.p += 1; } Val::Num(v) }
            _ => self.bad(),
        }
    }
}
fn push(o: &mut Vec<u8>, v: u32) { if v < 128 { o.push(v as u8) } else { let mut t = [0; 4]; o.extend(char::from_u32(v).unwrap_or('?').encode_utf8(&mut t).bytes()); } }
fn get<'a>(v: &'a [(Vec<u8>, Val)], k: &str) -> Option<&'a Val> { v.iter().rev().find(|e| e.0 == k.as_bytes()).map(|e| &e.1) }
fn is(v: Option<&Val>, s: &str) -> bool { match v { Some(Val::Str(x)) => { if x.len() != s.len() { return false; } let mut ok = true; for (a, b) in x.iter().zip(s.bytes()) { ok &= *a == b; } ok } _ => false } }
fn same(v: &Val, t: &RuleContext) -> bool {
    let Val::Obj(o) = v else { return false };
    if !is(get(o, "name"), &t.rule_name) { return false; }
    let id = match get(o, "id") { Some(Val::Num(n)) => *n == t.rule_index as u64, x => is(x, &t.rule_index.to_string()) };
    let Some(Val::Arr(c)) = get(o, "children") else { return false };
    if !id || c.len() != t.children.len() { return false; }
    for (v, x) in c.iter().zip(t.children.iter()) {
        let s = match x { ASTContext::Rule(r) => { if !same(v, r) { return false; } continue } ASTContext::Terminal(x) => &x.symbol, ASTContext::Error(x) => &x.symbol };
        let Val::Obj(o) = v else { return false };
        if !is(get(o, "name"), &s.token_name) || !is(get(o, "text"), &s.text) || get(o, "children").is_some() { return false; }
    }
    true
}
fn find(b: &[u8], s: &str, from: usize) -> Option<usize> { (from..(b.len() + 1).saturating_sub(s.len())).find(|i| &b[*i..*i + s.len()] == s.as_bytes()) }
const FILE: &str = "drawn.html";
const TITLE: &str = "a title";
/// the text an HTML title element shows: up to its end tag, character references resolved
fn title(b: &[u8]) -> Option<Vec<u8>> {
    let mut i = find(b, "<title>", 0)? + 7;
    let at = |i: usize| if i < b.len() { b[i] } else { 0 };
    let mut o = Vec::new();
    const REFS: [(&str, u8); 8] = [("amp", b'&'), ("lt", b'<'), ("gt", b'>'), ("quot", b'"'), ("#x27", b'\''), ("#39", b'\''), ("#x2F", b'/'), ("#47", b'/')];
    'next: while i < b.len() {
        let c = b[i];
        if c == b'<' && at(i + 1) == b'/' && (0..5).all(|k| at(i + 2 + k).to_ascii_lowercase() == b"title"[k]) { return Some(o); }
        if c == b'&' { for (n, v) in REFS { if (0..n.len()).all(|k| at(i + 1 + k) == n.as_bytes()[k]) { o.push(v); i += 1 + n.len(); if at(i) == b';' { i += 1; } continue 'next; } } }
        o.push(if c == b'\r' { b'\n' } else { c });
        i += 1;
    }
    None
}
/// the page written for a tree, read back
fn drawn(t: &RuleContext) { page(&ASTDrawer::new(), t, TITLE) }
fn page(d: &ASTDrawer, t: &RuleContext, name: &str) {
    d.draw(t, name, FILE);
    let Some(page) = last_written(FILE) else { check(false, "page-written"); return };
    let shown = title(&page).unwrap_or_default();
    let mut ok = shown.len() == name.len();
    for (a, b) in shown.iter().zip(name.bytes()) { ok &= *a == if b == b'\r' { b'\n' } else { b }; }
    check(ok, "page-title");
    let Some(s) = find(&page, "<script type=\"module\">", 0) else { check(false, "page-script"); return };
    let Some(d) = find(&page, "const ast = ", s) else { check(false, "page-data"); return };
    let from = d + 12;
    let mut j = Js { b: &page, p: from, ok: true };
    let v = j.value();
    j.ws();
    let (end, ok) = (j.p, j.ok && j.at() == b';');
    check(ok, "page-data-well-formed");
    check(same(&v, t), "page-data-tree");
    // nothing in the data ends the script or hides its end from the HTML parser
    let low = |i: usize| page[i].to_ascii_lowercase();
    let (mut i, mut hidden) = (from, false);
    while i + 8 <= end {
        if page[i] == b'<' {
            hidden |= (page[i + 1] == b'/' && low(i + 2) == b's' && low(i + 3) == b'c' && low(i + 4) == b'r' && low(i + 5) == b'i' && low(i + 6) == b'p' && low(i + 7) == b't');
            hidden |= page[i + 1] == b'!' && page[i + 2] == b'-' && page[i + 3] == b'-';
        }
        i += 1;
    }
    check(!hidden, "page-data-in-script");
    // and the page is whole
    check(find(&page, "</script>", end).is_some() && page.trim_ascii_end().ends_with(b"</html>"), "page-complete");
    observe(end as u64 - from as u64);
}
fn any(n: usize, pre: &str, post: &str) -> String { let mut v: Vec<u8> = pre.bytes().collect(); for _ in 0..n { let c = bits(7) as u8; assume(c != 0); v.push(c); } v.extend(post.bytes()); unsafe { String::from_utf8_unchecked(v) } }
fn leaf(name: &str, text: &str) -> ASTContext { let t = tok(2, name, text, 0); if conc(bits(1)) == 1 { error(t) } else { term(t) } }
/// the string as rule name, token name and text, of a terminal or an error node
fn strings(n: usize) {
    match conc(bits(2)) {
        0 => drawn(&rule(&any(n, "", ""), 3, vec![])),
        1 => drawn(&rule("r", 3, vec![leaf(&any(n, "", ""), "x")])),
        2 => drawn(&rule("r", 3, vec![leaf("T", &any(n, "", ""))])),
        _ => drawn(&rule("r", 3, vec![sub(&any(n, "", ""), 1, vec![])])),
    }
}
fn special() {
    let k = conc(bits(3)) as usize;
    let s = match k { 0 => any(2, "</scri", ">"), 1 => any(1, "<!-", ""), 2 => any(1, "<!", "-"), 3 => any(1, "", "/script>"), 4 => any(1, "é", "漢"), 5 => any(1, "\\", "\\"), 6 => any(1, "\r", "\u{2028}"), _ => any(2, "$", "}`") };
    drawn(&rule("r", 3, vec![term(tok(2, "T", &s, 0))]));
}
/// any shape
fn gen(dims: &[usize], k: &mut usize) -> RuleContext {
    let n = conc(bits(2)) as usize; assume(n <= dims[0]);
    let mut ch = Vec::new();
    const N: [&str; 8] = ["a", "b", "c", "d", "e", "f", "g", "h"];
    for _ in 0..n {
        let kind = conc(bits(2)); assume(kind < 3 && (dims.len() > 1 || kind != 2));
        if kind == 2 { ch.push(ASTContext::Rule(gen(&dims[1..], k))); } else { *k += 1; let t = tok(2, N[*k % 8], N[(*k + 3) % 8], 0); ch.push(if kind == 1 { error(t) } else { term(t) }); }
    }
    *k += 1;
    rule(N[*k % 8], *k * 7, ch)
}
/// the device takes only so many bytes: draw must not claim success
fn short() {
    let k = conc(bits(4)) as usize; let n = if k == 15 { 1 } else { k * 2048 };
    let t = rule("r", 3, vec![term(tok(2, "T", "x", 0))]);
    short_write(n);
    panic_ok(true);
    ASTDrawer::new().draw(&t, TITLE, FILE);
    // it returned: then all of it must be there
    let page = last_written(FILE).unwrap_or_default();
    panic_ok(false);
    check(page.trim_ascii_end().ends_with(b"</html>"), "page-complete");
}
fn large(max: usize) { let t = Large { rule: &|i| i * 3, tok: &|_| 2, at: 0, leaves: 0, errors: true }.tree_or_huge(max); drawn(&t) }
/// any title
fn titles(n: usize) {
    let t = rule("r", 3, vec![term(tok(2, "T", "x", 0))]);
    let k = conc(bits(3));
    let name = match k { 0 | 1 => any(n, "", ""), 2 => any(n, "</titl", "e>"), 3 => any(n, "<!-", "-"), 4 => any(n, "&am", ";"), 5 => any(n, "{{", "name }}"), 6 => any(n, "é", "漢"), _ => any(n, "<scrip", ">") };
    page(&ASTDrawer::new(), &t, &name);
}
/// the file is there already, with more or less in it; a drawer is used again
fn again() {
    let k = conc(bits(2)) as usize;
    if k > 0 { put_file(FILE, &vec![b'x'; [0, 5, 12000, 40000][k]]); }
    let d = ASTDrawer::new();
    let s = any(1, "", "");
    page(&d, &rule(&s, 3, vec![term(tok(2, "T", &s, 0)), sub("q", 4, vec![])]), "first, with a long title");
    page(&d, &rule("r", 5, vec![]), "second");
}
fn number() { let i = bits(8) as usize; drawn(&rule("r", i, vec![])); }
#[no_mangle] #[inline(never)] fn c14_a() { strings(1) }
#[no_mangle] #[inline(never)] fn c14_b() { strings(2) }
#[no_mangle] #[inline(never)] fn c14_c() { special() }
#[no_mangle] #[inline(never)] fn c14_d() { let mut k = 0; let t = gen(&[2, 2], &mut k); drawn(&t) }
#[no_mangle] #[inline(never)] fn c14_e() { let mut k = 0; let t = gen(&[2, 1, 1], &mut k); drawn(&t) }
#[no_mangle] #[inline(never)] fn c14_f() { short() }
#[no_mangle] #[inline(never)] fn c14_i() { number() }
#[no_mangle] #[inline(never)] fn c14_t() { strings(3) }
#[no_mangle] #[inline(never)] fn c14_u() { drawn(&rule("r", 3, vec![term(tok(2, "T", &any(4, "", ""), 0))])) }
#[no_mangle] #[inline(never)] fn c14_g() { large(7) }
#[no_mangle] #[inline(never)] fn c14_h() { titles(1) }
#[no_mangle] #[inline(never)] fn c14_j() { again() }
#[no_mangle] #[inline(never)] fn c14_v() { titles(2) }
#[no_mangle] #[inline(never)] fn c14_k() { large(999) }
fn main() { entry(&[("c14_k", c14_k), ("c14_h", c14_h), ("c14_j", c14_j), ("c14_v", c14_v), ("c14_g", c14_g), ("c14_a", c14_a), ("c14_b", c14_b), ("c14_c", c14_c), ("c14_d", c14_d), ("c14_e", c14_e), ("c14_f", c14_f), ("c14_i", c14_i), ("c14_t", c14_t), ("c14_u", c14_u)]) }
