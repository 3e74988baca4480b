//! C13: loading a syntax tree from JSON.
#[path = "../tree.rs"] #[allow(dead_code)] mod tree;
use std::io::Read;
use tree::Large;
use symrt::*;
use syntaxis::runtime::ast::{ast_context::ASTContext, rule_context::RuleContext};
use syntaxis::tool::serde_ast::{from_reader, from_str};

/// what the document says: rules (number, name, children) and terminals (type, name, text)
#[derive(Clone)]
enum D { R(u64, String, Vec<D>), T(u64, String, Option<String>) }
fn same(t: &RuleContext, d: &D) -> bool {
    let D::R(i, n, ch) = d else { return false };
    if t.children.len() != ch.len() { return false; }
    let mut ok = (t.rule_index as u64 == *i) & eq(&t.rule_name, n);
    for (a, b) in t.children.iter().zip(ch) {
        match (a, b) {
            (ASTContext::Rule(r), D::R(..)) => ok &= same(r, b),
            (ASTContext::Terminal(x), D::T(i, n, s)) => { ok &= (x.symbol.token_type as u64 == *i) & eq(&x.symbol.token_name, n); if let Some(s) = s { ok &= eq(&x.symbol.text, s); } }
            _ => return false,
        }
    }
    ok
}
fn eq(a: &str, b: &str) -> bool { if a.len() != b.len() { return false; } let mut ok = true; for (x, y) in a.bytes().zip(b.bytes()) { ok &= x == y; } ok }
fn digit() -> (u8, u64) { let d = bits(4); assume(d < 10); (b'0' + d as u8, d) }
/// a number of n digits (no leading zero)
fn number(n: usize, out: &mut Vec<u8>) -> u64 { let mut v = 0; for i in 0..n { let (c, d) = digit(); if i == 0 && n > 1 { assume(d > 0); } out.push(c); v = v * 10 + d; } v }
/// a string of n printable ASCII characters, each written plainly, escaped or as \u00xx
fn string(n: usize, out: &mut Vec<u8>, esc: bool) -> String {
    let mut v = Vec::new();
    out.push(b'"');
    for _ in 0..n {
        let c = bits(7) as u8;
        let how = if esc { conc(bits(2)) } else { 0 };
        match how {
            0 => { assume(c >= 32 && c < 127 && c != b'"' && c != b'\\'); out.push(c); v.push(c); }
            1 => { let k = conc(bits(3)) as usize; let (e, r) = [(b'"', b'"'), (b'\\', b'\\'), (b'/', b'/'), (b'b', 8), (b'f', 12), (b'n', 10), (b'r', 13), (b't', 9)][k]; out.push(b'\\'); out.push(e); v.push(r); }
            2 => { let c = c; out.extend(b"\\u00"); let hex = |x: u8| if x < 10 { b'0' + x } else { b'a' + (x - 10) }; out.push(hex(c >> 4)); out.push(hex(c & 15)); v.push(c); }
            _ => { out.extend("é".bytes()); v.extend("é".bytes()); }
        }
    }
    out.push(b'"');
    unsafe { String::from_utf8_unchecked(v) }
}
/// large documents
fn write(t: &RuleContext, o: &mut String) -> D {
    *o += &format!("{{\"rule_index\":{},\"rule_name\":\"{}\",\"children\":[", t.rule_index, t.rule_name);
    let mut ch = Vec::new();
    for (i, c) in t.children.iter().enumerate() {
        if i > 0 { o.push(','); }
        match c {
            ASTContext::Rule(r) => ch.push(write(r, o)),
            ASTContext::Terminal(x) => { let s = &x.symbol; *o += &format!("{{\"token_type\":{},\"token_name\":\"{}\",\"text\":\"{}\"}}", s.token_type, s.token_name, s.text); ch.push(D::T(s.token_type as u64, s.token_name.clone(), Some(s.text.clone()))) }
            _ => (),
        }
    }
    *o += "]}";
    D::R(t.rule_index as u64, t.rule_name.clone(), ch)
}
fn large(max: usize, reader: bool) {
    let mut t = Large { rule: &|i| i * 3, tok: &|i| i * 3 + 1, at: 0, leaves: 0, errors: false };
    let t = if max > 99 { t.huge(&[40, 270], &[40]) } else { t.tree(max) };
    let mut s = String::new();
    let d = write(&t, &mut s);
    let r = if reader { from_reader(Rd { b: s.as_bytes(), chunk: 7, intr: true, fail: None, at: 0 }) } else { from_str(&s) };
    match r { Ok(t) => check(same(&t, &d), "json-tree"), Err(_) => check(false, "json-accepts") }
}
struct Opt { digits: usize, name: usize, esc: bool, order: bool }
fn put(o: &mut Vec<u8>, s: &str) { o.extend(s.bytes()) }
fn ruled(dims: &[usize], o: &mut Vec<u8>, p: &Opt) -> D {
    let n = conc(bits(2)) as usize; assume(n <= dims[0]);
    let first = p.order && conc(bits(1)) == 1;
    put(o, "{");
    let (mut i, mut name) = (0, String::new());
    if !first { put(o, "\"rule_index\":"); i = number(p.digits, o); put(o, ", \"rule_name\": "); name = string(p.name, o, p.esc); put(o, ", "); }
    put(o, "\"children\": [");
    let mut ch = Vec::new();
    for k in 0..n {
        if k > 0 { put(o, ","); }
        let kind = conc(bits(2)); assume(kind < 3 && (dims.len() > 1 || kind != 2));
        if kind == 2 { ch.push(ruled(&dims[1..], o, p)); }
        else {
            put(o, "{\"token_type\":"); let t = number(p.digits, o); put(o, ",\n \"token_name\":"); let n = string(p.name, o, p.esc);
            let text = if kind == 1 { put(o, ",\t\"text\":"); Some(string(p.name, o, p.esc)) } else { if p.order && conc(bits(1)) == 1 { put(o, ", \"children\": null"); } None };
            put(o, "}");
            ch.push(D::T(t, n, text));
        }
    }
    put(o, "]");
    if first { put(o, ",\"extra\":{\"a\":[1,true]},\"rule_name\":"); name = string(p.name, o, p.esc); put(o, ",\"rule_index\":"); i = number(p.digits, o); }
    put(o, "}");
    D::R(i, name, ch)
}
/// a reader that hands out its bytes in chunks of any size, interrupted now and then, failing at `fail` if asked to
struct Rd<'a> { b: &'a [u8], chunk: usize, intr: bool, fail: Option<usize>, at: usize }
impl Read for Rd<'_> {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        if self.intr { self.intr = false; return Err(std::io::Error::from(std::io::ErrorKind::Interrupted)); }
        if let Some(f) = self.fail { if self.at >= f { return Err(std::io::Error::from(std::io::ErrorKind::Other)); } }
        let n = self.chunk.min(out.len()).min(self.b.len() - self.at);
        out[..n].copy_from_slice(&self.b[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}
fn good(dims: &[usize], p: &Opt, reader: bool) {
    let mut o = Vec::new();
    let d = ruled(dims, &mut o, p);
    observe(o.len() as u64);
    if reader {
        let chunk = [1, 3, 64, 4096][conc(bits(2)) as usize];
        match from_reader(Rd { b: &o, chunk, intr: conc(bits(1)) == 1, fail: None, at: 0 }) { Ok(t) => check(same(&t, &d), "json-reader-tree"), Err(_) => check(false, "json-reader-accepts") }
        // a read error before the document is complete is an error, not a shorter tree
        let f = conc(bits(8)) as usize; assume(f < o.len());
        check(from_reader(Rd { b: &o, chunk: 1, intr: false, fail: Some(f), at: 0 }).is_err(), "json-reader-error");
    } else {
        let s = unsafe { String::from_utf8_unchecked(o) };
        match from_str(&s) { Ok(t) => check(same(&t, &d), "json-tree"), Err(_) => check(false, "json-accepts") }
    }
}
/// every field in any of these states: the document must be rejected exactly when a needed field is missing or of the wrong type
const V: [&str; 9] = ["", "7", "\"a\"", "null", "[]", "{}", "-1", "1.5", "true"];
fn field(o: &mut Vec<u8>, key: &str) -> usize {
    let k = conc(bits(4)) as usize; assume(k < V.len());
    if k > 0 { if o.last() != Some(&b'{') { put(o, ","); } put(o, "\""); put(o, key); put(o, "\":"); put(o, V[k]); }
    k
}
fn fields_root() {
    let mut o = Vec::new(); put(&mut o, "{");
    let i = field(&mut o, "rule_index"); let n = field(&mut o, "rule_name"); let c = field(&mut o, "children");
    put(&mut o, "}");
    let s = String::from_utf8(o).unwrap();
    let r = from_str(&s);
    if i == 1 && n == 2 && c == 4 { match r { Ok(t) => check(same(&t, &D::R(7, "a".to_owned(), vec![])), "json-tree"), Err(_) => check(false, "json-accepts") } } else { check(r.is_err(), "json-rejects"); }
}
fn fields_leaf() {
    let mut o = Vec::new(); put(&mut o, "{\"rule_index\":1,\"rule_name\":\"r\",\"children\":[{\"token_type\":5,\"token_name\":\"ok\",\"text\":\"t\"},{");
    let i = field(&mut o, "token_type"); let n = field(&mut o, "token_name"); let t = field(&mut o, "text"); let c = field(&mut o, "children");
    assume(c < 6);
    put(&mut o, "}]}");
    let s = String::from_utf8(o).unwrap();
    let r = from_str(&s);
    let leaf = c == 0 || c == 3;
    if leaf && i == 1 && n == 2 {
        let d = D::R(1, "r".to_owned(), vec![D::T(5, "ok".to_owned(), Some("t".to_owned())), D::T(7, "a".to_owned(), if t == 2 { Some("a".to_owned()) } else { None })]);
        match r { Ok(x) => check(same(&x, &d), "json-tree"), Err(_) => check(false, "json-accepts") }
    } else { check(r.is_err(), "json-rejects"); }
}
/// a child that is no object, a root that is none
fn shapes() {
    let k = conc(bits(4)) as usize; assume(k >= 1 && k < V.len());
    check(from_str(V[k]).is_err(), "json-rejects");
    let s = ["{\"rule_index\":1,\"rule_name\":\"r\",\"children\":[", V[k], "]}"].concat();
    check(from_str(&s).is_err(), "json-rejects");
    let s = ["{\"rule_index\":1,\"rule_name\":\"r\",\"children\":[{\"rule_index\":2,\"rule_name\":\"q\",\"children\":[", V[k], "]}]}"].concat();
    check(from_str(&s).is_err(), "json-rejects");
}
/// text that is no JSON: any n bytes alone, and the document cut or with any byte put in
fn junk(n: usize) {
    let mut o = Vec::new(); for _ in 0..n { o.push(bits(7) as u8); }
    check(from_str(unsafe { std::str::from_utf8_unchecked(&o) }).is_err(), "json-rejects");
}
const DOC: &str = "{\"rule_index\":1,\"rule_name\":\"r\",\"children\":[{\"token_type\":5,\"token_name\":\"ok\"}]}";
/// through from_str, or from_reader in chunks of 3
fn load(b: &[u8], rd: bool) -> Result<RuleContext, syntaxis::tool::serde_ast::Error> { if rd { from_reader(Rd { b, chunk: 3, intr: false, fail: None, at: 0 }) } else { from_str(unsafe { std::str::from_utf8_unchecked(b) }) } }
fn cut(rd: bool) {
    let k = conc(bits(7)) as usize; assume(k < DOC.len());
    check(load(&DOC.as_bytes()[..k], rd).is_err(), "json-rejects");
    let mut s = DOC.to_owned(); let c = bits(7) as u8; s.push(c as char);
    check(load(s.as_bytes(), rd).is_ok() == (c == b' ' || c == b'\n' || c == b'\r' || c == b'\t'), "json-trailing");
}
/// something behind the document, far or near, and bytes that are no UTF-8 in it
fn behind() {
    let rd = conc(bits(1)) == 1;
    let k = conc(bits(3)) as usize;
    let s = [["", DOC, "\n\n", DOC], ["", DOC, "   ", "x"], ["", DOC, "\t\r\n", ""], [" \n", DOC, " ", ","], ["\n", DOC, "", ""], ["", DOC, "", "null"], ["\u{feff}", DOC, "", ""], ["//x\n", DOC, "", ""]][k].concat();
    check(load(s.as_bytes(), rd).is_ok() == (k == 2 || k == 4), "json-behind");
    let mut o = DOC.as_bytes().to_vec(); let at = o.iter().position(|c| *c == b'k').unwrap();
    let c = bits(8) as u8; assume(c >= 128);
    o[at] = c;
    check(load(&o, true).is_err(), "json-utf8");
}
/// the same key twice: JSON has it that the last one counts
fn repeated() {
    let k = below5() as usize;
    let s = ["{\"rule_index\":1,\"rule_index\":2,\"rule_name\":\"q\",\"rule_name\":\"r\",\"children\":[]}", "{\"children\":[],\"rule_index\":2,\"rule_name\":\"r\",\"Rule_Index\":9}", "{\"children\":[],\"rule_index\":2,\"rule_name\":\"r\",\"token_type\":5,\"token_name\":\"x\",\"text\":\"t\"}", "{\"\\u0063hildren\":[],\"rule_index\":2,\"rule_name\":\"r\"}", "{\"children\":[],\"rule_index\":2,\"rule_name\":\"r\",\"text\":\"t\",\"id\":{\"rule_index\":7,\"children\":[{}]}}"][k];
    match load(s.as_bytes(), conc(bits(1)) == 1) { Ok(t) => check(same(&t, &D::R(2, "r".to_owned(), vec![])), "json-tree"), Err(_) => check(false, "json-accepts") }
}
fn insert(rd: bool) {
    let k = conc(bits(7)) as usize; assume(k < DOC.len());
    let mut o = DOC.as_bytes().to_vec(); o.insert(k, bits(7) as u8);
    // whatever it makes of it, it answers
    if let Ok(t) = load(&o, rd) { observe(t.children.len() as u64); check(t.children.len() == 1, "json-tree"); }
}
/// numbers at the edges of 32 and 64 bits, of rules and of tokens
fn numbers() {
    const N: [(&str, Option<u64>); 12] = [("0", Some(0)), ("255", Some(255)), ("256", Some(256)), ("65536", Some(65536)), ("2147483648", Some(1 << 31)), ("4294967295", Some((1 << 32) - 1)), ("4294967296", Some(1 << 32)), ("9007199254740993", Some(9007199254740993)),
        ("9223372036854775808", Some(1 << 63)), ("18446744073709551615", Some(u64::MAX)), ("18446744073709551616", None), ("-9223372036854775808", None)];
    let k = conc(bits(4)) as usize; assume(k < N.len());
    let (t, v) = N[k];
    let rule = conc(bits(1)) == 1;
    let s = if rule { ["{\"rule_index\":", t, ",\"rule_name\":\"r\",\"children\":[]}"].concat() } else { ["{\"rule_index\":3,\"rule_name\":\"r\",\"children\":[{\"token_type\":", t, ",\"token_name\":\"x\",\"text\":\"y\"}]}"].concat() };
    match (from_str(&s), v) {
        (Ok(x), Some(v)) => { let d = if rule { D::R(v, "r".to_owned(), vec![]) } else { D::R(3, "r".to_owned(), vec![D::T(v, "x".to_owned(), Some("y".to_owned()))]) }; check(same(&x, &d), "json-tree") }
        (r, v) => check(r.is_err() && v.is_none(), "json-number"),
    }
}
/// the three strings of a tree written in unusual ways, or in ways JSON does not allow
fn strings() {
    const S: [(&str, Option<&str>); 16] = [("", Some("")), ("\\ud83d\\ude00", Some("😀")), ("😀é", Some("😀é")), ("\\u00E9\\u4e2D", Some("é中")), ("\\u0000", Some("\0")), ("\\u2028\u{2028}", Some("\u{2028}\u{2028}")), ("a\\\\\\\"\\/b", Some("a\\\"/b")), ("\u{7f}", Some("\u{7f}")),
        (" a  b ", Some(" a  b ")), ("null", Some("null")), ("<no text>", Some("<no text>")), ("\\ud83d", None), ("\\ude00\\ud83d", None), ("\n", None), ("\\x41", None), ("\\u12", None)];
    let k = conc(bits(4)) as usize;
    let place = conc(bits(2)) as usize; assume(place < 3);
    let mut v = ["r", "x", "y"]; let mut w = ["r", "x", "y"];
    v[place] = S[k].0; if let Some(t) = S[k].1 { w[place] = t; }
    let s = ["{\"rule_index\":1,\"rule_name\":\"", v[0], "\",\"children\":[{\"token_type\":2,\"token_name\":\"", v[1], "\",\"text\":\"", v[2], "\"}]}"].concat();
    let d = D::R(1, w[0].to_owned(), vec![D::T(2, w[1].to_owned(), Some(w[2].to_owned()))]);
    let rd = conc(bits(1)) == 1;
    let r = if rd { from_reader(Rd { b: s.as_bytes(), chunk: 1, intr: false, fail: None, at: 0 }) } else { from_str(&s) };
    match (r, S[k].1) { (Ok(x), Some(_)) => check(same(&x, &d), "json-tree"), (r, v) => check(r.is_err() && v.is_none(), "json-string") }
}
/// rules n deep, with a token before, behind, or at the bottom only: as deep as JSON is read, deeper documents rejected
fn deep() {
    let n = [1, 20, 62, 63, 90][conc(below5()) as usize];
    let how = conc(bits(2)) as usize; assume(how < 3);
    let t = "{\"token_type\":2,\"token_name\":\"x\",\"text\":\"y\"}";
    let (mut s, mut tail, mut d) = (String::new(), String::new(), D::R(n as u64, "r".to_owned(), vec![D::T(2, "x".to_owned(), Some("y".to_owned()))]));
    for i in 1..=n {
        s += &format!("{{\"rule_index\":{},\"rule_name\":\"r\",\"children\":[", i);
        let mut e = String::from("]}");
        if i < n && how == 0 { s += t; s += ","; }
        if i < n && how == 1 { e = [",", t, "]}"].concat(); }
        tail.insert_str(0, &e);
    }
    s += t; s += &tail;
    for i in (1..n).rev() {
        let mut c = vec![d];
        if how == 0 { c.insert(0, D::T(2, "x".to_owned(), Some("y".to_owned()))); }
        if how == 1 { c.push(D::T(2, "x".to_owned(), Some("y".to_owned()))); }
        d = D::R(i as u64, "r".to_owned(), c);
    }
    match from_str(&s) { Ok(x) => check(same(&x, &d), "json-tree"), Err(_) => check(n > 63, "json-depth") }
}
fn below5() -> u64 { let x = bits(3); assume(x < 5); x }
const P: Opt = Opt { digits: 1, name: 1, esc: false, order: false };
#[no_mangle] #[inline(never)] fn c13_a() { good(&[1], &Opt { digits: 2, name: 2, esc: false, order: false }, false) }
#[no_mangle] #[inline(never)] fn c13_b() { good(&[2, 2], &P, false) }
#[no_mangle] #[inline(never)] fn c13_c() { good(&[1], &Opt { digits: 1, name: 1, esc: true, order: true }, false) }
#[no_mangle] #[inline(never)] fn c13_d() { good(&[1, 1], &Opt { digits: 1, name: 1, esc: false, order: true }, false) }
#[no_mangle] #[inline(never)] fn c13_e() { good(&[1], &P, true) }
#[no_mangle] #[inline(never)] fn c13_f() { fields_root() }
#[no_mangle] #[inline(never)] fn c13_g() { fields_leaf() }
#[no_mangle] #[inline(never)] fn c13_h() { shapes() }
#[no_mangle] #[inline(never)] fn c13_j() { junk(3) }
#[no_mangle] #[inline(never)] fn c13_k() { cut(false) }
#[no_mangle] #[inline(never)] fn c13_v() { cut(true) }
#[no_mangle] #[inline(never)] fn c13_l() { insert(false) }
#[no_mangle] #[inline(never)] fn c13_w() { insert(true) }
#[no_mangle] #[inline(never)] fn c13_x() { behind() }
#[no_mangle] #[inline(never)] fn c13_y() { repeated() }
#[no_mangle] #[inline(never)] fn c13_n() { good(&[0], &Opt { digits: 5, name: 0, esc: false, order: false }, false) }
#[no_mangle] #[inline(never)] fn c13_i() { numbers() }
#[no_mangle] #[inline(never)] fn c13_m() { strings() }
#[no_mangle] #[inline(never)] fn c13_o() { deep() }
#[no_mangle] #[inline(never)] fn c13_p() { good(&[0], &Opt { digits: 1, name: 1, esc: true, order: true }, true) }
#[no_mangle] #[inline(never)] fn c13_s() { good(&[2, 1, 1], &P, false) }
#[no_mangle] #[inline(never)] fn c13_t() { good(&[2], &Opt { digits: 1, name: 1, esc: true, order: true }, false) }
#[no_mangle] #[inline(never)] fn c13_q() { large(12, false) }
#[no_mangle] #[inline(never)] fn c13_r() { large(5, true) }
#[no_mangle] #[inline(never)] fn c13_z() { large(999, conc(bits(1)) == 1) }
fn main() { entry(&[("c13_z", c13_z), ("c13_v", c13_v), ("c13_w", c13_w), ("c13_x", c13_x), ("c13_y", c13_y), ("c13_q", c13_q), ("c13_r", c13_r), ("c13_a", c13_a), ("c13_b", c13_b), ("c13_c", c13_c), ("c13_d", c13_d), ("c13_e", c13_e), ("c13_f", c13_f), ("c13_g", c13_g), ("c13_h", c13_h), ("c13_j", c13_j), ("c13_k", c13_k), ("c13_l", c13_l), ("c13_n", c13_n), ("c13_s", c13_s), ("c13_t", c13_t), ("c13_i", c13_i), ("c13_m", c13_m), ("c13_o", c13_o), ("c13_p", c13_p)]) }
