//! C08: what `scan` does with its rule list, for any input.
#[path = "../lexspec.rs"] #[allow(dead_code)] #[macro_use] mod lexspec;
use lexspec::*;
use regex::Regex;
use symrt::*;
use syntaxis::tool::syntaxis::syntaxis_lexer::SyntaxisLexer as Boot;
use syntaxis::tool::v1::syntaxis_lexer::SyntaxisLexer as V1;
mod generated { include!(env!("LEXGEN")); }
use generated::demo::DemoLexer;
use generated::other::Other_2Lexer;

fn a_plus(s: &[u8]) -> usize { run(s, |c| c == b'a') }
fn ab(s: &[u8]) -> usize { lit(s, b"ab") }
fn blank(s: &[u8]) -> usize { run(s, |c| (c == b' ') | (c == b'\n')) }
fn space(s: &[u8]) -> usize { run(s, |c| (c == b' ') | (c == b'\n') | (c == b'\r') | (c == b'\t') | (c == 12)) }
fn word_(s: &[u8]) -> usize { run(s, |c| !((c == b' ') | (c == b'\n') | (c == b'\r') | (c == b'\t') | (c == 12))) }
fn b_nl(s: &[u8]) -> usize { lit(s, b"b\n") }
fn e_acute(s: &[u8]) -> usize { lit(s, "é".as_bytes()) }
fn aa_b(s: &[u8]) -> usize { let n = lit(s, b"aa"); if n > 0 { n } else { lit(s, b"b") } }
const SETS: [(&[&str], &[M], &[&str]); 5] = [
    (&["^(a+)", "^(ab)", "^([ \\n]+)", "^(b\\n)", "^(é)"], &[a_plus, ab, blank, b_nl, e_acute], &["_STOP", "AB", "WS", "BNL", "EA"]),
    // ties, and a rule that can match nothing
    (&["^(ab)", "^(a*)", "^(aa|b)", "^(ab)"], &[ab, a_plus, aa_b, ab], &["AB", "AS", "AAB", "WHITE_SPACE"]),
    // every white space character, and words of anything else
    (&["^([ \\n\\r\\t\\f]+)", "^([^ \\n\\r\\t\\f]+)"], &[space, word_], &["SPACE", "WORD"]),
    // tokens that span lines, whatever is in them
    (&["^(;)", "^(\"[^\"]*\")", "^([^\";]+)"], &[|s| lit(s, b";"), |s| { if lit(s, b"\"") == 0 { return 0; } let n = run(&s[1..], |c| c != b'"'); if n + 1 < s.len() { n + 2 } else { 0 } }, |s| run(s, |c| (c != b'"') & (c != b';'))], &["SEMI", "QUOTED", "OTHER"]),
    (&["^(aa|b)", "^(a+)", "^(\\n|é)"], &[aa_b, a_plus, |s| { let n = lit(s, b"\n"); if n > 0 { n } else { lit(s, "é".as_bytes()) } }], &["AAB", "AS", "NLE"]),
];
/// n symbolic ASCII bytes, with a two-byte character at position `at` if at <= n
fn input(n: usize, at: usize) -> String { let mut v = vec![]; ascii(at.min(n), &mut v); if at <= n { v.extend("é".bytes()); ascii(n - at, &mut v); } text(v) }
/// scan_all_on_channel_tokens gives what scan gives, but for the types it leaves out
macro_rules! in_one_go { ($ty:ident, $s:expr, $inp:expr, $skip:expr) => {{
    use syntaxis::runtime::lexer::Lexer;
    let (rs, _, names) = SETS[$s];
    let mk = || {
        let mut lx = $ty::new($inp);
        lx.regex_list = rs.iter().map(|r| Regex::new(r).unwrap()).collect();
        let mut nm = vec!["_START", "_STOP"];
        nm.extend_from_slice(names);
        lx.token_names = nm;
        lx
    };
    let all = mk().scan_all_on_channel_tokens(0);
    let (mut lx, mut j) = (mk(), 0);
    while let Ok(t) = lx.scan() {
        if $skip.contains(&t.token_type) { continue; }
        if j >= all.len() { check(false, "all-missing"); return; }
        let a = &all[j];
        check(a.token_type == t.token_type && a.token_index == t.token_index && a.char_start_index == t.char_start_index && a.char_stop_index == t.char_stop_index && a.start.line == t.start.line && a.stop.char_position == t.stop.char_position, "all-token");
        j += 1;
    }
    check(all.len() == j, "all-extra");
}} }
macro_rules! with_set { ($ty:ident, $s:expr, $inp:expr, $stop:expr) => {{
    let (rs, ms, names) = SETS[$s];
    let inp = $inp;
    let mut lx = $ty::new(&inp);
    lx.regex_list = rs.iter().map(|r| Regex::new(r).unwrap()).collect();
    let mut nm = vec!["_START", "_STOP"];
    nm.extend_from_slice(names);
    lx.token_names = nm;
    drive!(&mut lx, &inp, ms, names, $stop);
}} }
fn v1(n: usize, at: usize) { let s = bits(3); assume(s < 5); let s = conc(s) as usize; with_set!(V1, s, input(n, at), true) }
/// n characters of " ; a, line feed, carriage return, tab, form feed, blank, a two-byte letter
fn few(n: usize) -> String {
    let mut v: Vec<u8> = vec![];
    for _ in 0..n { match conc(bits(1)) { 0 => { let c = bits(7) as u8; assume((c == b'"') | (c == b';') | (c == b'a') | (c == b'\n') | (c == b'\r') | (c == b'\t') | (c == 12) | (c == b' ')); v.push(c) } _ => v.extend("é".bytes()) } }
    text(v)
}
fn v1_few(n: usize) { let s = 2 + conc(bits(1)) as usize; with_set!(V1, s, few(n), true) }
fn boot_few(n: usize) { let s = 2 + conc(bits(1)) as usize; with_set!(Boot, s, few(n), false) }
fn boot(n: usize, at: usize) { let s = bits(3); assume(s < 5); let s = conc(s) as usize; with_set!(Boot, s, input(n, at), false) }

// the rules lexgen gives the template
fn slashes(s: &[u8]) -> usize { let n = run(s, |c| c == b'/'); if n >= 2 { 2 } else { 0 } }
const GM: [M; 5] = [ab, a_plus, slashes, b_nl, space];
const GN: [&str; 5] = ["TAB", "TAS", "SLASHES", "BNL", "WHITE_SPACE"];
fn gen(n: usize, at: usize) { gen_on(input(n, at)) }
macro_rules! generated { ($ty:ident, $inp:expr, $ms:expr, $names:expr, $white:expr) => {{
    let inp = $inp;
    let mut lx = $ty::new(&inp);
    let (end, _) = drive!(&mut lx, &inp, &$ms, &$names, true);
    // the same tokens, blanks left out, in one go
    use syntaxis::runtime::lexer::Lexer;
    let mut lx = $ty::new(&inp);
    let all = lx.scan_all_on_channel_tokens(0);
    let (mut c, mut k, mut j) = (0, 0, 0);
    let b = inp.as_bytes();
    while c < end {
        let (i, n) = best(&b[c..], &$ms).unwrap();
        if i != $white { if j >= all.len() { check(false, "all-missing"); return; } check(all[j].token_type == i + 2 && all[j].token_index == k && all[j].char_start_index == c, "all-token"); j += 1; }
        c += n; k += 1;
    }
    if end == b.len() { check(j < all.len() && all[j].token_type == 1, "all-stop"); j += 1; }
    check(all.len() == j, "all-extra");
    let mut lx = $ty::new(&inp);
    check(lx.scan_all_on_channel_tokens(1).is_empty(), "all-channel");
}} }
fn gen_on(inp: String) {
    type L = DemoLexer;
    check(L::TAB == 2 && L::TAS == 3 && L::SLASHES == 4 && L::BNL == 5 && L::WHITE_SPACE == 6, "gen-constants");
    generated!(DemoLexer, inp, GM, GN, 4)
}
fn b(x: bool, n: usize) -> usize { if x { n } else { 0 } }
const OM: [M; 14] = [
    |s| { let n = lit(s, b"\"#"); if n > 0 { n } else { lit(s, b"\"") } },
    |s| { let n = lit(s, b"if"); if n > 0 { n } else { lit(s, b"fi") } },
    |s| run(s, |c| (c == b' ') | ((c >= 9) & (c <= 13))),
    |s| run(s, |c| ((c >= b'a') & (c <= b'z')) | (c == b'_')),
    |s| lit(s, b"fi"),
    |s| { let d = |c: u8| (c >= b'0') & (c <= b'9'); let n = run(s, d); if n > 0 && n + 1 < s.len() && s[n] == b'.' { let m = run(&s[n + 1..], d); if m > 0 { return n + 1 + m; } } n },
    |s| lit(s, b"."),
    |s| { let n = run(s, |c| c == b'.'); b(n > 1, n) },
    |s| lit(s, b"/"),
    |s| { let n = lit(s, b"//"); if n > 0 { n + run(&s[n..], |c| c != b'\n') } else { 0 } },
    |s| lit(s, b"\\"),
    |s| run(s, |c| c == b'#'),
    |s| lit(s, b"x"),
    |s| { let n = lit(s, "é".as_bytes()); if n > 0 { n } else { lit(s, "e\u{301}".as_bytes()) } },
];
const ON: [&str; 14] = ["QUOTE", "KEY", "WHITE_SPACE", "ID", "KEY_2", "NUM", "DOT", "DOTS", "SLASH", "REST", "BACK", "HASH", "NOTHING", "EA"];
fn other_on(inp: String) {
    type L = Other_2Lexer;
    let k = [L::QUOTE, L::KEY, L::WHITE_SPACE, L::ID, L::KEY_2, L::NUM, L::DOT, L::DOTS, L::SLASH, L::REST, L::BACK, L::HASH, L::NOTHING, L::EA];
    for i in 0..14 { check(k[i] == i + 2, "gen-constants"); }
    generated!(Other_2Lexer, inp, OM, ON, 2)
}
/// a piece each of the second generated lexer's language
fn pieces(n: usize) -> String {
    const P: [&str; 16] = ["if", "fi", "f", "\"", "#", "1", ".", "/", "\\", "x", "é", "e\u{301}", "\r\n", " ", "_a", "\u{b}"];
    let mut s = String::new();
    for _ in 0..n { s.push_str(P[conc(bits(4)) as usize]); }
    s
}
fn gen_sets(n: usize, at: usize) { let s = bits(3); assume(s < 5); let s = conc(s) as usize; with_set!(DemoLexer, s, input(n, at), true) }
fn gen_few(n: usize) { let s = 2 + conc(bits(1)) as usize; with_set!(DemoLexer, s, few(n), true) }
/// long inputs: a piece many times, another one, the first again
fn long() -> String {
    const P: [&str; 8] = ["a", "ab", "b\n", "é", " ", "\n", "\"", ";x\r\n"];
    let (p, q) = (P[conc(bits(3)) as usize], P[conc(bits(3)) as usize]);
    let (n, m) = [(18, 1), (40, 2), (3, 34), (140, 1)][conc(bits(2)) as usize];
    let mut s = String::new();
    for _ in 0..n { s.push_str(p); }
    for _ in 0..m { s.push_str(q); }
    s.push_str(p);
    s
}
fn below(n: u64) -> u64 { let x = bits(2); assume(x < n); x }
#[no_mangle] #[inline(never)] fn c08_aa() { let s = bits(3); assume(s < 5); let s = conc(s) as usize; let i = long(); in_one_go!(V1, s, &i, [15usize]); with_set!(V1, s, i, true) }
#[no_mangle] #[inline(never)] fn c08_ab() { let s = bits(3); assume(s < 5); let s = conc(s) as usize; let i = long(); in_one_go!(Boot, s, &i, [2usize, 3, 4]); with_set!(Boot, s, i, false) }
#[no_mangle] #[inline(never)] fn c08_ac() { let s = bits(3); assume(s < 5); let s = conc(s) as usize; let i = long(); in_one_go!(DemoLexer, s, &i, [6usize]); with_set!(DemoLexer, s, i, true) }
#[no_mangle] #[inline(never)] fn c08_ad() { gen_on(long()) }
#[no_mangle] #[inline(never)] fn c08_l() { gen_sets(3, 9) }
#[no_mangle] #[inline(never)] fn c08_m() { let at = bits(2); gen_sets(3, conc(at) as usize) }
#[no_mangle] #[inline(never)] fn c08_n() { gen_few(3) }
#[no_mangle] #[inline(never)] fn c08_o() { other_on(input(2, 9)) }
#[no_mangle] #[inline(never)] fn c08_p() { other_on(pieces(3)) }
#[no_mangle] #[inline(never)] fn c08_q() { other_on(input(3, 9)) }
#[no_mangle] #[inline(never)] fn c08_r() { other_on(pieces(4)) }
#[no_mangle] #[inline(never)] fn c08_a() { v1(3, 9) }
#[no_mangle] #[inline(never)] fn c08_b() { boot(3, 9) }
#[no_mangle] #[inline(never)] fn c08_c() { let at = bits(2); v1(3, conc(at) as usize) }
#[no_mangle] #[inline(never)] fn c08_d() { let at = bits(2); boot(3, conc(at) as usize) }
#[no_mangle] #[inline(never)] fn c08_e() { v1(5, 9) }
#[no_mangle] #[inline(never)] fn c08_g() { gen(4, 9) }
#[no_mangle] #[inline(never)] fn c08_h() { let at = bits(2); gen(3, conc(at) as usize) }
#[no_mangle] #[inline(never)] fn c08_z() { v1(0, 9); boot(0, 9); gen(0, 9) }
#[no_mangle] #[inline(never)] fn c08_i() { v1_few(4) }
#[no_mangle] #[inline(never)] fn c08_j() { boot_few(4) }
#[no_mangle] #[inline(never)] fn c08_k() { boot(5, 9) }
#[no_mangle] #[inline(never)] fn c08_w() { v1_few(6) }
#[no_mangle] #[inline(never)] fn c08_x() { boot_few(6) }
#[no_mangle] #[inline(never)] fn c08_t() { v1(7, 9) }
#[no_mangle] #[inline(never)] fn c08_v() { v1(9, 99) }
#[no_mangle] #[inline(never)] fn c08_u() { gen(7, 9) }
fn main() { entry(&[("c08_aa", c08_aa), ("c08_ab", c08_ab), ("c08_ac", c08_ac), ("c08_ad", c08_ad), ("c08_l", c08_l), ("c08_m", c08_m), ("c08_n", c08_n), ("c08_o", c08_o), ("c08_p", c08_p), ("c08_q", c08_q), ("c08_r", c08_r), ("c08_a", c08_a), ("c08_b", c08_b), ("c08_c", c08_c), ("c08_d", c08_d), ("c08_e", c08_e), ("c08_g", c08_g), ("c08_h", c08_h), ("c08_z", c08_z), ("c08_t", c08_t), ("c08_i", c08_i), ("c08_j", c08_j), ("c08_k", c08_k), ("c08_w", c08_w), ("c08_x", c08_x), ("c08_u", c08_u), ("c08_v", c08_v)]) }
