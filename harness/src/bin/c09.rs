//! C09: the token language of the grammar notation, for the v1 and the bootstrap lexer.
#[path = "../lexspec.rs"] #[allow(dead_code)] #[macro_use] mod lexspec;
use lexspec::*;
use symrt::*;
use syntaxis::tool::syntaxis::syntaxis_lexer::SyntaxisLexer as Boot;
use syntaxis::tool::v1::syntaxis_lexer::SyntaxisLexer as V1;

const VM: [M; 14] = [rule_ref, token_ref, colon, semi, or, epsilon, star, plus, question, lparen, rparen, string_literal, regular_literal, white];
const VN: [&str; 14] = ["RULE_REF", "TOKEN_REF", "COLON", "SEMI", "OR", "EPSILON", "STAR", "PLUS", "QUESTION", "LPAREN", "RPAREN", "STRING_LITERAL", "REGULAR_LITERAL", "WHITE_SPACE"];
const BM: [M; 21] = [line_comment, block_comment, ws, fragment, token_ref, rule_ref, colon, or, semi, star, plus, question, dot, not, lparen, rparen, pound, string_literal, range, regular_literal, epsilon];
const BN: [&str; 21] = ["LINE_COMMENT", "BLOCK_COMMENT", "WS", "FRAGMENT", "TOKEN_REF", "RULE_REF", "COLON", "OR", "SEMI", "STAR", "PLUS", "QUESTION", "DOT", "NOT", "LPAREN", "RPAREN", "POUND", "STRING_LITERAL", "RANGE", "REGULAR_LITERAL", "EPSILON"];

/// what scan_all_on_channel_tokens must return, from the reference
macro_rules! all { ($ty:ident, $inp:expr, $ms:expr, $skip:expr, $end:expr, $stop:expr) => {{
    use syntaxis::runtime::lexer::Lexer;
    let mut lx = $ty::new($inp);
    let all = lx.scan_all_on_channel_tokens(0);
    let b = $inp.as_bytes();
    let (mut c, mut k, mut j, mut bad) = (0, 0, 0, false);
    while c < $end {
        let (i, n) = best(&b[c..], $ms).unwrap();
        if !$skip.contains(&i) { if j < all.len() { check(all[j].token_type == i + 2 && all[j].token_index == k && all[j].char_start_index == c && all[j].char_stop_index == c + n, "all-token"); } else { bad = true; } j += 1; }
        c += n; k += 1;
    }
    if $stop && $end == b.len() { if j < all.len() { check(all[j].token_type == 1, "all-stop"); } else { bad = true; } j += 1; }
    check(!bad && all.len() == j, "all-tokens");
    let mut lx = $ty::new($inp);
    check(lx.scan_all_on_channel_tokens(1).is_empty(), "all-channel");
}} }
fn v1(inp: String, all: bool) { let mut lx = V1::new(&inp); let (end, _) = drive!(&mut lx, &inp, &VM, &VN, true); if all { all!(V1, &inp, &VM, [13usize], end, true); } }
fn boot(inp: String, all: bool) { let mut lx = Boot::new(&inp); let (end, _) = drive!(&mut lx, &inp, &BM, &BN, false); if all { all!(Boot, &inp, &BM, [0usize, 1, 2], end, false); } }
fn mix(pre: &str, n: usize, post: &str) -> String { let mut v: Vec<u8> = pre.bytes().collect(); ascii(n, &mut v); v.extend(post.bytes()); text(v) }
/// n symbolic characters of the given ones
fn of(n: usize, set: &[u8], out: &mut Vec<u8>) { for _ in 0..n { let c = bits(7) as u8; let mut ok = false; for x in set { ok |= c == *x; } assume(ok); out.push(c); } }
/// '\u{, perhaps 0x, up to n hex digits or something else, }, '
fn code(n: usize) -> String {
    let mut v: Vec<u8> = b"'\\u{".to_vec();
    if conc(bits(1)) == 1 { v.extend(b"0x"); }
    let k = conc(bits(3)) as usize; assume(k <= n);
    of(k, b"09afgAx}", &mut v);
    v.extend(b"}'");
    text(v)
}
fn bound(pre: &str, n: usize, set: &[u8], post: &str) -> String { let mut v: Vec<u8> = pre.bytes().collect(); of(n, set, &mut v); v.extend(post.bytes()); text(v) }
/// the numbers of the token types, as the constants give them
fn consts() {
    check(V1::_START == 0 && V1::_STOP == 1 && Boot::_START == 0 && Boot::_STOP == 1, "lexer-constants");
    let v = [V1::RULE_REF, V1::TOKEN_REF, V1::COLON, V1::SEMI, V1::OR, V1::EPSILON, V1::STAR, V1::PLUS, V1::QUESTION, V1::LPAREN, V1::RPAREN, V1::STRING_LITERAL, V1::REGULAR_LITERAL, V1::WHITE_SPACE];
    let b = [Boot::LINE_COMMENT, Boot::BLOCK_COMMENT, Boot::WS, Boot::FRAGMENT, Boot::TOKEN_REF, Boot::RULE_REF, Boot::COLON, Boot::OR, Boot::SEMI, Boot::STAR, Boot::PLUS, Boot::QUESTION, Boot::DOT, Boot::NOT, Boot::LPAREN, Boot::RPAREN, Boot::POUND, Boot::STRING_LITERAL, Boot::RANGE, Boot::REGULAR_LITERAL, Boot::EPSILON];
    for (i, x) in v.iter().enumerate() { check(*x == i + 2, "lexer-constants"); }
    for (i, x) in b.iter().enumerate() { check(*x == i + 2, "lexer-constants"); }
}
#[no_mangle] #[inline(never)] fn c09_k() { consts() }
#[no_mangle] #[inline(never)] fn c09_a() { v1(mix("", 2, ""), true) }
#[no_mangle] #[inline(never)] fn c09_b() { boot(mix("", 2, ""), true) }
#[no_mangle] #[inline(never)] fn c09_c() { v1(mix("", 3, ""), false) }
#[no_mangle] #[inline(never)] fn c09_d() { boot(mix("", 3, ""), false) }
#[no_mangle] #[inline(never)] fn c09_s() { v1(mix("'", 3, "'"), false) }
#[no_mangle] #[inline(never)] fn c09_u() { v1(mix("'\\u{", 4, "'"), false) }
#[no_mangle] #[inline(never)] fn c09_r() { v1(mix("/", 3, "/"), false) }
#[no_mangle] #[inline(never)] fn c09_e() { let k = conc(bits(3)); let w = "epsilon"; let k = k as usize; assume(k < 8); v1(mix(&w[..k], 1, &w[k.min(6) + 1..]), false) }
#[no_mangle] #[inline(never)] fn c09_m() { let k = conc(bits(2)) as usize; let p = ["ε", "é'", "'ε", "/ε"][k]; v1(mix(p, 2, if k > 1 { "'/" } else { "" }), false) }
#[no_mangle] #[inline(never)] fn c09_f() { let k = conc(bits(2)) as usize; let p = ["//", "/*", "fragmen", "/*ε"][k]; boot(mix(p, 3, ["\n", "*/", "", "*/ "][k]), false) }
#[no_mangle] #[inline(never)] fn c09_g() { let k = conc(bits(1)) as usize; boot(mix(["'", "/"][k], 3, ["'", "/"][k]), false) }
#[no_mangle] #[inline(never)] fn c09_w() { v1(mix("A", 4, ""), false) }
// the same for the bootstrap lexer, and longer tokens of few characters
#[no_mangle] #[inline(never)] fn c09_h() { v1(code(7), false) }
#[no_mangle] #[inline(never)] fn c09_i() { boot(code(7), false) }
#[no_mangle] #[inline(never)] fn c09_j() { boot(mix("'\\u{", 4, "'"), false) }
#[no_mangle] #[inline(never)] fn c09_l() { let k = conc(bits(3)); let w = "epsilon"; let k = k as usize; assume(k < 8); boot(mix(&w[..k], 1, &w[k.min(6) + 1..]), false) }
#[no_mangle] #[inline(never)] fn c09_n() { let k = conc(bits(2)) as usize; let p = ["ε", "é'", "'ε", "/ε"][k]; boot(mix(p, 2, if k > 1 { "'/" } else { "" }), false) }
#[no_mangle] #[inline(never)] fn c09_o() { boot(mix("A", 4, ""), false) }
#[no_mangle] #[inline(never)] fn c09_p() { v1(bound("'", 8, b"\\'n/", "'"), false) }
#[no_mangle] #[inline(never)] fn c09_q() { boot(bound("'", 8, b"\\'n/", "'"), false) }
#[no_mangle] #[inline(never)] fn c09_aa() { v1(bound("/", 8, b"\\'/\n", "/"), false) }
#[no_mangle] #[inline(never)] fn c09_ab() { boot(bound("/", 8, b"\\'/\n", "/"), false) }
#[no_mangle] #[inline(never)] fn c09_ac() { boot(bound("/*", 7, b"*/\na", "*/"), false) }
#[no_mangle] #[inline(never)] fn c09_ad() { boot(bound("//", 7, b"*/\n\r", "\n"), false) }
#[no_mangle] #[inline(never)] fn c09_ae() { let k = conc(bits(1)) as usize; v1(bound(["a", "A"][k], 10, b"a_9Z:", ""), false) }
#[no_mangle] #[inline(never)] fn c09_af() { let k = conc(bits(1)) as usize; boot(bound(["a", "A"][k], 10, b"a_9Z:", ""), false) }
#[no_mangle] #[inline(never)] fn c09_ag() { v1(bound("", 8, b" \n\r\t", ""), true) }
#[no_mangle] #[inline(never)] fn c09_ah() { boot(bound("", 8, b" \n\r\t", ""), true) }
#[no_mangle] #[inline(never)] fn c09_ai() { v1(bound("", 6, b":=->|.", ""), false) }
#[no_mangle] #[inline(never)] fn c09_aj() { boot(bound("", 6, b":=->|.", ""), false) }
/// long tokens: an opening, a piece 10, 31 or 70 times, any ASCII byte, a closing
fn long() -> String {
    const O: [(&str, &str); 8] = [("'", "'"), ("/", "/"), ("//", "\n"), ("/*", "*/"), ("a", ""), ("A", ";"), ("", " "), ("->", "'")];
    const P: [&str; 8] = ["a", "é", "\\'", "\\u{0x1f600}", " ", "Z_9", "\r\n", "*"];
    let (o, p) = (O[conc(bits(3)) as usize], P[conc(bits(3)) as usize]);
    let n = [10, 31, 70, 140][conc(bits(2)) as usize];
    let mut s = String::from(o.0);
    for _ in 0..n { s.push_str(p); }
    mix(&s, 1, o.1)
}
#[no_mangle] #[inline(never)] fn c09_ak() { v1(long(), true) }
#[no_mangle] #[inline(never)] fn c09_al() { boot(long(), true) }
#[no_mangle] #[inline(never)] fn c09_x() { v1(mix("", 4, ""), false) }
#[no_mangle] #[inline(never)] fn c09_y() { boot(mix("", 4, ""), false) }
#[no_mangle] #[inline(never)] fn c09_z() { v1(mix("'", 6, "'"), false) }
fn main() { entry(&[("c09_ak", c09_ak), ("c09_al", c09_al), ("c09_k", c09_k), ("c09_a", c09_a), ("c09_b", c09_b), ("c09_c", c09_c), ("c09_d", c09_d), ("c09_s", c09_s), ("c09_u", c09_u), ("c09_r", c09_r), ("c09_e", c09_e), ("c09_m", c09_m), ("c09_f", c09_f), ("c09_g", c09_g), ("c09_w", c09_w), ("c09_x", c09_x), ("c09_h", c09_h), ("c09_i", c09_i), ("c09_j", c09_j), ("c09_l", c09_l), ("c09_n", c09_n), ("c09_o", c09_o), ("c09_p", c09_p), ("c09_q", c09_q), ("c09_aa", c09_aa), ("c09_ab", c09_ab), ("c09_ac", c09_ac), ("c09_ad", c09_ad), ("c09_ae", c09_ae), ("c09_af", c09_af), ("c09_ag", c09_ag), ("c09_ah", c09_ah), ("c09_ai", c09_ai), ("c09_aj", c09_aj), ("c09_y", c09_y), ("c09_z", c09_z)]) }
