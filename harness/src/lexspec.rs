// Reference token matchers: each gives the length of the match at the start of `s`, 0 for none.
use symrt::*;
pub type M = fn(&[u8]) -> usize;
pub fn run(s: &[u8], f: impl Fn(u8) -> bool) -> usize { let mut i = 0; while i < s.len() && f(s[i]) { i += 1; } i }
pub fn lit(s: &[u8], l: &[u8]) -> usize { if s.len() < l.len() { return 0; } let mut ok = true; for i in 0..l.len() { ok &= s[i] == l[i]; } if ok { l.len() } else { 0 } }
pub fn up(c: u8) -> bool { (c >= b'A') & (c <= b'Z') }
pub fn low(c: u8) -> bool { (c >= b'a') & (c <= b'z') }
pub fn word(c: u8) -> bool { low(c) | up(c) | ((c >= b'0') & (c <= b'9')) | (c == b'_') }
fn name(s: &[u8], first: fn(u8) -> bool) -> usize { if s.is_empty() || !first(s[0]) { return 0; } let n = run(&s[1..], word); if n == 0 { 0 } else { n + 1 } }
pub fn rule_ref(s: &[u8]) -> usize { name(s, low) }
pub fn token_ref(s: &[u8]) -> usize { name(s, up) }
pub fn colon(s: &[u8]) -> usize { for l in ["::=", ":=", "->", "=>", ":", "="] { let n = lit(s, l.as_bytes()); if n > 0 { return n; } } 0 }
pub fn semi(s: &[u8]) -> usize { lit(s, b";") }
pub fn or(s: &[u8]) -> usize { lit(s, b"|") }
pub fn epsilon(s: &[u8]) -> usize { lit(s, "ε".as_bytes()) + lit(s, b"epsilon") }
pub fn star(s: &[u8]) -> usize { lit(s, b"*") }
pub fn plus(s: &[u8]) -> usize { lit(s, b"+") }
pub fn question(s: &[u8]) -> usize { lit(s, b"?") }
pub fn lparen(s: &[u8]) -> usize { lit(s, b"(") }
pub fn rparen(s: &[u8]) -> usize { lit(s, b")") }
pub fn dot(s: &[u8]) -> usize { lit(s, b".") }
pub fn not(s: &[u8]) -> usize { lit(s, b"~") }
pub fn pound(s: &[u8]) -> usize { lit(s, b"#") }
pub fn range(s: &[u8]) -> usize { lit(s, b"..") }
pub fn fragment(s: &[u8]) -> usize { lit(s, b"fragment") }
pub fn string_literal(s: &[u8]) -> usize {
    if lit(s, b"'") == 0 { return 0; }
    let mut i = 1;
    while i < s.len() {
        let c = s[i];
        if c == b'\'' { return i + 1; }
        if c == b'\\' {
            if i + 1 >= s.len() { return 0; }
            let d = s[i + 1];
            if (d == b'\\') | (d == b'\'') | (d == b'a') | (d == b'd') | (d == b'n') | (d == b'r') | (d == b't') | (d == b'f') | (d == b'v') { i += 2; continue; }
            if d == b'u' && lit(&s[i + 2..], b"{") == 1 {
                // one or more hex digits (lower case), optionally after 0x
                let mut j = i + 3;
                let hex = |c: u8| ((c >= b'0') & (c <= b'9')) | ((c >= b'a') & (c <= b'f'));
                if lit(&s[j..], b"0x") == 2 { j += 2; }
                let n = run(&s[j..], hex);
                if n == 0 { return 0; }
                j += n;
                if lit(&s[j..], b"}") == 0 { return 0; }
                i = j + 1;
                continue;
            }
            return 0;
        }
        if (c == 7) | ((c >= 9) & (c <= 13)) { return 0; }
        i += 1;
    }
    0
}
pub fn regular_literal(s: &[u8]) -> usize {
    if lit(s, b"/") == 0 { return 0; }
    let (mut i, mut last) = (1, 0);
    while i < s.len() {
        if s[i] == b'/' {
            if i == 1 { return 0; }
            if s[i - 1] != b'\\' { return i + 1; }
            last = i + 1;
        }
        i += 1;
    }
    last
}
pub fn white(s: &[u8]) -> usize { run(s, |c| (c == b' ') | (c == b'\r') | (c == b'\n') | (c == b'\t') | (c == 12)) }
pub fn ws(s: &[u8]) -> usize { run(s, |c| (c == b' ') | (c == b'\r') | (c == b'\n') | (c == b'\t')) }
pub fn line_comment(s: &[u8]) -> usize { if lit(s, b"//") == 0 { return 0; } let n = run(&s[2..], |c| c != b'\n'); if 2 + n < s.len() { n + 3 } else { 0 } }
pub fn block_comment(s: &[u8]) -> usize { if lit(s, b"/*") == 0 { return 0; } let mut i = 2; while i + 1 < s.len() { if lit(&s[i..], b"*/") == 2 { return i + 2; } i += 1; } 0 }

/// `n` symbolic ASCII bytes
pub fn ascii(n: usize, out: &mut Vec<u8>) { for _ in 0..n { out.push(bits(7) as u8); } }
pub fn text(v: Vec<u8>) -> String { match String::from_utf8(v) { Ok(s) => s, Err(_) => { assume(false); unreachable!() } } }
/// longest match, the earliest rule on ties
pub fn best(s: &[u8], ms: &[M]) -> Option<(usize, usize)> {
    let (mut len, mut k) = (0, 0);
    for (i, m) in ms.iter().enumerate() { let n = m(s); if n > len { len = n; k = i; } }
    if len == 0 { None } else { Some((k, len)) }
}
#[derive(Clone, Copy)]
pub struct At { pub line: usize, pub col: usize }
pub fn advance(p: At, s: &[u8]) -> At { let mut p = p; for c in s { if *c == b'\n' { p.line += 1; p.col = 0; } else { p.col += 1; } } p }

/// drive `scan` to the end and compare every token with the reference
#[macro_export]
macro_rules! drive { ($lx:expr, $input:expr, $ms:expr, $names:expr, $stop:expr) => {{
    use syntaxis::runtime::lexer::Lexer;
    let lx = $lx; let input: &str = $input; let ms: &[M] = $ms; let names: &[&str] = $names;
    let b = input.as_bytes();
    let (mut c, mut k, mut at) = (0usize, 0usize, At { line: 0, col: 0 });
    loop {
        let r = lx.scan();
        if c == b.len() {
            if !$stop { check(r.is_err(), "scan-end"); break; }
            match r {
                Err(_) => check(false, "scan-stop"),
                Ok(t) => {
                    check(t.token_type == 1 && t.token_name == "_STOP", "scan-stop");
                    check(t.token_index == k, "scan-stop-index");
                    check(t.char_start_index == c && t.char_stop_index == c, "scan-stop-offset");
                    check(t.start.line == at.line && t.start.char_position == at.col && t.stop.line == at.line && t.stop.char_position == at.col, "scan-stop-position");
                    check(t.channel == 0, "scan-channel");
                }
            }
            check(lx.scan().is_err(), "scan-after-stop");
            check(lx.scan().is_err(), "scan-after-stop");
            break;
        }
        match best(&b[c..], ms) {
            None => { check(r.is_err(), "scan-error"); check(lx.scan().is_err(), "scan-error-again"); observe(500); break; }
            Some((i, n)) => match r {
                Err(_) => { check(false, "scan-token-missing"); break; }
                Ok(t) => {
                    check(t.char_start_index == c && t.char_stop_index == c + n, "scan-longest");
                    check(t.token_type == i + 2, "scan-type");
                    check(t.token_name == names[i], "scan-name");
                    check(t.text.as_bytes() == &b[c..c + n], "scan-text");
                    check(t.token_index == k, "scan-index");
                    check(t.channel == 0, "scan-channel");
                    check(t.start.line == at.line && t.start.char_position == at.col, "scan-start-position");
                    at = advance(at, &b[c..c + n]);
                    check(t.stop.line == at.line && t.stop.char_position == at.col, "scan-stop-position");
                    observe((i + 2) as u64); observe(n as u64);
                    c += n; k += 1;
                }
            },
        }
    }
    (c, k)
}} }
