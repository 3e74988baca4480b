//! C06: after any history of additions the vocabulary is the bijection a reference model describes.
use symrt::*;
use syntaxis::runtime::vocabulary::Vocabulary;

/// a name of 1 or 2 symbolic characters (ASCII letters a..d of either kind, so that names may coincide)
fn name(len: u64) -> String {
    let mut s = String::new();
    for _ in 0..len { let c = bits(8); assume(c >= 0x21); assume(c < 0x7f); s.push(c as u8 as char); }
    s
}
#[derive(Clone)]
struct Sym { id: usize, name: Option<String> }
#[derive(Default)]
struct Model { t: Vec<Sym>, n: Vec<Sym> }
fn has_id(v: &[Sym], id: usize) -> bool { let mut r = false; for s in v { r |= s.id == id; } r }
fn has_name(v: &[Sym], n: &str) -> bool { let mut r = false; for s in v { if let Some(x) = &s.name { r |= x == n; } } r }
fn compare(v: &Vocabulary, m: &Model) {
    check(v.get_all_terminals().len() == m.t.len(), "vocab-terminals");
    check(v.get_all_nonterminals().len() == m.n.len(), "vocab-nonterminals");
    for s in &m.t {
        let n = s.name.as_ref().unwrap();
        check(v.get_all_terminals().contains(&s.id), "vocab-terminals");
        check(v.is_terminal_id(s.id), "vocab-terminals");
        check(v.get_terminal_id_by_name(n) == Some(s.id), "vocab-terminal-id");
        check(v.get_terminal_name_by_id(s.id).as_deref() == Some(n), "vocab-terminal-name");
        check(&v.get_terminal_name(s.id) == n, "vocab-terminal-name");
        check(v.is_terminal_name_defined(n), "vocab-terminal-name");
    }
    for s in &m.n {
        check(v.get_all_nonterminals().contains(&s.id), "vocab-nonterminals");
        check(v.is_nonterminal_id(s.id), "vocab-nonterminals");
        match &s.name {
            Some(n) => {
                check(v.get_nonterminal_id_by_name(n) == Some(s.id), "vocab-nonterminal-id");
                check(v.get_nonterminal_name_by_id(s.id).as_deref() == Some(n), "vocab-nonterminal-name");
                check(&v.get_nonterminal_name_with_default(s.id) == n, "vocab-nonterminal-name");
                check(v.is_nonterminal_name_defined(n), "vocab-nonterminal-name");
            }
            None => { check(v.get_nonterminal_name_by_id(s.id).is_none(), "vocab-anonymous"); }
        }
    }
}
fn run(ops: usize, kinds: u64, lens: &[u64]) {
    let mut v = Vocabulary::new();
    let mut m = Model::default();
    m.t.push(Sym { id: 0, name: Some("_START".into()) });
    m.t.push(Sym { id: 1, name: Some("_STOP".into()) });
    compare(&v, &m);
    for i in 0..ops {
        let k = if kinds < 3 { kinds } else { let k = bits(2); assume(k < 3); conc(k) };
        let id = bits(64) as usize;
        match k {
            0 => { let n = name(lens[i]); let ok = !has_id(&m.t, id) & !has_name(&m.t, &n); let r = v.add_terminal(id, &n); check(r == ok, "vocab-add-terminal"); if r { m.t.push(Sym { id, name: Some(n) }); } observe(r as u64); }
            1 => { let n = name(lens[i]); let ok = !has_id(&m.n, id) & !has_name(&m.n, &n); let r = v.add_named_nonterminal(id, &n); check(r == ok, "vocab-add-nonterminal"); if r { m.n.push(Sym { id, name: Some(n) }); } observe(r as u64); }
            _ => { let ok = !has_id(&m.n, id); let r = v.add_unnamed_nonterminal(id); check(r == ok, "vocab-add-anonymous"); if r { m.n.push(Sym { id, name: None }); } observe(r as u64); }
        }
        compare(&v, &m);
    }
    // an arbitrary symbol that was never added is unknown
    let id = bits(64) as usize;
    let n = name(lens[0]);
    if !has_id(&m.t, id) { check(!v.is_terminal_id(id) && v.get_terminal_name_by_id(id).is_none(), "vocab-unknown"); }
    if !has_id(&m.n, id) { check(!v.is_nonterminal_id(id) && v.get_nonterminal_name_by_id(id).is_none(), "vocab-unknown"); }
    if !has_name(&m.t, &n) { check(!v.is_terminal_name_defined(&n) && v.get_terminal_id_by_name(&n).is_none(), "vocab-unknown"); }
    if !has_name(&m.n, &n) { check(!v.is_nonterminal_name_defined(&n) && v.get_nonterminal_id_by_name(&n).is_none(), "vocab-unknown"); }
}
/// names that are empty, reserved, prefixes of one another, multi-byte, or look like numbers
fn odd(ops: usize) {
    const N: [&str; 8] = ["", "_STOP", "_START", "é", "éa", "0", "_", "_S"];
    let mut v = Vocabulary::new();
    let mut m = Model::default();
    m.t.push(Sym { id: 0, name: Some("_START".into()) });
    m.t.push(Sym { id: 1, name: Some("_STOP".into()) });
    for _ in 0..ops {
        let id = bits(64) as usize;
        let n = N[conc(bits(3)) as usize].to_string();
        if conc(bits(1)) == 0 { let ok = !has_id(&m.t, id) & !has_name(&m.t, &n); let r = v.add_terminal(id, &n); check(r == ok, "vocab-add-terminal"); if r { m.t.push(Sym { id, name: Some(n) }); } observe(r as u64); }
        else { let ok = !has_id(&m.n, id) & !has_name(&m.n, &n); let r = v.add_named_nonterminal(id, &n); check(r == ok, "vocab-add-nonterminal"); if r { m.n.push(Sym { id, name: Some(n) }); } observe(r as u64); }
        compare(&v, &m);
    }
}
/// three long names, alike but for any character at one of three places
fn long() {
    let n = [20, 70, 300][conc(bits(2)) as usize % 3];
    let at = [0, n / 2, n - 1][conc(bits(2)) as usize % 3];
    let kind = conc(bits(1));
    let mut v = Vocabulary::new();
    let mut m = Model::default();
    m.t.push(Sym { id: 0, name: Some("_START".into()) });
    m.t.push(Sym { id: 1, name: Some("_STOP".into()) });
    for _ in 0..3 {
        let id = bits(64) as usize;
        let mut s = String::new();
        for k in 0..n { if k == at { s += &name(1) } else { s.push((b'a' + (k % 26) as u8) as char) } }
        if kind == 0 { let ok = !has_id(&m.t, id) & !has_name(&m.t, &s); let r = v.add_terminal(id, &s); check(r == ok, "vocab-add-terminal"); if r { m.t.push(Sym { id, name: Some(s) }); } observe(r as u64); }
        else { let ok = !has_id(&m.n, id) & !has_name(&m.n, &s); let r = v.add_named_nonterminal(id, &s); check(r == ok, "vocab-add-nonterminal"); if r { m.n.push(Sym { id, name: Some(s) }); } observe(r as u64); }
    }
    compare(&v, &m);
}
/// n symbols of each kind with consecutive numbers, from any number on, and again
fn many(n: usize) {
    let base = bits(64) as usize;
    assume(base >= 2); assume(base < usize::MAX - 2 * n);
    let mut v = Vocabulary::new();
    let mut m = Model::default();
    m.t.push(Sym { id: 0, name: Some("_START".into()) });
    m.t.push(Sym { id: 1, name: Some("_STOP".into()) });
    for i in 0..n {
        let s = format!("n{}", i);
        check(v.add_terminal(base + i, &s), "vocab-add-terminal"); m.t.push(Sym { id: base + i, name: Some(s.clone()) });
        check(v.add_named_nonterminal(base + i, &s), "vocab-add-nonterminal"); m.n.push(Sym { id: base + i, name: Some(s.clone()) });
        check(v.add_unnamed_nonterminal(base + n + i), "vocab-add-anonymous"); m.n.push(Sym { id: base + n + i, name: None });
    }
    compare(&v, &m);
    for i in 0..n {
        let s = format!("n{}", i);
        check(!v.add_terminal(base + 2 * n, &s) && !v.add_terminal(base + i, "new"), "vocab-add-terminal");
        check(!v.add_named_nonterminal(base + 2 * n, &s) && !v.add_named_nonterminal(base + i, "new") && !v.add_named_nonterminal(base + n + i, "new"), "vocab-add-nonterminal");
        check(!v.add_unnamed_nonterminal(base + i) && !v.add_unnamed_nonterminal(base + n + i), "vocab-add-anonymous");
    }
    compare(&v, &m);
}
/// an anonymous symbol is shown as its number
fn defaults() {
    let id = bits(64);
    assume(id < 1200);
    let mut v = Vocabulary::new();
    v.add_named_nonterminal(5000, "x");
    check(v.add_unnamed_nonterminal(id as usize), "vocab-add-anonymous");
    let s = v.get_nonterminal_name_with_default(id as usize);
    let mut x: u64 = 0;
    let mut ok = !s.is_empty();
    for (i, b) in s.bytes().enumerate() { ok &= (b >= b'0') & (b <= b'9') & ((i > 0) | (b != b'0') | (s.len() == 1)); x = x.wrapping_mul(10).wrapping_add((b as u64).wrapping_sub(48)); }
    check(ok & (x == id), "vocab-default-name");
    check(v.get_nonterminal_name_with_default(5000) == "x", "vocab-nonterminal-name");
}
#[no_mangle] #[inline(never)] fn c06_a() { run(2, 3, &[1, 1]) }
#[no_mangle] #[inline(never)] fn c06_b() { run(3, 3, &[1, 1, 2]) }
#[no_mangle] #[inline(never)] fn c06_t() { run(3, 0, &[1, 2, 1]) }
#[no_mangle] #[inline(never)] fn c06_n() { run(3, 1, &[1, 2, 1]) }
#[no_mangle] #[inline(never)] fn c06_d() { defaults() }
#[no_mangle] #[inline(never)] fn c06_r() { set_order(1); run(2, 3, &[1, 1]) }
#[no_mangle] #[inline(never)] fn c06_x() { run(4, 3, &[1, 1, 1, 1]) }
#[no_mangle] #[inline(never)] fn c06_e() { odd(2) }
#[no_mangle] #[inline(never)] fn c06_m() { many(12) }
#[no_mangle] #[inline(never)] fn c06_o() { many(70) }
#[no_mangle] #[inline(never)] fn c06_l() { long() }
#[no_mangle] #[inline(never)] fn c06_z() { odd(3) }
#[no_mangle] #[inline(never)] fn c06_y() { run(5, 3, &[1, 1, 1, 1, 1]) }
fn main() { entry(&[("c06_a", c06_a), ("c06_b", c06_b), ("c06_t", c06_t), ("c06_n", c06_n), ("c06_d", c06_d), ("c06_r", c06_r), ("c06_x", c06_x), ("c06_y", c06_y), ("c06_e", c06_e), ("c06_m", c06_m), ("c06_o", c06_o), ("c06_l", c06_l), ("c06_z", c06_z)]) }
