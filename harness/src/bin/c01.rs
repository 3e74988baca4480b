//! C01: FIRST sets are the least solution.
#[path = "../gram.rs"] mod gram;
use gram::*;
use symrt::*;

fn run(nn: usize, nt: usize, lens: &[usize]) { decide(sym_grammar(nn, nt, lens)) }
fn decide(g: G) {
    let nn = g.nn;
    let (fs, fp) = g.g.first_set();
    let (nul, f) = g.first();
    check(fs.len() == nn, "first-domain");
    for n in 0..nn {
        match fs.get(&g.nid(n)) {
            None => check(false, "first-domain"),
            Some(c) => {
                let mut ok = true;
                let m = g.mask(c.set.iter(), &mut ok);
                check(ok & (m == f[n]), "first-nonterminal");
                check(c.allow_epsilon as u64 == nul[n], "first-epsilon");
                observe(m); observe(c.allow_epsilon as u64);
            }
        }
    }
    for (p, pr) in g.prods.iter().enumerate() {
        match fp.get(pr) {
            None => check(false, "first-production-missing"),
            Some(c) => {
                let (m, e) = g.first_of(&g.item[p], &nul, &f);
                let mut ok = true;
                let got = g.mask(c.set.iter(), &mut ok);
                check(ok & (got == m), "first-production");
                check(c.allow_epsilon as u64 == e, "first-production-epsilon");
            }
        }
    }
}
#[no_mangle] #[inline(never)] fn c01_a() { run(2, 2, &[2, 2]) }
#[no_mangle] #[inline(never)] fn c01_r() { set_order(1); run(2, 2, &[2, 2]) }
#[no_mangle] #[inline(never)] fn c01_b() { run(2, 2, &[2, 2, 2]) }
#[no_mangle] #[inline(never)] fn c01_c() { run(3, 2, &[2, 2, 2]) }
#[no_mangle] #[inline(never)] fn c01_d() { run(2, 1, &[3, 1]) }
#[no_mangle] #[inline(never)] fn c01_t() { run(3, 2, &[2, 2, 1, 1]) }
#[no_mangle] #[inline(never)] fn c01_e() { decide(chain_grammar(5, false)) }
#[no_mangle] #[inline(never)] fn c01_f() { decide(chain_grammar(5, true)) }
#[no_mangle] #[inline(never)] fn c01_g() { set_order(1); decide(chain_grammar(6, false)) }
#[no_mangle] #[inline(never)] fn c01_h() { decide(chain_grammar(6, true)) }
#[no_mangle] #[inline(never)] fn c01_j() { decide(spread_grammar(2, 2, &[2, 2])) }
#[no_mangle] #[inline(never)] fn c01_k() { decide(long_grammar(5)) }
#[no_mangle] #[inline(never)] fn c01_l() { decide(wide_grammar(5)) }
#[no_mangle] #[inline(never)] fn c01_m() { set_order(1); decide(wide_grammar(4)) }
#[no_mangle] #[inline(never)] fn c01_u() { decide(spread_grammar(2, 2, &[2, 2, 1])) }
#[no_mangle] #[inline(never)] fn c01_v() { decide(long_grammar(7)) }
#[no_mangle] #[inline(never)] fn c01_w() { decide(wide_grammar(9)) }
#[no_mangle] #[inline(never)] fn c01_n() { decide(deep_grammar(14)) }
#[no_mangle] #[inline(never)] fn c01_o() { decide(deep_grammar(26)) }
fn main() { entry(&[("c01_n", c01_n), ("c01_o", c01_o), ("c01_j", c01_j), ("c01_k", c01_k), ("c01_l", c01_l), ("c01_m", c01_m), ("c01_u", c01_u), ("c01_v", c01_v), ("c01_w", c01_w), ("c01_e", c01_e), ("c01_f", c01_f), ("c01_g", c01_g), ("c01_h", c01_h), ("c01_a", c01_a), ("c01_r", c01_r), ("c01_b", c01_b), ("c01_c", c01_c), ("c01_d", c01_d), ("c01_t", c01_t)]) }
