//! C02: FOLLOW sets are the least solution.
#[path = "../gram.rs"] #[allow(dead_code)] mod gram;
use gram::*;
use symrt::*;

fn run(nn: usize, nt: usize, lens: &[usize]) { decide(sym_grammar(nn, nt, lens)) }
fn decide(g: G) {
    let nn = g.nn;
    let (fs, _) = g.g.first_set();
    let fo = g.g.follow_set(&fs);
    let (nul, f) = g.first();
    let w = g.follow(&nul, &f);
    check(fo.len() == nn, "follow-domain");
    for n in 0..nn {
        match fo.get(&g.nid(n)) {
            None => check(false, "follow-domain"),
            Some(s) => {
                let mut ok = true;
                let m = g.mask(s.iter(), &mut ok);
                check(ok, "follow-members");
                check(m == w[n], "follow-exact");
                observe(m);
            }
        }
    }
}
#[no_mangle] #[inline(never)] fn c02_a() { run(2, 2, &[2, 2]) }
#[no_mangle] #[inline(never)] fn c02_r() { set_order(1); run(2, 2, &[2, 2]) }
#[no_mangle] #[inline(never)] fn c02_b() { run(2, 2, &[2, 2, 2]) }
#[no_mangle] #[inline(never)] fn c02_c() { run(3, 2, &[3, 1, 1]) }
#[no_mangle] #[inline(never)] fn c02_d() { run(3, 1, &[2, 2, 2]) }
#[no_mangle] #[inline(never)] fn c02_t() { run(3, 2, &[2, 2, 1, 1]) }
#[no_mangle] #[inline(never)] fn c02_e() { decide(chain_grammar(5, false)) }
#[no_mangle] #[inline(never)] fn c02_f() { decide(chain_grammar(5, true)) }
#[no_mangle] #[inline(never)] fn c02_g() { set_order(1); decide(chain_grammar(6, false)) }
#[no_mangle] #[inline(never)] fn c02_h() { decide(chain_grammar(6, true)) }
#[no_mangle] #[inline(never)] fn c02_j() { decide(spread_grammar(2, 2, &[2, 2])) }
#[no_mangle] #[inline(never)] fn c02_k() { decide(long_grammar(5)) }
#[no_mangle] #[inline(never)] fn c02_l() { decide(wide_grammar(5)) }
#[no_mangle] #[inline(never)] fn c02_m() { set_order(1); decide(wide_grammar(4)) }
#[no_mangle] #[inline(never)] fn c02_u() { decide(spread_grammar(2, 2, &[2, 2, 1])) }
#[no_mangle] #[inline(never)] fn c02_v() { decide(long_grammar(7)) }
#[no_mangle] #[inline(never)] fn c02_w() { decide(wide_grammar(9)) }
#[no_mangle] #[inline(never)] fn c02_n() { decide(deep_grammar(14)) }
#[no_mangle] #[inline(never)] fn c02_o() { decide(deep_grammar(26)) }
fn main() { entry(&[("c02_n", c02_n), ("c02_o", c02_o), ("c02_j", c02_j), ("c02_k", c02_k), ("c02_l", c02_l), ("c02_m", c02_m), ("c02_u", c02_u), ("c02_v", c02_v), ("c02_w", c02_w), ("c02_e", c02_e), ("c02_f", c02_f), ("c02_g", c02_g), ("c02_h", c02_h), ("c02_a", c02_a), ("c02_r", c02_r), ("c02_b", c02_b), ("c02_c", c02_c), ("c02_d", c02_d), ("c02_t", c02_t)]) }
