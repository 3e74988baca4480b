//! C03: the prediction table has exactly the predicted entries.
#[path = "../gram.rs"] #[allow(dead_code)] mod gram;
use gram::*;
use symrt::*;

fn run(nn: usize, nt: usize, lens: &[usize]) { decide(sym_grammar(nn, nt, lens)) }
fn decide(g: G) {
    let nn = g.nn;
    let (fs, fp) = g.g.first_set();
    let fo = g.g.follow_set(&fs);
    let table = g.g.ll1_table(&fp, &fo);
    let (nul, f) = g.first();
    let w = g.follow(&nul, &f);
    let pm = g.predict(&nul, &f, &w);
    let mut want = vec![0u64; nn];
    for p in 0..g.left.len() { for n in 0..nn { want[n] |= sel(g.left[p] == n as u64, pm[p], 0); } }
    let mut got = vec![0u64; nn];
    for (k, pr) in table.iter() {
        let (n, t) = (k.0, k.1);
        let b = g.tbit(t);
        let mut known = false; for i in 0..nn { known |= n == g.nid(i); }
        check(known & (b != 0), "table-key");
        check(pr.left == n, "table-wrong-side");
        for i in 0..nn { got[i] |= sel(g.nid(i) == n, b, 0); }
        // the entry is a production of the grammar that predicts this symbol
        let mut ok = 0u64;
        for p in 0..g.left.len() {
            if g.item[p].len() == pr.right.len() {
                let mut same = g.left[p] * g.ns == n as u64;
                for i in 0..pr.right.len() { same &= g.code(pr.right[i]) == g.item[p][i]; }
                ok |= sel(same & (pm[p] & b != 0), 1, 0);
            }
        }
        check(ok == 1, "table-entry");
    }
    for n in 0..nn { check(got[n] == want[n], "table-cells"); observe(got[n]); }
}
#[no_mangle] #[inline(never)] fn c03_a() { run(2, 2, &[2, 2]) }
#[no_mangle] #[inline(never)] fn c03_r() { set_order(1); run(2, 2, &[2, 2]) }
#[no_mangle] #[inline(never)] fn c03_b() { run(2, 2, &[2, 2, 1]) }
#[no_mangle] #[inline(never)] fn c03_c() { run(3, 2, &[2, 1, 1]) }
#[no_mangle] #[inline(never)] fn c03_d() { run(2, 2, &[2, 2, 2]) }
#[no_mangle] #[inline(never)] fn c03_t() { run(3, 2, &[2, 2, 2]) }
#[no_mangle] #[inline(never)] fn c03_e() { decide(chain_grammar(5, false)) }
#[no_mangle] #[inline(never)] fn c03_f() { decide(chain_grammar(5, true)) }
#[no_mangle] #[inline(never)] fn c03_g() { set_order(1); decide(chain_grammar(6, false)) }
#[no_mangle] #[inline(never)] fn c03_h() { decide(chain_grammar(6, true)) }
#[no_mangle] #[inline(never)] fn c03_j() { decide(spread_grammar(2, 2, &[2, 2])) }
#[no_mangle] #[inline(never)] fn c03_k() { decide(long_grammar(5)) }
#[no_mangle] #[inline(never)] fn c03_l() { decide(wide_grammar(5)) }
#[no_mangle] #[inline(never)] fn c03_m() { set_order(1); decide(wide_grammar(4)) }
#[no_mangle] #[inline(never)] fn c03_u() { decide(spread_grammar(2, 2, &[2, 2, 1])) }
#[no_mangle] #[inline(never)] fn c03_v() { decide(long_grammar(7)) }
#[no_mangle] #[inline(never)] fn c03_w() { decide(wide_grammar(9)) }
#[no_mangle] #[inline(never)] fn c03_n() { decide(deep_grammar(14)) }
#[no_mangle] #[inline(never)] fn c03_o() { decide(deep_grammar(26)) }
fn main() { entry(&[("c03_n", c03_n), ("c03_o", c03_o), ("c03_j", c03_j), ("c03_k", c03_k), ("c03_l", c03_l), ("c03_m", c03_m), ("c03_u", c03_u), ("c03_v", c03_v), ("c03_w", c03_w), ("c03_e", c03_e), ("c03_f", c03_f), ("c03_g", c03_g), ("c03_h", c03_h), ("c03_a", c03_a), ("c03_r", c03_r), ("c03_b", c03_b), ("c03_c", c03_c), ("c03_d", c03_d), ("c03_t", c03_t)]) }
