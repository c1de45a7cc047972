use common::*;
// the reduced fee is for the swap that comes with the creation of its own pool
fn scenario(s: &mut S) {
    let mut c = params(1);
    c.cliff_fee = 500_000_000;
    c.fee_first = 10;
    c.fee_second = 100;
    c.fee_third = 49_000_000;
    c.first_swap_min = true;
    let p = s.make_pool(&c, q6(), "a");
    // another pool of the same config, created with the first pool among its accounts
    let o = Pl::of(p.config, q6(), false, "b");
    let mut init = o.init();
    init.accounts.push(solana_program::instruction::AccountMeta::new_readonly(p.pool, false));
    let before = s.pool(&p).met[3] + s.pool(&p).met[1];
    s.ok("create another pool, then buy", vec![init, p.swap_in(key("t0"), true, 1_000_000_000, 0)]);
    let fee = s.pool(&p).met[3] + s.pool(&p).met[1] - before;
    assert!(fee == 500_000_000, "fee {} with the creation of another pool", fee);
}
fn main() { demo(scenario) }
