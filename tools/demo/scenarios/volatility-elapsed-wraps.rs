use common::*;
// volatility of the day before does not count
fn scenario(s: &mut S) {
    let mut c = params(1);
    c.dynamic = Some(DynFee { bin_step: 1, bin_step_u128: 1844674407370955, filter: 10, decay: 120, reduction: 5000, max_vol: 14460000, vfc: 956 });
    let p = s.make_pool(&c, q6(), "a");
    for (i, pause) in [65_536u64, 65_550, 65_600, 131_072 + 20, 300].iter().enumerate() {
        s.ok("buy", vec![p.swap_in(key("t0"), true, 10_000_000_000, 0)]);
        s.pass(*pause * 2, *pause as i64);
        // the fee reflects the movement up to the trade before: one trade to notice the calm
        s.ok("tiny", vec![p.swap_in(key("t1"), true, 1_000, 0)]);
        s.pass(2, 1);
        let v = s.pool(&p);
        let before = v.met[3] + v.met[1];
        s.ok("small", vec![p.swap_in(key("t1"), true, 100_000_000, 0)]);
        let v = s.pool(&p);
        let fee = v.met[3] + v.met[1] - before;
        assert!(fee.abs_diff(1_000_000) < 1_000, "{}: fee {} of 100000000, {} s after the last large trade", i, fee, pause);
    }
}
fn main() { demo(scenario) }
