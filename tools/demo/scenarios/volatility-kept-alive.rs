use common::*;
// trades that do not move the price by a bin do not keep old volatility alive
fn scenario(s: &mut S) {
    let mut c = params(1);
    c.dynamic = Some(DynFee { bin_step: 1, bin_step_u128: 1844674407370955, filter: 10, decay: 120, reduction: 5000, max_vol: 14460000, vfc: 956 });
    let p = s.make_pool(&c, q6(), "a");
    s.ok("buy", vec![p.swap_in(key("t0"), true, 10_000_000_000, 0)]);
    for _ in 0..60 {
        s.pass(5, 5);
        s.ok("dust", vec![p.swap_in(key("t1"), true, 10_000, 0)]);
    }
    let v = s.pool(&p);
    let before = v.met[3] + v.met[1];
    s.ok("dust", vec![p.swap_in(key("t1"), true, 100_000_000, 0)]);
    let v = s.pool(&p);
    let fee = v.met[3] + v.met[1] - before;
    assert!(fee.abs_diff(1_000_000) < 1_000, "fee {} of 100000000 five minutes after the last large trade", fee);
}
fn main() { demo(scenario) }
