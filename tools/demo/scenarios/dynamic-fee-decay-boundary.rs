use common::*;
// volatility is forgotten after decay_period without a trade
fn scenario(s: &mut S) {
    let mut c = params(1);
    c.dynamic = Some(DynFee { bin_step: 1, bin_step_u128: 1844674407370955, filter: 10, decay: 120, reduction: 5000, max_vol: 14460000, vfc: 956 });
    let p = s.make_pool(&c, q6(), "a");
    s.ok("buy", vec![p.swap_in(key("t0"), true, 10_000_000_000, 0)]);
    s.pass(5, 11);
    s.ok("buy", vec![p.swap_in(key("t0"), true, 10_000_000_000, 0)]);
    s.pass(5, 125);
    s.ok("buy", vec![p.swap_in(key("t0"), true, 1_000_000, 0)]);
    assert!(s.pool(&p).vol_ref == 0, "volatility reference {} after more than the decay period", s.pool(&p).vol_ref);
}
fn main() { demo(scenario) }
