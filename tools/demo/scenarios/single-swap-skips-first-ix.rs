use common::*;
// a rate-limited pool takes one swap per transaction
fn scenario(s: &mut S) {
    let mut c = params(1);
    c.fee_mode = 2;
    c.fee_first = 100; // increment in bps
    c.fee_second = 1000; // duration
    c.fee_third = 1_000_000_000; // reference amount
    let p = s.make_pool(&c, q6(), "a");
    let (a, b) = (p.swap_in(key("t0"), true, 500_000_000, 0), p.swap_in(key("t1"), true, 500_000_000, 0));
    s.refused("two buys", vec![a.clone(), b.clone()]);
    s.refused("two buys behind another instruction", vec![sys_transfer(key("t0"), key("t1"), 1), a.clone(), b]);
    s.ok("one buy", vec![a]);
}
fn main() { demo(scenario) }
