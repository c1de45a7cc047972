use common::*;
// a rate-limited pool takes one swap per transaction, however it is packaged
fn scenario(s: &mut S) {
    let mut c = params(1);
    c.fee_mode = 2;
    c.fee_first = 100; // increment in bps
    c.fee_second = 1000; // duration
    c.fee_third = 1_000_000_000; // reference amount
    let p = s.make_pool(&c, q6(), "a");
    let (a, b) = (p.swap_in(key("t0"), true, 500_000_000, 0), p.swap_in(key("t1"), true, 500_000_000, 0));
    s.refused("two buys by a program", vec![via_proxy(&[a.clone(), b.clone()], 0)]);
    s.refused("two buys by a program, with something in between", vec![via_proxy(&[a.clone(), proxy_nop(), b], 0)]);
    s.ok("one buy by a program", vec![via_proxy(&[proxy_nop(), a], 0)]);
}
fn main() { demo(scenario) }
