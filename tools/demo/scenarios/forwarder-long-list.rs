use common::*;
// a rate-limited pool takes one swap per transaction, however it is packaged
fn scenario(s: &mut S) {
    let mut c = params(1);
    c.fee_mode = 2;
    c.fee_first = 100; // increment in bps
    c.fee_second = 1000; // duration
    c.fee_third = 1_000_000_000; // reference amount
    let p = s.make_pool(&c, q6(), "a");
    let (a, b) = (p.swap_in(key("t0"), true, 500_000_000, 0), p.swap_in(key("t1"), true, 500_000_000, 0));
    let own: Vec<_> = (0..20).map(|n| solana_program::instruction::AccountMeta::new_readonly(key(&format!("bot{n}")), false)).collect();
    s.refused("two buys", vec![via_proxy(&[a.clone()], 0), b.clone()]);
    s.refused("two buys, the first by a program with many accounts", vec![via_proxy_with(own.clone(), &[a.clone()], 0), b]);
    s.ok("one buy by a program with many accounts", vec![via_proxy_with(own, &[a], 0)]);
}
fn main() { demo(scenario) }
