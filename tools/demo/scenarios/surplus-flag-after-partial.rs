use common::*;
// the protocol's surplus is paid once
fn scenario(s: &mut S) {
    let p = s.make_pool(&params(1), q6(), "a");
    let op = s.operator(1);
    // dust bought with exact output: each purchase is rounded up in favour of the pool
    for i in 0..200u64 {
        s.ok("dust", vec![p.swap_out(key("t0"), true, 1 + i % 7, 1_000)]);
    }
    s.fill(&p);
    assert!(s.pool(&p).quote_reserve > 50_000_000_050);
    let to = p.qk(&TREASURY);
    let claim = claim_protocol_fee(&p.pr, op, key("o0"), p.bk(&TREASURY), to, 0, 0);
    s.ok("claim of the surplus", vec![claim.clone()]);
    let one = s.bal(&to);
    assert!(one > 0);
    s.run(vec![claim]);
    assert!(s.bal(&to) == one, "the surplus is paid again: {} then {}", one, s.bal(&to));
}
fn main() { demo(scenario) }
