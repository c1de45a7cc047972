use common::*;
// a claim never pays more than its cap
fn scenario(s: &mut S) {
    let mut c = params(1);
    c.collect_fee_mode = 1;
    let p = s.make_pool(&c, q6(), "a");
    let op = s.operator(1);
    s.ok("buy", vec![p.swap_in(key("t0"), true, 5_000_000_000, 0)]);
    s.fill(&p);
    s.migrate2(&p);
    let v = s.pool(&p);
    assert!(v.protocol_base > 10 && v.mig_base_fee > 10);
    let cap = v.protocol_base.min(v.mig_base_fee) / 2;
    let to = p.bk(&TREASURY);
    let before = s.bal(&to);
    s.ok("claim", vec![claim_protocol_fee(&p.pr, op, key("o0"), to, p.qk(&TREASURY), cap, 0)]);
    let paid = s.bal(&to) - before;
    assert!(paid <= cap, "a claim capped at {} paid {}", cap, paid);
}
fn main() { demo(scenario) }
