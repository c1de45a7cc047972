use common::*;
// fees in base tokens survive the migration
fn scenario(s: &mut S) {
    let mut c = params(1);
    c.collect_fee_mode = 1;
    let p = s.make_pool(&c, q6(), "a");
    s.ok("buy", vec![p.swap_in(key("t0"), true, 10_000_000_000, 0)]);
    s.fill(&p);
    let v = s.pool(&p);
    assert!(v.protocol_base > 0 && v.partner_base > 0 && v.creator_base > 0);
    s.migrate2(&p);
    s.ok("partner", vec![claim_trading_fee(&p.pr, key("p0"), p.b("p0"), p.qt("p0"), u64::MAX, u64::MAX)]);
    s.ok("creator", vec![claim_creator_trading_fee(&p.pr, key("c0"), p.b("c0"), p.qt("c0"), u64::MAX, u64::MAX)]);
    let op = s.operator(3);
    s.ok("protocol", vec![claim_protocol_fee(&p.pr, op, key("o0"), p.bk(&TREASURY), p.qk(&TREASURY), u64::MAX, u64::MAX)]);
}
fn main() { demo(scenario) }
