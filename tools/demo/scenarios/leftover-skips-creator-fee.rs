use common::*;
// base fees still owed to the creator must stay in the vault when the leftover is withdrawn
fn scenario(s: &mut S) {
    let mut c = params(1);
    c.collect_fee_mode = 1;
    c.supply = Some((1 << 52, 1 << 52));
    let p = s.make_pool(&c, q6(), "a");
    s.ok("buy", vec![p.swap_in(key("t0"), true, 5_000_000_000, 0)]);
    s.fill(&p);
    s.migrate2(&p);
    s.ok("leftover", vec![withdraw_leftover(&p.pr, key("rcv0"), p.b("rcv0"))]);
    let v = s.pool(&p);
    assert!(v.creator_base > 0);
    let (have, owed) = (s.bal(&p.pr.base_vault), v.protocol_base + v.partner_base + v.creator_base);
    assert!(have >= owed, "base vault holds {} but {} is owed", have, owed);
    s.ok("creator claim", vec![claim_creator_trading_fee(&p.pr, key("c0"), p.b("c0"), p.qt("c0"), u64::MAX, u64::MAX)]);
    s.ok("partner claim", vec![claim_trading_fee(&p.pr, key("p0"), p.b("p0"), p.qt("p0"), u64::MAX, u64::MAX)]);
}
fn main() { demo(scenario) }
