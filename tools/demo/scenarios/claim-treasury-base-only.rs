use common::*;
// protocol fees go to the treasury and nowhere else
fn scenario(s: &mut S) {
    let mut c = params(1);
    c.collect_fee_mode = 1;
    let p = s.make_pool(&c, q6(), "a");
    let op = s.operator(1);
    s.ok("buy", vec![p.swap_in(key("t0"), true, 5_000_000_000, 0)]);
    let h = s.bal(&p.b("t0"));
    s.ok("sell", vec![p.swap_in(key("t0"), false, h / 2, 0)]);
    assert!(s.pool(&p).protocol_quote > 0 && s.pool(&p).protocol_base > 0);
    let o = key("o0");
    let claim = |a: Pubkey, b: Pubkey| vec![claim_protocol_fee(&p.pr, op, o, a, b, u64::MAX, u64::MAX)];
    s.refused("quote into another account", claim(p.bk(&TREASURY), p.qt("o0")));
    s.refused("base into another account", claim(p.b("o0"), p.qk(&TREASURY)));
    s.ok("claim", claim(p.bk(&TREASURY), p.qk(&TREASURY)));
}
fn main() { demo(scenario) }
