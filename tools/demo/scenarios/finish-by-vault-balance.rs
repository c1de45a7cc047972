use common::*;
// gifts to the vault do not complete the curve
fn scenario(s: &mut S) {
    let p = s.make_pool(&params(1), q6(), "a");
    s.ok("buy", vec![p.swap_in(key("t0"), true, 5_000_000_000, 0)]);
    s.ok("gift", vec![token_transfer(p.q.tp, p.qt("t1"), p.pr.quote_vault, key("t1"), 60_000_000_000)]);
    s.ok("buy", vec![p.swap_in(key("t0"), true, 5_000_000_000, 0)]);
    assert!(s.pool(&p).progress == 0, "the curve is complete with a reserve of {}", s.pool(&p).quote_reserve);
    s.ok("buy", vec![p.swap_in(key("t0"), true, 5_000_000_000, 0)]);
}
fn main() { demo(scenario) }
