use common::*;
// a completed curve takes no trade at all
fn scenario(s: &mut S) {
    let p = s.make_pool(&params(1), q6(), "a");
    s.fill(&p);
    let before = s.pool(&p).quote_reserve;
    s.refused("exact in", vec![p.swap_in(key("t1"), false, 1_000_000_000, 0)]);
    s.refused("partial fill", vec![p.partial(key("t1"), false, 1_000_000_000, 0)]);
    s.refused("exact out", vec![p.swap_out(key("t1"), false, 1_000_000, u64::MAX)]);
    assert!(s.pool(&p).quote_reserve == before);
}
fn main() { demo(scenario) }
