use common::*;
// the protocol's part of a migration is rounded down
fn scenario(s: &mut S) {
    let mut c = params(1);
    c.migration_fee_option = 6;
    c.m_collect = 2;
    c.m_bps = 100;
    c.compounding_bps = 5000;
    c.threshold = 50_000_000_777;
    let p = s.make_pool(&c, q6(), "a");
    s.fill(&p);
    s.ok("v2 migrate", vec![d2_migrate(&p.pr, key("d2cfg:custom"), key("keeper"), true)]);
    let v = s.pool(&p);
    let want = (c.threshold as u128 * 20 / 10_000) as u64;
    assert!(v.mig_quote_fee == want, "fee {} instead of {}", v.mig_quote_fee, want);
}
fn main() { demo(scenario) }
