use common::*;
// what is to be vested is locked before the pool can be migrated
fn scenario(s: &mut S) {
    let mut c = params(0);
    c.v_amount = 100_000;
    c.v_freq = 5;
    c.v_periods = 10;
    let p = s.make_pool(&c, q6(), "a");
    let k = key("keeper");
    s.fill(&p);
    s.ok("v1 metadata", vec![d1_create_metadata(&p.pr, k)]);
    s.refused("migration before the locker", vec![d1_migrate(&p.pr, key("d1cfg:100"), k)]);
    s.lock(&p);
    s.ok("v1 migrate", vec![d1_migrate(&p.pr, key("d1cfg:100"), k)]);
    assert!(s.pool(&p).progress == 3);
}
fn main() { demo(scenario) }
