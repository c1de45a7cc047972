use common::*;
// vesting starts when the curve is complete, whoever is late with the locker
fn scenario(s: &mut S) {
    let mut c = params(1);
    c.v_amount = 100_000;
    c.v_freq = 5;
    c.v_periods = 10;
    let p = s.make_pool(&c, q6(), "a");
    s.fill(&p);
    let done = s.pool(&p).finish_ts;
    assert!(done == s.ts as u64);
    s.pass(10_000, 86_400);
    s.lock(&p);
    let esc = s.db[&escrow_addr(&base_locker(&p.pool))].data.clone();
    let has = |x: u64| esc.windows(8).any(|w| w == x.to_le_bytes());
    assert!(has(done) && !has(s.ts as u64), "the escrow starts at {} and the curve finished at {}", s.ts, done);
}
fn main() { demo(scenario) }
