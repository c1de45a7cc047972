use common::*;
// a pool whose vesting is over before anybody made the locker still migrates
fn scenario(s: &mut S) {
    let mut c = params(1);
    c.v_amount = 100_000;
    c.v_freq = 5;
    c.v_periods = 10;
    let p = s.make_pool(&c, q6(), "a");
    s.fill(&p);
    s.pass(10_000, 86_400);
    s.lock(&p);
    s.migrate2(&p);
}
fn main() { demo(scenario) }
