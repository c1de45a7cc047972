use common::*;
// nobody can stop a migration by sending lamports somewhere
fn scenario(s: &mut S) {
    let p = s.make_pool(&params(1), q6(), "a");
    s.fill(&p);
    let d = d2_addrs(&p.pr, &key("d2cfg:100"));
    s.ok("gift", vec![sys_transfer(key("t0"), d.pool, 1_000_000)]);
    s.migrate2(&p);
    assert!(s.pool(&p).is_migrated == 1);
}
fn main() { demo(scenario) }
