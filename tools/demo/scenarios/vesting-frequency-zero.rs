use common::*;
// a pool of an accepted configuration can be migrated
fn scenario(s: &mut S) {
    let mut c = params(1);
    c.v_cliff_amount = 1_000_000;
    c.v_cliff_dur = 10;
    let ix = create_config(key("cfg-a"), key("p0"), key("rcv0"), q6().mint, key("p0"), &c);
    if s.run(vec![ix]).ok() {
        let p = Pl::of(key("cfg-a"), q6(), false, "a");
        s.ok("initialize pool", vec![p.init()]);
        s.atas(&p);
        s.fill(&p);
        s.lock(&p);
        s.migrate2(&p);
    }
    // with a frequency it is an ordinary configuration
    c.v_freq = 1;
    let p = s.make_pool(&c, q6(), "b");
    s.fill(&p);
    s.lock(&p);
    s.migrate2(&p);
}
fn main() { demo(scenario) }
