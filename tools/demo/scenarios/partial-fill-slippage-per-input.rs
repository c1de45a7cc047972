use common::*;
// the minimum output of a partial fill is not negotiable
fn scenario(s: &mut S) {
    let p = s.make_pool(&params(1), q6(), "a");
    let t = key("t0");
    s.ok("buy", vec![p.swap_in(t, true, 40_000_000_000, 0)]);
    let before = s.bal(&p.b("t0"));
    let snapshot = s.db.clone();
    s.ok("fill", vec![p.partial(t, true, 100_000_000_000, 0)]);
    let got = s.bal(&p.b("t0")) - before;
    s.db = snapshot.clone();
    s.ok("fill with the exact minimum", vec![p.partial(t, true, 100_000_000_000, got)]);
    s.db = snapshot;
    s.refused("fill with a higher minimum", vec![p.partial(t, true, 100_000_000_000, got + 1)]);
}
fn main() { demo(scenario) }
