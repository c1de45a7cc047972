use common::*;
// nobody pays more than the stated maximum
fn scenario(s: &mut S) {
    let p = s.make_pool(&params(1), q6(), "a");
    let t = key("t0");
    let out = 1_000_000_000u64;
    let q = s.bal(&p.qt("t0"));
    let snapshot = s.db.clone();
    s.ok("buy", vec![p.swap_out(t, true, out, u64::MAX >> 8)]);
    let paid = q - s.bal(&p.qt("t0"));
    s.db = snapshot;
    s.refused("buy below the price", vec![p.swap_out(t, true, out, paid - 1)]);
    s.ok("buy at the price", vec![p.swap_out(t, true, out, paid)]);
}
fn main() { demo(scenario) }
