use common::*;
// a sell that crosses a curve point pays what the two segments are worth
fn scenario(s: &mut S) {
    let mut c = params(1);
    c.cliff_fee = 2_500_000;
    c.curve = vec![(START * 11 / 10, 1u128 << 101), (START * 12 / 10, 1u128 << 103), (START * 13 / 10, 1u128 << 102), (MAX_SQRT, 1u128 << 99)];
    c.threshold = 150_000_000_000;
    let p = s.make_pool(&c, q6(), "a");
    let t = key("t0");
    s.ok("buy", vec![p.swap_in(t, true, 100_000_000_000, 0)]);
    let held = s.bal(&p.b("t0"));
    // in one go and in two parts the same tokens sell for the same, give or take the rounding
    let snapshot = s.db.clone();
    let q0 = s.bal(&p.qt("t0"));
    s.ok("sell all", vec![p.swap_in(t, false, held, 0)]);
    let one = s.bal(&p.qt("t0")) - q0;
    s.db = snapshot;
    for i in 0..100 {
        let part = if i == 99 { s.bal(&p.b("t0")) } else { held / 100 };
        s.ok("sell a part", vec![p.swap_in(t, false, part, 0)]);
    }
    let many = s.bal(&p.qt("t0")) - q0;
    assert!(one.abs_diff(many) < 1000, "one sale pays {}, the same in parts {}", one, many);
}
fn main() { demo(scenario) }
