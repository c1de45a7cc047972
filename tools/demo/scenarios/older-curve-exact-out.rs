use common::*;
// an exact-out buy works on every part of a curve, however many points it has
fn scenario(s: &mut S) {
    let mut c = params(1);
    let m = START / 10 * 11;
    c.curve = vec![(m, 1u128 << 100), (MAX_SQRT, 1u128 << 98)];
    let b = s.make_pool(&c, q6(), "b");
    // what an older release accepted: 18 points
    let mut v: Vec<(u128, u128)> = (1..=17).map(|i| (START + (m - START) / 17 * i, 1u128 << 100)).collect();
    v[16].0 = m;
    v.push((MAX_SQRT, 1u128 << 98));
    let bytes: Vec<u8> = v.iter().flat_map(|(x, y)| [x.to_le_bytes(), y.to_le_bytes()].concat()).collect();
    std::rc::Rc::make_mut(s.db.get_mut(&b.config).unwrap()).data[408..408 + bytes.len()].copy_from_slice(&bytes);
    let u = key("t0");
    s.ok("buy", vec![b.swap_in(u, true, 20_000_000_000, 0)]);
    let before = s.bal(&b.b("t0"));
    s.ok("exact out", vec![b.swap_out(u, true, 1_000_000_000, u64::MAX)]);
    assert!(s.bal(&b.b("t0")) == before + 1_000_000_000);
}
fn main() { demo(scenario) }
