use common::*;
// splitting a segment of the curve into pieces of the same liquidity changes nothing, however many pieces
fn scenario(s: &mut S) {
    let mut c = params(1);
    let m = START / 10 * 11;
    c.curve = vec![(m, 1u128 << 100), (MAX_SQRT, 1u128 << 98)];
    let a = s.make_pool(&c, q6(), "a");
    let b = s.make_pool(&c, q6(), "b");
    // what an older release accepted: 18 points
    let mut v: Vec<(u128, u128)> = (1..=17).map(|i| (START + (m - START) / 17 * i, 1u128 << 100)).collect();
    v[16].0 = m;
    v.push((MAX_SQRT, 1u128 << 98));
    let bytes: Vec<u8> = v.iter().flat_map(|(x, y)| [x.to_le_bytes(), y.to_le_bytes()].concat()).collect();
    std::rc::Rc::make_mut(s.db.get_mut(&b.config).unwrap()).data[408..408 + bytes.len()].copy_from_slice(&bytes);
    let u = key("t0");
    let mut got = vec![];
    for p in [&a, &b] {
        s.ok("buy", vec![p.swap_in(u, true, 20_000_000_000, 0)]);
        let (base, before) = (s.bal(&p.b("t0")), s.bal(&p.qt("t0")));
        s.ok("sell", vec![p.swap_in(u, false, base / 2, 0)]);
        got.push(s.bal(&p.qt("t0")) - before);
    }
    assert!(got[0].abs_diff(got[1]) < 1000, "the same curve pays {} in 2 segments and {} in 18", got[0], got[1]);
}
fn main() { demo(scenario) }
