use common::*;
// whoever buys and sells everything back in small exact-out pieces ends with no more than before
fn scenario(s: &mut S) {
    let mut c = params(1);
    // about 100 quote units for one base unit
    c.start_sqrt = 8u128 << 64;
    c.threshold = 1 << 36;
    c.cliff_fee = 2_500_000;
    c.curve = vec![(9u128 << 64, 1u128 << 97), (20u128 << 64, 1u128 << 97), (MAX_SQRT, 1u128 << 97)];
    let p = s.make_pool(&c, q6(), "a");
    s.ok("others buy", vec![p.swap_in(key("t1"), true, 1 << 35, 0)]);
    assert!(s.pool(&p).sqrt_price > 9u128 << 64);
    let q0 = s.bal(&p.qt("t0"));
    s.ok("buy", vec![p.swap_out(key("t0"), true, 400, 1 << 40)]);
    let price = { let x = s.pool(&p).sqrt_price; ((x >> 32) * (x >> 32) >> 64) as u64 };
    let mut n = 0;
    while s.bal(&p.b("t0")) > 1 && n < 900 {
        s.pass(1, 1);
        n += 1;
        let left = s.bal(&p.b("t0"));
        let o = s.run(vec![p.swap_out(key("t0"), false, price * 19 / 10, left)]);
        if !o.ok() {
            break;
        }
    }
    let (q1, b) = (s.bal(&p.qt("t0")), s.bal(&p.b("t0")));
    assert!(q1 <= q0, "{} quote units gained and {} base left after a round trip of {} sells", q1 - q0, b, n);
    let i = s.config(&p);
    let x = s.pool(&p);
    // the curve between start and now is worth this much quote
    let (mut lo, mut want) = (i.start_sqrt, num_bigint::BigUint::from(0u8));
    for (hi, l) in &i.curve {
        if x.sqrt_price > lo {
            want += num_bigint::BigUint::from((*hi).min(x.sqrt_price) - lo) * *l;
        }
        lo = *hi;
    }
    assert!(num_bigint::BigUint::from(x.quote_reserve) << 128u32 >= want, "quote reserve below the curve");
}
fn main() { demo(scenario) }
