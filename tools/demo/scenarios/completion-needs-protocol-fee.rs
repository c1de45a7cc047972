use common::*;
// every accepted configuration can be traded to completion and migrated
fn scenario(s: &mut S) {
    for (i, extra) in [0u128, 1, 50].into_iter().enumerate() {
        let mut c = params(1);
        // the curve ends where the threshold is reached, give or take
        let l = 1u128 << 100;
        let top = START * 3;
        let t = (num_bigint::BigUint::from(top - START) * l) >> 128u32;
        c.threshold = u64::try_from(t).unwrap();
        c.curve = vec![(top + top / 10_000 * extra / 10, l)];
        let p = s.make_pool(&c, q6(), &format!("{}", i));
        s.ok("complete the curve", vec![p.partial(key("t1"), true, 1 << 50, 0)]);
        assert!(s.pool(&p).progress != 0, "curve should be complete");
        s.migrate2(&p);
        assert!(s.pool(&p).progress == 3);
    }
}
fn main() { demo(scenario) }
