use common::*;
// partner and creator share their part of the surplus: together never more than it
fn scenario(s: &mut S) {
    for (i, pct) in [30u8, 37, 51, 73, 99].into_iter().enumerate() {
        let mut c = params(1);
        c.creator_fee_pct = pct;
        let p = s.make_pool(&c, q6(), &format!("a{}", i));
        // what rounding leaves behind
        s.ok("buy", vec![p.swap_in(key("t0"), true, 1_234_567_890, 0)]);
        for n in 0..60u64 {
            s.ok("sell", vec![p.swap_in(key("t0"), false, 12_345_678 + n * 7919, 0)]);
        }
        s.fill(&p);
        let surplus80 = (s.pool(&p).quote_reserve - c.threshold) * 80 / 100;
        assert!(surplus80 * pct as u64 % 100 != 0, "{}", surplus80);
        s.migrate2(&p);
        let (a, b) = (s.bal(&p.qt("p0")), s.bal(&p.qt("c0")));
        s.ok("partner", vec![surplus(&p.pr, true, key("p0"), p.qt("p0"))]);
        s.ok("creator", vec![surplus(&p.pr, false, key("c0"), p.qt("c0"))]);
        let (x, y) = (s.bal(&p.qt("p0")) - a, s.bal(&p.qt("c0")) - b);
        assert!(x + y <= surplus80, "partner {} + creator {} of {}", x, y, surplus80);
    }
}
fn main() { demo(scenario) }
