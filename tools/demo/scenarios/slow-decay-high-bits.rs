use common::*;
// the fee only ever falls, over the whole schedule
fn scenario(s: &mut S) {
    let mut c = params(1);
    c.cliff_fee = 900_000_000;
    c.fee_mode = 1;
    c.fee_first = 50_000; // periods
    c.fee_second = 1; // slots each
    c.fee_third = 1; // bps
    let p = s.make_pool(&c, q6(), "a");
    let fee = |s: &mut S| {
        let snap = s.db.clone();
        let b = s.pool(&p).met;
        s.ok("buy", vec![p.swap_in(key("t0"), true, 1_000_000_000, 0)]);
        let a = s.pool(&p).met;
        s.db = snap;
        a.iter().sum::<u64>() - b.iter().sum::<u64>()
    };
    let mut last = u64::MAX;
    for _ in 0..60 {
        let f = fee(s);
        assert!(f <= last, "the fee rises from {} to {}", last, f);
        last = f;
        s.pass(1_000, 400);
    }
    assert!(last < 7_000_000, "fee {} at the end", last);
}
fn main() { demo(scenario) }
