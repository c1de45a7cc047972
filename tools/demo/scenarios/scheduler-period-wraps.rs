use common::*;
// once the schedule is over the fee stays at its end
fn scenario(s: &mut S) {
    let mut c = params(1);
    c.cliff_fee = 500_000_000;
    c.fee_first = 10; // periods
    c.fee_second = 1; // slots each
    c.fee_third = 49_000_000; // reduction
    let p = s.make_pool(&c, q6(), "a");
    let fee = |s: &mut S| {
        let snap = s.db.clone();
        let b = s.pool(&p).met;
        s.ok("buy", vec![p.swap_in(key("t0"), true, 1_000_000_000, 0)]);
        let a = s.pool(&p).met;
        s.db = snap;
        a.iter().sum::<u64>() - b.iter().sum::<u64>()
    };
    s.pass(11, 5);
    let end = fee(s);
    assert!(end == 10_000_000, "fee {}", end);
    for later in [100u64, 60_000, 5_425 + 3, 70_000, 300_000] {
        s.pass(later, 1);
        let f = fee(s);
        assert!(f == end, "the fee rises from {} to {} long after the schedule's end", end, f);
    }
}
fn main() { demo(scenario) }
