use common::*;
// the swap event reports the reserve the pool has
fn scenario(s: &mut S) {
    let p = s.make_pool(&params(1), q6(), "a");
    // dust bought with exact output: each purchase is rounded up in favour of the pool
    for i in 0..200u64 {
        s.ok("dust", vec![p.swap_out(key("t0"), true, 1 + i % 7, 1_000)]);
    }
    let mut last = s.ok("buy", vec![p.swap_in(key("t0"), true, 40_000_000_000, 0)]);
    for i in 0..2 {
        let e = events(&last, "EvtSwap2");
        assert!(e.len() == 1);
        let v = s.pool(&p);
        let n = e[0].len();
        // ... quote_reserve_amount, migration_threshold, current_timestamp
        let reported = u64_at(&e[0], n - 24);
        assert!(u64_at(&e[0], n - 16) == 50_000_000_000);
        assert!(reported == v.quote_reserve, "reported {} actual {}", reported, v.quote_reserve);
        if i == 0 {
            last = s.ok("last", vec![p.partial(key("t0"), true, 1 << 45, 0)]);
        }
    }
    assert!(s.pool(&p).quote_reserve > 50_000_000_000);
}
fn main() { demo(scenario) }
