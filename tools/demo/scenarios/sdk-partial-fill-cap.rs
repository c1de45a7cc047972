use common::*;
fn read<T: Copy>(d: &[u8]) -> T {
    assert!(d.len() - 8 >= std::mem::size_of::<T>());
    unsafe { std::ptr::read_unaligned(d[8..].as_ptr() as *const T) }
}
// the SDK quotes what a partial fill pays
fn scenario(s: &mut S) {
    use dynamic_bonding_curve::state::{PoolConfig, VirtualPool};
    let p = s.make_pool(&params(1), q6(), "a");
    s.ok("buy", vec![p.swap_in(key("t0"), true, 40_000_000_000, 0)]);
    for amount in [1_000_000_000u64, 10_450_000_000, 1 << 40] {
        let vp: VirtualPool = read(&s.db[&p.pool].data);
        let pc: PoolConfig = read(&s.db[&p.config].data);
        let q = dynamic_bonding_curve_sdk::quote_partial_fill::quote_partial_fill(&vp, &pc, false, s.ts as u64, s.slot, amount, false, false).unwrap();
        let snap = s.db.clone();
        let before = (s.bal(&p.qt("t0")), s.bal(&p.b("t0")));
        s.ok("partial fill", vec![p.partial(key("t0"), true, amount, 0)]);
        let (paid, got) = (before.0 - s.bal(&p.qt("t0")), s.bal(&p.b("t0")) - before.1);
        s.db = snap;
        assert!(paid == q.included_fee_input_amount && got == q.output_amount, "quoted {} for {}, paid {} for {}", q.output_amount, q.included_fee_input_amount, got, paid);
    }
}
fn main() { demo(scenario) }
