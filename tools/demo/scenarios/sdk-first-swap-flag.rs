use common::*;
fn read<T: Copy>(d: &[u8]) -> T {
    assert!(d.len() - 8 >= std::mem::size_of::<T>());
    unsafe { std::ptr::read_unaligned(d[8..].as_ptr() as *const T) }
}
// the SDK quotes what the bundled first swap pays
fn scenario(s: &mut S) {
    use dynamic_bonding_curve::state::{PoolConfig, VirtualPool};
    let mut c = params(1);
    c.cliff_fee = 500_000_000;
    c.fee_first = 10;
    c.fee_second = 100;
    c.fee_third = 49_000_000;
    c.first_swap_min = true;
    let cfg = s.make_config(&c, q6(), "a");
    let p = Pl::of(cfg, q6(), false, "a");
    let ata = create_ata(key("keeper"), key("t0"), p.base, p.base_tp);
    let snap = s.db.clone();
    s.ok("create", vec![p.init()]);
    let vp: VirtualPool = read(&s.db[&p.pool].data);
    let pc: PoolConfig = read(&s.db[&p.config].data);
    s.db = snap;
    let out = 3_000_000_000u64;
    let q = dynamic_bonding_curve_sdk::quote_exact_out::quote_exact_out(&vp, &pc, false, s.ts as u64, s.slot, out, true).unwrap();
    let before = s.bal(&p.qt("t0"));
    s.ok("create and buy", vec![p.init(), ata, p.swap_out(key("t0"), true, out, u64::MAX >> 8)]);
    let paid = before - s.bal(&p.qt("t0"));
    assert!(paid == q.included_fee_input_amount, "quoted {} paid {}", q.included_fee_input_amount, paid);
}
fn main() { demo(scenario) }
