use common::*;
fn read<T: Copy>(d: &[u8]) -> T {
    assert!(d.len() - 8 >= std::mem::size_of::<T>());
    unsafe { std::ptr::read_unaligned(d[8..].as_ptr() as *const T) }
}
// a completed curve trades no more, and is not quoted any more
fn scenario(s: &mut S) {
    use dynamic_bonding_curve::state::{PoolConfig, VirtualPool};
    let p = s.make_pool(&params(1), q6(), "a");
    s.ok("buy", vec![p.swap_in(key("t0"), true, 1_000_000_000, 0)]);
    let quote = |s: &S| {
        let vp: VirtualPool = read(&s.db[&p.pool].data);
        let pc: PoolConfig = read(&s.db[&p.config].data);
        dynamic_bonding_curve_sdk::quote_exact_out::quote_exact_out(&vp, &pc, true, s.ts as u64, s.slot, 1_000_000, false).is_ok()
    };
    let sell = p.swap_out(key("t0"), false, 1_000_000, u64::MAX >> 8);
    assert!(quote(s), "open pool");
    s.ok("sell", vec![sell.clone()]);
    s.fill(&p);
    s.refused("sell on the completed pool", vec![sell]);
    assert!(!quote(s), "the completed pool is quoted");
}
fn main() { demo(scenario) }
