use common::*;
// a trader's client from before the first-swap discount can open the trading of any pool
fn scenario(s: &mut S) {
    let mut c = params(1);
    c.first_swap_min = true;
    for (i, mode) in [None, Some(MODE_IN), Some(MODE_PARTIAL), Some(MODE_OUT)].into_iter().enumerate() {
        let p = s.make_pool(&c, q6(), &format!("a{}", i));
        let max = if mode == Some(MODE_OUT) { u64::MAX } else { 0 };
        let ix = p.mode(key("t0"), true, mode, 1_000_000, max, None, false);
        assert!(ix.accounts.len() == 15, "the account list of release 0.1.6");
        s.ok("first swap with the account list of release 0.1.6", vec![ix]);
        let ix = p.mode(key("t0"), true, mode, 1_000_000, max, None, false);
        s.ok("second swap", vec![ix]);
    }
}
fn main() { demo(scenario) }
