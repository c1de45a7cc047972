use common::*;
// the swap that comes with the creation of its pool pays the smallest fee, in every mode
fn scenario(s: &mut S) {
    let mut c = params(1);
    c.cliff_fee = 500_000_000;
    c.fee_first = 10;
    c.fee_second = 100;
    c.fee_third = 49_000_000;
    c.first_swap_min = true;
    c.collect_fee_mode = 1;
    let cfg = s.make_config(&c, q6(), "a");
    let p = Pl::of(cfg, q6(), false, "a");
    let u = key("t0");
    let out = 1_000_000_000u64;
    s.ok("create and buy", vec![p.init(), create_ata(key("keeper"), u, p.base, p.base_tp), p.swap_out(u, true, out, u64::MAX)]);
    let v = s.pool(&p);
    let fee = v.met[0] + v.met[2];
    assert!(s.bal(&p.b("t0")) == out && fee < out / 20, "fee {} on {}", fee, out);
}
fn main() { demo(scenario) }
