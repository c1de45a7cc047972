use common::*;
// converted protocol fees must end up in the treasury's account of the pool's other token
fn scenario(s: &mut S) {
    for (i, t22) in [false, true].into_iter().enumerate() {
        let mut c = params(1);
        c.token_type = t22 as u8;
        let p = s.make_pool(&c, q6(), &format!("{}", i));
        if i == 0 {
            s.operator(3);
        }
        let op = operator_addr(&key("o0"));
        s.ok("buy", vec![p.swap_in(key("t0"), true, 5_000_000_000, 0)]);
        assert!(s.pool(&p).protocol_quote > 0);
        protocol_zap::utils::sim_take_calls();
        let ix = zap(&p.pr, false, p.qt("o0"), op, key("o0"), u64::MAX);
        let t = TxSpec { slot: s.slot, ts: s.ts, ixs: vec![ix], signers: vec![key("o0")], ..Default::default() };
        let (o, calls) = exec(&s.db, &t, true);
        assert!(o.ok(), "zap failed");
        let want = ata(&TREASURY, &p.base, &p.base_tp);
        assert!(calls.len() == 1);
        assert!(calls[0].paired_destination == want.to_bytes(), "the zap was checked against another destination");
    }
}
fn main() { demo(scenario) }
