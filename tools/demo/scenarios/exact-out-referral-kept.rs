use common::*;
// what comes in is what is booked plus what is paid out
fn scenario(s: &mut S) {
    let p = s.make_pool(&params(1), q6(), "a");
    for i in 0..5u64 {
        let t = key("t0");
        let vault = s.bal(&p.pr.quote_vault);
        let v = s.pool(&p);
        let owed = v.quote_reserve + v.protocol_quote + v.partner_quote + v.creator_quote;
        s.ok("buy", vec![p.mode(t, true, Some(MODE_OUT), 1_000_000_000 + i, u64::MAX >> 8, Some(p.qt("r0")), true)]);
        let w = s.pool(&p);
        let owed2 = w.quote_reserve + w.protocol_quote + w.partner_quote + w.creator_quote;
        let vault2 = s.bal(&p.pr.quote_vault);
        assert!(vault2 - vault == owed2 - owed, "vault grows by {}, the books by {}", vault2 - vault, owed2 - owed);
        let (prot, trad) = (w.met[1] - v.met[1], w.met[3] - v.met[3]);
        let referral = prot / 4;
        let fee = prot + trad + referral;
        assert!(prot.abs_diff(fee * 16 / 100) <= 2, "the protocol's part of a fee of {} is {}", fee, prot);
    }
}
fn main() { demo(scenario) }
