use common::*;
fn add(s: &mut S, k: &Pubkey, off: usize, x: u64) {
    let a = std::rc::Rc::make_mut(s.db.get_mut(k).unwrap());
    let n = u64_at(&a.data, off) + x;
    a.data[off..off + 8].copy_from_slice(&n.to_le_bytes());
}
// all of the surplus goes to somebody, however large
fn scenario(s: &mut S) {
    let c = params(1);
    let p = s.make_pool(&c, q6(), "a");
    s.fill(&p);
    // as an older release completed it: the last swap went beyond the threshold
    let more = c.threshold / 5;
    add(s, &p.pool, 8 + 232, more);
    add(s, &p.pr.quote_vault, 64, more);
    add(s, &p.q.mint, 36, more);
    let total = s.pool(&p).quote_reserve - c.threshold;
    s.migrate2(&p);
    let who = ["p0", "c0"];
    let before: u64 = who.iter().map(|w| s.bal(&p.qt(w))).sum();
    s.ok("partner", vec![surplus(&p.pr, true, key("p0"), p.qt("p0"))]);
    s.ok("creator", vec![surplus(&p.pr, false, key("c0"), p.qt("c0"))]);
    let got = who.iter().map(|w| s.bal(&p.qt(w))).sum::<u64>() - before;
    let owed = s.pool(&p).protocol_quote;
    let op = s.operator(3);
    let t0 = s.bal(&p.qk(&TREASURY));
    s.ok("protocol", vec![claim_protocol_fee(&p.pr, op, key("o0"), p.bk(&TREASURY), p.qk(&TREASURY), u64::MAX, u64::MAX)]);
    let paid = s.bal(&p.qk(&TREASURY)) - t0 - owed;
    assert!(got + paid >= total, "surplus {}: partner and creator {}, protocol {}", total, got, paid);
}
fn main() { demo(scenario) }
