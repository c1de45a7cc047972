use common::*;
// creator rights of a v1 pool stay put while LP tokens are outstanding
fn scenario(s: &mut S) {
    let p = s.make_pool(&params(0), q6(), "a");
    s.fill(&p);
    s.migrate1(&p);
    let d = d1_addrs(&p.pr, &key("d1cfg:100"));
    let xfer = transfer_creator(&p.pr, key("c0"), key("c1"), true);
    let lock = |s: &mut S, who: &str| {
        s.ok("lock escrow", vec![d1_create_lock_escrow(&d, key(who), key("keeper"))]);
        s.ok("escrow vault", vec![create_ata(key("keeper"), d1_lock_escrow(&d.pool, &key(who)), d.lp_mint, TOKEN)]);
        s.ok("lock", vec![d1_lock(&p.pr, key("d1cfg:100"), key(who))]);
    };
    let claim = |s: &mut S, who: &str| {
        s.ok("lp ata", vec![create_ata(key("keeper"), key(who), d.lp_mint, TOKEN)]);
        s.ok("claim lp", vec![d1_claim(&p.pr, key("d1cfg:100"), key(who), key(who))]);
    };
    s.refused("transfer", vec![xfer.clone()]);
    claim(s, "p0");
    claim(s, "c0");
    lock(s, "c0");
    s.refused("transfer while the partner's LP tokens are not locked", vec![xfer.clone()]);
    lock(s, "p0");
    s.ok("transfer", vec![xfer]);
}
fn main() { demo(scenario) }
