use common::*;
// creator rights stay put while LP tokens of this very pool are outstanding
fn scenario(s: &mut S) {
    let p = s.make_pool(&params(0), q6(), "a");
    let o = s.make_pool(&params(0), q6(), "b");
    for x in [&p, &o] {
        s.fill(x);
        s.migrate1(x);
    }
    // the other pool is settled
    let d = d1_addrs(&o.pr, &key("d1cfg:100"));
    for who in ["p0", "c0"] {
        s.ok("lp ata", vec![create_ata(key("keeper"), key(who), d.lp_mint, TOKEN)]);
        s.ok("claim lp", vec![d1_claim(&o.pr, key("d1cfg:100"), key(who), key(who))]);
        s.ok("lock escrow", vec![d1_create_lock_escrow(&d, key(who), key("keeper"))]);
        s.ok("escrow vault", vec![create_ata(key("keeper"), d1_lock_escrow(&d.pool, &key(who)), d.lp_mint, TOKEN)]);
        s.ok("lock", vec![d1_lock(&o.pr, key("d1cfg:100"), key(who))]);
    }
    let mut x = transfer_creator(&p.pr, key("c0"), key("c1"), true);
    s.refused("transfer", vec![x.clone()]);
    let n = x.accounts.len();
    x.accounts[n - 1].pubkey = damm1_metadata(&o.pool);
    s.refused("transfer with the metadata of another pool", vec![x]);
    s.ok("transfer of the settled pool", vec![transfer_creator(&o.pr, key("c0"), key("c1"), true)]);
}
fn main() { demo(scenario) }
