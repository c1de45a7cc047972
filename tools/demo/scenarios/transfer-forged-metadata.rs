use common::*;
// whether LP tokens are settled is for this program's own record to say
fn scenario(s: &mut S) {
    let p = s.make_pool(&params(0), q6(), "a");
    s.fill(&p);
    s.migrate1(&p);
    let m = damm1_metadata(&p.pool);
    let mut a = (*s.db[&m]).clone();
    a.owner = key("program of the attacker");
    a.data[169..173].fill(1); // the four status bytes: all done
    let own = key("record of the attacker");
    s.db.insert(own, std::rc::Rc::new(a));
    let xfer = transfer_creator(&p.pr, key("c0"), key("c1"), true);
    s.refused("transfer", vec![xfer.clone()]);
    let mut forged = xfer.clone();
    for m2 in forged.accounts.iter_mut().filter(|x| x.pubkey == m) {
        m2.pubkey = own;
    }
    s.refused("transfer with a forged record", vec![forged]);
    let d = d1_addrs(&p.pr, &key("d1cfg:100"));
    for who in ["p0", "c0"] {
        s.ok("lock escrow", vec![d1_create_lock_escrow(&d, key(who), key("keeper"))]);
        s.ok("escrow vault", vec![create_ata(key("keeper"), d1_lock_escrow(&d.pool, &key(who)), d.lp_mint, TOKEN)]);
        s.ok("lock", vec![d1_lock(&p.pr, key("d1cfg:100"), key(who))]);
        s.ok("lp ata", vec![create_ata(key("keeper"), key(who), d.lp_mint, TOKEN)]);
        s.ok("claim lp", vec![d1_claim(&p.pr, key("d1cfg:100"), key(who), key(who))]);
    }
    s.ok("transfer", vec![xfer]);
}
fn main() { demo(scenario) }
