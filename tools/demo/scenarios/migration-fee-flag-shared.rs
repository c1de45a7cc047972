use common::*;
// each side withdraws its part of the migration fee once, whatever the split
fn scenario(s: &mut S) {
    for (i, pct) in [0u8, 50, 100].into_iter().enumerate() {
        let mut c = params(1);
        c.mig_fee_pct = 10;
        c.creator_mig_fee_pct = pct;
        let p = s.make_pool(&c, q6(), &format!("{}", i));
        s.fill(&p);
        let partner = withdraw_migration_fee(&p.pr, 0, key("p0"), p.qt("p0"));
        let creator = withdraw_migration_fee(&p.pr, 1, key("c0"), p.qt("c0"));
        let snap = s.db.clone();
        for order in [[&partner, &creator], [&creator, &partner]] {
            s.db = snap.clone();
            for x in order {
                s.ok("withdraw", vec![x.clone()]);
                s.pass(1, 1);
            }
            s.refused("partner again", vec![partner.clone()]);
            s.refused("creator again", vec![creator.clone()]);
        }
    }
}
fn main() { demo(scenario) }
