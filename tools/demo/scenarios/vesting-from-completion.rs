use common::*;
// vested liquidity is locked for the agreed time after the migration
fn scenario(s: &mut S) {
    let mut c = params(1);
    let day = 86_400u32;
    (c.partner_liq, c.partner_perm, c.creator_liq, c.creator_perm) = (10, 30, 10, 30);
    c.creator_vest = LpVest { pct: 20, bps_per_period: 0, periods: 0, cliff: 30 * day, freq: 0 };
    let p = s.make_pool(&c, q6(), "a");
    s.fill(&p);
    s.pass(100_000, 20 * day as i64);
    s.migrate2(&p);
    let d = d2_addrs(&p.pr, &key("d2cfg:100"));
    let mut seen = 0;
    for pos in [d.pos1, d.pos2] {
        let x = s.db.get(&pos).and_then(|a| crate::progs::d2_pos_view(a)).unwrap();
        for v in x.vestings {
            seen += 1;
            let at = s.ts as u64 + 30 * day as u64;
            assert!(v.0.unwrap() >= at, "free at {} instead of {}", v.0.unwrap(), at);
        }
    }
    assert!(seen == 1);
}
fn main() { demo(scenario) }
