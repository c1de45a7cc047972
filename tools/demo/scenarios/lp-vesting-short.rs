use common::*;
// liquidity vests over all the agreed periods
fn scenario(s: &mut S) {
    let mut c = params(1);
    (c.partner_liq, c.partner_perm, c.creator_liq, c.creator_perm) = (10, 30, 10, 30);
    c.creator_vest = LpVest { pct: 20, bps_per_period: 2, periods: 5_000, cliff: 0, freq: 3_600 };
    let p = s.make_pool(&c, q6(), "a");
    s.fill(&p);
    s.migrate2(&p);
    let d = d2_addrs(&p.pr, &key("d2cfg:100"));
    let mut seen = 0;
    for pos in [d.pos1, d.pos2] {
        let x = s.db.get(&pos).and_then(|a| crate::progs::d2_pos_view(a)).unwrap();
        for v in x.vestings {
            seen += 1;
            assert!(v.1 == 3_600 && v.4 == 5_000, "vesting {:?}", v);
            assert!(v.2 <= x.vested / 1_000, "{} of {} free at the cliff", v.2, x.vested);
        }
    }
    assert!(seen == 1);
}
fn main() { demo(scenario) }
