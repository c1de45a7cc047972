use common::*;
// each side gets the liquidity its shares say
fn scenario(s: &mut S) {
    let mut c = params(1);
    (c.partner_liq, c.partner_perm, c.creator_liq, c.creator_perm) = (30, 5, 10, 55);
    let p = s.make_pool(&c, q6(), "a");
    s.fill(&p);
    s.migrate2(&p);
    let v = s.positions(&p);
    let total = |who: &Pubkey| v.iter().filter(|x| x.0 == *who).map(|x| x.1 + x.2 + x.3).sum::<u128>();
    let (partner, creator) = (total(&key("p0")), total(&key("c0")));
    assert!(creator > partner, "partner {} creator {}", partner, creator);
}
fn main() { demo(scenario) }
