use common::*;
// the new market opens at the price the configuration promised
fn scenario(s: &mut S) {
    let c = params(1);
    let p = s.make_pool(&c, q6(), "a");
    s.fill(&p);
    let cfg = s.config(&p);
    // as an older release completed it: the last swap went beyond the migration price
    let price = cfg.mig_sqrt + cfg.mig_sqrt / 50;
    std::rc::Rc::make_mut(s.db.get_mut(&p.pool).unwrap()).data[280..296].copy_from_slice(&price.to_le_bytes());
    assert!(s.pool(&p).sqrt_price == price);
    s.migrate2(&p);
    let d = d2_addrs(&p.pr, &key("d2cfg:100"));
    let at = |x: u128| s.db[&d.pool].data.windows(16).any(|w| w == x.to_le_bytes());
    assert!(at(cfg.mig_sqrt) && !at(price), "the market does not open at {}", cfg.mig_sqrt);
}
fn main() { demo(scenario) }
