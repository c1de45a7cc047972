use common::*;
// a pool keeps the protocol share of the migration it was created with
fn scenario(s: &mut S) {
    let p = s.make_pool(&params(1), q6(), "a");
    // as an older release created it
    std::rc::Rc::make_mut(s.db.get_mut(&p.pool).unwrap()).data[376..378].copy_from_slice(&[0, 0]);
    assert!(s.pool(&p).mig_bps == 0);
    s.fill(&p);
    s.migrate2(&p);
    let v = s.pool(&p);
    assert!(v.mig_base_fee == 0 && v.mig_quote_fee == 0, "fees {} and {}", v.mig_base_fee, v.mig_quote_fee);
}
fn main() { demo(scenario) }
