use common::*;
// the flat creation fee of older pools can be claimed, whatever their configuration charges
fn scenario(s: &mut S) {
    let p = s.make_pool(&params(1), q6(), "a");
    let a = std::rc::Rc::make_mut(s.db.get_mut(&p.pool).unwrap());
    a.data[368] = 1;
    a.lamports += 10_000_000;
    let op = s.operator(1);
    let before = s.lam(&TREASURY);
    s.run(vec![claim_protocol_creation_fee(&p.pr, op, key("o0"), TREASURY)]);
    let got = s.lam(&TREASURY) - before;
    assert!(got == 10_000_000, "{} lamports of the flat creation fee claimed", got);
}
fn main() { demo(scenario) }
