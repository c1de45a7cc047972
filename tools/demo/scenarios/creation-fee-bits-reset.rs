use common::*;
// the partner's part of the creation fee is paid once
fn scenario(s: &mut S) {
    let mut c = params(1);
    c.creation_fee = 100_000_000;
    let p = s.make_pool(&c, q6(), "a");
    let op = s.operator(1);
    let partner = claim_partner_creation_fee(&p.pr, key("p0"), key("p0"));
    s.ok("partner", vec![partner.clone()]);
    s.ok("protocol", vec![claim_protocol_creation_fee(&p.pr, op, key("o0"), TREASURY)]);
    s.ok("gift", vec![sys_transfer(key("t0"), p.pool, 200_000_000)]);
    s.pass(3, 1);
    s.refused("partner again", vec![partner]);
}
fn main() { demo(scenario) }
