use common::*;
// an immutable token has no authority left
fn scenario(s: &mut S) {
    let mut c = params(1);
    c.token_type = 1;
    c.token_update_authority = 1;
    let p = s.make_pool(&c, q6(), "a");
    let m = mint(&s.db, &p.base).unwrap();
    let x = m.meta.clone().unwrap();
    assert!(m.auth.is_none() && m.freeze.is_none() && x.pointer_auth.is_none() && x.update_auth.is_none(), "{:?}", x);
}
fn main() { demo(scenario) }
