use common::*;
// a called program must not take the pool authority account over
fn scenario(s: &mut S) {
    let p = s.make_pool(&params(1), q6(), "a");
    s.fill(&p);
    for m in [2u8, 3] {
        s.fault = m;
        let o = s.run(vec![d2_migrate(&p.pr, key("d2cfg:100"), key("keeper"), true)]);
        assert!(o.misbehaved > 0, "the fault was not injected");
        assert!(!o.ok(), "migration succeeds although the called program abused the pool authority (kind {})", m);
        s.fault = 0;
    }
    s.migrate2(&p);
}
fn main() { demo(scenario) }
