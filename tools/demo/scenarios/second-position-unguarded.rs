use common::*;
// whenever during the migration a called program misuses the pool authority: refused
fn scenario(s: &mut S) {
    let mut hits = 0;
    for kind in 2..=3u8 {
        for skip in 0..8u8 {
            let p = s.make_pool(&params(1), q6(), &format!("a{}-{}", kind, skip));
            s.fill(&p);
            s.fault = kind + 16 * skip;
            let o = s.run(vec![d2_migrate(&p.pr, key("d2cfg:100"), key("keeper"), true)]);
            s.fault = 0;
            if o.misbehaved > 0 {
                hits += 1;
                let a = s.db.get(&pool_authority()).map(|a| (a.owner, a.data.len()));
                assert!(!o.ok(), "kind {} at call {}: the migration succeeds, authority {:?}", kind, skip + 1, a);
            }
        }
    }
    assert!(hits >= 6, "{} faults injected", hits);
}
fn main() { demo(scenario) }
