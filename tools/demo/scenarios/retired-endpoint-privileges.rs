use common::*;
// the migration as a 0.1.6 client sends it: every account of the metadata instruction read-only
fn scenario(s: &mut S) {
    let p = s.make_pool(&params(1), q6(), "a");
    s.fill(&p);
    let mut ix = d2_create_metadata(&p.pr, key("keeper"));
    for m in ix.accounts.iter_mut() {
        m.is_writable = false;
        m.is_signer = false;
    }
    s.ok("metadata, laid out by release 0.1.6", vec![ix.clone()]);
    let mut mig = d2_migrate(&p.pr, key("d2cfg:100"), key("keeper"), true);
    mig.accounts[1].pubkey = ix.accounts[2].pubkey;
    s.ok("migration", vec![mig]);
    assert!(s.pool(&p).progress == 3);
}
fn main() { demo(scenario) }
