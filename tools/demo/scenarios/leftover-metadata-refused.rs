use common::*;
// a pool whose metadata account was made through release 0.1.4 migrates, passing that account
fn scenario(s: &mut S) {
    let p = s.make_pool(&params(1), q6(), "a");
    let meta = Pubkey::find_program_address(&[b"damm_v2", p.pool.as_ref()], &DBC).0;
    let mut data = [&disc("account", "MeteoraDammV2Metadata")[..], p.pool.as_ref(), key("c0").as_ref(), key("p0").as_ref()].concat();
    data.resize(8 + 222, 0);
    s.db.insert(meta, std::rc::Rc::new(Acct { lamports: rent_min(data.len()), data, owner: DBC, executable: false }));
    s.fill(&p);
    let mut ix = d2_migrate(&p.pr, key("d2cfg:100"), key("keeper"), true);
    ix.accounts[1].pubkey = meta;
    s.ok("migration with the metadata account", vec![ix]);
    assert!(s.pool(&p).progress == 3);
}
fn main() { demo(scenario) }
