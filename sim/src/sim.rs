//! The simulated world: deterministic genesis, clock, transactions as replayable values.

use crate::abi::*;
use crate::progs::*;
use crate::rt::{self, rent_min, Acct, Db, StubFault, TxIn, TxOut};
use serde_json::{json, Value};
use solana_program::{
    instruction::{AccountMeta, Instruction},
    pubkey::Pubkey,
};
use std::rc::Rc;

// ------------------------------------------------------------------ randomness
#[derive(Clone)]
pub struct Rng([u64; 4]);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut z = seed;
        let mut n = || {
            z = z.wrapping_add(0x9E3779B97F4A7C15);
            let mut x = z;
            x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
            x ^ (x >> 31)
        };
        Rng([n(), n(), n(), n()])
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    /// uniform in [0, n)
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            return 0;
        }
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    /// uniform in [a, b]
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        if b <= a {
            return a;
        }
        let n = b - a;
        if n == u64::MAX {
            return self.u64();
        }
        a + self.below(n + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    /// log-uniform in [a, b], a >= 1
    pub fn log(&mut self, a: u64, b: u64) -> u64 {
        if b <= a {
            return a;
        }
        let la = 64 - a.max(1).leading_zeros() as u64;
        let lb = 64 - b.leading_zeros() as u64;
        let bits = self.range(la, lb);
        let lo = if bits == 0 { 0 } else { 1u64 << (bits - 1) };
        let hi = if bits >= 64 { u64::MAX } else { (1u64 << bits) - 1 };
        self.range(lo.max(a), hi.min(b))
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.u64())
    }
}

// ------------------------------------------------------------------ genesis
pub const T0: i64 = 1_750_000_000;
pub const S0: u64 = 300_000_000;

#[derive(Clone, Copy, Debug)]
pub struct Quote {
    pub mint: Pubkey,
    pub tp: Pubkey,
    pub dec: u8,
}
pub fn quotes() -> Vec<Quote> {
    vec![
        Quote { mint: key("q6"), tp: TOKEN, dec: 6 },
        Quote { mint: key("q9"), tp: TOKEN, dec: 9 },
        Quote { mint: WSOL, tp: TOKEN, dec: 9 },
        Quote { mint: USDC, tp: TOKEN, dec: 6 },
        Quote { mint: key("t22q"), tp: TOKEN22, dec: 6 },
        Quote { mint: key("t22m"), tp: TOKEN22, dec: 9 },
    ]
}
pub fn bad_quotes() -> Vec<Quote> {
    vec![
        Quote { mint: key("t22fee"), tp: TOKEN22, dec: 6 },
        Quote { mint: key("t22close"), tp: TOKEN22, dec: 6 },
        Quote { mint: key("t22both"), tp: TOKEN22, dec: 6 },
        Quote { mint: NATIVE22, tp: TOKEN22, dec: 9 },
    ]
}
pub fn actor_labels() -> Vec<String> {
    let mut v: Vec<String> = ["keeper", "keeper2", "atk", "rcv0"].iter().map(|s| s.to_string()).collect();
    for i in 0..3 {
        v.push(format!("p{}", i));
    }
    for i in 0..4 {
        v.push(format!("c{}", i));
    }
    for i in 0..5 {
        v.push(format!("t{}", i));
    }
    for i in 0..2 {
        v.push(format!("r{}", i));
        v.push(format!("o{}", i));
    }
    v
}
pub fn old_operator(i: u8) -> Pubkey {
    key(&format!("cf-operator:{}", i))
}
pub const FUND: u64 = 1 << 58;
pub const BPS: [u64; 6] = [25, 30, 100, 200, 400, 600];

fn put(db: &mut Db, k: Pubkey, lamports: u64, data: Vec<u8>, owner: Pubkey) {
    db.insert(k, Rc::new(Acct { lamports, data, owner, executable: false }));
}
fn put_tok(db: &mut Db, q: &Quote, owner: &Pubkey, amount: u64) {
    let mut d = tok_image(&q.mint, owner, amount);
    let rent = rent_min(165);
    let mut lam = rent;
    if q.mint == WSOL {
        d[109] = 1;
        d[113..121].copy_from_slice(&rent.to_le_bytes());
        lam += amount;
    }
    put(db, ata(owner, &q.mint, &q.tp), lam, d, q.tp);
}
pub fn genesis() -> Db {
    thread_local!(static G: Db = build_genesis());
    G.with(|g| g.clone())
}
fn t22_mint(dec: u8, auth: &Pubkey, ext: Option<(u16, usize)>) -> Vec<u8> {
    let mut d = mint_image(Some(auth), 3 << 62, dec);
    if let Some((t, l)) = ext {
        d.resize(165, 0);
        d.push(1);
        d.extend(t.to_le_bytes());
        d.extend((l as u16).to_le_bytes());
        d.extend(vec![0u8; l]);
    }
    d
}
fn build_genesis() -> Db {
    let mut db = Db::new();
    for p in [DBC, TOKEN, TOKEN22, ATA, SYSTEM, METAPLEX, DAMM1, DAMM2, LOCKER, VAULTPROG, PROXY] {
        db.insert(p, Rc::new(Acct { lamports: 1, data: vec![], owner: rt::NATIVE_LOADER, executable: true }));
    }
    put(&mut db, RENT, 1, vec![0; 17], solana_program::sysvar::ID);
    {
        let r = solana_program::rent::Rent::default();
        let mut d = r.lamports_per_byte_year.to_le_bytes().to_vec();
        d.extend(r.exemption_threshold.to_le_bytes());
        d.push(r.burn_percent);
        put(&mut db, RENT, 1_009_200, d, solana_program::sysvar::ID);
    }
    let auth = key("mint-auth");
    for q in quotes() {
        let d = if q.tp == TOKEN {
            mint_image(if q.mint == WSOL { None } else { Some(&auth) }, if q.mint == WSOL { 0 } else { 3 << 62 }, q.dec)
        } else if q.mint == key("t22m") {
            t22_mint(q.dec, &auth, Some((18, 64)))
        } else {
            t22_mint(q.dec, &auth, None)
        };
        let lam = rent_min(d.len());
        put(&mut db, q.mint, lam, d, q.tp);
    }
    let d = t22_mint(6, &auth, Some((1, 108)));
    put(&mut db, key("t22fee"), rent_min(d.len()), d, TOKEN22);
    let d = t22_mint(6, &auth, Some((3, 32)));
    put(&mut db, key("t22close"), rent_min(d.len()), d, TOKEN22);
    // a tolerated extension first, a forbidden one after it
    let mut d = t22_mint(6, &auth, Some((18, 64)));
    d.extend(12u16.to_le_bytes());
    d.extend(32u16.to_le_bytes());
    d.extend(vec![0u8; 32]);
    put(&mut db, key("t22both"), rent_min(d.len()), d, TOKEN22);
    let d = mint_image(None, 0, 9);
    put(&mut db, NATIVE22, rent_min(d.len()), d, TOKEN22);
    let mut who: Vec<Pubkey> = actor_labels().iter().map(|l| key(l)).collect();
    who.extend(ADMINS);
    // the wallet that brings pools to their end; nobody else ever uses it
    who.push(key("driver"));
    for a in &who {
        put(&mut db, *a, 1_000_000_000_000_000, vec![], SYSTEM);
        for q in quotes() {
            put_tok(&mut db, &q, a, if *a == key("driver") { FUND * 16 } else { FUND });
        }
    }
    put(&mut db, TREASURY, 1_000_000_000, vec![], SYSTEM);
    for q in quotes() {
        put_tok(&mut db, &q, &TREASURY, 0);
    }
    put(&mut db, pool_authority(), 10_000_000_000, vec![], SYSTEM);
    put(&mut db, key("thief"), 1_000_000_000, vec![], SYSTEM);
    // operator records of an older release, which only an admin may close
    for i in 0..3u8 {
        let mut d = disc("account", "ClaimFeeOperator").to_vec();
        d.extend(key(&format!("o{}", i % 2)).to_bytes());
        d.extend([0u8; 128]);
        put(&mut db, old_operator(i), rent_min(168), d, DBC);
    }
    let pa = pool_authority();
    let none = Pubkey::default();
    for b in BPS {
        let d = d1_config_image(b * 10, &pa, &none, 0, 0);
        put(&mut db, key(&format!("d1cfg:{}", b)), rent_min(d.len()), d, DAMM1);
        let d = d2_config_image(b, &pa, 0);
        put(&mut db, key(&format!("d2cfg:{}", b)), rent_min(d.len()), d, DAMM2);
    }
    let d = d2_config_image(0, &pa, 0);
    put(&mut db, key("d2cfg:custom"), rent_min(d.len()), d, DAMM2);
    // configs that are not fit for migration (wrong in one respect each)
    for b in BPS {
        for bad in [1u8, 2, 3, 4, 5, 6, 8, 9, 10] {
            let d = d2_config_image(b, &pa, bad);
            put(&mut db, key(&format!("d2cfg:{}:bad{}", b, bad)), rent_min(d.len()), d, DAMM2);
        }
        let d = d2_config_image(b, &key("atk"), 0);
        put(&mut db, key(&format!("d2cfg:{}:bad7", b)), rent_min(d.len()), d, DAMM2);
        for (i, d) in [
            d1_config_image(b * 10, &key("atk"), &none, 0, 0),
            d1_config_image(b * 10, &pa, &key("atk"), 0, 0),
            d1_config_image(b * 10, &pa, &none, 60, 0),
            d1_config_image(b * 10, &pa, &none, 0, 5),
        ]
        .into_iter()
        .enumerate()
        {
            put(&mut db, key(&format!("d1cfg:{}:bad{}", b, i + 1)), rent_min(d.len()), d, DAMM1);
        }
    }
    db
}

/// The AMM configurations of genesis that differ from this one in a single respect.
pub fn near_miss_configs(db: &Db, right: &Pubkey) -> Vec<Pubkey> {
    let mut v = vec![];
    for (amm, n) in [("d1cfg", 4), ("d2cfg", 10)] {
        let Some(b) = BPS.iter().find(|b| *right == key(&format!("{amm}:{b}"))) else { continue };
        v.extend(BPS.iter().filter(|x| *x != b).map(|x| key(&format!("{amm}:{x}"))));
        v.extend((1..=n).map(|x| key(&format!("{amm}:{b}:bad{x}"))));
    }
    v.retain(|k| db.contains_key(k));
    v
}

// ------------------------------------------------------------------ replayable transactions
#[derive(Clone, Debug, Default)]
pub struct TxSpec {
    pub slot: u64,
    pub ts: i64,
    pub ixs: Vec<Instruction>,
    pub signers: Vec<Pubkey>,
    pub abort_at: Option<u64>,
    pub fail_nth: u32,
    pub take_less: u64,
    pub misbehave: u8,
    /// verdict of the (stubbed) zap validator: 0 accept, n refuse with the n-th error
    pub zap: u8,
    pub tag: String,
    /// state as an older release left it: written over the account before anything runs
    pub patch: Vec<Patch>,
    /// release whose client built it (index into old::RELEASES)
    pub client: u8,
}
#[derive(Clone, Debug, Default)]
pub struct Patch {
    pub key: Pubkey,
    pub off: usize,
    pub bytes: Vec<u8>,
    pub lamports: u64,
}
/// set in `Patch::off`: the bytes are a u64 to be added (wrapping) to the one stored there
/// set in `Patch::off`: the account is made with these bytes, owned by the program
pub const PATCH_NEW: usize = 1 << 30;
pub const PATCH_ADD: usize = 1 << 31;
impl TxSpec {
    pub fn tx(&self) -> TxIn {
        TxIn {
            ixs: self.ixs.clone(),
            signers: self.signers.clone(),
            abort_at: self.abort_at,
            stub_fault: StubFault {
                fail_nth: self.fail_nth,
                amm_take_less: self.take_less,
                misbehave: self.misbehave,
                ..Default::default()
            },
        }
    }
    pub fn injected(&self) -> bool {
        self.abort_at.is_some() || self.fail_nth != 0 || self.misbehave != 0
    }
    pub fn json(&self) -> Value {
        json!({
            "slot": self.slot, "ts": self.ts, "tag": self.tag,
            "signers": self.signers.iter().map(|k| k.to_string()).collect::<Vec<_>>(),
            "abort_at": self.abort_at, "fail_nth": self.fail_nth, "take_less": self.take_less,
            "misbehave": self.misbehave, "zap": self.zap, "client": self.client,
            "ixs": self.ixs.iter().map(ix_json).collect::<Vec<_>>(),
            "patch": self.patch.iter().map(|p| json!([p.key.to_string(), p.off, hex(&p.bytes), p.lamports])).collect::<Vec<_>>(),
        })
    }
    pub fn parse(v: &Value) -> Option<TxSpec> {
        Some(TxSpec {
            slot: v["slot"].as_u64()?,
            ts: v["ts"].as_i64()?,
            tag: v["tag"].as_str()?.into(),
            signers: v["signers"].as_array()?.iter().map(pk).collect::<Option<Vec<_>>>()?,
            abort_at: v["abort_at"].as_u64(),
            fail_nth: v["fail_nth"].as_u64()? as u32,
            take_less: v["take_less"].as_u64()?,
            misbehave: v["misbehave"].as_u64()? as u8,
            zap: v["zap"].as_u64()? as u8,
            client: v["client"].as_u64().unwrap_or(0) as u8,
            ixs: v["ixs"].as_array()?.iter().map(ix_parse).collect::<Option<Vec<_>>>()?,
            patch: match v["patch"].as_array() {
                None => vec![],
                Some(a) => a
                    .iter()
                    .map(|p| {
                        Some(Patch {
                            key: pk(&p[0])?,
                            off: p[1].as_u64()? as usize,
                            bytes: unhex(p[2].as_str()?)?,
                            lamports: p[3].as_u64()?,
                        })
                    })
                    .collect::<Option<Vec<_>>>()?,
            },
        })
    }
}
fn pk(v: &Value) -> Option<Pubkey> {
    v.as_str()?.parse().ok()
}
pub fn hex(d: &[u8]) -> String {
    d.iter().map(|b| format!("{:02x}", b)).collect()
}
pub fn unhex(s: &str) -> Option<Vec<u8>> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}
fn ix_json(ix: &Instruction) -> Value {
    json!({
        "program": ix.program_id.to_string(),
        "what": what(ix),
        "data": hex(&ix.data),
        "accounts": ix.accounts.iter().map(|m| format!("{}{}{}",
            m.pubkey, if m.is_signer {"/s"} else {""}, if m.is_writable {"/w"} else {""})).collect::<Vec<_>>(),
    })
}
fn ix_parse(v: &Value) -> Option<Instruction> {
    let accounts = v["accounts"]
        .as_array()?
        .iter()
        .map(|x| {
            let mut p = x.as_str()?.split('/');
            let k: Pubkey = p.next()?.parse().ok()?;
            let rest: Vec<&str> = p.collect();
            Some(AccountMeta { pubkey: k, is_signer: rest.contains(&"s"), is_writable: rest.contains(&"w") })
        })
        .collect::<Option<Vec<_>>>()?;
    Some(Instruction { program_id: pk(&v["program"])?, accounts, data: unhex(v["data"].as_str()?)? })
}
pub const IX_NAMES: &[&str] = &[
    "create_config",
    "initialize_virtual_pool_with_spl_token",
    "initialize_virtual_pool_with_token2022",
    "swap",
    "swap2",
    "claim_trading_fee",
    "claim_creator_trading_fee",
    "claim_protocol_fee",
    "partner_withdraw_surplus",
    "creator_withdraw_surplus",
    "withdraw_migration_fee",
    "withdraw_leftover",
    "claim_partner_pool_creation_fee",
    "claim_protocol_pool_creation_fee",
    "zap_protocol_fee",
    "transfer_pool_creator",
    "create_virtual_pool_metadata",
    "create_partner_metadata",
    "create_operator_account",
    "close_operator_account",
    "close_claim_protocol_fee_operator",
    "create_locker",
    "migration_meteora_damm_create_metadata",
    "migrate_meteora_damm",
    "migrate_meteora_damm_lock_lp_token",
    "migrate_meteora_damm_claim_lp_token",
    "migration_damm_v2",
    "migration_damm_v2_create_metadata",
    "close_claim_protocol_fee_operator",
];
/// Name of an instruction of the program under test.
pub fn dbc_name(d: &[u8]) -> Option<&'static str> {
    if d.len() < 8 {
        return None;
    }
    IX_NAMES.iter().find(|n| gdisc(n)[..] == d[..8]).copied()
}
pub fn what(ix: &Instruction) -> String {
    if ix.program_id == DBC {
        if is_event_ix(&ix.data) {
            return "dbc:event".into();
        }
        return dbc_name(&ix.data).unwrap_or("dbc:?").to_string();
    }
    if ix.program_id == PROXY {
        let inner: Vec<String> = proxy_inner(ix).iter().map(what).collect();
        return format!("proxy(x{})[{}]", ix.data.first().copied().unwrap_or(0), inner.join(","));
    }
    format!("{}#{}", name_of(&ix.program_id), ix.data.first().copied().unwrap_or(0))
}

/// Execute one transaction spec on `db`.
pub fn can_sign(db: &Db, k: &Pubkey) -> bool {
    *k != pool_authority()
        && db.get(k).map(|a| a.owner == SYSTEM || config(db, k).is_some() || mint(db, k).is_some()).unwrap_or(true)
}
pub fn exec(db: &Db, t: &TxSpec, logs: bool) -> (TxOut, Vec<protocol_zap::utils::ZapCall>) {
    use protocol_zap::utils::*;
    sim_take_calls();
    sim_set_verdict(zap_err(t.zap));
    let mut tx = t.tx();
    // no one holds a key for the pool authority or for an account that only a program can have made
    tx.signers.retain(|k| can_sign(db, k));
    if !t.patch.is_empty() {
        let mut old = db.clone();
        for p in &t.patch {
            if p.off == PATCH_NEW {
                let rent = rent_min(p.bytes.len());
                if !old.contains_key(&p.key) {
                    let a = rt::Acct { lamports: rent, data: p.bytes.clone(), owner: DBC, executable: false };
                    old.insert(p.key, Rc::new(a));
                }
                continue;
            }
            if let Some(a) = old.get(&p.key) {
                let mut a = (**a).clone();
                let off = p.off & !PATCH_ADD;
                if a.data.len() >= off + p.bytes.len() {
                    if p.off & PATCH_ADD != 0 {
                        let n = u64_at(&a.data, off).wrapping_add(u64_at(&p.bytes, 0));
                        a.data[off..off + 8].copy_from_slice(&n.to_le_bytes());
                    } else {
                        a.data[off..off + p.bytes.len()].copy_from_slice(&p.bytes);
                    }
                    a.lamports += p.lamports;
                    old.insert(p.key, Rc::new(a));
                }
            }
        }
        let o = rt::execute(&old, t.slot, t.ts, &tx, logs);
        return (o, sim_take_calls());
    }
    let o = rt::execute(db, t.slot, t.ts, &tx, logs);
    (o, sim_take_calls())
}
fn zap_err(n: u8) -> Option<protocol_zap::error::ProtozolZapError> {
    use protocol_zap::error::ProtozolZapError as E;
    match n {
        0 => None,
        1 => Some(E::MissingZapOutInstruction),
        2 => Some(E::InvalidZapOutParameters),
        3 => Some(E::InvalidZapAccounts),
        _ => Some(E::CpiDisabled),
    }
}
