//! Wire-level ABI of the program under test, written independently of its source: addresses,
//! instruction encodings, account layouts. The simulator talks to the program only through
//! `entry(program_id, accounts, data)` with these bytes.

use sha2::{Digest, Sha256};
use solana_program::{
    instruction::{AccountMeta, Instruction},
    pubkey,
    pubkey::Pubkey,
};
use std::cell::RefCell;
use std::collections::HashMap;

use crate::rt::Db;

pub const DBC: Pubkey = pubkey!("dbcij3LWUppWqq96dh6gJWwBifmcGfLSB5D4DuSMaqN");
pub const TOKEN: Pubkey = pubkey!("TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA");
pub const TOKEN22: Pubkey = pubkey!("TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb");
pub const ATA: Pubkey = pubkey!("ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL");
pub const SYSTEM: Pubkey = pubkey!("11111111111111111111111111111111");
pub const METAPLEX: Pubkey = pubkey!("metaqbxxUerdq28cj1RbAWkYQm3ybzjb6a8bt518x1s");
pub const DAMM1: Pubkey = pubkey!("Eo7WjKq67rjJQSZxS6z3YkapzY3eMj6Xy8X5EQVn5UaB");
pub const DAMM2: Pubkey = pubkey!("cpamdpZCGKUy5JxQXB4dcpGPiikHawvSWAd6mEn1sGG");
pub const LOCKER: Pubkey = pubkey!("LocpQgucEQHbqNABEYvBvwoxCPsSbG91A1QaQhQQqjn");
pub const VAULTPROG: Pubkey = pubkey!("24Uqj9JCLxUeoC3hGfh5W3s9FM9uCHDS2SG3LYwBpyTi");
/// A third-party on-chain program (bot/aggregator) that forwards instructions by CPI.
pub const PROXY: Pubkey = pubkey!("Bot1111111111111111111111111111111111111111");
pub const TREASURY: Pubkey = pubkey!("6aYhxiNGmG8AyU25rh2R7iFu4pBrqnQHpNUGhmsEXRcm");
pub const ADMINS: [Pubkey; 2] = [
    pubkey!("5unTfT2kssBuNvHPY6LbJfJpLqEcdMxGYLWHwShaeTLi"),
    pubkey!("DHLXnJdACTY83yKwnUkeoDjqi4QBbsYGa1v8tJL76ViX"),
];
pub const NATIVE22: Pubkey = pubkey!("9pan9bMn5HatX4EJdBwg9VgCa7Uz5HL8N1m5D3NdXejP");
pub const WSOL: Pubkey = pubkey!("So11111111111111111111111111111111111111112");
pub const USDC: Pubkey = pubkey!("EPjFWdd5AufqSSqeM2qN1xzybapC8G4wEGGkZwyTDt1v");
pub const IXSYSVAR: Pubkey = pubkey!("Sysvar1nstructions1111111111111111111111111");
pub const RENT: Pubkey = pubkey!("SysvarRent111111111111111111111111111111111");
pub const DAMM2_AUTH: Pubkey = pubkey!("HLnpSz9h2S4hiLQ43rnSD9XkcUThA7B8hQMKmDaiTLcC");

pub const MIN_SQRT: u128 = 4295048016;
pub const MAX_SQRT: u128 = 79226673521066979257578248091;

pub fn name_of(p: &Pubkey) -> String {
    match *p {
        DBC => "dbc".into(),
        TOKEN => "token".into(),
        TOKEN22 => "token22".into(),
        ATA => "ata".into(),
        SYSTEM => "system".into(),
        METAPLEX => "metaplex".into(),
        DAMM1 => "damm1".into(),
        DAMM2 => "damm2".into(),
        LOCKER => "locker".into(),
        PROXY => "proxy".into(),
        TREASURY => "treasury".into(),
        _ => {
            let s = p.to_string();
            s[..8.min(s.len())].to_string()
        }
    }
}

/// Anchor's event-CPI tag: sha256("anchor:event")[..8], little endian u64 0x1d9acb512ea545e4.
pub fn is_event_ix(d: &[u8]) -> bool {
    d.len() >= 8 && d[..8] == 0x1d9acb512ea545e4u64.to_le_bytes()
}
pub fn key(label: &str) -> Pubkey {
    Pubkey::new_from_array(Sha256::digest(label.as_bytes()).into())
}

pub fn disc(ns: &str, name: &str) -> [u8; 8] {
    let mut o = [0u8; 8];
    o.copy_from_slice(&Sha256::digest(format!("{}:{}", ns, name).as_bytes())[..8]);
    o
}
pub fn gdisc(name: &str) -> [u8; 8] {
    thread_local!(static C: RefCell<HashMap<String,[u8;8]>> = RefCell::new(HashMap::new()));
    C.with(|c| {
        *c.borrow_mut().entry(name.to_string()).or_insert_with(|| disc("global", name))
    })
}

pub fn pda(seeds: &[&[u8]], program: &Pubkey) -> Pubkey {
    thread_local!(static C: RefCell<HashMap<(Vec<Vec<u8>>, Pubkey), Pubkey>> = RefCell::new(HashMap::new()));
    let k = (seeds.iter().map(|s| s.to_vec()).collect::<Vec<_>>(), *program);
    C.with(|c| {
        let mut c = c.borrow_mut();
        if c.len() > 20_000 {
            c.clear();
        }
        *c.entry(k).or_insert_with(|| Pubkey::find_program_address(seeds, program).0)
    })
}
pub fn ata(owner: &Pubkey, mint: &Pubkey, tp: &Pubkey) -> Pubkey {
    pda(&[owner.as_ref(), tp.as_ref(), mint.as_ref()], &ATA)
}
pub fn pool_authority() -> Pubkey {
    pda(&[b"pool_authority"], &DBC)
}
pub fn event_authority() -> Pubkey {
    pda(&[b"__event_authority"], &DBC)
}
pub fn event_authority_of(p: &Pubkey) -> Pubkey {
    pda(&[b"__event_authority"], p)
}
pub fn pool_addr(config: &Pubkey, base: &Pubkey, quote: &Pubkey) -> Pubkey {
    let (a, b) = if base > quote { (base, quote) } else { (quote, base) };
    pda(&[b"pool", config.as_ref(), a.as_ref(), b.as_ref()], &DBC)
}
pub fn vault_addr(mint: &Pubkey, pool: &Pubkey) -> Pubkey {
    pda(&[b"token_vault", mint.as_ref(), pool.as_ref()], &DBC)
}
pub fn operator_addr(who: &Pubkey) -> Pubkey {
    pda(&[b"operator", who.as_ref()], &DBC)
}
pub fn metaplex_addr(mint: &Pubkey) -> Pubkey {
    pda(&[b"metadata", METAPLEX.as_ref(), mint.as_ref()], &METAPLEX)
}
pub fn base_locker(pool: &Pubkey) -> Pubkey {
    pda(&[b"base_locker", pool.as_ref()], &DBC)
}
pub fn escrow_addr(base: &Pubkey) -> Pubkey {
    pda(&[b"escrow", base.as_ref()], &LOCKER)
}
pub fn damm1_metadata(pool: &Pubkey) -> Pubkey {
    pda(&[b"meteora", pool.as_ref()], &DBC)
}
pub fn pool_metadata(pool: &Pubkey) -> Pubkey {
    pda(&[b"virtual_pool_metadata", pool.as_ref()], &DBC)
}
pub fn partner_metadata(p: &Pubkey) -> Pubkey {
    pda(&[b"partner_metadata", p.as_ref()], &DBC)
}

// ------------------------------------------------------------------ decoding helpers
pub fn u16_at(d: &[u8], o: usize) -> u16 {
    u16::from_le_bytes(d[o..o + 2].try_into().unwrap())
}
pub fn u32_at(d: &[u8], o: usize) -> u32 {
    u32::from_le_bytes(d[o..o + 4].try_into().unwrap())
}
pub fn u64_at(d: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(d[o..o + 8].try_into().unwrap())
}
pub fn u128_at(d: &[u8], o: usize) -> u128 {
    u128::from_le_bytes(d[o..o + 16].try_into().unwrap())
}
pub fn key_at(d: &[u8], o: usize) -> Pubkey {
    Pubkey::new_from_array(d[o..o + 32].try_into().unwrap())
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Pool {
    pub last_update: u64,
    pub sqrt_ref: u128,
    pub vol_acc: u128,
    pub vol_ref: u128,
    pub config: Pubkey,
    pub creator: Pubkey,
    pub base_mint: Pubkey,
    pub base_vault: Pubkey,
    pub quote_vault: Pubkey,
    pub base_reserve: u64,
    pub quote_reserve: u64,
    pub protocol_base: u64,
    pub protocol_quote: u64,
    pub partner_base: u64,
    pub partner_quote: u64,
    pub sqrt_price: u128,
    pub activation_point: u64,
    pub pool_type: u8,
    pub is_migrated: u8,
    pub partner_surplus_done: u8,
    pub protocol_surplus_done: u8,
    pub progress: u8,
    pub leftover_done: u8,
    pub creator_surplus_done: u8,
    pub migration_fee_status: u8,
    pub met: [u64; 4],
    pub finish_ts: u64,
    pub creator_base: u64,
    pub creator_quote: u64,
    pub legacy_bits: u8,
    pub creation_bits: u8,
    pub has_swap: u8,
    pub mig_bps: u16,
    pub mig_base_fee: u64,
    pub mig_quote_fee: u64,
}
impl Pool {
    pub fn parse(d: &[u8]) -> Option<Pool> {
        if d.len() < 424 || d[..8] != disc("account", "VirtualPool") {
            return None;
        }
        let d = &d[8..];
        Some(Pool {
            last_update: u64_at(d, 0),
            sqrt_ref: u128_at(d, 16),
            vol_acc: u128_at(d, 32),
            vol_ref: u128_at(d, 48),
            config: key_at(d, 64),
            creator: key_at(d, 96),
            base_mint: key_at(d, 128),
            base_vault: key_at(d, 160),
            quote_vault: key_at(d, 192),
            base_reserve: u64_at(d, 224),
            quote_reserve: u64_at(d, 232),
            protocol_base: u64_at(d, 240),
            protocol_quote: u64_at(d, 248),
            partner_base: u64_at(d, 256),
            partner_quote: u64_at(d, 264),
            sqrt_price: u128_at(d, 272),
            activation_point: u64_at(d, 288),
            pool_type: d[296],
            is_migrated: d[297],
            partner_surplus_done: d[298],
            protocol_surplus_done: d[299],
            progress: d[300],
            leftover_done: d[301],
            creator_surplus_done: d[302],
            migration_fee_status: d[303],
            met: [u64_at(d, 304), u64_at(d, 312), u64_at(d, 320), u64_at(d, 328)],
            finish_ts: u64_at(d, 336),
            creator_base: u64_at(d, 344),
            creator_quote: u64_at(d, 352),
            legacy_bits: d[360],
            creation_bits: d[361],
            has_swap: d[362],
            mig_bps: u16_at(d, 368),
            mig_base_fee: u64_at(d, 376),
            mig_quote_fee: u64_at(d, 384),
        })
    }
    pub fn base_fees(&self) -> u64 {
        self.protocol_base + self.partner_base + self.creator_base
    }
    pub fn quote_fees(&self) -> u64 {
        self.protocol_quote + self.partner_quote + self.creator_quote
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct LpVest {
    pub pct: u8,
    pub bps_per_period: u16,
    pub periods: u16,
    pub cliff: u32,
    pub freq: u32,
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Config {
    pub quote_mint: Pubkey,
    pub fee_claimer: Pubkey,
    pub leftover_receiver: Pubkey,
    pub cliff_fee: u64,
    pub fee_first: u16,
    pub fee_second: u64,
    pub fee_third: u64,
    pub fee_mode: u8,
    pub dyn_init: u8,
    pub dyn_max_vol: u32,
    pub dyn_vfc: u32,
    pub dyn_bin_step: u16,
    pub dyn_filter: u16,
    pub dyn_decay: u16,
    pub dyn_reduction: u16,
    pub dyn_bin_step_u128: u128,
    pub partner_vest: LpVest,
    pub creator_vest: LpVest,
    pub collect_fee_mode: u8,
    pub migration_option: u8,
    pub activation_type: u8,
    pub token_decimal: u8,
    pub version: u8,
    pub token_type: u8,
    pub quote_token_flag: u8,
    pub partner_perm: u8,
    pub partner_liq: u8,
    pub creator_perm: u8,
    pub creator_liq: u8,
    pub migration_fee_option: u8,
    pub fixed_supply: u8,
    pub creator_fee_pct: u8,
    pub token_update_authority: u8,
    pub mig_fee_pct: u8,
    pub creator_mig_fee_pct: u8,
    pub swap_base_amount: u64,
    pub threshold: u64,
    pub base_threshold: u64,
    pub mig_sqrt: u128,
    pub v_amount: u64,
    pub v_cliff_dur: u64,
    pub v_freq: u64,
    pub v_periods: u64,
    pub v_cliff_amount: u64,
    pub pre_supply: u64,
    pub post_supply: u64,
    pub m_collect: u8,
    pub m_dynamic: u8,
    pub m_bps: u16,
    pub m_base_mode: u8,
    pub first_swap_min: u8,
    pub compounding_bps: u16,
    pub creation_fee: u64,
    pub m_fee_bytes: [u8; 16],
    pub start_sqrt: u128,
    pub curve: Vec<(u128, u128)>,
}
fn lpvest(d: &[u8], o: usize) -> LpVest {
    // is_initialized u8? -> layout: see `CONFIG_LP_VEST`
    LpVest {
        pct: d[o + LPV.0],
        bps_per_period: u16_at(d, o + LPV.1),
        periods: u16_at(d, o + LPV.2),
        cliff: u32_at(d, o + LPV.3),
        freq: u32_at(d, o + LPV.4),
    }
}
include!("layout.rs");

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Tok {
    pub mint: Pubkey,
    pub owner: Pubkey,
    pub amount: u64,
    pub delegate: Option<Pubkey>,
    pub delegated: u64,
    pub state: u8,
    pub close_auth: Option<Pubkey>,
}
impl Tok {
    pub fn parse(a: &crate::rt::Acct) -> Option<Tok> {
        if (a.owner != TOKEN && a.owner != TOKEN22) || a.data.len() < 165 {
            return None;
        }
        if a.owner == TOKEN22 && a.data.len() > 165 && a.data[165] != 2 {
            return None;
        }
        let d = &a.data;
        if d[108] == 0 {
            return None;
        }
        Some(Tok {
            mint: key_at(d, 0),
            owner: key_at(d, 32),
            amount: u64_at(d, 64),
            delegate: if u32_at(d, 72) == 1 { Some(key_at(d, 76)) } else { None },
            state: d[108],
            delegated: u64_at(d, 121),
            close_auth: if u32_at(d, 129) == 1 { Some(key_at(d, 133)) } else { None },
        })
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct MintV {
    pub auth: Option<Pubkey>,
    pub supply: u64,
    pub decimals: u8,
    pub freeze: Option<Pubkey>,
    /// token-2022 metadata update authority / metadata pointer authority, when present
    pub meta: Option<Meta22>,
}
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Meta22 {
    pub pointer_auth: Option<Pubkey>,
    pub pointer_addr: Option<Pubkey>,
    pub update_auth: Option<Pubkey>,
    pub name: String,
    pub symbol: String,
    pub uri: String,
    pub ext_types: Vec<u16>,
}
fn opt_key(k: Pubkey) -> Option<Pubkey> {
    if k == Pubkey::default() {
        None
    } else {
        Some(k)
    }
}
impl MintV {
    pub fn parse(a: &crate::rt::Acct) -> Option<MintV> {
        if (a.owner != TOKEN && a.owner != TOKEN22) || a.data.len() < 82 {
            return None;
        }
        if a.data.len() == 165 || (a.owner == TOKEN && a.data.len() != 82) {
            return None;
        }
        if a.data.len() > 165 && a.data[165] != 1 {
            return None;
        }
        let d = &a.data;
        if d[45] != 1 {
            return None;
        }
        let mut m = MintV {
            auth: if u32_at(d, 0) == 1 { Some(key_at(d, 4)) } else { None },
            supply: u64_at(d, 36),
            decimals: d[44],
            freeze: if u32_at(d, 46) == 1 { Some(key_at(d, 50)) } else { None },
            meta: None,
        };
        if d.len() > 166 {
            let mut o = 166;
            let mut meta = Meta22::default();
            while o + 4 <= d.len() {
                let t = u16_at(d, o);
                let l = u16_at(d, o + 2) as usize;
                if t == 0 {
                    break;
                }
                meta.ext_types.push(t);
                let v = &d[o + 4..o + 4 + l];
                if t == 18 {
                    meta.pointer_auth = opt_key(key_at(v, 0));
                    meta.pointer_addr = opt_key(key_at(v, 32));
                } else if t == 19 {
                    meta.update_auth = opt_key(key_at(v, 0));
                    let mut p = 64;
                    let mut ss = vec![];
                    for _ in 0..3 {
                        let n = u32_at(v, p) as usize;
                        ss.push(String::from_utf8_lossy(&v[p + 4..p + 4 + n]).to_string());
                        p += 4 + n;
                    }
                    meta.name = ss[0].clone();
                    meta.symbol = ss[1].clone();
                    meta.uri = ss[2].clone();
                }
                o += 4 + l;
            }
            m.meta = Some(meta);
        }
        Some(m)
    }
}

pub fn tok(db: &Db, k: &Pubkey) -> Option<Tok> {
    db.get(k).and_then(|a| Tok::parse(a))
}
pub fn bal(db: &Db, k: &Pubkey) -> u64 {
    tok(db, k).map(|t| t.amount).unwrap_or(0)
}
pub fn mint(db: &Db, k: &Pubkey) -> Option<MintV> {
    db.get(k).and_then(|a| MintV::parse(a))
}
pub fn pool(db: &Db, k: &Pubkey) -> Option<Pool> {
    db.get(k).filter(|a| a.owner == DBC).and_then(|a| Pool::parse(&a.data))
}
pub fn config(db: &Db, k: &Pubkey) -> Option<Config> {
    db.get(k).filter(|a| a.owner == DBC).and_then(|a| Config::parse(&a.data))
}
pub fn lamports(db: &Db, k: &Pubkey) -> u64 {
    db.get(k).map(|a| a.lamports).unwrap_or(0)
}

/// DAMM v1 migration metadata account.
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct D1Meta {
    pub virtual_pool: Pubkey,
    pub partner: Pubkey,
    pub lp_mint: Pubkey,
    pub partner_locked: u64,
    pub partner_liq: u64,
    pub creator_locked: u64,
    pub creator_liq: u64,
    pub creator_locked_status: u8,
    pub partner_locked_status: u8,
    pub creator_claim_status: u8,
    pub partner_claim_status: u8,
}
pub fn d1meta(db: &Db, k: &Pubkey) -> Option<D1Meta> {
    let a = db.get(k)?;
    if a.owner != DBC || a.data.len() < 8 + 150 || a.data[..8] != disc("account", "MeteoraDammMigrationMetadata") {
        return None;
    }
    let d = &a.data[8..];
    Some(D1Meta {
        virtual_pool: key_at(d, 0),
        partner: key_at(d, 64),
        lp_mint: key_at(d, 96),
        partner_locked: u64_at(d, 128),
        partner_liq: u64_at(d, 136),
        creator_locked: u64_at(d, 144),
        creator_liq: u64_at(d, 152),
        creator_locked_status: d[161],
        partner_locked_status: d[162],
        creator_claim_status: d[163],
        partner_claim_status: d[164],
    })
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct OperatorV {
    pub who: Pubkey,
    pub permission: u128,
}
pub fn operator(db: &Db, k: &Pubkey) -> Option<OperatorV> {
    let a = db.get(k)?;
    if a.owner != DBC || a.data.len() < 72 || a.data[..8] != disc("account", "Operator") {
        return None;
    }
    Some(OperatorV { who: key_at(&a.data, 8), permission: u128_at(&a.data, 40) })
}

// ------------------------------------------------------------------ encoding
#[derive(Default)]
pub struct W(pub Vec<u8>);
impl W {
    pub fn ix(name: &str) -> W {
        W(gdisc(name).to_vec())
    }
    pub fn u8(mut self, v: u8) -> W {
        self.0.push(v);
        self
    }
    pub fn u16(mut self, v: u16) -> W {
        self.0.extend(v.to_le_bytes());
        self
    }
    pub fn u32(mut self, v: u32) -> W {
        self.0.extend(v.to_le_bytes());
        self
    }
    pub fn u64(mut self, v: u64) -> W {
        self.0.extend(v.to_le_bytes());
        self
    }
    pub fn u128(mut self, v: u128) -> W {
        self.0.extend(v.to_le_bytes());
        self
    }
    pub fn s(mut self, v: &str) -> W {
        self.0.extend((v.len() as u32).to_le_bytes());
        self.0.extend(v.as_bytes());
        self
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct DynFee {
    pub bin_step: u16,
    pub bin_step_u128: u128,
    pub filter: u16,
    pub decay: u16,
    pub reduction: u16,
    pub max_vol: u32,
    pub vfc: u32,
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct ConfigParams {
    pub cliff_fee: u64,
    pub fee_first: u16,
    pub fee_second: u64,
    pub fee_third: u64,
    pub fee_mode: u8,
    pub dynamic: Option<DynFee>,
    pub collect_fee_mode: u8,
    pub migration_option: u8,
    pub activation_type: u8,
    pub token_type: u8,
    pub token_decimal: u8,
    pub partner_liq: u8,
    pub partner_perm: u8,
    pub creator_liq: u8,
    pub creator_perm: u8,
    pub threshold: u64,
    pub start_sqrt: u128,
    pub v_amount: u64,
    pub v_cliff_dur: u64,
    pub v_freq: u64,
    pub v_periods: u64,
    pub v_cliff_amount: u64,
    pub migration_fee_option: u8,
    pub supply: Option<(u64, u64)>,
    pub creator_fee_pct: u8,
    pub token_update_authority: u8,
    pub mig_fee_pct: u8,
    pub creator_mig_fee_pct: u8,
    pub m_collect: u8,
    pub m_dynamic: u8,
    pub m_bps: u16,
    pub creation_fee: u64,
    pub partner_vest: LpVest,
    pub creator_vest: LpVest,
    pub m_base_mode: u8,
    pub mc_periods: u16,
    pub mc_step: u16,
    pub mc_expiry: u32,
    pub mc_reduction: u64,
    pub first_swap_min: bool,
    pub compounding_bps: u16,
    /// ignored by the program, echoed in the event
    pub padding: [u8; 2],
    pub curve: Vec<(u128, u128)>,
}
impl ConfigParams {
    pub fn encode(&self) -> Vec<u8> {
        let mut w = W::default()
            .u64(self.cliff_fee)
            .u16(self.fee_first)
            .u64(self.fee_second)
            .u64(self.fee_third)
            .u8(self.fee_mode);
        w = match &self.dynamic {
            None => w.u8(0),
            Some(d) => w
                .u8(1)
                .u16(d.bin_step)
                .u128(d.bin_step_u128)
                .u16(d.filter)
                .u16(d.decay)
                .u16(d.reduction)
                .u32(d.max_vol)
                .u32(d.vfc),
        };
        w = w
            .u8(self.collect_fee_mode)
            .u8(self.migration_option)
            .u8(self.activation_type)
            .u8(self.token_type)
            .u8(self.token_decimal)
            .u8(self.partner_liq)
            .u8(self.partner_perm)
            .u8(self.creator_liq)
            .u8(self.creator_perm)
            .u64(self.threshold)
            .u128(self.start_sqrt)
            .u64(self.v_amount)
            .u64(self.v_cliff_dur)
            .u64(self.v_freq)
            .u64(self.v_periods)
            .u64(self.v_cliff_amount)
            .u8(self.migration_fee_option);
        w = match self.supply {
            None => w.u8(0),
            Some((a, b)) => w.u8(1).u64(a).u64(b),
        };
        w = w
            .u8(self.creator_fee_pct)
            .u8(self.token_update_authority)
            .u8(self.mig_fee_pct)
            .u8(self.creator_mig_fee_pct)
            .u8(self.m_collect)
            .u8(self.m_dynamic)
            .u16(self.m_bps)
            .u64(self.creation_fee);
        for v in [&self.partner_vest, &self.creator_vest] {
            w = w.u8(v.pct).u16(v.bps_per_period).u16(v.periods).u32(v.cliff).u32(v.freq);
        }
        w = w
            .u8(self.m_base_mode)
            .u16(self.mc_periods)
            .u16(self.mc_step)
            .u32(self.mc_expiry)
            .u64(self.mc_reduction)
            .u8(self.first_swap_min as u8)
            .u16(self.compounding_bps)
            .u8(self.padding[0])
            .u8(self.padding[1])
            .u32(self.curve.len() as u32);
        for (p, l) in &self.curve {
            w = w.u128(*p).u128(*l);
        }
        w.0
    }
    pub fn decode(d: &[u8]) -> Option<ConfigParams> {
        let mut r = R(d, 0);
        let mut c = ConfigParams {
            cliff_fee: r.u64()?,
            fee_first: r.u16()?,
            fee_second: r.u64()?,
            fee_third: r.u64()?,
            fee_mode: r.u8()?,
            ..Default::default()
        };
        if r.flag()? {
            c.dynamic = Some(DynFee {
                bin_step: r.u16()?,
                bin_step_u128: r.u128()?,
                filter: r.u16()?,
                decay: r.u16()?,
                reduction: r.u16()?,
                max_vol: r.u32()?,
                vfc: r.u32()?,
            });
        }
        c.collect_fee_mode = r.u8()?;
        c.migration_option = r.u8()?;
        c.activation_type = r.u8()?;
        c.token_type = r.u8()?;
        c.token_decimal = r.u8()?;
        c.partner_liq = r.u8()?;
        c.partner_perm = r.u8()?;
        c.creator_liq = r.u8()?;
        c.creator_perm = r.u8()?;
        c.threshold = r.u64()?;
        c.start_sqrt = r.u128()?;
        c.v_amount = r.u64()?;
        c.v_cliff_dur = r.u64()?;
        c.v_freq = r.u64()?;
        c.v_periods = r.u64()?;
        c.v_cliff_amount = r.u64()?;
        c.migration_fee_option = r.u8()?;
        if r.flag()? {
            c.supply = Some((r.u64()?, r.u64()?));
        }
        c.creator_fee_pct = r.u8()?;
        c.token_update_authority = r.u8()?;
        c.mig_fee_pct = r.u8()?;
        c.creator_mig_fee_pct = r.u8()?;
        c.m_collect = r.u8()?;
        c.m_dynamic = r.u8()?;
        c.m_bps = r.u16()?;
        c.creation_fee = r.u64()?;
        for i in 0..2 {
            let v = LpVest {
                pct: r.u8()?,
                bps_per_period: r.u16()?,
                periods: r.u16()?,
                cliff: r.u32()?,
                freq: r.u32()?,
            };
            if i == 0 {
                c.partner_vest = v
            } else {
                c.creator_vest = v
            }
        }
        c.m_base_mode = r.u8()?;
        c.mc_periods = r.u16()?;
        c.mc_step = r.u16()?;
        c.mc_expiry = r.u32()?;
        c.mc_reduction = r.u64()?;
        c.first_swap_min = r.flag()?;
        c.compounding_bps = r.u16()?;
        c.padding = [r.u8()?, r.u8()?];
        let n = r.u32()?;
        for _ in 0..n {
            c.curve.push((r.u128()?, r.u128()?));
        }
        Some(c)
    }
}
pub struct R<'a>(pub &'a [u8], pub usize);
impl R<'_> {
    /// a borsh bool or option tag: anything but 0 and 1 does not decode
    pub fn flag(&mut self) -> Option<bool> {
        match self.u8()? {
            0 => Some(false),
            1 => Some(true),
            _ => None,
        }
    }
    pub fn take(&mut self, n: usize) -> Option<&[u8]> {
        if self.1 + n > self.0.len() {
            return None;
        }
        self.1 += n;
        Some(&self.0[self.1 - n..self.1])
    }
    pub fn u8(&mut self) -> Option<u8> {
        Some(self.take(1)?[0])
    }
    pub fn u16(&mut self) -> Option<u16> {
        Some(u16_at(self.take(2)?, 0))
    }
    pub fn u32(&mut self) -> Option<u32> {
        Some(u32_at(self.take(4)?, 0))
    }
    pub fn u64(&mut self) -> Option<u64> {
        Some(u64_at(self.take(8)?, 0))
    }
    pub fn u128(&mut self) -> Option<u128> {
        Some(u128_at(self.take(16)?, 0))
    }
    pub fn key(&mut self) -> Option<Pubkey> {
        Some(key_at(self.take(32)?, 0))
    }
}

// ------------------------------------------------------------------ instruction builders
pub fn w(k: Pubkey) -> AccountMeta {
    AccountMeta { pubkey: k, is_signer: false, is_writable: true }
}
pub fn r(k: Pubkey) -> AccountMeta {
    AccountMeta { pubkey: k, is_signer: false, is_writable: false }
}
pub fn ws(k: Pubkey) -> AccountMeta {
    AccountMeta { pubkey: k, is_signer: true, is_writable: true }
}
pub fn s(k: Pubkey) -> AccountMeta {
    AccountMeta { pubkey: k, is_signer: true, is_writable: false }
}
fn dbc(data: W, mut accounts: Vec<AccountMeta>, event: bool) -> Instruction {
    if event {
        accounts.push(r(event_authority()));
        accounts.push(r(DBC));
    }
    Instruction { program_id: DBC, accounts, data: data.0 }
}

pub fn tp_of(db: &Db, mint: &Pubkey) -> Pubkey {
    db.get(mint).map(|a| a.owner).unwrap_or(TOKEN)
}
pub fn tp_flag(f: u8) -> Pubkey {
    if f == 0 {
        TOKEN
    } else {
        TOKEN22
    }
}

pub fn create_config(
    cfg: Pubkey,
    fee_claimer: Pubkey,
    leftover: Pubkey,
    quote: Pubkey,
    payer: Pubkey,
    p: &ConfigParams,
) -> Instruction {
    let mut data = W::ix("create_config");
    data.0.extend(p.encode());
    dbc(data, vec![ws(cfg), r(fee_claimer), r(leftover), r(quote), ws(payer), r(SYSTEM)], true)
}

#[allow(clippy::too_many_arguments)]
pub fn init_pool(
    t22: bool,
    cfg: Pubkey,
    creator: Pubkey,
    base: Pubkey,
    quote: Pubkey,
    quote_tp: Pubkey,
    payer: Pubkey,
    name: &str,
    symbol: &str,
    uri: &str,
) -> Instruction {
    let p = pool_addr(&cfg, &base, &quote);
    let bv = vault_addr(&base, &p);
    let qv = vault_addr(&quote, &p);
    let nm = if t22 { "initialize_virtual_pool_with_token2022" } else { "initialize_virtual_pool_with_spl_token" };
    let data = W::ix(nm).s(name).s(symbol).s(uri);
    let mut a = vec![
        r(cfg),
        r(pool_authority()),
        s(creator),
        ws(base),
        r(quote),
        w(p),
        w(bv),
        w(qv),
    ];
    if t22 {
        a.extend([ws(payer), r(quote_tp), r(TOKEN22), r(SYSTEM)]);
    } else {
        a.extend([w(metaplex_addr(&base)), r(METAPLEX), ws(payer), r(quote_tp), r(TOKEN), r(SYSTEM)]);
    }
    dbc(data, a, true)
}

/// All static facts about a pool needed to build its instructions.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct PoolRef {
    pub pool: Pubkey,
    pub config: Pubkey,
    pub base: Pubkey,
    pub quote: Pubkey,
    pub base_tp: Pubkey,
    pub quote_tp: Pubkey,
    pub base_vault: Pubkey,
    pub quote_vault: Pubkey,
    pub fee_claimer: Pubkey,
    pub leftover: Pubkey,
}

pub const MODE_IN: u8 = 0;
pub const MODE_PARTIAL: u8 = 1;
pub const MODE_OUT: u8 = 2;

#[allow(clippy::too_many_arguments)]
pub fn swap(
    p: &PoolRef,
    user: Pubkey,
    input: Pubkey,
    output: Pubkey,
    v2_mode: Option<u8>,
    a0: u64,
    a1: u64,
    referral: Option<Pubkey>,
    sysvar: bool,
) -> Instruction {
    let data = match v2_mode {
        None => W::ix("swap").u64(a0).u64(a1),
        Some(m) => W::ix("swap2").u64(a0).u64(a1).u8(m),
    };
    let a = vec![
        r(pool_authority()),
        r(p.config),
        w(p.pool),
        w(input),
        w(output),
        w(p.base_vault),
        w(p.quote_vault),
        r(p.base),
        r(p.quote),
        s(user),
        r(p.base_tp),
        r(p.quote_tp),
        match referral {
            Some(k) => w(k),
            None => r(DBC),
        },
    ];
    let mut ix = dbc(data, a, true);
    if sysvar {
        ix.accounts.push(r(IXSYSVAR));
    }
    ix
}

pub fn claim_trading_fee(p: &PoolRef, signer: Pubkey, ta: Pubkey, tb: Pubkey, ma: u64, mb: u64) -> Instruction {
    dbc(
        W::ix("claim_trading_fee").u64(ma).u64(mb),
        vec![
            r(pool_authority()),
            r(p.config),
            w(p.pool),
            w(ta),
            w(tb),
            w(p.base_vault),
            w(p.quote_vault),
            r(p.base),
            r(p.quote),
            s(signer),
            r(p.base_tp),
            r(p.quote_tp),
        ],
        true,
    )
}
pub fn claim_creator_trading_fee(p: &PoolRef, signer: Pubkey, ta: Pubkey, tb: Pubkey, ma: u64, mb: u64) -> Instruction {
    dbc(
        W::ix("claim_creator_trading_fee").u64(ma).u64(mb),
        vec![
            r(pool_authority()),
            w(p.pool),
            w(ta),
            w(tb),
            w(p.base_vault),
            w(p.quote_vault),
            r(p.base),
            r(p.quote),
            s(signer),
            r(p.base_tp),
            r(p.quote_tp),
        ],
        true,
    )
}
pub fn claim_protocol_fee(p: &PoolRef, operator: Pubkey, signer: Pubkey, ta: Pubkey, tb: Pubkey, ma: u64, mb: u64) -> Instruction {
    dbc(
        W::ix("claim_protocol_fee").u64(ma).u64(mb),
        vec![
            r(pool_authority()),
            r(p.config),
            w(p.pool),
            w(p.base_vault),
            w(p.quote_vault),
            r(p.base),
            r(p.quote),
            w(ta),
            w(tb),
            r(operator),
            s(signer),
            r(p.base_tp),
            r(p.quote_tp),
        ],
        true,
    )
}
pub fn surplus(p: &PoolRef, partner: bool, signer: Pubkey, tb: Pubkey) -> Instruction {
    dbc(
        W::ix(if partner { "partner_withdraw_surplus" } else { "creator_withdraw_surplus" }),
        vec![
            r(pool_authority()),
            r(p.config),
            w(p.pool),
            w(tb),
            w(p.quote_vault),
            r(p.quote),
            s(signer),
            r(p.quote_tp),
        ],
        true,
    )
}
pub fn withdraw_migration_fee(p: &PoolRef, flag: u8, signer: Pubkey, tb: Pubkey) -> Instruction {
    dbc(
        W::ix("withdraw_migration_fee").u8(flag),
        vec![
            r(pool_authority()),
            r(p.config),
            w(p.pool),
            w(tb),
            w(p.quote_vault),
            r(p.quote),
            s(signer),
            r(p.quote_tp),
        ],
        true,
    )
}
pub fn withdraw_leftover(p: &PoolRef, receiver: Pubkey, ta: Pubkey) -> Instruction {
    dbc(
        W::ix("withdraw_leftover"),
        vec![
            r(pool_authority()),
            r(p.config),
            w(p.pool),
            w(ta),
            w(p.base_vault),
            r(p.base),
            r(receiver),
            r(p.base_tp),
        ],
        true,
    )
}
pub fn claim_partner_creation_fee(p: &PoolRef, signer: Pubkey, to: Pubkey) -> Instruction {
    dbc(W::ix("claim_partner_pool_creation_fee"), vec![r(p.config), w(p.pool), s(signer), w(to)], true)
}
pub fn claim_protocol_creation_fee(p: &PoolRef, operator: Pubkey, signer: Pubkey, to: Pubkey) -> Instruction {
    dbc(
        W::ix("claim_protocol_pool_creation_fee"),
        vec![r(p.config), w(p.pool), r(operator), s(signer), w(to)],
        true,
    )
}
pub fn zap(p: &PoolRef, base_side: bool, receiver: Pubkey, operator: Pubkey, signer: Pubkey, max: u64) -> Instruction {
    let (v, m, tp) = if base_side { (p.base_vault, p.base, p.base_tp) } else { (p.quote_vault, p.quote, p.quote_tp) };
    dbc(
        W::ix("zap_protocol_fee").u64(max),
        vec![
            r(pool_authority()),
            r(p.config),
            w(p.pool),
            w(v),
            r(m),
            w(receiver),
            r(operator),
            s(signer),
            r(tp),
            r(IXSYSVAR),
        ],
        false,
    )
}
pub fn transfer_creator(p: &PoolRef, creator: Pubkey, new: Pubkey, with_meta: bool) -> Instruction {
    let mut ix = dbc(
        W::ix("transfer_pool_creator"),
        vec![w(p.pool), r(p.config), s(creator), r(new)],
        true,
    );
    if with_meta {
        ix.accounts.push(r(damm1_metadata(&p.pool)));
    }
    ix
}
pub fn create_pool_metadata(p: &PoolRef, creator: Pubkey, payer: Pubkey, n: &str, web: &str, l: &str) -> Instruction {
    dbc(
        W::ix("create_virtual_pool_metadata").pad96(n, web, l),
        vec![w(p.pool), w(pool_metadata(&p.pool)), s(creator), ws(payer), r(SYSTEM)],
        true,
    )
}
pub fn create_partner_metadata(fc: Pubkey, payer: Pubkey, n: &str, web: &str, l: &str) -> Instruction {
    dbc(
        W::ix("create_partner_metadata").pad96(n, web, l),
        vec![w(partner_metadata(&fc)), ws(payer), s(fc), r(SYSTEM)],
        true,
    )
}
pub fn create_operator(signer: Pubkey, payer: Pubkey, who: Pubkey, perm: u128) -> Instruction {
    dbc(
        W::ix("create_operator_account").u128(perm),
        vec![w(operator_addr(&who)), r(who), s(signer), ws(payer), r(SYSTEM)],
        true,
    )
}
pub fn close_old_operator(signer: Pubkey, op: Pubkey, to: Pubkey) -> Instruction {
    dbc(W::ix("close_claim_protocol_fee_operator"), vec![w(op), w(to), s(signer)], true)
}
pub fn close_operator(signer: Pubkey, op: Pubkey, to: Pubkey) -> Instruction {
    dbc(W::ix("close_operator_account"), vec![w(op), s(signer), w(to)], false)
}
pub fn create_locker(p: &PoolRef, creator: Pubkey, payer: Pubkey) -> Instruction {
    let base = base_locker(&p.pool);
    let esc = escrow_addr(&base);
    dbc(
        W::ix("create_locker"),
        vec![
            w(p.pool),
            r(p.config),
            w(pool_authority()),
            w(p.base_vault),
            w(p.base),
            w(base),
            r(creator),
            w(esc),
            w(ata(&esc, &p.base, &p.base_tp)),
            ws(payer),
            r(p.base_tp),
            r(LOCKER),
            r(event_authority_of(&LOCKER)),
            r(SYSTEM),
        ],
        false,
    )
}
pub fn d1_create_metadata(p: &PoolRef, payer: Pubkey) -> Instruction {
    dbc(
        W::ix("migration_meteora_damm_create_metadata"),
        vec![r(p.pool), r(p.config), w(damm1_metadata(&p.pool)), ws(payer), r(SYSTEM)],
        true,
    )
}

/// Retired; older clients still send it before a migration.
pub fn d2_create_metadata(p: &PoolRef, payer: Pubkey) -> Instruction {
    let meta = Pubkey::find_program_address(&[b"damm_v2", p.pool.as_ref()], &DBC).0;
    dbc(W::ix("migration_damm_v2_create_metadata"), vec![w(p.pool), w(p.config), w(meta), ws(payer), r(SYSTEM)], true)
}
/// Third-party addresses used when migrating to DAMM v1 (deterministic per virtual pool).
pub struct D1 {
    pub pool: Pubkey,
    pub lp_mint: Pubkey,
    pub a_vault: Pubkey,
    pub b_vault: Pubkey,
    pub a_token_vault: Pubkey,
    pub b_token_vault: Pubkey,
    pub a_vault_lp_mint: Pubkey,
    pub b_vault_lp_mint: Pubkey,
    pub a_vault_lp: Pubkey,
    pub b_vault_lp: Pubkey,
    pub lp: Pubkey,
    pub fa: Pubkey,
    pub fb: Pubkey,
}
pub fn d1_addrs(p: &PoolRef, damm_config: &Pubkey) -> D1 {
    let (a, b) = if p.base > p.quote { (p.base, p.quote) } else { (p.quote, p.base) };
    let pool = pda(&[a.as_ref(), b.as_ref(), damm_config.as_ref()], &DAMM1);
    let lp_mint = pda(&[b"lp_mint", pool.as_ref()], &DAMM1);
    let v = |m: &Pubkey| pda(&[b"vault", m.as_ref()], &VAULTPROG);
    let av = v(&p.base);
    let bv = v(&p.quote);
    D1 {
        pool,
        lp_mint,
        a_token_vault: pda(&[b"token_vault", av.as_ref()], &VAULTPROG),
        b_token_vault: pda(&[b"token_vault", bv.as_ref()], &VAULTPROG),
        a_vault_lp_mint: pda(&[b"lp_mint", av.as_ref()], &VAULTPROG),
        b_vault_lp_mint: pda(&[b"lp_mint", bv.as_ref()], &VAULTPROG),
        a_vault_lp: pda(&[av.as_ref(), pool.as_ref()], &DAMM1),
        b_vault_lp: pda(&[bv.as_ref(), pool.as_ref()], &DAMM1),
        a_vault: av,
        b_vault: bv,
        lp: ata(&pool_authority(), &lp_mint, &TOKEN),
        fa: pda(&[b"fee", p.base.as_ref(), pool.as_ref()], &DAMM1),
        fb: pda(&[b"fee", p.quote.as_ref(), pool.as_ref()], &DAMM1),
    }
}
pub fn d1_migrate(p: &PoolRef, damm_config: Pubkey, payer: Pubkey) -> Instruction {
    let d = d1_addrs(p, &damm_config);
    dbc(
        W::ix("migrate_meteora_damm"),
        vec![
            w(p.pool),
            w(damm1_metadata(&p.pool)),
            r(p.config),
            w(pool_authority()),
            w(d.pool),
            r(damm_config),
            w(d.lp_mint),
            w(p.base),
            r(p.quote),
            w(d.a_vault),
            w(d.b_vault),
            w(d.a_token_vault),
            w(d.b_token_vault),
            w(d.a_vault_lp_mint),
            w(d.b_vault_lp_mint),
            w(d.a_vault_lp),
            w(d.b_vault_lp),
            w(p.base_vault),
            w(p.quote_vault),
            w(d.lp),
            w(d.fa),
            w(d.fb),
            ws(payer),
            r(RENT),
            w(metaplex_addr(&d.lp_mint)),
            r(METAPLEX),
            r(DAMM1),
            r(VAULTPROG),
            r(TOKEN),
            r(ATA),
            r(SYSTEM),
        ],
        false,
    )
}
pub fn d1_lock_escrow(pool: &Pubkey, owner: &Pubkey) -> Pubkey {
    pda(&[b"lock_escrow", pool.as_ref(), owner.as_ref()], &DAMM1)
}
pub fn d1_create_lock_escrow(d: &D1, owner: Pubkey, payer: Pubkey) -> Instruction {
    Instruction {
        program_id: DAMM1,
        accounts: vec![r(d.pool), w(d1_lock_escrow(&d.pool, &owner)), r(owner), r(d.lp_mint), ws(payer), r(SYSTEM)],
        data: W::ix("create_lock_escrow").0,
    }
}
pub fn d1_lock(p: &PoolRef, damm_config: Pubkey, owner: Pubkey) -> Instruction {
    let d = d1_addrs(p, &damm_config);
    let le = d1_lock_escrow(&d.pool, &owner);
    dbc(
        W::ix("migrate_meteora_damm_lock_lp_token"),
        vec![
            r(p.pool),
            w(damm1_metadata(&p.pool)),
            w(pool_authority()),
            w(d.pool),
            r(d.lp_mint),
            w(le),
            r(owner),
            w(d.lp),
            w(ata(&le, &d.lp_mint, &TOKEN)),
            r(DAMM1),
            r(d.a_vault),
            r(d.b_vault),
            r(d.a_vault_lp),
            r(d.b_vault_lp),
            r(d.a_vault_lp_mint),
            r(d.b_vault_lp_mint),
            r(TOKEN),
        ],
        false,
    )
}
pub fn d1_claim(p: &PoolRef, damm_config: Pubkey, owner: Pubkey, sender: Pubkey) -> Instruction {
    let d = d1_addrs(p, &damm_config);
    dbc(
        W::ix("migrate_meteora_damm_claim_lp_token"),
        vec![
            r(p.pool),
            w(damm1_metadata(&p.pool)),
            w(pool_authority()),
            r(d.lp_mint),
            w(d.lp),
            w(ata(&owner, &d.lp_mint, &TOKEN)),
            r(owner),
            s(sender),
            r(TOKEN),
        ],
        false,
    )
}

pub struct D2 {
    pub pool: Pubkey,
    pub n1: Pubkey,
    pub n1_acc: Pubkey,
    pub pos1: Pubkey,
    pub n2: Pubkey,
    pub n2_acc: Pubkey,
    pub pos2: Pubkey,
    pub va: Pubkey,
    pub vb: Pubkey,
}
pub fn d2_addrs(p: &PoolRef, damm_config: &Pubkey) -> D2 {
    let (a, b) = if p.base > p.quote { (p.base, p.quote) } else { (p.quote, p.base) };
    let pool = pda(&[b"pool", damm_config.as_ref(), a.as_ref(), b.as_ref()], &DAMM2);
    let n1 = key(&format!("nft1:{}", p.pool));
    let n2 = key(&format!("nft2:{}", p.pool));
    D2 {
        pool,
        n1_acc: pda(&[b"position_nft_account", n1.as_ref()], &DAMM2),
        pos1: pda(&[b"position", n1.as_ref()], &DAMM2),
        n2_acc: pda(&[b"position_nft_account", n2.as_ref()], &DAMM2),
        pos2: pda(&[b"position", n2.as_ref()], &DAMM2),
        va: pda(&[b"token_vault", p.base.as_ref(), pool.as_ref()], &DAMM2),
        vb: pda(&[b"token_vault", p.quote.as_ref(), pool.as_ref()], &DAMM2),
        n1,
        n2,
    }
}
pub fn d2_migrate(p: &PoolRef, damm_config: Pubkey, payer: Pubkey, second: bool) -> Instruction {
    let d = d2_addrs(p, &damm_config);
    let mut a = vec![
        w(p.pool),
        r(SYSTEM),
        r(p.config),
        w(pool_authority()),
        w(d.pool),
        ws(d.n1),
        w(d.n1_acc),
        w(d.pos1),
    ];
    if second {
        a.extend([ws(d.n2), w(d.n2_acc), w(d.pos2)]);
    } else {
        a.extend([r(DBC), r(DBC), r(DBC)]);
    }
    a.extend([
        r(DAMM2_AUTH),
        r(DAMM2),
        w(p.base),
        w(p.quote),
        w(d.va),
        w(d.vb),
        w(p.base_vault),
        w(p.quote_vault),
        ws(payer),
        r(p.base_tp),
        r(p.quote_tp),
        r(TOKEN22),
        r(event_authority_of(&DAMM2)),
        r(SYSTEM),
        r(damm_config),
    ]);
    dbc(W::ix("migration_damm_v2"), a, false)
}

impl W {
    /// CreatePartnerMetadataParameters / CreateVirtualPoolMetadataParameters:
    /// padding [u8; 96], name, website, logo
    #[allow(non_snake_case)]
    fn pad96(mut self, n: &str, web: &str, l: &str) -> W {
        self.0.extend([0u8; 96]);
        self.s(n).s(web).s(l)
    }
}

// token / system helper instructions used by simulated users
pub fn create_ata(payer: Pubkey, owner: Pubkey, mint: Pubkey, tp: Pubkey) -> Instruction {
    Instruction {
        program_id: ATA,
        accounts: vec![ws(payer), w(ata(&owner, &mint, &tp)), r(owner), r(mint), r(SYSTEM), r(tp)],
        data: vec![1],
    }
}
pub fn token_transfer(tp: Pubkey, from: Pubkey, to: Pubkey, owner: Pubkey, amount: u64) -> Instruction {
    Instruction {
        program_id: tp,
        accounts: vec![w(from), w(to), s(owner)],
        data: W(vec![3]).u64(amount).0,
    }
}
pub fn token_burn(tp: Pubkey, from: Pubkey, mint: Pubkey, owner: Pubkey, amount: u64) -> Instruction {
    Instruction { program_id: tp, accounts: vec![w(from), w(mint), s(owner)], data: W(vec![8]).u64(amount).0 }
}
/// SetAuthority of a token account's owner.
pub fn token_give(tp: Pubkey, acc: Pubkey, owner: Pubkey, to: Pubkey) -> Instruction {
    let mut d = vec![6, 2, 1];
    d.extend(to.to_bytes());
    Instruction { program_id: tp, accounts: vec![w(acc), s(owner)], data: d }
}
pub fn token_close(tp: Pubkey, acc: Pubkey, to: Pubkey, owner: Pubkey) -> Instruction {
    Instruction { program_id: tp, accounts: vec![w(acc), w(to), s(owner)], data: vec![9] }
}
pub fn sys_transfer(from: Pubkey, to: Pubkey, lamports: u64) -> Instruction {
    Instruction {
        program_id: SYSTEM,
        accounts: vec![ws(from), w(to)],
        data: W(2u32.to_le_bytes().to_vec()).u64(lamports).0,
    }
}
/// Forward `inner` through the proxy program (depth levels of nesting).
pub fn via_proxy(inner: &[Instruction], nest: u8) -> Instruction {
    via_proxy_with(vec![], inner, nest)
}
/// A call of the proxy program that does nothing.
pub fn proxy_nop() -> Instruction {
    Instruction { program_id: PROXY, accounts: vec![], data: vec![0, 0] }
}
/// The same with other accounts listed in front (the proxy's own, or the forwarded ones in another order).
pub fn via_proxy_with(front: Vec<AccountMeta>, inner: &[Instruction], nest: u8) -> Instruction {
    // data: nest, n, then each: program index, n metas (index, flags), data len u16, data
    let mut accounts: Vec<AccountMeta> = front;
    let idx = |m: AccountMeta, acc: &mut Vec<AccountMeta>| -> u8 {
        for (i, a) in acc.iter_mut().enumerate() {
            if a.pubkey == m.pubkey {
                a.is_signer |= m.is_signer;
                a.is_writable |= m.is_writable;
                return i as u8;
            }
        }
        acc.push(m);
        (acc.len() - 1) as u8
    };
    let mut data = vec![nest, inner.len() as u8];
    for ix in inner {
        let p = idx(r(ix.program_id), &mut accounts);
        data.push(p);
        data.push(ix.accounts.len() as u8);
        for m in &ix.accounts {
            let i = idx(m.clone(), &mut accounts);
            data.push(i);
            data.push(m.is_signer as u8 | (m.is_writable as u8) << 1);
        }
        data.extend((ix.data.len() as u16).to_le_bytes());
        data.extend(&ix.data);
    }
    if nest > 0 {
        idx(r(PROXY), &mut accounts);
    }
    Instruction { program_id: PROXY, accounts, data }
}
