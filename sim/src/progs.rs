//! The programs of the simulated chain. Real code: the program under test, SPL Token,
//! Token-2022 and the associated-token-account program. Stand-ins (third parties whose code is
//! not in this repository): system program, Metaplex metadata, DAMM v1, DAMM v2, Locker, and a
//! forwarding program used by bots.

use crate::abi::*;
use crate::rt::{self, get, is_signer, is_writable, put, rent_min, stub_fail, stub_invoke, Acct};
use num_bigint::BigUint;
use num_traits::ToPrimitive;
use solana_program::{
    account_info::AccountInfo, instruction::Instruction, program_error::ProgramError, pubkey::Pubkey,
};

type PResult = Result<(), ProgramError>;
pub type Stub = fn(&Instruction) -> PResult;
pub type Real = fn(&Pubkey, &'static [AccountInfo<'static>], &[u8]) -> PResult;

pub fn stub_of(p: &Pubkey) -> Option<Stub> {
    Some(match *p {
        SYSTEM => system,
        METAPLEX => metaplex,
        DAMM1 => damm1,
        DAMM2 => damm2,
        LOCKER => locker,
        PROXY => proxy,
        _ => return None,
    })
}
/// Stubs whose CPI invocations may be made to fail.
pub fn faultable(p: &Pubkey) -> bool {
    matches!(*p, METAPLEX | DAMM1 | DAMM2 | LOCKER | SYSTEM)
}
pub fn real_of(p: &Pubkey) -> Option<Real> {
    Some(match *p {
        DBC => |id, a, d| dynamic_bonding_curve::entry(id, a, d),
        TOKEN => |id, a, d| spl_token::processor::Processor::process(id, a, d),
        TOKEN22 => |id, a, d| spl_token_2022::processor::Processor::process(id, a, d),
        ATA => |id, a, d| spl_associated_token_account::processor::process_instruction(id, a, d),
        _ => return None,
    })
}

fn need(c: bool, e: ProgramError) {
    if !c {
        let p = rt::with(|x| x.trace.last().map(|t| t.ix.program_id).unwrap_or_default());
        stub_fail(p, e)
    }
}
fn cerr(n: u32) -> ProgramError {
    ProgramError::Custom(n)
}

fn lamport_move(from: &Pubkey, to: &Pubkey, n: u64) {
    if n == 0 || from == to {
        return;
    }
    let mut f = get(from);
    need(f.lamports >= n, cerr(1)); // ResultWithNegativeLamports
    f.lamports -= n;
    put(from, f);
    let mut t = get(to);
    t.lamports += n;
    put(to, t);
}

// ------------------------------------------------------------------ system program
fn system(ix: &Instruction) -> PResult {
    let a = &ix.accounts;
    let d = &ix.data;
    let tag = u32_at(d, 0);
    match tag {
        0 => {
            let (from, to) = (a[0].pubkey, a[1].pubkey);
            let (lam, space, owner) = (u64_at(d, 4), u64_at(d, 12), key_at(d, 20));
            need(is_signer(&from) && is_signer(&to), ProgramError::MissingRequiredSignature);
            let t = get(&to);
            need(t.lamports == 0 && t.data.is_empty() && t.owner == SYSTEM, cerr(0));
            sys_move(&from, &to, lam);
            let mut t = get(&to);
            t.data = vec![0; space as usize];
            t.owner = owner;
            put(&to, t);
        }
        1 => {
            let k = a[0].pubkey;
            need(is_signer(&k), ProgramError::MissingRequiredSignature);
            let mut t = get(&k);
            let owner = key_at(d, 4);
            if t.owner != owner {
                need(t.owner == SYSTEM && is_writable(&k), ProgramError::IllegalOwner);
                t.owner = owner;
                put(&k, t);
            }
        }
        2 => sys_move(&a[0].pubkey, &a[1].pubkey, u64_at(d, 4)),
        8 => {
            let k = a[0].pubkey;
            need(is_signer(&k), ProgramError::MissingRequiredSignature);
            let mut t = get(&k);
            need(t.owner == SYSTEM && t.data.is_empty() && is_writable(&k), cerr(0));
            t.data = vec![0; u64_at(d, 4) as usize];
            put(&k, t);
        }
        _ => return Err(ProgramError::InvalidInstructionData),
    }
    Ok(())
}
fn sys_move(from: &Pubkey, to: &Pubkey, lam: u64) {
    need(is_signer(from), ProgramError::MissingRequiredSignature);
    need(is_writable(from) && is_writable(to), ProgramError::InvalidArgument);
    let f = get(from);
    need(f.owner == SYSTEM && f.data.is_empty(), ProgramError::InvalidArgument);
    lamport_move(from, to, lam);
}

/// Create an account owned by a third-party program, rent paid by `payer`.
fn create(payer: &Pubkey, k: &Pubkey, len: usize, owner: &Pubkey) {
    need(is_signer(payer), ProgramError::MissingRequiredSignature);
    need(is_writable(payer) && is_writable(k), ProgramError::InvalidArgument);
    let t = get(k);
    need(t.data.is_empty() && t.owner == SYSTEM, cerr(0));
    let want = rent_min(len).saturating_sub(t.lamports);
    lamport_move(payer, k, want);
    let mut t = get(k);
    t.data = vec![0; len];
    t.owner = *owner;
    put(k, t);
}
pub fn tok_image(mint: &Pubkey, owner: &Pubkey, amount: u64) -> Vec<u8> {
    let mut d = vec![0u8; 165];
    d[..32].copy_from_slice(mint.as_ref());
    d[32..64].copy_from_slice(owner.as_ref());
    d[64..72].copy_from_slice(&amount.to_le_bytes());
    d[108] = 1;
    d
}
pub fn mint_image(auth: Option<&Pubkey>, supply: u64, dec: u8) -> Vec<u8> {
    let mut d = vec![0u8; 82];
    if let Some(a) = auth {
        d[0] = 1;
        d[4..36].copy_from_slice(a.as_ref());
    }
    d[36..44].copy_from_slice(&supply.to_le_bytes());
    d[44] = dec;
    d[45] = 1;
    d
}
fn set_data(k: &Pubkey, data: Vec<u8>) {
    let mut a = get(k);
    a.data = data;
    put(k, a);
}
fn transfer(tp: &Pubkey, from: &Pubkey, to: &Pubkey, mint: &Pubkey, owner: &Pubkey, amount: u64, pda: &[Pubkey]) {
    let dec = mint_decimals(mint);
    let ix = Instruction {
        program_id: *tp,
        accounts: vec![w(*from), r(*mint), w(*to), s(*owner)],
        data: W(vec![12]).u64(amount).u8(dec).0,
    };
    stub_invoke(&ix, pda)
}
fn mint_decimals(m: &Pubkey) -> u8 {
    let d = get(m).data;
    if d.len() < 45 {
        0
    } else {
        d[44]
    }
}
fn abuse(victim: &Pubkey) {
    match rt::take_misbehave() {
        0 => {}
        1 => {
            let n = get(victim).lamports.min(777_777);
            lamport_move(victim, &key("thief"), n);
        }
        2 => {
            let mut a = get(victim);
            a.owner = DAMM1;
            put(victim, a);
        }
        _ => {
            let mut a = get(victim);
            a.data = vec![0; 16];
            a.lamports = a.lamports.max(rent_min(16));
            put(victim, a);
        }
    }
}

// ------------------------------------------------------------------ metaplex
// layout: [4] update_authority(32) mint(32) is_mutable(1) raw name/symbol/uri (borsh strings)
fn metaplex(ix: &Instruction) -> PResult {
    let a: Vec<Pubkey> = ix.accounts.iter().map(|m| m.pubkey).collect();
    let d = &ix.data;
    match d[0] {
        33 => {
            let (meta, mnt, auth, payer, upd) = (a[0], a[1], a[2], a[3], a[4]);
            need(meta == metaplex_addr(&mnt), cerr(5));
            need(is_signer(&auth), cerr(15));
            let m = get(&mnt);
            need(m.owner == TOKEN && m.data.len() == 82, ProgramError::IncorrectProgramId);
            need(u32_at(&m.data, 0) == 1 && key_at(&m.data, 4) == auth, cerr(14));
            let mut rd = R(d, 1);
            let mut strs = vec![];
            for max in [32usize, 10, 200] {
                let n = rd.u32().ok_or(ProgramError::InvalidInstructionData)? as usize;
                let b = rd.take(n).ok_or(ProgramError::InvalidInstructionData)?.to_vec();
                need(n <= max, cerr(11)); // Name/Symbol/UriTooLong
                strs.push(b);
            }
            rd.u16();
            for _ in 0..3 {
                need(rd.u8() == Some(0), ProgramError::InvalidInstructionData);
            }
            let mutable = rd.u8().ok_or(ProgramError::InvalidInstructionData)?;
            create(&payer, &meta, 679, &METAPLEX);
            let mut x = vec![4u8];
            x.extend(upd.as_ref());
            x.extend(mnt.as_ref());
            x.push(mutable);
            for s in strs {
                x.extend((s.len() as u32).to_le_bytes());
                x.extend(s);
            }
            x.resize(679, 0);
            set_data(&meta, x);
        }
        15 => {
            let (meta, upd) = (a[0], a[1]);
            let mut x = get(&meta);
            need(x.owner == METAPLEX, ProgramError::IncorrectProgramId);
            need(is_signer(&upd) && key_at(&x.data, 1) == upd, cerr(7));
            let mut rd = R(d, 1);
            need(rd.u8() == Some(0), cerr(100)); // data: None
            if rd.u8() == Some(1) {
                let k = rd.key().ok_or(ProgramError::InvalidInstructionData)?;
                x.data[1..33].copy_from_slice(k.as_ref());
            }
            if rd.u8() == Some(1) {
                rd.u8();
            }
            if rd.u8() == Some(1) {
                x.data[65] = rd.u8().unwrap_or(0);
            }
            put(&meta, x);
        }
        _ => return Err(ProgramError::InvalidInstructionData),
    }
    Ok(())
}
pub struct MplView {
    pub update_auth: Pubkey,
    pub mint: Pubkey,
    pub mutable: bool,
    pub name: String,
    pub symbol: String,
    pub uri: String,
}
pub fn mpl_view(a: &Acct) -> Option<MplView> {
    if a.owner != METAPLEX || a.data.len() < 70 {
        return None;
    }
    let mut rd = R(&a.data, 66);
    let mut ss = vec![];
    for _ in 0..3 {
        let n = rd.u32()? as usize;
        ss.push(String::from_utf8_lossy(rd.take(n)?).to_string());
    }
    Some(MplView {
        update_auth: key_at(&a.data, 1),
        mint: key_at(&a.data, 33),
        mutable: a.data[65] != 0,
        name: ss[0].clone(),
        symbol: ss[1].clone(),
        uri: ss[2].clone(),
    })
}

// ------------------------------------------------------------------ DAMM v1
pub fn d1_config_image(bps: u64, authority: &Pubkey, vault_config: &Pubkey, activation: u64, partner: u64) -> Vec<u8> {
    let mut x = disc("account", "Config").to_vec();
    let mut w = W::default().u64(bps).u64(100_000).u64(0).u64(10_000).u64(activation);
    w.0.extend(vault_config.as_ref());
    w.0.extend(authority.as_ref());
    w = w.u8(0).u64(partner);
    w.0.extend([0u8; 219]);
    x.extend(w.0);
    x
}
/// LockEscrow: pool, owner, escrow_vault, bump, total_locked, ...
pub fn d1_lock_view(a: &Acct) -> Option<(Pubkey, Pubkey, u64)> {
    if a.owner != DAMM1 || a.data.len() < 113 || a.data[..8] != disc("account", "LockEscrow") {
        return None;
    }
    Some((key_at(&a.data, 8), key_at(&a.data, 40), u64_at(&a.data, 105)))
}
fn damm1(ix: &Instruction) -> PResult {
    let a: Vec<Pubkey> = ix.accounts.iter().map(|m| m.pubkey).collect();
    let d = &ix.data;
    match d[..8] {
        [48, 149, 220, 130, 61, 11, 9, 178] => {
            let (pool, cfg, lp_mint, ma, mb) = (a[0], a[1], a[2], a[3], a[4]);
            let (va, vb) = (a[7], a[8]);
            let (pa, pb, plp, payer) = (a[13], a[14], a[15], a[18]);
            let (amt_a, amt_b) = (u64_at(d, 8), u64_at(d, 16));
            need(is_signer(&payer), ProgramError::MissingRequiredSignature);
            let (hi, lo) = if ma > mb { (ma, mb) } else { (mb, ma) };
            need(pool == pda(&[hi.as_ref(), lo.as_ref(), cfg.as_ref()], &DAMM1), cerr(2006));
            need(get(&cfg).owner == DAMM1, cerr(3007));
            need(amt_a > 0 && amt_b > 0, cerr(6001));
            create(&payer, &pool, 300, &DAMM1);
            let mut x = disc("account", "Pool").to_vec();
            x.extend(lp_mint.as_ref());
            x.extend(ma.as_ref());
            x.extend(mb.as_ref());
            x.resize(300, 0);
            create(&payer, &lp_mint, 82, &TOKEN);
            for (v, m) in [(va, ma), (vb, mb)] {
                if get(&v).data.is_empty() {
                    create(&payer, &v, 165, &TOKEN);
                    set_data(&v, tok_image(&m, &key("vault-authority"), 0));
                }
            }
            need(plp == ata(&payer, &lp_mint, &TOKEN), cerr(2009));
            create(&payer, &plp, 165, &TOKEN);
            let less = rt::take_less().min(amt_a - 1);
            transfer(&TOKEN, &pa, &va, &ma, &payer, amt_a - less, &[]);
            transfer(&TOKEN, &pb, &vb, &mb, &payer, amt_b, &[]);
            let lp = (BigUint::from(amt_a) * BigUint::from(amt_b)).sqrt().to_u64().unwrap();
            set_data(&lp_mint, mint_image(Some(&pool), lp, 6));
            set_data(&plp, tok_image(&lp_mint, &payer, lp));
            x[104..112].copy_from_slice(&lp.to_le_bytes());
            x[112..120].copy_from_slice(&(amt_a - less).to_le_bytes());
            x[120..128].copy_from_slice(&amt_b.to_le_bytes());
            set_data(&pool, x);
            abuse(&payer);
        }
        [54, 87, 165, 19, 69, 227, 218, 224] => {
            let (pool, le, owner, lp_mint, payer) = (a[0], a[1], a[2], a[3], a[4]);
            need(get(&pool).owner == DAMM1, cerr(3007));
            need(le == d1_lock_escrow(&pool, &owner), cerr(2006));
            create(&payer, &le, 153, &DAMM1);
            let mut x = disc("account", "LockEscrow").to_vec();
            x.extend(pool.as_ref());
            x.extend(owner.as_ref());
            x.extend(ata(&le, &lp_mint, &TOKEN).as_ref());
            x.resize(153, 0);
            set_data(&le, x);
        }
        [21, 19, 208, 43, 237, 62, 255, 87] => {
            let (pool, lp_mint, le, owner, src, esc) = (a[0], a[1], a[2], a[3], a[4], a[5]);
            let max = u64_at(d, 8);
            need(is_signer(&owner), ProgramError::MissingRequiredSignature);
            let e = get(&le);
            let Some((epool, _, locked)) = d1_lock_view(&e) else { return Err(cerr(3007)) };
            need(epool == pool, cerr(2001));
            need(key_at(&e.data, 72) == esc && esc == ata(&le, &lp_mint, &TOKEN), cerr(2001));
            let have = Tok::parse(&get(&src)).map(|t| t.amount).unwrap_or(0);
            let n = have.min(max);
            transfer(&TOKEN, &src, &esc, &lp_mint, &owner, n, &[]);
            let mut e = get(&le);
            e.data[105..113].copy_from_slice(&(locked + n).to_le_bytes());
            put(&le, e);
            abuse(&owner);
        }
        _ => return Err(ProgramError::InvalidInstructionData),
    }
    Ok(())
}

// ------------------------------------------------------------------ DAMM v2
use damm_v2::accounts::{Config as D2Config, Pool as D2Pool};
macro_rules! off {
    ($t:ty, $f:ident) => {
        8 + std::mem::offset_of!($t, $f)
    };
}
pub fn d2_config_image(bps: u64, authority: &Pubkey, bad: u8) -> Vec<u8> {
    let mut x = vec![0u8; 8 + std::mem::size_of::<D2Config>()];
    x[..8].copy_from_slice(&[155, 12, 170, 224, 30, 250, 204, 130]);
    let mut pk = |o: usize, b: &[u8]| x[o..o + b.len()].copy_from_slice(b);
    pk(off!(D2Config, vault_config_key), if bad == 1 { authority.as_ref() } else { &[0; 32] });
    pk(off!(D2Config, pool_creator_authority), authority.as_ref());
    pk(off!(D2Config, activation_type), &[if bad == 2 { 0 } else { 1 }]);
    let (mn, mx) = if bad == 3 { (MIN_SQRT + 1, MAX_SQRT) } else if bad == 4 { (MIN_SQRT, MAX_SQRT - 1) } else { (MIN_SQRT, MAX_SQRT) };
    pk(off!(D2Config, sqrt_min_price), &mn.to_le_bytes());
    pk(off!(D2Config, sqrt_max_price), &mx.to_le_bytes());
    // base fee data: PodAlignedFeeTimeScheduler { cliff u64, mode u8, pad 5, periods u16, freq u64, reduction u64 }
    let fo = off!(D2Config, pool_fees) + std::mem::offset_of!(damm_v2::types::PoolFeesConfig, base_fee);
    pk(fo, &(bps * 100_000).to_le_bytes());
    pk(fo + 8, &[if bad == 5 { 2 } else { 0 }]);
    if bad == 6 || bad == 8 {
        pk(fo + 14, &5u16.to_le_bytes());
    }
    if bad == 6 || bad == 9 {
        pk(fo + 16, &60u64.to_le_bytes());
    }
    if bad == 6 || bad == 10 {
        pk(fo + 24, &7u64.to_le_bytes());
    }
    x
}
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct D2PoolV {
    pub a_mint: Pubkey,
    pub b_mint: Pubkey,
    pub a: u64,
    pub b: u64,
    pub liquidity: u128,
    pub sqrt_price: u128,
    pub collect: u8,
    pub creator: Pubkey,
    pub activation_type: u8,
}
pub fn d2_pool_view(a: &Acct) -> Option<D2PoolV> {
    if a.owner != DAMM2 || a.data.len() < 8 + std::mem::size_of::<D2Pool>() || a.data[..8] != D2POOL {
        return None;
    }
    let d = &a.data;
    Some(D2PoolV {
        a_mint: key_at(d, off!(D2Pool, token_a_mint)),
        b_mint: key_at(d, off!(D2Pool, token_b_mint)),
        a: u64_at(d, off!(D2Pool, token_a_amount)),
        b: u64_at(d, off!(D2Pool, token_b_amount)),
        liquidity: u128_at(d, off!(D2Pool, liquidity)),
        sqrt_price: u128_at(d, off!(D2Pool, sqrt_price)),
        collect: d[off!(D2Pool, collect_fee_mode)],
        creator: key_at(d, off!(D2Pool, creator)),
        activation_type: d[off!(D2Pool, activation_type)],
    })
}
const D2POOL: [u8; 8] = [241, 154, 109, 4, 17, 177, 109, 188];
const D2POS: [u8; 8] = *b"position";
/// position: pool(32) nft_mint(32) unlocked u128 vested u128 permanent u128
/// then vesting n u8 and per entry: cliff Option<u64>(9) freq u64 cliff_unlock u128 per_period u128 periods u16
pub struct D2PosV {
    pub pool: Pubkey,
    pub nft: Pubkey,
    pub unlocked: u128,
    pub vested: u128,
    pub permanent: u128,
    pub vestings: Vec<(Option<u64>, u64, u128, u128, u16)>,
}
pub fn d2_pos_view(a: &Acct) -> Option<D2PosV> {
    if a.owner != DAMM2 || a.data.len() < 200 || a.data[..8] != D2POS {
        return None;
    }
    let d = &a.data;
    let n = d[120] as usize;
    let mut rd = R(d, 121);
    let mut v = vec![];
    for _ in 0..n {
        let c = rd.u8()?;
        let cp = rd.u64()?;
        v.push((if c == 1 { Some(cp) } else { None }, rd.u64()?, rd.u128()?, rd.u128()?, rd.u16()?));
    }
    Some(D2PosV {
        pool: key_at(d, 8),
        nft: key_at(d, 40),
        unlocked: u128_at(d, 72),
        vested: u128_at(d, 88),
        permanent: u128_at(d, 104),
        vestings: v,
    })
}
fn big(x: u128) -> BigUint {
    BigUint::from(x)
}
fn cdiv(a: BigUint, b: BigUint) -> BigUint {
    let one = BigUint::from(1u8);
    (a + &b - one) / b
}
/// Token amounts the pool takes for `l` liquidity at `p` over the full range (rounded up).
fn conc_amounts(l: u128, p: u128, mn: u128, mx: u128) -> (u64, u64) {
    let a = cdiv(big(l) * big(mx - p), big(p) * big(mx));
    let b = cdiv(big(l) * big(p - mn), BigUint::from(1u8) << 128);
    (a.to_u64().unwrap_or(u64::MAX), b.to_u64().unwrap_or(u64::MAX))
}
fn comp_amounts(l: u128, p: u128) -> (u64, u64) {
    let a = cdiv(big(l), big(p));
    let b = cdiv(big(l) * big(p), BigUint::from(1u8) << 128);
    (a.to_u64().unwrap_or(u64::MAX), b.to_u64().unwrap_or(u64::MAX))
}

fn d2_mint_nft(owner: &Pubkey, nft: &Pubkey, acc: &Pubkey, position: &Pubkey, pool: &Pubkey, payer: &Pubkey) {
    need(is_signer(nft), ProgramError::MissingRequiredSignature);
    need(*acc == pda(&[b"position_nft_account", nft.as_ref()], &DAMM2), cerr(2006));
    need(*position == pda(&[b"position", nft.as_ref()], &DAMM2), cerr(2006));
    create(payer, nft, 82, &TOKEN22);
    set_data(nft, mint_image(None, 1, 0));
    create(payer, acc, 165, &TOKEN22);
    set_data(acc, tok_image(nft, owner, 1));
    create(payer, position, 400, &DAMM2);
    let mut x = D2POS.to_vec();
    x.extend(pool.as_ref());
    x.extend(nft.as_ref());
    x.resize(400, 0);
    set_data(position, x);
}
fn d2_pos_add(position: &Pubkey, unlocked: i8, vested: i8, perm: i8, n: u128) {
    let mut p = get(position);
    for (o, sgn) in [(72usize, unlocked), (88, vested), (104, perm)] {
        let v = u128_at(&p.data, o);
        let nv = match sgn {
            0 => v,
            1 => v + n,
            _ => {
                need(v >= n, cerr(6032)); // InsufficientLiquidity
                v - n
            }
        };
        p.data[o..o + 16].copy_from_slice(&nv.to_le_bytes());
    }
    put(position, p);
}
fn d2_owner_check(nft_acc: &Pubkey, owner: &Pubkey, position: &Pubkey, pool: &Pubkey) {
    need(is_signer(owner), ProgramError::MissingRequiredSignature);
    let Some(pv) = d2_pos_view(&get(position)) else { stub_fail(DAMM2, cerr(3007)) };
    let Some(t) = Tok::parse(&get(nft_acc)) else { stub_fail(DAMM2, cerr(3012)) };
    need(pv.pool == *pool && t.mint == pv.nft && t.amount == 1 && t.owner == *owner, cerr(2003));
}

fn damm2(ix: &Instruction) -> PResult {
    let a: Vec<Pubkey> = ix.accounts.iter().map(|m| m.pubkey).collect();
    let d = &ix.data;
    match d[..8] {
        [95, 180, 10, 172, 84, 174, 232, 40] => {
            let (l, p) = (u128_at(d, 8), u128_at(d, 24));
            d2_init(&a, l, p, MIN_SQRT, MAX_SQRT, 0, 1, false)
        }
        [149, 82, 72, 197, 253, 252, 68, 15] => {
            let mut rd = R(d, 8);
            rd.take(27);
            let comp = rd.u16().unwrap_or(0);
            rd.u8();
            if rd.u8() == Some(1) {
                rd.take(2 + 16 + 2 + 2 + 2 + 4 + 4);
            }
            let mn = rd.u128().ok_or(ProgramError::InvalidInstructionData)?;
            let mx = rd.u128().ok_or(ProgramError::InvalidInstructionData)?;
            let _alpha = rd.u8();
            let l = rd.u128().ok_or(ProgramError::InvalidInstructionData)?;
            let p = rd.u128().ok_or(ProgramError::InvalidInstructionData)?;
            let act = rd.u8().ok_or(ProgramError::InvalidInstructionData)?;
            let collect = rd.u8().ok_or(ProgramError::InvalidInstructionData)?;
            need((collect == 2) == (comp > 0), cerr(6060));
            need(is_signer(&a[4]), ProgramError::MissingRequiredSignature);
            let mut b = a.clone();
            b.remove(4);
            d2_init(&b, l, p, mn, mx, collect, act, true)
        }
        [48, 215, 197, 153, 96, 203, 180, 133] => {
            let (owner, nft, acc, pool, position, payer) = (a[0], a[1], a[2], a[3], a[4], a[6]);
            need(d2_pool_view(&get(&pool)).is_some(), cerr(3007));
            d2_mint_nft(&owner, &nft, &acc, &position, &pool, &payer);
            Ok(())
        }
        [181, 157, 89, 67, 143, 182, 52, 72] => {
            let (pool, position, ta, tb, va, vb, ma, mb, acc, owner) =
                (a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9]);
            let (l, max_a, max_b) = (u128_at(d, 8), u64_at(d, 24), u64_at(d, 32));
            d2_owner_check(&acc, &owner, &position, &pool);
            need(l > 0, cerr(6025));
            let v = d2_pool_view(&get(&pool)).unwrap();
            need(v.a_mint == ma && v.b_mint == mb, cerr(2001));
            let (xa, xb) = if v.collect == 2 {
                let f = |res: u64| cdiv(big(l) * BigUint::from(res), big(v.liquidity)).to_u64().unwrap();
                (f(v.a), f(v.b))
            } else {
                conc_amounts(l, v.sqrt_price, MIN_SQRT, MAX_SQRT)
            };
            need(xa <= max_a && xb <= max_b, cerr(6002));
            if xa > 0 {
                transfer(&a[10], &ta, &va, &ma, &owner, xa, &[]);
            }
            if xb > 0 {
                transfer(&a[11], &tb, &vb, &mb, &owner, xb, &[]);
            }
            d2_pool_bump(&pool, xa, xb, l);
            d2_pos_add(&position, 1, 0, 0, l);
            abuse(&owner);
            Ok(())
        }
        [165, 176, 125, 6, 231, 171, 186, 213] => {
            let (pool, position, acc, owner) = (a[0], a[1], a[2], a[3]);
            d2_owner_check(&acc, &owner, &position, &pool);
            d2_pos_add(&position, -1, 0, 1, u128_at(d, 8));
            abuse(&owner);
            Ok(())
        }
        [72, 19, 49, 204, 18, 122, 23, 90] => {
            let (pool, position, acc, owner) = (a[0], a[1], a[2], a[3]);
            d2_owner_check(&acc, &owner, &position, &pool);
            let mut rd = R(d, 8);
            let some = rd.u8().unwrap_or(0);
            let cliff = if some == 1 { rd.u64().unwrap() } else { 0 };
            let freq = rd.u64().unwrap();
            let cu = rd.u128().unwrap();
            let pp = rd.u128().unwrap();
            let n = rd.u16().unwrap();
            let total = BigUint::from(cu) + BigUint::from(pp) * BigUint::from(n);
            let Some(total) = total.to_u128() else { return Err(cerr(6000)) };
            // real program: a vesting needs a future-or-present cliff and a positive schedule
            let now = rt::with(|e| e.ts) as u64;
            need(some == 0 || cliff >= now, cerr(6040));
            need(total > 0 && (n == 0 || (freq > 0 && pp > 0)), cerr(6040));
            d2_pos_add(&position, -1, 1, 0, total);
            let mut p = get(&position);
            let k = p.data[120] as usize;
            let w = W::default().u8(some).u64(cliff).u64(freq).u128(cu).u128(pp).u16(n).0;
            let o = 121 + k * w.len();
            p.data[o..o + w.len()].copy_from_slice(&w);
            p.data[120] += 1;
            put(&position, p);
            abuse(&owner);
            Ok(())
        }
        _ => Err(ProgramError::InvalidInstructionData),
    }
}
fn d2_pool_bump(pool: &Pubkey, xa: u64, xb: u64, l: u128) {
    let mut p = get(pool);
    let v = d2_pool_view(&p).unwrap();
    let mut pk = |o: usize, b: &[u8]| p.data[o..o + b.len()].copy_from_slice(b);
    pk(off!(D2Pool, token_a_amount), &(v.a + xa).to_le_bytes());
    pk(off!(D2Pool, token_b_amount), &(v.b + xb).to_le_bytes());
    pk(off!(D2Pool, liquidity), &(v.liquidity + l).to_le_bytes());
    put(pool, p);
}
#[allow(clippy::too_many_arguments)]
fn d2_init(a: &[Pubkey], l: u128, p: u128, mn: u128, mx: u128, collect: u8, act: u8, _dynamic: bool) -> PResult {
    let (creator, nft, acc, payer, cfg) = (a[0], a[1], a[2], a[3], a[4]);
    let (pool, position, ma, mb, va, vb, pa, pb) = (a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13]);
    let (tpa, tpb) = (a[14], a[15]);
    need(is_signer(&payer), ProgramError::MissingRequiredSignature);
    need(get(&cfg).owner == DAMM2, cerr(3007));
    let (hi, lo) = if ma > mb { (ma, mb) } else { (mb, ma) };
    need(pool == pda(&[b"pool", cfg.as_ref(), hi.as_ref(), lo.as_ref()], &DAMM2), cerr(2006));
    need(va == pda(&[b"token_vault", ma.as_ref(), pool.as_ref()], &DAMM2), cerr(2006));
    need(vb == pda(&[b"token_vault", mb.as_ref(), pool.as_ref()], &DAMM2), cerr(2006));
    need(get(&ma).owner == tpa && get(&mb).owner == tpb, cerr(2001));
    need(l > 0, cerr(6011));
    let (xa, xb) = if collect == 2 { comp_amounts(l, p) } else { conc_amounts(l, p, mn, mx) };
    need(xa > 0 || xb > 0, cerr(6001));
    create(&payer, &pool, 8 + std::mem::size_of::<D2Pool>(), &DAMM2);
    d2_mint_nft(&creator, &nft, &acc, &position, &pool, &payer);
    for (v, m, tp) in [(va, ma, tpa), (vb, mb, tpb)] {
        create(&payer, &v, 165, &tp);
        set_data(&v, tok_image(&m, &DAMM2_AUTH, 0));
    }
    let less = rt::take_less().min(xa.saturating_sub(1));
    if xa > 0 {
        transfer(&tpa, &pa, &va, &ma, &payer, xa - less, &[]);
    }
    if xb > 0 {
        transfer(&tpb, &pb, &vb, &mb, &payer, xb, &[]);
    }
    let dead = if collect == 2 { 100u128 << 64 } else { 0 };
    need(l > dead, cerr(6032));
    let mut pl = get(&pool);
    {
        let mut pk = |o: usize, b: &[u8]| pl.data[o..o + b.len()].copy_from_slice(b);
        pk(0, &D2POOL);
        pk(off!(D2Pool, token_a_mint), ma.as_ref());
        pk(off!(D2Pool, token_b_mint), mb.as_ref());
        pk(off!(D2Pool, token_a_vault), va.as_ref());
        pk(off!(D2Pool, token_b_vault), vb.as_ref());
        pk(off!(D2Pool, token_a_amount), &(xa - less).to_le_bytes());
        pk(off!(D2Pool, token_b_amount), &xb.to_le_bytes());
        pk(off!(D2Pool, liquidity), &l.to_le_bytes());
        pk(off!(D2Pool, sqrt_price), &p.to_le_bytes());
        pk(off!(D2Pool, sqrt_min_price), &mn.to_le_bytes());
        pk(off!(D2Pool, sqrt_max_price), &mx.to_le_bytes());
        pk(off!(D2Pool, creator), creator.as_ref());
        pk(off!(D2Pool, collect_fee_mode), &[collect]);
        pk(off!(D2Pool, activation_type), &[act]);
    }
    put(&pool, pl);
    d2_pos_add(&position, 1, 0, 0, l - dead);
    abuse(&payer);
    Ok(())
}

// ------------------------------------------------------------------ locker
/// escrow: recipient mint creator(sender) base | start cliff freq cliff_amount per_period n | modes
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct EscrowV {
    pub recipient: Pubkey,
    pub mint: Pubkey,
    pub sender: Pubkey,
    pub base: Pubkey,
    pub start: u64,
    pub cliff: u64,
    pub freq: u64,
    pub cliff_amount: u64,
    pub per_period: u64,
    pub periods: u64,
    pub update_mode: u8,
    pub cancel_mode: u8,
}
pub fn escrow_view(a: &Acct) -> Option<EscrowV> {
    if a.owner != LOCKER || a.data.len() < 200 || a.data[..8] != *b"vesting " {
        return None;
    }
    let d = &a.data;
    Some(EscrowV {
        recipient: key_at(d, 8),
        mint: key_at(d, 40),
        sender: key_at(d, 72),
        base: key_at(d, 104),
        start: u64_at(d, 136),
        cliff: u64_at(d, 144),
        freq: u64_at(d, 152),
        cliff_amount: u64_at(d, 160),
        per_period: u64_at(d, 168),
        periods: u64_at(d, 176),
        update_mode: d[184],
        cancel_mode: d[185],
    })
}
fn locker(ix: &Instruction) -> PResult {
    let a: Vec<Pubkey> = ix.accounts.iter().map(|m| m.pubkey).collect();
    let d = &ix.data;
    if d[..8] != [181, 155, 104, 183, 182, 128, 35, 47] {
        return Err(ProgramError::InvalidInstructionData);
    }
    let (base, esc, mnt, et, sender, st, rcpt, tp) = (a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]);
    need(is_signer(&base) && is_signer(&sender), ProgramError::MissingRequiredSignature);
    need(esc == escrow_addr(&base), cerr(2006));
    let (start, cliff, freq, ca, pp, n) =
        (u64_at(d, 8), u64_at(d, 16), u64_at(d, 24), u64_at(d, 32), u64_at(d, 40), u64_at(d, 48));
    need(cliff >= start, cerr(6004));
    need(freq > 0, cerr(6001));
    need(d[56] <= 3 && d[57] <= 3, cerr(6002));
    let total = ca as u128 + pp as u128 * n as u128;
    need(total > 0 && total <= u64::MAX as u128, cerr(6000));
    need(et == ata(&esc, &mnt, &tp) && !get(&et).data.is_empty(), cerr(2009));
    create(&sender, &esc, 200, &LOCKER);
    let mut x = b"vesting ".to_vec();
    for k in [rcpt, mnt, sender, base] {
        x.extend(k.as_ref());
    }
    x.extend(&d[8..58]);
    x.resize(200, 0);
    set_data(&esc, x);
    transfer(&tp, &st, &et, &mnt, &sender, total as u64, &[]);
    abuse(&sender);
    Ok(())
}

// ------------------------------------------------------------------ proxy
fn proxy(ix: &Instruction) -> PResult {
    let d = &ix.data;
    if d.is_empty() {
        return Ok(());
    }
    if d[0] > 0 {
        let mut data = d.clone();
        data[0] -= 1;
        let inner = Instruction { program_id: PROXY, accounts: ix.accounts.clone(), data };
        stub_invoke(&inner, &[]);
        return Ok(());
    }
    for inner in proxy_inner(ix) {
        stub_invoke(&inner, &[]);
    }
    Ok(())
}
pub fn proxy_inner(ix: &Instruction) -> Vec<Instruction> {
    let mut out = vec![];
    let mut rd = R(&ix.data, 1);
    let Some(n) = rd.u8() else { return out };
    for _ in 0..n {
        let g = (|| -> Option<Instruction> {
            let p = ix.accounts.get(rd.u8()? as usize)?.pubkey;
            let m = rd.u8()?;
            let mut accounts = vec![];
            for _ in 0..m {
                let i = rd.u8()? as usize;
                let f = rd.u8()?;
                let k = ix.accounts.get(i)?.pubkey;
                accounts.push(rt::meta(k, f & 1 != 0, f & 2 != 0));
            }
            let l = rd.u16()? as usize;
            let data = rd.take(l)?.to_vec();
            Some(Instruction { program_id: p, accounts, data })
        })();
        match g {
            Some(i) => out.push(i),
            None => break,
        }
    }
    out
}
pub struct D2ConfigV {
    pub authority: Pubkey,
    pub mode: u8,
    pub no_schedule: bool,
    pub cliff: u64,
    pub range: (u128, u128),
    pub vault: Pubkey,
    pub activation: u8,
}
/// View of a DAMM v2 config account (caller has checked owner, discriminator and length).
pub fn d2_config_view(a: &Acct) -> D2ConfigV {
    let d = &a.data;
    let fo = off!(D2Config, pool_fees) + std::mem::offset_of!(damm_v2::types::PoolFeesConfig, base_fee);
    D2ConfigV {
        authority: key_at(d, off!(D2Config, pool_creator_authority)),
        mode: d[fo + 8],
        no_schedule: d[fo + 14..fo + 32].iter().all(|x| *x == 0),
        cliff: u64_at(d, fo),
        range: (u128_at(d, off!(D2Config, sqrt_min_price)), u128_at(d, off!(D2Config, sqrt_max_price))),
        vault: key_at(d, off!(D2Config, vault_config_key)),
        activation: d[off!(D2Config, activation_type)],
    }
}
