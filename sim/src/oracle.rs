//! Per-instruction refinement check. For every instruction of the program under test that a run
//! executes (top level or CPI), the judge decides from the pre-state alone whether it must be
//! refused, may succeed or must succeed, and derives the complete expected effect; the recorded
//! post-state is then compared with it, account by account. Pure observer: it never touches the
//! run.

use crate::abi::*;
use crate::model::{self, BaseFee, Share};
use crate::progs::*;
use crate::rt::{rent_min, Acct, Db, TraceIx, TxErr, TxOut};
use crate::sim::{dbc_name, TxSpec};
use protocol_zap::utils::ZapCall;
use solana_program::{instruction::Instruction, pubkey::Pubkey};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct Viol {
    /// instruction kind (or probe / invariant name)
    pub kind: String,
    pub aspect: &'static str,
    pub what: String,
    /// properties this contradicts
    pub props: Vec<&'static str>,
}
impl Viol {
    pub fn sig(&self) -> String {
        format!("{}/{}", self.kind, self.aspect)
    }
}

/// What one instruction turned out to be, for coverage accounting.
#[derive(Default, Clone)]
pub struct Seen {
    pub kind: &'static str,
    pub outcome: &'static str,
    pub class: u64,
}

pub type Fact = (&'static str, String);
type J = Result<Exp, Fact>;
type Check = Box<dyn Fn(&Acct) -> Option<(&'static str, String)>>;
type Post = Box<dyn Fn(&Db) -> Option<(&'static str, String)>>;

macro_rules! no {
    ($a:expr, $($f:tt)*) => { return Err(($a, format!($($f)*))) };
}
macro_rules! need {
    ($c:expr, $a:expr, $($f:tt)*) => { if !($c) { return Err(($a, format!($($f)*))) } };
}

#[derive(Default)]
pub struct Exp {
    must: bool,
    why_soft: &'static str,
    tok: BTreeMap<Pubkey, i128>,
    lam: BTreeMap<Pubkey, i128>,
    pools: BTreeMap<Pubkey, Pool>,
    d1: BTreeMap<Pubkey, D1Meta>,
    supply: BTreeMap<Pubkey, i128>,
    events: Vec<Vec<u8>>,
    created: BTreeMap<Pubkey, Check>,
    closed: BTreeSet<Pubkey>,
    payer: Option<Pubkey>,
    third: bool,
    post: Vec<Post>,
    /// behaviour outside the model: only generic checks apply
    unknown: bool,
    class: u64,
    /// effects the program would show had it broken this one guarantee: (pool, aspect, price after, protocol fee)
    alt: Vec<(Pubkey, &'static str, u128, u64)>,
}
impl Exp {
    fn soft(&mut self, why: &'static str) {
        if self.must {
            self.must = false;
            self.why_soft = why;
        }
    }
    fn mv(&mut self, from: Pubkey, to: Pubkey, n: u64) {
        *self.tok.entry(from).or_default() -= n as i128;
        *self.tok.entry(to).or_default() += n as i128;
    }
    fn lmv(&mut self, k: Pubkey, n: i128) {
        *self.lam.entry(k).or_default() += n;
    }
    fn ev(&mut self, name: &str, body: W) {
        let mut d = disc("event", name).to_vec();
        d.extend(body.0);
        self.events.push(d);
    }
}
impl W {
    pub fn k(mut self, k: &Pubkey) -> W {
        self.0.extend(k.as_ref());
        self
    }
}

pub struct Ctx<'a> {
    pub pre: &'a Db,
    pub tr: &'a [TraceIx],
    pub i: usize,
    pub ix: &'a Instruction,
    pub slot: u64,
    pub ts: u64,
    pub spec: &'a TxSpec,
    pub zaps: &'a [ZapCall],
}
impl Ctx<'_> {
    fn n(&self) -> usize {
        self.ix.accounts.len()
    }
    fn k(&self, i: usize) -> Pubkey {
        self.ix.accounts.get(i).map(|m| m.pubkey).unwrap_or_default()
    }
    fn signed(&self, k: &Pubkey) -> bool {
        self.ix.accounts.iter().any(|m| m.pubkey == *k && m.is_signer)
    }
    fn writable(&self, k: &Pubkey) -> bool {
        self.ix.accounts.iter().any(|m| m.pubkey == *k && m.is_writable)
    }
    fn children(&self) -> impl Iterator<Item = &TraceIx> {
        let i = self.i;
        self.tr.iter().filter(move |t| t.parent == Some(i))
    }
    fn height(&self) -> usize {
        self.tr[self.i].height
    }
    /// Flags per account: r, w, s (signer), b (both), o (anything).
    fn start(&self, flags: &str) -> J {
        let mut e = Exp { must: true, ..Default::default() };
        need!(self.n() >= flags.len(), "accounts", "missing accounts");
        let mut seen = BTreeSet::new();
        for (i, f) in flags.chars().enumerate() {
            let k = self.k(i);
            if matches!(f, 's' | 'b') {
                need!(self.signed(&k), "auth", "account {} must sign", i);
            }
            if matches!(f, 'w' | 'b') {
                if !self.writable(&k) {
                    e.soft("not writable");
                }
                if !seen.insert(k) {
                    e.soft("aliased accounts");
                }
            }
        }
        // the same record in two slots cannot be borrowed twice
        for (i, f) in flags.chars().enumerate() {
            if matches!(f, 'w' | 'b') {
                let k = self.k(i);
                let n = (0..flags.len()).filter(|j| self.k(*j) == k).count();
                if n > 1 && self.pre.get(&k).map(|a| a.owner == DBC).unwrap_or(false) {
                    e.soft("aliased record");
                }
            }
        }
        if self.height() > 2 {
            e.soft("deep cpi");
        }
        Ok(e)
    }
    /// the account list the client library would send
    fn canonical(&self, want: &Instruction) -> bool {
        want.accounts.iter().enumerate().all(|(i, m)| self.k(i) == m.pubkey)
    }
    fn events_at(&self, e: &mut Exp, i: usize) -> Result<(), Fact> {
        need!(self.k(i) == event_authority(), "accounts", "wrong event authority");
        if self.k(i + 1) != DBC {
            e.soft("program account");
        }
        Ok(())
    }
    fn pa(&self, i: usize) -> Result<(), Fact> {
        need!(self.k(i) == pool_authority(), "accounts", "wrong pool authority");
        Ok(())
    }
    fn pool(&self, i: usize) -> Result<Pool, Fact> {
        match pool(self.pre, &self.k(i)) {
            Some(p) => Ok(p),
            None => no!("accounts", "account {} is not a pool", i),
        }
    }
    fn config(&self, i: usize) -> Result<Config, Fact> {
        match config(self.pre, &self.k(i)) {
            Some(p) => Ok(p),
            None => no!("accounts", "account {} is not a config", i),
        }
    }
    fn token_program(&self, i: usize, mint: &Pubkey) -> Result<(), Fact> {
        let tp = self.k(i);
        need!(tp == TOKEN || tp == TOKEN22, "accounts", "not a token program");
        need!(self.pre.get(mint).map(|a| a.owner) == Some(tp), "accounts", "token program does not match mint");
        Ok(())
    }
    fn eq(&self, i: usize, k: &Pubkey, what: &str) -> Result<(), Fact> {
        need!(self.k(i) == *k, "accounts", "wrong {}", what);
        Ok(())
    }
    /// any token account of `mint` (destination of a payment)
    /// (when there is nothing to pay nobody is owed a refusal)
    fn dest(&self, e: &mut Exp, i: usize, m: &Pubkey, amount: u64) -> Result<(), Fact> {
        if amount == 0 {
            if !matches!(tok(self.pre, &self.k(i)), Some(t) if t.mint == *m && t.state == 1) {
                e.soft("nothing to pay");
            }
            return Ok(());
        }
        match tok(self.pre, &self.k(i)) {
            Some(t) if t.mint == *m => {
                need!(t.state == 1, "token", "frozen destination");
                Ok(())
            }
            _ => no!("token", "destination {} is not a token account of the mint", i),
        }
    }
    fn payer(&self, e: &mut Exp, i: usize) {
        let k = self.k(i);
        e.payer = Some(k);
        match self.pre.get(&k) {
            Some(a) if a.lamports >= 200_000_000_000 && a.owner == SYSTEM && a.data.is_empty() => {}
            _ => e.soft("payer funds"),
        }
        if !self.writable(&k) {
            e.soft("payer not writable");
        }
    }
    fn arg(&self) -> crate::abi::R<'_> {
        crate::abi::R(&self.ix.data, 8)
    }
    /// transfers (from, to, amount) performed below trace item `root`
    fn transfers_below(&self, root: usize) -> Vec<(Pubkey, Pubkey, u64)> {
        let mut out = vec![];
        for (j, t) in self.tr.iter().enumerate() {
            let mut p = Some(j);
            let mut under = false;
            while let Some(x) = p {
                if x == root && j != root {
                    under = true;
                    break;
                }
                p = self.tr[x].parent;
            }
            if under && (t.ix.program_id == TOKEN || t.ix.program_id == TOKEN22) && t.ix.data.first() == Some(&12) {
                out.push((t.ix.accounts[0].pubkey, t.ix.accounts[2].pubkey, u64_at(&t.ix.data, 1)));
            }
        }
        out
    }
    fn child_pos(&self, program: &Pubkey, disc: &[u8]) -> Vec<usize> {
        (0..self.tr.len())
            .filter(|j| {
                let t = &self.tr[*j];
                t.parent == Some(self.i) && t.ix.program_id == *program && t.ix.data.starts_with(disc)
            })
            .collect()
    }
}
fn arg<T>(x: Option<T>) -> Result<T, Fact> {
    match x {
        Some(v) => Ok(v),
        None => Err(("data", "short instruction data".into())),
    }
}
fn md<T>(x: Result<T, &'static str>, aspect: &'static str) -> Result<T, Fact> {
    match x {
        Ok(v) => Ok(v),
        Err(s) if s.starts_with('?') => Err(("?", s.into())),
        Err(s) => Err((aspect, s.into())),
    }
}

// ------------------------------------------------------------------ swap
fn is_buy_swap(t: &TraceIx, p: &Pubkey, base: &Pubkey) -> Option<bool> {
    if t.ix.program_id != DBC || t.ix.accounts.len() < 5 || t.ix.accounts[2].pubkey != *p {
        return None;
    }
    match dbc_name(&t.ix.data) {
        Some("swap") | Some("swap2") => {}
        _ => return None,
    }
    let pre = t.pre.as_ref()?;
    Some(tok(pre, &t.ix.accounts[3].pubkey).map(|x| x.mint) != Some(*base))
}
fn swap(c: &Ctx, v2: bool) -> J {
    let mut e = c.start("rrwwwwwrrsrro")?;
    c.pa(0)?;
    let mut a = c.arg();
    let (a0, a1) = (arg(a.u64())?, arg(a.u64())?);
    let mode = if v2 { arg(a.u8())? } else { MODE_IN };
    let cfg = c.config(1)?;
    let p = c.pool(2)?;
    c.eq(1, &p.config, "config")?;
    c.eq(5, &p.base_vault, "base vault")?;
    c.eq(6, &p.quote_vault, "quote vault")?;
    c.eq(7, &p.base_mint, "base mint")?;
    c.eq(8, &cfg.quote_mint, "quote mint")?;
    c.token_program(10, &p.base_mint)?;
    c.token_program(11, &cfg.quote_mint)?;
    c.events_at(&mut e, 13)?;
    let tin = match tok(c.pre, &c.k(3)) {
        Some(t) => t,
        None => no!("token", "input is not a token account"),
    };
    let tout = match tok(c.pre, &c.k(4)) {
        Some(t) => t,
        None => no!("token", "output is not a token account"),
    };
    let sell = tin.mint == p.base_mint;
    let (mi, mo) = if sell { (p.base_mint, cfg.quote_mint) } else { (cfg.quote_mint, p.base_mint) };
    let (vi, vo) = if sell { (p.base_vault, p.quote_vault) } else { (p.quote_vault, p.base_vault) };
    need!(tin.mint == mi, "token", "input mint");
    need!(tout.mint == mo, "token", "output mint");
    need!(mode <= 2, "mode", "unknown swap mode {}", mode);
    need!(a0 > 0, "mode", "zero amount");
    need!(p.quote_reserve < cfg.threshold, "completed", "curve already complete");
    let referral = c.k(12) != DBC;
    let payer = c.k(9);
    let pk = c.k(2);
    let buy = !sell;
    let point = if cfg.activation_type == 0 { c.slot } else { c.ts };
    let fee = BaseFee::of(&cfg);
    let rem0 = if c.n() > 15 { Some(c.k(15)) } else { None };
    if fee.rl_applied(point, p.activation_point, buy) {
        need!(rem0 == Some(IXSYSVAR), "single-swap", "rate limited buy without the instructions sysvar");
        need!(c.height() <= 2, "single-swap", "rate limited buy nested in CPI");
        for (j, t) in c.tr.iter().enumerate() {
            if j >= c.i {
                break;
            }
            match is_buy_swap(t, &pk, &p.base_mint) {
                Some(true) => no!("single-swap", "second buy of a rate limited pool in one transaction"),
                Some(false) => e.soft("earlier sell"),
                None => {}
            }
        }
        // any earlier foreign instruction naming the pool may hide a swap
        let top = c.tr[c.i].top;
        if c.spec.ixs[..top].iter().any(|ix| ix.program_id != DBC && ix.accounts.iter().any(|m| m.pubkey == pk)) {
            e.soft("earlier instruction names the pool");
        }
        if c.height() > 1 {
            e.soft("rate limited cpi swap");
        }
    }
    let top = c.tr[c.i].top;
    let first_min = cfg.first_swap_min == 1
        && p.has_swap == 0
        && !referral
        && rem0 == Some(IXSYSVAR)
        && c.spec.ixs[top].program_id == DBC
        && c.spec.ixs[..top].iter().any(|ix| {
            ix.program_id == DBC
                && matches!(
                    dbc_name(&ix.data),
                    Some("initialize_virtual_pool_with_spl_token") | Some("initialize_virtual_pool_with_token2022")
                )
                && ix.accounts.get(5).map(|m| m.pubkey) == Some(pk)
        });
    let r = md(
        model::swap(
            &cfg,
            &p,
            &model::SwapReq { buy, mode, amount: a0, referral, first_min, ts: c.ts, slot: c.slot },
        ),
        "price",
    )?;
    if cfg.first_swap_min == 1 {
        // granted to a swap that has no claim to it, or withheld from the one that has
        if let Ok(x) = model::swap(
            &cfg,
            &p,
            &model::SwapReq { buy, mode, amount: a0, referral, first_min: !first_min, ts: c.ts, slot: c.slot },
        ) {
            if x.protocol != r.protocol {
                e.alt.push((pk, "first-min", x.next, x.protocol));
            }
        }
    }
    match mode {
        MODE_OUT => need!(r.incl_in <= a1, "slippage", "pays {} > max {}", r.incl_in, a1),
        _ => need!(r.out >= a1, "slippage", "gets {} < min {}", r.out, a1),
    }
    if mode == MODE_OUT && r.out != a0 {
        no!("mode", "exact out");
    }
    need!(r.out > 0 || mode != MODE_OUT, "price", "nothing out");
    // authority over the input
    if tin.owner != payer {
        need!(tin.delegate == Some(payer) && tin.delegated >= r.incl_in, "auth", "signer does not control the input");
    }
    need!(tin.amount >= r.incl_in || c.k(3) == vi, "token", "not enough input");
    if tin.state != 1 || tout.state != 1 {
        if (tin.state != 1 && r.incl_in > 0) || (tout.state != 1 && r.out > 0) {
            no!("token", "frozen account");
        }
        e.soft("nothing to move");
    }
    let fee_base = buy && cfg.collect_fee_mode == 1;
    let fee_mint = if fee_base { p.base_mint } else { cfg.quote_mint };
    if referral {
        match tok(c.pre, &c.k(12)) {
            Some(t) if t.mint == fee_mint && t.state == 1 => {}
            _ if r.referral == 0 => e.soft("no referral fee"),
            _ => no!("token", "referral account cannot receive the fee"),
        }
        if !c.writable(&c.k(12)) {
            e.soft("referral not writable");
        }
    }
    e.mv(c.k(3), vi, r.incl_in);
    e.mv(vo, c.k(4), r.out);
    if referral {
        e.mv(if fee_base { p.base_vault } else { p.quote_vault }, c.k(12), r.referral);
    }
    // state
    let mut n = p.clone();
    n.sqrt_price = r.next;
    if cfg.dyn_init != 0 {
        n.last_update = r.vol.last;
        n.sqrt_ref = r.vol.sref;
        n.vol_acc = r.vol.acc;
        n.vol_ref = r.vol.vref;
    }
    n.has_swap = 1;
    let creator = model::muldiv(r.trading, cfg.creator_fee_pct as u64, 100, false);
    let partner = r.trading - creator;
    if fee_base {
        n.protocol_base += r.protocol;
        n.partner_base += partner;
        n.creator_base += creator;
        n.met[0] = n.met[0].wrapping_add(r.protocol);
        n.met[2] = n.met[2].wrapping_add(r.trading);
    } else {
        n.protocol_quote += r.protocol;
        n.partner_quote += partner;
        n.creator_quote += creator;
        n.met[1] = n.met[1].wrapping_add(r.protocol);
        n.met[3] = n.met[3].wrapping_add(r.trading);
    }
    let gross_out = r.out as i128 + if r.fee_on_input { 0 } else { r.total_fee() as i128 };
    if sell {
        n.base_reserve += r.excl_in;
        let q = n.quote_reserve as i128 - gross_out;
        need!(q >= 0, "price", "quote reserve underflow");
        n.quote_reserve = q as u64;
    } else {
        n.quote_reserve += r.excl_in;
        let b = n.base_reserve as i128 - gross_out;
        need!(b >= 0, "price", "base reserve underflow");
        n.base_reserve = b as u64;
    }
    if bal(c.pre, &vo) < r.out {
        no!("vault", "vault cannot pay");
    }
    let dir = buy as u8;
    let params = match mode {
        MODE_OUT => W::default().u64(r.incl_in).u64(r.out),
        MODE_PARTIAL => W::default().u64(r.incl_in).u64(r.out),
        _ => W::default().u64(a0).u64(a1),
    };
    let head = |pa: W| {
        let mut w = W::default().k(&pk).k(&p.config).u8(dir).u8(referral as u8);
        w.0.extend(pa.0);
        w
    };
    e.ev(
        "EvtSwap",
        head(params)
            .u64(r.excl_in)
            .u64(r.out)
            .u128(r.next)
            .u64(r.trading)
            .u64(r.protocol)
            .u64(r.referral)
            .u64(r.incl_in)
            .u64(c.ts),
    );
    e.ev(
        "EvtSwap2",
        head(W::default().u64(a0).u64(a1).u8(mode))
            .u64(r.incl_in)
            .u64(r.excl_in)
            .u64(r.left)
            .u64(r.out)
            .u128(r.next)
            .u64(r.trading)
            .u64(r.protocol)
            .u64(r.referral)
            .u64(n.quote_reserve)
            .u64(cfg.threshold)
            .u64(c.ts),
    );
    let done = n.quote_reserve >= cfg.threshold;
    if done {
        let after = bal(c.pre, &p.base_vault) as i128 + e.tok.get(&p.base_vault).copied().unwrap_or(0);
        let req = cfg.base_threshold as i128 + n.base_fees() as i128 + model::config_vesting(&cfg) as i128;
        need!(after >= req, "migration-base", "base vault {} < {} needed for migration", after, req);
        n.finish_ts = c.ts;
        n.progress = if model::has_vesting(&cfg) { 1 } else { 2 };
        e.ev("EvtCurveComplete", W::default().k(&pk).k(&p.config).u64(n.base_reserve).u64(n.quote_reserve));
    }
    e.class = mode as u64
        | (buy as u64) << 2
        | (referral as u64) << 3
        | (fee_base as u64) << 4
        | (done as u64) << 5
        | (first_min as u64) << 6
        | ((r.left > 0) as u64) << 7
        | (fee.rl_applied(point, p.activation_point, buy) as u64) << 8
        | (fee.mode as u64) << 9
        | ((r.vol.acc > 0) as u64) << 12
        | ((c.height() > 1) as u64) << 13
        | (model::segs(cfg.start_sqrt, &cfg.curve)
            .iter()
            .filter(|s| s.lo >= p.sqrt_price.min(r.next) && s.lo < p.sqrt_price.max(r.next))
            .count() as u64)
            << 14;
    e.pools.insert(pk, n);
    Ok(e)
}

// ------------------------------------------------------------------ fee claims
fn claim_fees(c: &Ctx, creator: bool) -> J {
    let o = if creator { 0 } else { 1 };
    let mut e = c.start(if creator { "rwwwwwrrsrr" } else { "rrwwwwwrrsrr" })?;
    let mut a = c.arg();
    let (ma, mb) = (arg(a.u64())?, arg(a.u64())?);
    c.pa(0)?;
    let p = c.pool(1 + o)?;
    let cfg = config(c.pre, &p.config).unwrap_or_default();
    if !creator {
        c.config(1)?;
        c.eq(1, &p.config, "config")?;
    }
    c.eq(4 + o, &p.base_vault, "base vault")?;
    c.eq(5 + o, &p.quote_vault, "quote vault")?;
    c.eq(6 + o, &p.base_mint, "base mint")?;
    c.eq(7 + o, &cfg.quote_mint, "quote mint")?;
    c.token_program(9 + o, &p.base_mint)?;
    c.token_program(10 + o, &cfg.quote_mint)?;
    let who = c.k(8 + o);
    let owner = if creator { p.creator } else { cfg.fee_claimer };
    need!(who == owner, "auth", "signer is not the fee owner");
    c.events_at(&mut e, 11 + o)?;
    let (ta, tb) = (c.k(2 + o), c.k(3 + o));
    let mut n = p.clone();
    let (fa, fb) = if creator { (&mut n.creator_base, &mut n.creator_quote) } else { (&mut n.partner_base, &mut n.partner_quote) };
    let (x, y) = ((*fa).min(ma), (*fb).min(mb));
    *fa -= x;
    *fb -= y;
    c.dest(&mut e, 2 + o, &p.base_mint, x)?;
    c.dest(&mut e, 3 + o, &cfg.quote_mint, y)?;
    e.mv(p.base_vault, ta, x);
    e.mv(p.quote_vault, tb, y);
    e.ev(
        if creator { "EvtClaimCreatorTradingFee" } else { "EvtClaimTradingFee" },
        W::default().k(&c.k(1 + o)).u64(x).u64(y),
    );
    e.class = (x > 0) as u64 | ((y > 0) as u64) << 1 | ((ma < u64::MAX || mb < u64::MAX) as u64) << 2 | (p.progress as u64) << 3;
    e.pools.insert(c.k(1 + o), n);
    Ok(e)
}
fn op_check(c: &Ctx, i: usize, signer: &Pubkey, bit: u32) -> Result<(), Fact> {
    match operator(c.pre, &c.k(i)) {
        Some(o) => {
            need!(o.who == *signer, "auth", "operator record belongs to someone else");
            need!(o.permission >> bit & 1 == 1, "perm", "operator lacks the permission");
            Ok(())
        }
        None => no!("auth", "not an operator record"),
    }
}
/// protocol fee amounts taken with caps; updates the pool
fn take_protocol(n: &mut Pool, cfg: &Config, base: Option<u64>, quote: Option<u64>) -> (u64, u64) {
    let (mut x, mut y) = (0, 0);
    if let Some(m) = base {
        let f = n.protocol_base.min(m);
        let g = n.mig_base_fee.min(m - f);
        n.protocol_base -= f;
        n.mig_base_fee -= g;
        x = f + g;
    }
    if let Some(m) = quote {
        let f = n.protocol_quote.min(m);
        let g = n.mig_quote_fee.min(m - f);
        n.protocol_quote -= f;
        n.mig_quote_fee -= g;
        y = f + g;
        if n.protocol_surplus_done == 0 && n.quote_reserve >= cfg.threshold {
            n.protocol_surplus_done = 1;
            y += model::surplus(cfg, n.quote_reserve).2;
        }
    }
    (x, y)
}
fn claim_protocol(c: &Ctx) -> J {
    let mut e = c.start("rrwwwrrwwrsrr")?;
    let mut a = c.arg();
    let (ma, mb) = (arg(a.u64())?, arg(a.u64())?);
    c.pa(0)?;
    let p = c.pool(2)?;
    let cfg = c.config(1)?;
    c.eq(1, &p.config, "config")?;
    c.eq(3, &p.base_vault, "base vault")?;
    c.eq(4, &p.quote_vault, "quote vault")?;
    c.eq(5, &p.base_mint, "base mint")?;
    c.eq(6, &cfg.quote_mint, "quote mint")?;
    c.token_program(11, &p.base_mint)?;
    c.token_program(12, &cfg.quote_mint)?;
    op_check(c, 9, &c.k(10), 0)?;
    c.events_at(&mut e, 13)?;
    let mut n = p.clone();
    let (x, y) = take_protocol(&mut n, &cfg, Some(ma), Some(mb));
    for (amt, i, m, tp) in [(x, 7, &p.base_mint, c.k(11)), (y, 8, &cfg.quote_mint, c.k(12))] {
        if amt > 0 {
            need!(c.k(i) == ata(&TREASURY, m, &tp), "auth", "protocol fee not paid to the treasury");
            match tok(c.pre, &c.k(i)) {
                Some(t) if t.mint == *m && t.owner == TREASURY => {}
                _ => no!("token", "treasury account unusable"),
            }
        }
    }
    e.mv(p.base_vault, c.k(7), x);
    e.mv(p.quote_vault, c.k(8), y);
    e.ev("EvtClaimProtocolFee", W::default().k(&c.k(2)).u64(x).u64(y));
    e.class = (x > 0) as u64
        | ((y > 0) as u64) << 1
        | ((ma < u64::MAX || mb < u64::MAX) as u64) << 2
        | (p.progress as u64) << 3
        | ((n.protocol_surplus_done != p.protocol_surplus_done) as u64) << 5;
    e.pools.insert(c.k(2), n);
    Ok(e)
}
fn zap(c: &Ctx) -> J {
    let mut e = c.start("rrwwrwrsrr")?;
    let max = arg(c.arg().u64())?;
    c.pa(0)?;
    let p = c.pool(2)?;
    let cfg = c.config(1)?;
    c.eq(1, &p.config, "config")?;
    let m = c.k(4);
    let base = m == p.base_mint;
    need!(base || m == cfg.quote_mint, "accounts", "mint not of this pool");
    c.eq(3, if base { &p.base_vault } else { &p.quote_vault }, "vault")?;
    c.token_program(8, &m)?;
    c.eq(9, &IXSYSVAR, "instructions sysvar")?;
    let signer = c.k(7);
    op_check(c, 6, &signer, 1)?;
    need!(m != WSOL && m != USDC, "mint", "zapping a restricted mint");
    let mut n = p.clone();
    let (x, y) = if base {
        take_protocol(&mut n, &cfg, Some(max), None)
    } else {
        take_protocol(&mut n, &cfg, None, Some(max))
    };
    let amt = x + y;
    need!(amt > 0, "amount", "nothing to zap");
    let rcv = c.k(5);
    need!(rcv == ata(&signer, &m, &c.k(8)), "auth", "receiver is not the operator's own account");
    match tok(c.pre, &rcv) {
        Some(t) if t.owner == signer && t.mint == m => {
            if t.state != 1 {
                no!("token", "frozen receiver");
            }
        }
        _ => no!("auth", "receiver is not the operator's token account"),
    }
    need!(c.spec.zap == 0, "verdict", "the companion zap-out check refused");
    // the companion check must have been consulted with the true values
    let other = if base { cfg.quote_mint } else { p.base_mint };
    let want_dest = ata(&TREASURY, &other, &tp_of(c.pre, &other));
    let calls: Vec<ZapCall> = c.zaps.to_vec();
    let len = c.pre.get(&rcv).map(|a| a.data.len()).unwrap_or(0);
    e.post.push(Box::new(move |_| {
        let ok = calls.iter().any(|z| {
            z.amount == amt
                && z.program == DBC.to_bytes()
                && z.receiver == rcv.to_bytes()
                && z.receiver_data_len == len
                && z.sysvar_len > 0
                && z.treasury == TREASURY.to_bytes()
                && z.paired_destination == want_dest.to_bytes()
        });
        if ok {
            None
        } else {
            Some(("verdict", format!("zap of {} was not validated against the treasury: {:?}", amt, calls)))
        }
    }));
    e.mv(if base { p.base_vault } else { p.quote_vault }, rcv, amt);
    e.class = base as u64 | ((max < u64::MAX) as u64) << 1 | (p.progress as u64) << 2;
    e.pools.insert(c.k(2), n);
    Ok(e)
}

// ------------------------------------------------------------------ one-time withdrawals
fn surplus(c: &Ctx, partner: bool) -> J {
    let mut e = c.start("rrwwwrsr")?;
    c.pa(0)?;
    let p = c.pool(2)?;
    let cfg = c.config(1)?;
    c.eq(1, &p.config, "config")?;
    c.eq(4, &p.quote_vault, "quote vault")?;
    c.eq(5, &cfg.quote_mint, "quote mint")?;
    c.token_program(7, &cfg.quote_mint)?;
    let owner = if partner { cfg.fee_claimer } else { p.creator };
    need!(c.k(6) == owner, "auth", "signer does not own the surplus");
    c.events_at(&mut e, 8)?;
    need!(p.quote_reserve >= cfg.threshold, "early", "curve not complete");
    let done = if partner { p.partner_surplus_done } else { p.creator_surplus_done };
    need!(done == 0, "twice", "surplus already withdrawn");
    let (ps, cs, _) = model::surplus(&cfg, p.quote_reserve);
    let amt = if partner { ps } else { cs };
    let mut n = p.clone();
    if partner {
        n.partner_surplus_done = 1;
    } else {
        n.creator_surplus_done = 1;
    }
    c.dest(&mut e, 3, &cfg.quote_mint, amt)?;
    e.mv(p.quote_vault, c.k(3), amt);
    e.ev(
        if partner { "EvtPartnerWithdrawSurplus" } else { "EvtCreatorWithdrawSurplus" },
        W::default().k(&c.k(2)).u64(amt),
    );
    e.class = (amt > 0) as u64 | (p.progress as u64) << 1;
    e.pools.insert(c.k(2), n);
    Ok(e)
}
fn withdraw_migration_fee(c: &Ctx) -> J {
    let mut e = c.start("rrwwwrsr")?;
    let flag = arg(c.arg().u8())?;
    c.pa(0)?;
    let p = c.pool(2)?;
    let cfg = c.config(1)?;
    c.eq(1, &p.config, "config")?;
    c.eq(4, &p.quote_vault, "quote vault")?;
    c.eq(5, &cfg.quote_mint, "quote mint")?;
    c.token_program(7, &cfg.quote_mint)?;
    c.events_at(&mut e, 8)?;
    need!(flag <= 1, "mode", "unknown migration fee flag");
    let owner = if flag == 0 { cfg.fee_claimer } else { p.creator };
    need!(c.k(6) == owner, "auth", "signer does not own the migration fee");
    need!(p.quote_reserve >= cfg.threshold, "early", "curve not complete");
    let mask = if flag == 0 { 0b100 } else { 0b010 };
    need!(p.migration_fee_status & mask == 0, "twice", "migration fee already withdrawn");
    let (pf, cf) = model::migration_fee_split(&cfg);
    let amt = if flag == 0 { pf } else { cf };
    let mut n = p.clone();
    n.migration_fee_status |= mask;
    c.dest(&mut e, 3, &cfg.quote_mint, amt)?;
    e.mv(p.quote_vault, c.k(3), amt);
    e.ev("EvtWithdrawMigrationFee", W::default().k(&c.k(2)).u64(amt).u8(flag));
    e.class = (amt > 0) as u64 | (flag as u64) << 1 | (p.progress as u64) << 2;
    e.pools.insert(c.k(2), n);
    Ok(e)
}
fn withdraw_leftover(c: &Ctx) -> J {
    let mut e = c.start("rrwwwror")?;
    c.pa(0)?;
    let p = c.pool(2)?;
    let cfg = c.config(1)?;
    c.eq(1, &p.config, "config")?;
    c.eq(4, &p.base_vault, "base vault")?;
    c.eq(5, &p.base_mint, "base mint")?;
    c.token_program(7, &p.base_mint)?;
    need!(c.k(6) == cfg.leftover_receiver, "auth", "wrong leftover receiver");
    need!(c.k(3) == ata(&cfg.leftover_receiver, &p.base_mint, &c.k(7)), "auth", "leftover not paid to the receiver");
    let frozen;
    match tok(c.pre, &c.k(3)) {
        Some(t) if t.owner == cfg.leftover_receiver && t.mint == p.base_mint => frozen = t.state != 1,
        _ => no!("auth", "leftover account not owned by the receiver"),
    }
    c.events_at(&mut e, 8)?;
    need!(p.progress == 3, "early", "pool not migrated");
    need!(cfg.fixed_supply == 1, "early", "supply is not fixed");
    need!(p.leftover_done == 0, "twice", "leftover already withdrawn");
    let amt = bal(c.pre, &p.base_vault) as i128 - p.base_fees() as i128 - p.mig_base_fee as i128;
    need!(amt >= 0, "vault", "base vault below fees");
    let amt = amt as u64;
    if frozen {
        need!(amt == 0, "token", "frozen receiver");
        e.soft("nothing to pay");
    }
    let mut n = p.clone();
    n.leftover_done = 1;
    e.mv(p.base_vault, c.k(3), amt);
    e.ev("EvtWithdrawLeftover", W::default().k(&c.k(2)).k(&cfg.leftover_receiver).u64(amt));
    e.class = (amt > 0) as u64;
    e.pools.insert(c.k(2), n);
    Ok(e)
}

// ------------------------------------------------------------------ pool creation fee (lamports)
pub const LEGACY_FEE: u64 = 10_000_000;
fn creation_split(cfg: &Config) -> (u64, u64) {
    let protocol = model::muldiv(cfg.creation_fee, 10, 100, false);
    (protocol, cfg.creation_fee - protocol)
}
fn partner_creation_fee(c: &Ctx) -> J {
    let mut e = c.start("rwsw")?;
    let p = c.pool(1)?;
    let cfg = c.config(0)?;
    c.eq(0, &p.config, "config")?;
    need!(c.k(2) == cfg.fee_claimer, "auth", "signer is not the fee claimer");
    c.events_at(&mut e, 4)?;
    let (_, fee) = creation_split(&cfg);
    need!(fee > 0, "amount", "no creation fee");
    need!(p.creation_bits & 0b10 == 0, "twice", "creation fee already claimed");
    let pk = c.k(1);
    need!(lamports(c.pre, &pk) >= fee + rent_min(424), "amount", "pool rent");
    let mut n = p.clone();
    n.creation_bits |= 0b10;
    e.lmv(pk, -(fee as i128));
    e.lmv(c.k(3), fee as i128);
    if c.pre.get(&c.k(3)).map(|a| a.executable).unwrap_or(false) {
        e.soft("executable receiver");
    }
    if !c.pre.contains_key(&c.k(3)) && fee < rent_min(0) {
        e.soft("receiver rent");
    }
    e.ev("EvtPartnerClaimPoolCreationFee", W::default().k(&pk).k(&c.k(2)).u64(fee).k(&c.k(3)));
    e.class = 1;
    e.pools.insert(pk, n);
    Ok(e)
}
fn protocol_creation_fee(c: &Ctx) -> J {
    let mut e = c.start("rwrsw")?;
    let p = c.pool(1)?;
    let cfg = c.config(0)?;
    c.eq(0, &p.config, "config")?;
    op_check(c, 2, &c.k(3), 0)?;
    need!(c.k(4) == TREASURY, "auth", "creation fee not paid to the treasury");
    c.events_at(&mut e, 5)?;
    let (fee, _) = creation_split(&cfg);
    let first = p.creation_bits & 0b01 == 0;
    // pools of an older release may still owe a flat fee, due once as well
    let legacy = if p.legacy_bits & 0b11 == 0b01 { LEGACY_FEE } else { 0 };
    let amt = if first { fee } else { 0 } + legacy;
    let pk = c.k(1);
    need!(lamports(c.pre, &pk) >= amt + rent_min(424), "amount", "pool rent");
    let mut n = p.clone();
    n.creation_bits |= 0b01;
    if legacy > 0 {
        n.legacy_bits |= 0b10;
    }
    e.lmv(pk, -(amt as i128));
    e.lmv(TREASURY, amt as i128);
    if !first && legacy == 0 {
        // paying nothing or refusing are both faithful
        e.soft("already claimed");
    }
    e.ev("EvtClaimPoolCreationFee", W::default().k(&pk).k(&TREASURY).u64(amt));
    e.class = first as u64 | ((legacy > 0) as u64) << 1;
    e.pools.insert(pk, n);
    Ok(e)
}

// ------------------------------------------------------------------ creator / partner records
fn transfer_creator(c: &Ctx) -> J {
    let mut e = c.start("wrsr")?;
    let p = c.pool(0)?;
    let cfg = c.config(1)?;
    c.eq(1, &p.config, "config")?;
    need!(c.k(2) == p.creator, "auth", "signer is not the creator");
    let new = c.k(3);
    need!(new != p.creator, "mode", "same creator");
    c.events_at(&mut e, 4)?;
    match p.progress {
        0 => {}
        3 => {
            if cfg.migration_option == 0 {
                need!(c.n() > 6, "lp", "migration metadata missing");
                match d1meta(c.pre, &c.k(6)) {
                    Some(m) => {
                        need!(m.virtual_pool == c.k(0), "lp", "metadata of another pool");
                        let ok = (m.partner_locked == 0 || m.partner_locked_status == 1)
                            && (m.creator_locked == 0 || m.creator_locked_status == 1)
                            && (m.partner_liq == 0 || m.partner_claim_status == 1)
                            && (m.creator_liq == 0 || m.creator_claim_status == 1);
                        need!(ok, "lp", "LP tokens not settled yet");
                    }
                    None => no!("lp", "not a migration metadata account"),
                }
            }
        }
        _ => no!("early", "creator change while migrating"),
    }
    let mut n = p.clone();
    n.creator = new;
    e.ev("EvtUpdatePoolCreator", W::default().k(&c.k(0)).k(&p.creator).k(&new));
    e.class = p.progress as u64;
    e.pools.insert(c.k(0), n);
    Ok(e)
}
fn strs(c: &Ctx) -> Result<Vec<String>, Fact> {
    let mut a = c.arg();
    arg(a.take(96).map(|_| ()))?;
    strs3(&mut a)
}
fn strs3(a: &mut crate::abi::R) -> Result<Vec<String>, Fact> {
    let mut v = vec![];
    for _ in 0..3 {
        let n = arg(a.u32())? as usize;
        let b = arg(a.take(n).map(|x| x.to_vec()))?;
        match String::from_utf8(b) {
            Ok(s) => v.push(s),
            Err(_) => no!("data", "not utf-8"),
        }
    }
    Ok(v)
}
fn init_target(c: &Ctx, e: &mut Exp, i: usize) -> Result<(), Fact> {
    let k = c.k(i);
    if let Some(a) = c.pre.get(&k) {
        need!(a.owner == SYSTEM && a.data.is_empty(), "twice", "account {} already exists", i);
    }
    if !c.writable(&k) {
        e.soft("target not writable");
    }
    Ok(())
}
fn record(who: Pubkey, v: Vec<String>, name: &'static str) -> Check {
    Box::new(move |a: &Acct| {
        let mut w = disc("account", name).to_vec();
        w.extend(who.as_ref());
        w.extend([0u8; 96]);
        let w = W(w).s(&v[0]).s(&v[1]).s(&v[2]).0;
        if a.owner != DBC || !a.data.starts_with(&w) || a.data[w.len()..].iter().any(|x| *x != 0) {
            return Some(("record", "stored metadata differs from the request".into()));
        }
        None
    })
}
fn pool_meta(c: &Ctx) -> J {
    let mut e = c.start("owsbr")?;
    let p = c.pool(0)?;
    let v = strs(c)?;
    need!(c.k(1) == pool_metadata(&c.k(0)), "accounts", "metadata address");
    need!(c.k(2) == p.creator, "auth", "pool metadata signed by someone who is not the creator");
    init_target(c, &mut e, 1)?;
    c.payer(&mut e, 3);
    c.eq(4, &SYSTEM, "system program")?;
    c.events_at(&mut e, 5)?;
    e.created.insert(c.k(1), record(c.k(0), v, "VirtualPoolMetadata"));
    e.ev("EvtVirtualPoolMetadata", W::default().k(&c.k(1)).k(&c.k(0)));
    Ok(e)
}
fn partner_meta(c: &Ctx) -> J {
    let mut e = c.start("wbsr")?;
    let v = strs(c)?;
    let fc = c.k(2);
    need!(c.k(0) == partner_metadata(&fc), "auth", "partner metadata of someone else");
    init_target(c, &mut e, 0)?;
    c.payer(&mut e, 1);
    c.eq(3, &SYSTEM, "system program")?;
    c.events_at(&mut e, 4)?;
    e.created.insert(c.k(0), record(fc, v, "PartnerMetadata"));
    e.ev("EvtPartnerMetadata", W::default().k(&c.k(0)).k(&fc));
    Ok(e)
}
fn create_op(c: &Ctx) -> J {
    let mut e = c.start("wrsbr")?;
    let perm = arg(c.arg().u128())?;
    need!(ADMINS.contains(&c.k(2)), "auth", "operator created by a non-admin");
    let who = c.k(1);
    need!(c.k(0) == operator_addr(&who), "accounts", "operator address");
    need!(perm > 0 && perm < 4, "perm", "permission outside the defined bits");
    init_target(c, &mut e, 0)?;
    c.payer(&mut e, 3);
    c.eq(4, &SYSTEM, "system program")?;
    // the event accounts trail the instruction; no event is emitted
    e.created.insert(
        c.k(0),
        Box::new(move |a| {
            let mut w = disc("account", "Operator").to_vec();
            w.extend(who.as_ref());
            let w = W(w).u128(perm).0;
            if a.owner != DBC || !a.data.starts_with(&w) {
                return Some(("perm", "stored operator differs from the request".into()));
            }
            None
        }),
    );
    if c.n() < 7 || c.k(5) != event_authority() || c.k(6) != DBC {
        e.soft("event accounts");
    }
    e.class = perm as u64;
    Ok(e)
}
fn close_op(c: &Ctx) -> J {
    let mut e = c.start("wsw")?;
    need!(ADMINS.contains(&c.k(1)), "auth", "operator closed by a non-admin");
    need!(operator(c.pre, &c.k(0)).is_some(), "accounts", "not an operator record");
    let l = lamports(c.pre, &c.k(0));
    e.closed.insert(c.k(0));
    e.lmv(c.k(2), l as i128);
    if c.k(2) == c.k(0) || c.pre.get(&c.k(2)).map(|a| a.executable).unwrap_or(false) {
        e.soft("receiver");
    }
    Ok(e)
}

/// an operator record of an older release
fn close_old_op(c: &Ctx) -> J {
    let mut e = c.start("wws")?;
    need!(ADMINS.contains(&c.k(2)), "auth", "old operator record closed by a non-admin");
    let k = c.k(0);
    let d = match c.pre.get(&k) {
        Some(a) if a.owner == DBC && a.data.len() >= 168 && a.data[..8] == disc("account", "ClaimFeeOperator") => &a.data,
        _ => no!("accounts", "not an old operator record"),
    };
    c.events_at(&mut e, 3)?;
    let l = lamports(c.pre, &k);
    e.closed.insert(k);
    e.lmv(c.k(1), l as i128);
    if c.k(1) == k || c.pre.get(&c.k(1)).map(|a| a.executable).unwrap_or(false) {
        e.soft("receiver");
    }
    e.ev("EvtCloseClaimFeeOperator", W::default().k(&k).k(&key_at(d, 8)));
    Ok(e)
}

// ------------------------------------------------------------------ configuration
fn quote_facts(c: &Ctx, m: &Pubkey) -> Result<model::QuoteFacts, Fact> {
    let Some(v) = mint(c.pre, m) else { no!("accounts", "quote is not a mint") };
    let is_token = c.pre[m].owner == TOKEN;
    // wrapped SOL of Token-2022 is not supported, nor any extension but metadata
    let supported = is_token
        || *m != NATIVE22 && v.meta.map(|x| x.ext_types.iter().all(|t| *t == 18 || *t == 19)).unwrap_or(true);
    Ok(model::QuoteFacts { is_token, supported })
}
fn create_cfg(c: &Ctx) -> J {
    let mut e = c.start("brrrbr")?;
    if (1..c.n()).any(|i| c.k(i) == c.k(0)) {
        e.soft("the new account is named twice");
    }
    let Some(p) = ConfigParams::decode(&c.ix.data[8..]) else { no!("data", "undecodable parameters") };
    let q = quote_facts(c, &c.k(3))?;
    init_target(c, &mut e, 0)?;
    c.payer(&mut e, 4);
    c.eq(5, &SYSTEM, "system program")?;
    c.events_at(&mut e, 6)?;
    let mut m = md(model::create_config(&p, &q, c.k(2) == Pubkey::default(), c.ts), "config")?;
    m.quote_mint = c.k(3);
    m.fee_claimer = c.k(1);
    m.leftover_receiver = c.k(2);
    let body = W::default().k(&c.k(0)).k(&m.quote_mint).k(&m.fee_claimer).k(&m.leftover_receiver);
    let mut w = W(body.0.clone());
    w.0.extend(p.encode());
    e.ev("EvtCreateConfigV2", w);
    let fees = p.encode();
    let flen = 8 + 2 + 8 + 8 + 1 + 1 + if p.dynamic.is_some() { 2 + 16 + 2 + 2 + 2 + 4 + 4 } else { 0 };
    let mut w = body;
    w.0.extend(&fees[..flen]);
    let mut w = w
        .u8(p.collect_fee_mode)
        .u8(p.migration_option)
        .u8(p.activation_type)
        .u8(p.token_decimal)
        .u8(p.token_type)
        .u8(p.partner_perm)
        .u8(p.partner_liq)
        .u8(p.creator_perm)
        .u8(p.creator_liq)
        .u64(m.swap_base_amount)
        .u64(p.threshold)
        .u64(m.base_threshold)
        .u128(p.start_sqrt)
        .u64(p.v_amount)
        .u64(p.v_cliff_dur)
        .u64(p.v_freq)
        .u64(p.v_periods)
        .u64(p.v_cliff_amount)
        .u8(p.migration_fee_option)
        .u8(m.fixed_supply)
        .u64(m.pre_supply)
        .u64(m.post_supply)
        .u32(p.curve.len() as u32);
    for (a, b) in &p.curve {
        w = w.u128(*a).u128(*b);
    }
    e.ev("EvtCreateConfig", w);
    e.class = p.fee_mode as u64
        | (p.collect_fee_mode as u64) << 2
        | (p.migration_option as u64) << 3
        | (p.token_type as u64) << 4
        | (p.supply.is_some() as u64) << 5
        | (p.dynamic.is_some() as u64) << 6
        | (model::has_vesting(&m) as u64) << 7
        | (p.curve.len() as u64) << 8;
    e.created.insert(
        c.k(0),
        Box::new(move |a| {
            let Some(x) = Config::parse(&a.data) else { return Some(("config", "unreadable config".into())) };
            if a.owner != DBC {
                return Some(("config", "config owner".into()));
            }
            if x != m {
                return Some(("config", format!("stored config differs: {}", dbg_diff(&format!("{:?}", m), &format!("{:?}", x)))));
            }
            None
        }),
    );
    Ok(e)
}
/// the first differing region of two debug strings
pub fn dbg_diff(a: &str, b: &str) -> String {
    let fa: Vec<&str> = a.split(", ").collect();
    let fb: Vec<&str> = b.split(", ").collect();
    let mut out = vec![];
    for i in 0..fa.len().max(fb.len()) {
        let (x, y) = (fa.get(i).copied().unwrap_or(""), fb.get(i).copied().unwrap_or(""));
        if x != y {
            out.push(format!("want {} got {}", x, y));
        }
    }
    out.truncate(6);
    out.join("; ")
}

// ------------------------------------------------------------------ pool creation
fn init_pool(c: &Ctx, t22: bool) -> J {
    let mut e = c.start(if t22 { "rrsbrwwwbrrr" } else { "rrsbrwwwwrbrrr" })?;
    let v = strs3(&mut c.arg())?;
    let cfg = c.config(0)?;
    c.pa(1)?;
    let (creator, base, quote, pk) = (c.k(2), c.k(3), c.k(4), c.k(5));
    need!(quote == cfg.quote_mint, "accounts", "quote mint");
    let (hi, lo) = if base > quote { (base, quote) } else { (quote, base) };
    let _ = (hi, lo);
    need!(pk == pool_addr(&c.k(0), &base, &quote), "accounts", "pool address");
    need!(c.k(6) == vault_addr(&base, &pk), "accounts", "base vault address");
    need!(c.k(7) == vault_addr(&quote, &pk), "accounts", "quote vault address");
    let (pi, qtp, btp, sysi) = if t22 { (8, 9, 10, 11) } else { (10, 11, 12, 13) };
    c.token_program(qtp, &quote)?;
    c.eq(btp, if t22 { &TOKEN22 } else { &TOKEN }, "base token program")?;
    c.eq(sysi, &SYSTEM, "system program")?;
    need!(cfg.token_type == t22 as u8, "type", "token type mismatch");
    let locked = md(model::config_locked(&cfg), "config")?;
    let low = md(model::BaseFee::of(&cfg).min_fee(), "config")?;
    need!(low >= model::MIN_FEE, "fee", "swap fee may fall below the minimum");
    need!(locked >= 1000, "lp", "too little of the migrated liquidity stays locked");
    c.events_at(&mut e, sysi + 1)?;
    for i in [3, 5, 6, 7] {
        init_target(c, &mut e, i)?;
    }
    c.payer(&mut e, pi);
    let supply = md(model::initial_supply(&cfg), "config")?;
    let payer = c.k(pi);
    let p = Pool {
        config: c.k(0),
        creator,
        base_mint: base,
        base_vault: c.k(6),
        quote_vault: c.k(7),
        base_reserve: supply,
        sqrt_price: cfg.start_sqrt,
        activation_point: if cfg.activation_type == 0 { c.slot } else { c.ts },
        pool_type: t22 as u8,
        mig_bps: 20,
        ..Default::default()
    };
    e.ev(
        "EvtInitializePool",
        W::default().k(&pk).k(&c.k(0)).k(&creator).k(&base).u8(t22 as u8).u64(p.activation_point),
    );
    let upd = match cfg.token_update_authority {
        0 | 3 => Some(creator),
        2 | 4 => Some(cfg.fee_claimer),
        _ => None,
    };
    let mint_auth = match cfg.token_update_authority {
        3 => Some(creator),
        4 => Some(cfg.fee_claimer),
        _ => None,
    };
    let (dec, vv) = (cfg.token_decimal, v.clone());
    e.created.insert(
        base,
        Box::new(move |a| {
            let Some(m) = MintV::parse(a) else { return Some(("mint", "base mint unreadable".into())) };
            if m.supply != supply {
                return Some(("supply", format!("minted {} instead of {}", m.supply, supply)));
            }
            if m.auth != mint_auth {
                return Some(("mint-auth", format!("mint authority {:?} instead of {:?}", m.auth, mint_auth)));
            }
            if m.freeze.is_some() {
                return Some(("mint-auth", "freeze authority present".into()));
            }
            if m.decimals != dec {
                return Some(("mint", "decimals".into()));
            }
            if t22 {
                let Some(x) = &m.meta else { return Some(("mint", "no metadata".into())) };
                if x.pointer_auth != upd || x.update_auth != upd {
                    return Some(("mint-auth", format!("metadata authority {:?}/{:?} instead of {:?}", x.pointer_auth, x.update_auth, upd)));
                }
                if x.pointer_addr != Some(base) || [&x.name, &x.symbol, &x.uri] != [&vv[0], &vv[1], &vv[2]] {
                    return Some(("mint", "metadata content".into()));
                }
                if x.ext_types.iter().any(|t| *t != 18 && *t != 19) {
                    return Some(("mint", format!("unexpected extensions {:?}", x.ext_types)));
                }
            }
            if a.owner != if t22 { TOKEN22 } else { TOKEN } {
                return Some(("mint", "owner program".into()));
            }
            None
        }),
    );
    for (k, m, amt, tp) in [(c.k(6), base, supply, c.k(btp)), (c.k(7), quote, 0, c.k(qtp))] {
        // lamports somebody sent to the address before count as wrapped SOL
        let pre = if m == WSOL { lamports(c.pre, &k).saturating_sub(rent_min(165)) } else { 0 };
        let amt = amt + pre;
        e.created.insert(
            k,
            Box::new(move |a| match Tok::parse(a) {
                Some(t)
                    if t.mint == m
                        && t.owner == pool_authority()
                        && t.amount == amt
                        && t.delegate.is_none()
                        && t.close_auth.is_none()
                        && a.owner == tp =>
                {
                    None
                }
                x => Some(("supply", format!("vault is {:?}, expected {} of {}", x, amt, m))),
            }),
        );
    }
    e.created.insert(
        pk,
        Box::new(move |a| match Pool::parse(&a.data) {
            Some(x) if x == p && a.owner == DBC => None,
            Some(x) => Some(("pool", dbg_diff(&format!("{:?}", p), &format!("{:?}", x)))),
            None => Some(("pool", "unreadable pool".into())),
        }),
    );
    e.lmv(pk, cfg.creation_fee as i128);
    e.lmv(payer, -(cfg.creation_fee as i128));
    if !t22 {
        need!(v[0].len() <= 32 && v[1].len() <= 10 && v[2].len() <= 200, "mint", "metadata too long");
        if c.k(8) != metaplex_addr(&base) || c.k(9) != METAPLEX {
            no!("accounts", "metaplex accounts");
        }
        init_target(c, &mut e, 8)?;
        let want = (upd.unwrap_or(SYSTEM), base, cfg.token_update_authority != 1, v);
        e.created.insert(
            c.k(8),
            Box::new(move |a| match mpl_view(a) {
                Some(m) => {
                    if m.update_auth != want.0 || m.mutable != want.2 {
                        Some(("mint-auth", format!("metadata authority {} mutable {}", m.update_auth, m.mutable)))
                    } else if m.mint != want.1 || [&m.name, &m.symbol, &m.uri] != [&want.3[0], &want.3[1], &want.3[2]] {
                        Some(("mint", "metadata content".into()))
                    } else {
                        None
                    }
                }
                None => Some(("mint", "no metadata".into())),
            }),
        );
    } else if v.iter().map(|s| s.len()).sum::<usize>() > 2000 {
        e.soft("large metadata");
    }
    e.class = cfg.token_update_authority as u64 | (cfg.fixed_supply as u64) << 3 | ((cfg.creation_fee > 0) as u64) << 4;
    Ok(e)
}

// ------------------------------------------------------------------ locker
fn create_locker(c: &Ctx) -> J {
    let mut e = c.start("wrwwwwowwbrrrr")?;
    let p = c.pool(0)?;
    let cfg = c.config(1)?;
    c.eq(1, &p.config, "config")?;
    c.pa(2)?;
    c.eq(3, &p.base_vault, "base vault")?;
    c.eq(4, &p.base_mint, "base mint")?;
    let pk = c.k(0);
    c.eq(5, &base_locker(&pk), "locker base")?;
    need!(c.k(6) == p.creator, "auth", "locker for someone who is not the creator");
    c.token_program(10, &p.base_mint)?;
    c.eq(11, &LOCKER, "locker program")?;
    need!(p.progress == 1, "progress", "locker at progress {}", p.progress);
    need!(p.quote_reserve >= cfg.threshold, "progress", "curve not complete");
    c.payer(&mut e, 9);
    if c.height() > 1 {
        e.soft("cpi");
    }
    e.third = true;
    let base = c.k(5);
    let esc = escrow_addr(&base);
    need!(c.k(7) == esc, "accounts", "escrow address");
    let et = ata(&esc, &p.base_mint, &c.k(10));
    need!(c.k(8) == et, "accounts", "escrow token account");
    match tok(c.pre, &et) {
        Some(_) => {}
        None => no!("token", "escrow token account missing"),
    }
    let total = model::config_vesting(&cfg);
    e.mv(p.base_vault, et, total);
    let cliff = p.finish_ts.saturating_add(cfg.v_cliff_dur);
    let want = EscrowV {
        recipient: p.creator,
        mint: p.base_mint,
        sender: pool_authority(),
        base,
        start: p.finish_ts,
        cliff,
        freq: cfg.v_freq,
        cliff_amount: cfg.v_cliff_amount,
        per_period: cfg.v_amount,
        periods: cfg.v_periods,
        update_mode: 2,
        cancel_mode: 1,
    };
    if c.pre.contains_key(&esc) {
        e.soft("escrow exists");
    }
    if c.n() < 14 || c.k(13) != SYSTEM {
        e.soft("system program");
    }
    e.created.insert(
        esc,
        Box::new(move |a| match escrow_view(a) {
            Some(v) if v == want => None,
            v => Some(("escrow", format!("escrow {}", dbg_diff(&format!("{:?}", Some(&want)), &format!("{:?}", v))))),
        }),
    );
    let mut n = p.clone();
    n.progress = 2;
    e.pools.insert(pk, n);
    e.class = 1;
    Ok(e)
}

// ------------------------------------------------------------------ DAMM v1 migration
fn d1_meta(c: &Ctx) -> J {
    let mut e = c.start("orwbr")?;
    let p = c.pool(0)?;
    let cfg = c.config(1)?;
    c.eq(1, &p.config, "config")?;
    c.eq(2, &damm1_metadata(&c.k(0)), "metadata address")?;
    need!(cfg.migration_option == 0, "option", "pool does not migrate to DAMM v1");
    init_target(c, &mut e, 2)?;
    c.payer(&mut e, 3);
    c.eq(4, &SYSTEM, "system program")?;
    c.events_at(&mut e, 5)?;
    let want = D1Meta { virtual_pool: c.k(0), partner: cfg.fee_claimer, ..Default::default() };
    e.ev("EvtCreateMeteoraMigrationMetadata", W::default().k(&c.k(0)));
    e.created.insert(
        c.k(2),
        Box::new(move |a| {
            let db: Db = [(Pubkey::default(), Rc::new(a.clone()))].into();
            match d1meta(&db, &Pubkey::default()) {
                Some(m) if m == want => None,
                m => Some(("lp", format!("metadata {:?}", m))),
            }
        }),
    );
    e.class = p.progress as u64;
    Ok(e)
}
fn bps_of(option: u8) -> Option<u64> {
    [25, 30, 100, 200, 400, 600].get(option as usize).copied()
}
/// Burn after migration: everything the pool no longer owes, bounded for fixed supply.
fn burn_amount(cfg: &Config, vault_after: i128, p: &Pool) -> i128 {
    let left = vault_after - p.base_fees() as i128 - p.mig_base_fee as i128;
    if cfg.fixed_supply == 1 {
        left.min(cfg.pre_supply as i128 - cfg.post_supply as i128)
    } else {
        left
    }
}
fn migrate_v1(c: &Ctx) -> J {
    let mut e = c.start("wwrowrwwrwwwwwwwwwwwwwbrwrrrrrr")?;
    let pk = c.k(0);
    let p = c.pool(0)?;
    let cfg = c.config(2)?;
    c.eq(2, &p.config, "config")?;
    c.pa(3)?;
    let m = match d1meta(c.pre, &c.k(1)) {
        Some(m) => m,
        None => no!("accounts", "not a migration metadata account"),
    };
    need!(m.virtual_pool == pk, "accounts", "metadata of another pool");
    c.eq(17, &p.base_vault, "base vault")?;
    c.eq(18, &p.quote_vault, "quote vault")?;
    c.eq(7, &p.base_mint, "base mint")?;
    c.eq(8, &cfg.quote_mint, "quote mint")?;
    c.eq(26, &DAMM1, "AMM program")?;
    c.eq(28, &TOKEN, "token program")?;
    // AMM configuration
    let Some(a) = c.pre.get(&c.k(5)) else { no!("amm-config", "no AMM config") };
    need!(a.owner == DAMM1 && a.data.len() >= 120 && a.data[..8] == disc("account", "Config"), "amm-config", "not an AMM config");
    let (bps, act, vk, auth, partner) =
        (u64_at(&a.data, 8), u64_at(&a.data, 40), key_at(&a.data, 48), key_at(&a.data, 80), u64_at(&a.data, 113));
    need!(Some(bps) == bps_of(cfg.migration_fee_option).map(|x| x * 10), "amm-config", "AMM fee {} for option {}", bps, cfg.migration_fee_option);
    need!(act == 0 && partner == 0 && vk == Pubkey::default(), "amm-config", "AMM config has extras");
    need!(auth == pool_authority(), "amm-config", "AMM config is not reserved for this program");
    need!(p.progress == 2, "progress", "migration at progress {}", p.progress);
    need!(p.quote_reserve >= cfg.threshold, "progress", "curve not complete");
    need!(cfg.migration_option == 0, "option", "pool does not migrate to DAMM v1");
    c.payer(&mut e, 22);
    e.third = true;
    if !c.canonical(&d1_migrate(&crate::run::pool_ref(c.pre, &pk).unwrap(), c.k(5), c.k(22))) {
        e.soft("other AMM accounts");
    }
    if c.height() > 1 {
        e.soft("cpi");
    }
    let have = bal(c.pre, &p.base_vault) as i128 - p.base_fees() as i128;
    need!(have >= cfg.base_threshold as i128, "vault", "base vault too small for migration");
    let (q, _) = model::migration_quote(cfg.threshold, cfg.mig_fee_pct);
    let (bf, qf) = md(model::protocol_migration_fee(cfg.base_threshold, q, p.mig_bps, cfg.mig_sqrt, true), "amount")?;
    let (da, dq) = (cfg.base_threshold - bf, q - qf);
    if da == 0 || dq == 0 {
        e.soft("dust migration");
    }
    // what was offered to the AMM, and what it took
    let inits = c.child_pos(&DAMM1, &[48, 149, 220, 130, 61, 11, 9, 178]);
    let mut n = p.clone();
    n.mig_base_fee = bf;
    n.mig_quote_fee = qf;
    n.is_migrated = 1;
    n.progress = 3;
    let mut dm = m.clone();
    if let [j] = inits[..] {
        let d = &c.tr[j].ix.data;
        let (oa, oq) = (u64_at(d, 8), u64_at(d, 16));
        e.post.push(Box::new(move |_| {
            if (oa, oq) != (da, dq) {
                return Some(("amount", format!("AMM offered ({}, {}) instead of ({}, {})", oa, oq, da, dq)));
            }
            None
        }));
        for (f, t, a) in c.transfers_below(j) {
            // the stand-in AMM may round its base deposit down, never up
            let cap = if f == p.base_vault { da } else if f == p.quote_vault { dq } else { 0 };
            let a2 = a;
            e.post.push(Box::new(move |_| {
                if a2 > cap {
                    Some(("amount", format!("{} moved to the AMM, {} allowed", a2, cap)))
                } else {
                    None
                }
            }));
            e.mv(f, t, a);
        }
        let lp = (model::b(da) * model::b(dq)).sqrt();
        let lp = num_traits::ToPrimitive::to_u64(&lp).unwrap_or(u64::MAX);
        let (ps, cs) = model::lp_shares(&cfg, lp as u128);
        dm.lp_mint = c.k(6);
        dm.partner_locked = ps.perm as u64;
        dm.partner_liq = ps.unlocked as u64;
        dm.creator_locked = cs.perm as u64;
        dm.creator_liq = cs.unlocked as u64;
    } else {
        let cnt = inits.len();
        e.post.push(Box::new(move |_| Some(("amount", format!("{} AMM pools created", cnt)))));
    }
    let after = bal(c.pre, &p.base_vault) as i128 + e.tok.get(&p.base_vault).copied().unwrap_or(0);
    let burn = burn_amount(&cfg, after, &n).max(0);
    *e.tok.entry(p.base_vault).or_default() -= burn;
    *e.supply.entry(p.base_mint).or_default() -= burn;
    e.class = (burn > 0) as u64 | ((qf > 0) as u64) << 1 | (cfg.fixed_supply as u64) << 2;
    e.pools.insert(pk, n);
    e.d1.insert(c.k(1), dm);
    Ok(e)
}
fn d1_lp(c: &Ctx, lock: bool) -> J {
    let mut e = c.start(if lock { "owowrwowwrrrrrrrr"} else { "owwrwwosr" })?;
    let pk = c.k(0);
    let p = c.pool(0)?;
    let Some(m) = d1meta(c.pre, &c.k(1)) else { no!("accounts", "not a migration metadata account") };
    need!(m.virtual_pool == pk, "accounts", "metadata of another pool");
    c.pa(2)?;
    let (lp_mint, owner) = if lock { (c.k(4), c.k(6)) } else { (c.k(3), c.k(6)) };
    need!(m.lp_mint == lp_mint, "accounts", "LP mint");
    need!(p.progress == 3, "progress", "pool not migrated");
    let is_p = owner == m.partner;
    let is_c = owner == p.creator;
    need!(is_p || is_c, "auth", "owner is neither partner nor creator");
    let (pl, cl, pd, cd) = if lock {
        (m.partner_locked, m.creator_locked, m.partner_locked_status, m.creator_locked_status)
    } else {
        (m.partner_liq, m.creator_liq, m.partner_claim_status, m.creator_claim_status)
    };
    let amt = (if is_p { pl } else { 0 }) as u128 + (if is_c { cl } else { 0 }) as u128;
    need!(!(is_p && pd != 0) && !(is_c && cd != 0), "twice", "LP already distributed");
    need!(amt != 0, "amount", "no LP to distribute");
    let amt = amt as u64;
    let mut n = m.clone();
    if lock {
        if is_p {
            n.partner_locked_status = 1;
        }
        if is_c {
            n.creator_locked_status = 1;
        }
    } else {
        if is_p {
            n.partner_claim_status = 1;
        }
        if is_c {
            n.creator_claim_status = 1;
        }
    }
    if lock {
        let (le, src, esc) = (c.k(5), c.k(7), c.k(8));
        let Some((lpool, lowner, _)) = c.pre.get(&le).and_then(|a| d1_lock_view(a)) else {
            no!("accounts", "not a lock escrow")
        };
        need!(lpool == c.k(3) && lowner == owner, "auth", "lock escrow of someone else");
        c.eq(9, &DAMM1, "AMM program")?;
        c.eq(16, &TOKEN, "token program")?;
        need!(tok(c.pre, &src).map(|t| t.mint == lp_mint && t.owner == pool_authority()).unwrap_or(false), "accounts", "LP source");
        need!(esc == ata(&le, &lp_mint, &TOKEN), "accounts", "escrow vault");
        match tok(c.pre, &esc) {
            Some(t) if t.mint == lp_mint => {}
            _ => no!("token", "escrow vault missing"),
        }
        e.mv(src, esc, amt);
        e.third = true;
        let before = c.pre.get(&le).and_then(|a| d1_lock_view(a)).map(|v| v.2).unwrap_or(0);
        e.post.push(Box::new(move |db| {
            let now = db.get(&le).and_then(|a| d1_lock_view(a)).map(|v| v.2).unwrap_or(0);
            if now != before + amt {
                Some(("lp", format!("locked {} instead of {}", now - before.min(now), amt)))
            } else {
                None
            }
        }));
    } else {
        let (src, dst) = (c.k(4), c.k(5));
        need!(src == ata(&pool_authority(), &lp_mint, &TOKEN), "accounts", "LP source");
        c.eq(8, &TOKEN, "token program")?;
        need!(dst == ata(&owner, &lp_mint, &TOKEN), "auth", "LP not paid to its owner");
        match tok(c.pre, &dst) {
            Some(t) if t.owner == owner && t.mint == lp_mint => {}
            _ => no!("auth", "LP destination not owned by the owner"),
        }
        e.mv(src, dst, amt);
    }
    if c.height() > 1 {
        e.soft("cpi");
    }
    e.class = is_p as u64 | (is_c as u64) << 1;
    e.d1.insert(c.k(1), n);
    Ok(e)
}

// ------------------------------------------------------------------ DAMM v2 migration
type Vst = Vec<(Option<u64>, u64, u128, u128, u16)>;
fn position_check(e: &mut Exp, pos: Pubkey, acc: Pubkey, s: &Share, owner: Pubkey, nft: Pubkey, dpool: Pubkey, ts: u64) -> Result<(), Fact> {
    let vest: Vst = if s.vested > 0 {
        let v = md(model::vest_plan(&s.vest, s.vested, ts), "lp")?;
        vec![(Some(v.cliff_point), v.freq, v.cliff_amount, v.per_period, v.periods)]
    } else {
        vec![]
    };
    let s = s.clone();
    e.post.push(Box::new(move |db| {
        let Some(v) = db.get(&pos).and_then(|a| d2_pos_view(a)) else {
            return Some(("lp", "position missing".into()));
        };
        if (v.unlocked, v.permanent, v.vested) != (s.unlocked, s.perm, s.vested) {
            return Some((
                "lp",
                format!(
                    "position unlocked/permanent/vested {:?} instead of {:?}",
                    (v.unlocked, v.permanent, v.vested),
                    (s.unlocked, s.perm, s.vested)
                ),
            ));
        }
        if v.vestings != vest {
            return Some(("lp", format!("vesting {:?} instead of {:?}", v.vestings, vest)));
        }
        if v.pool != dpool || v.nft != nft {
            return Some(("lp", "position of another pool".into()));
        }
        match tok(db, &acc) {
            Some(t) if t.owner == owner && t.mint == nft && t.amount == 1 && t.close_auth.is_none() => None,
            t => Some(("lp", format!("position NFT {:?} instead of owner {}", t, owner))),
        }
    }));
    Ok(())
}
fn custom_params(cfg: &Config, liquidity: u128, sqrt: u128) -> Vec<u8> {
    let mut w = W(vec![149, 82, 72, 197, 253, 252, 68, 15]);
    let cliff = cfg.m_bps as u64 * 100_000;
    // 27-byte base fee blob
    let mut base = vec![];
    base.extend(cliff.to_le_bytes());
    let (np, step, exp, red) = (
        u16_at(&cfg.m_fee_bytes, 0),
        u16_at(&cfg.m_fee_bytes, 2),
        u32_at(&cfg.m_fee_bytes, 4),
        u64_at(&cfg.m_fee_bytes, 8),
    );
    match cfg.m_base_mode {
        3 | 4 => {
            // market cap scheduler: cliff, periods u16, step u32?, expiry, reduction, mode
            base.extend(np.to_le_bytes());
            base.extend((step as u32).to_le_bytes());
            base.extend(exp.to_le_bytes());
            base.extend(red.to_le_bytes());
        }
        _ => base.extend([0u8; 18]),
    }
    base.push(cfg.m_base_mode);
    w.0.extend(&base);
    w = w.u16(cfg.compounding_bps).u8(0);
    if cfg.m_dynamic == 1 {
        let min_base: model::B = model::b(min_mig_base_fee(cfg));
        // variable fee control such that the maximum variable fee is 20% of the base fee
        let max_dyn: model::B = min_base * model::b(20u8) / model::b(100u8);
        let scaled: model::B = max_dyn * model::b(100_000_000_000u64) - model::b(99_999_999_999u64);
        let sq: model::B = model::b(14_460_000u64) * model::b(14_460_000u64);
        let vfc: model::B = scaled / sq;
        let vfc = num_traits::ToPrimitive::to_u32(&vfc).unwrap_or(u32::MAX);
        w = w
            .u8(1)
            .u16(1)
            .u128(1844674407370955)
            .u16(10)
            .u16(120)
            .u16(5000)
            .u32(14_460_000)
            .u32(vfc);
    } else {
        w = w.u8(0);
    }
    let collect = match cfg.m_collect {
        0 => 1,
        1 => 0,
        _ => 2,
    };
    w.u128(MIN_SQRT).u128(MAX_SQRT).u8(0).u128(liquidity).u128(sqrt).u8(1).u8(collect).u8(0).0
}
fn min_mig_base_fee(cfg: &Config) -> u64 {
    let cliff = cfg.m_bps as u64 * 100_000;
    let np = u16_at(&cfg.m_fee_bytes, 0) as u64;
    let red = u64_at(&cfg.m_fee_bytes, 8);
    match cfg.m_base_mode {
        3 => cliff.saturating_sub(red.saturating_mul(np)),
        4 => model::decay(cliff, red, np).unwrap_or(0),
        _ => cliff,
    }
}
fn migrate_v2(c: &Ctx) -> J {
    let mut e = c.start("worowbwwooorrwwwwwwbrrrrrr")?;
    let pk = c.k(0);
    let p = c.pool(0)?;
    let cfg = c.config(2)?;
    c.eq(2, &p.config, "config")?;
    c.pa(3)?;
    c.eq(17, &p.base_vault, "base vault")?;
    c.eq(18, &p.quote_vault, "quote vault")?;
    c.eq(13, &p.base_mint, "base mint")?;
    c.eq(14, &cfg.quote_mint, "quote mint")?;
    c.eq(12, &DAMM2, "AMM program")?;
    c.token_program(20, &p.base_mint)?;
    c.token_program(21, &cfg.quote_mint)?;
    let second = c.k(8) != DBC;
    if second {
        need!(c.signed(&c.k(8)), "auth", "second position mint must sign");
        need!(c.k(8) != c.k(5), "accounts", "same mint for both positions");
    }
    let dc = c.k(25);
    let Some(a) = c.pre.get(&dc) else { no!("amm-config", "no AMM config") };
    let want_len = 8 + std::mem::size_of::<damm_v2::accounts::Config>();
    need!(a.owner == DAMM2 && a.data.len() >= want_len && a.data[..8] == [155, 12, 170, 224, 30, 250, 204, 130], "amm-config", "not an AMM config");
    let v = d2_config_view(a);
    need!(v.authority == pool_authority(), "amm-config", "AMM config is not reserved for this program");
    if cfg.migration_fee_option != 6 {
        need!(v.mode <= 1 && v.no_schedule, "amm-config", "AMM config has a fee schedule");
        need!(Some(v.cliff) == bps_of(cfg.migration_fee_option).map(|x| x * 100_000), "amm-config", "AMM fee {} for option {}", v.cliff, cfg.migration_fee_option);
        need!(v.range == (MIN_SQRT, MAX_SQRT), "amm-config", "AMM price range");
        need!(v.vault == Pubkey::default() && v.activation == 1, "amm-config", "AMM activation");
    }
    need!(p.progress == 2, "progress", "migration at progress {}", p.progress);
    need!(p.quote_reserve >= cfg.threshold, "progress", "curve not complete");
    need!(cfg.migration_option == 1, "option", "pool does not migrate to DAMM v2");
    c.payer(&mut e, 19);
    e.third = true;
    if !c.canonical(&d2_migrate(&crate::run::pool_ref(c.pre, &pk).unwrap(), dc, c.k(19), second)) {
        e.soft("other AMM accounts");
    }
    if c.height() > 1 {
        e.soft("cpi");
    }
    let cp = model::is_cp(1, cfg.m_collect);
    let have = bal(c.pre, &p.base_vault) as i128 - p.base_fees() as i128;
    need!(have >= if cp { cfg.base_threshold as i128 } else { 0 }, "vault", "base vault too small for migration");
    let base_in = if cp { cfg.base_threshold } else { have as u64 };
    let (q, _) = model::migration_quote(cfg.threshold, cfg.mig_fee_pct);
    let (bf, qf) = md(model::protocol_migration_fee(base_in, q, p.mig_bps, cfg.mig_sqrt, cp), "amount")?;
    need!(bf <= base_in, "amount", "protocol base fee above deposit");
    let (da, dq) = (base_in - bf, q - qf);
    let conc = |a: u64, q: u64| -> Result<u128, Fact> {
        let lq = md(model::liq_from_quote(q, cfg.mig_sqrt), "amount")?;
        let lb = model::liq_from_base(a, cfg.mig_sqrt);
        Ok(if lb > model::b(lq) { lq } else { num_traits::ToPrimitive::to_u128(&lb).unwrap() })
    };
    let (sqrt, l, dead) = if cp {
        let (s, l) = md(model::compounding_initial(da, dq), "amount")?;
        need!(l > model::DEAD, "amount", "below dead liquidity");
        (s, l - model::DEAD, model::DEAD)
    } else {
        (cfg.mig_sqrt, conc(da, dq)?, 0)
    };
    let (ps, cs) = model::lp_shares(&cfg, l);
    let partner_first = ps.total() > cs.total();
    let (first, second_share, o1, o2) =
        if partner_first { (ps, cs, cfg.fee_claimer, p.creator) } else { (cs, ps, p.creator, cfg.fee_claimer) };
    if first.total() < 1_000_000 || da == 0 || dq == 0 {
        e.soft("dust migration");
    }
    let mut n = p.clone();
    n.mig_base_fee = bf;
    n.mig_quote_fee = qf;
    n.is_migrated = 1;
    n.progress = 3;
    let dpool = c.k(4);
    let custom = cfg.migration_fee_option == 6;
    let d_init: &[u8] = if custom { &[149, 82, 72, 197, 253, 252, 68, 15] } else { &[95, 180, 10, 172, 84, 174, 232, 40] };
    let want_init = if custom {
        custom_params(&cfg, first.total() + dead, sqrt)
    } else {
        W(d_init.to_vec()).u128(first.total() + dead).u128(sqrt).u8(0).0
    };
    let inits = c.child_pos(&DAMM2, d_init);
    let adds = c.child_pos(&DAMM2, &[181, 157, 89, 67, 143, 182, 52, 72]);
    let [j] = inits[..] else {
        let cnt = inits.len();
        e.post.push(Box::new(move |_| Some(("amount", format!("{} AMM pools of the promised kind created", cnt)))));
        e.unknown = true;
        return Ok(e);
    };
    let got = c.tr[j].ix.data.clone();
    let kind: &'static str = "amount";
    e.post.push(Box::new(move |_| {
        if got != want_init {
            let same = got.len() == want_init.len();
            let tail = |d: &[u8]| d.len().saturating_sub(if custom { 35 } else { 33 });
            let asp = if custom && same && got[..tail(&got)] != want_init[..tail(&want_init)] { "amm-params" } else { kind };
            return Some((asp, format!("AMM pool created with {} instead of {}", crate::sim::hex(&got), crate::sim::hex(&want_init))));
        }
        None
    }));
    let mut dep = (0u64, 0u64);
    for (f, t, a) in c.transfers_below(j) {
        if f == p.base_vault {
            dep.0 += a;
        } else if f == p.quote_vault {
            dep.1 += a;
        }
        e.mv(f, t, a);
    }
    need!(dep.0 <= da && dep.1 <= dq, "amount", "AMM took ({}, {}) of ({}, {})", dep.0, dep.1, da, dq);
    let (la, lq) = (da - dep.0, dq - dep.1);
    let l2 = if cp {
        let lt = model::b(first.total() + dead);
        let f = |left: u64, res: u64| -> model::B {
            if res == 0 {
                return model::b(0u8);
            }
            model::b(left) * &lt / model::b(res)
        };
        num_traits::ToPrimitive::to_u128(&f(la, dep.0).min(f(lq, dep.1))).unwrap_or(u128::MAX)
    } else {
        conc(la, lq)?
    };
    position_check(&mut e, c.k(7), c.k(6), &first, o1, c.k(5), dpool, c.ts)?;
    if l2 > 0 {
        need!(second, "accounts", "second position needed");
        let s2 = second_share.adjust(l2);
        position_check(&mut e, c.k(10), c.k(9), &s2, o2, c.k(8), dpool, c.ts)?;
        for j in &adds {
            for (f, t, a) in c.transfers_below(*j) {
                e.mv(f, t, a);
            }
        }
    } else if !adds.is_empty() {
        e.post.push(Box::new(|_| Some(("lp", "unexpected second position".into()))));
    }
    // conservation towards the AMM: never more than the two migration amounts
    let tot = |v: &Pubkey| e.tok.get(v).copied().unwrap_or(0);
    let (ta, tq) = (-tot(&p.base_vault), -tot(&p.quote_vault));
    if ta > da as i128 || tq > dq as i128 {
        e.post.push(Box::new(move |_| Some(("amount", format!("AMM received ({}, {}) of ({}, {})", ta, tq, da, dq)))));
    }
    let after = bal(c.pre, &p.base_vault) as i128 - ta;
    let burn = burn_amount(&cfg, after, &n).max(0);
    *e.tok.entry(p.base_vault).or_default() -= burn;
    *e.supply.entry(p.base_mint).or_default() -= burn;
    let (ca, act) = (if cfg.m_collect == 2 { 2u8 } else { 9 }, 1u8);
    let (bm, qm) = (p.base_mint, cfg.quote_mint);
    e.post.push(Box::new(move |db| {
        let Some(v) = db.get(&dpool).and_then(|a| d2_pool_view(a)) else {
            return Some(("amount", "AMM pool missing".into()));
        };
        if v.a_mint != bm || v.b_mint != qm || v.activation_type != act || v.sqrt_price != sqrt || (custom && ca == 2 && v.collect != 2) {
            return Some(("amount", "AMM pool has the wrong mints, price or activation".into()));
        }
        None
    }));
    e.class = (burn > 0) as u64
        | ((l2 > 0) as u64) << 1
        | (custom as u64) << 2
        | (cp as u64) << 3
        | (partner_first as u64) << 4
        | ((first.vested > 0) as u64) << 5
        | ((first.perm > 0) as u64) << 6
        | (cfg.m_base_mode as u64) << 7
        | (cfg.m_dynamic as u64) << 10;
    e.pools.insert(pk, n);
    Ok(e)
}

// ------------------------------------------------------------------ dispatch
pub fn judge(c: &Ctx, name: &str) -> J {
    match name {
        "create_config" => create_cfg(c),
        "initialize_virtual_pool_with_spl_token" => init_pool(c, false),
        "initialize_virtual_pool_with_token2022" => init_pool(c, true),
        "swap" => swap(c, false),
        "swap2" => swap(c, true),
        "claim_trading_fee" => claim_fees(c, false),
        "claim_creator_trading_fee" => claim_fees(c, true),
        "claim_protocol_fee" => claim_protocol(c),
        "partner_withdraw_surplus" => surplus(c, true),
        "creator_withdraw_surplus" => surplus(c, false),
        "withdraw_migration_fee" => withdraw_migration_fee(c),
        "withdraw_leftover" => withdraw_leftover(c),
        "claim_partner_pool_creation_fee" => partner_creation_fee(c),
        "claim_protocol_pool_creation_fee" => protocol_creation_fee(c),
        "zap_protocol_fee" => zap(c),
        "transfer_pool_creator" => transfer_creator(c),
        "create_virtual_pool_metadata" => pool_meta(c),
        "create_partner_metadata" => partner_meta(c),
        "create_operator_account" => create_op(c),
        "close_operator_account" => close_op(c),
        "close_claim_protocol_fee_operator" => close_old_op(c),
        "create_locker" => create_locker(c),
        "migration_meteora_damm_create_metadata" => d1_meta(c),
        // retired: still answers, touches nothing
        "migration_damm_v2_create_metadata" => {
            let mut e = c.start("ooooo")?;
            c.events_at(&mut e, 5)?;
            Ok(e)
        }
        "migrate_meteora_damm" => migrate_v1(c),
        "migrate_meteora_damm_lock_lp_token" => d1_lp(c, true),
        "migrate_meteora_damm_claim_lp_token" => d1_lp(c, false),
        "migration_damm_v2" => migrate_v2(c),
        _ => {
            let mut e = Exp { must: true, unknown: true, ..Default::default() };
            e.soft("not modelled");
            Ok(e)
        }
    }
}

/// Properties contradicted by a mismatch of this kind and aspect.
pub fn props(kind: &str, aspect: &str) -> Vec<&'static str> {
    let mut p: Vec<&'static str> = vec![];
    let group = match kind {
        "swap" | "swap2" => "swap",
        "claim_trading_fee" | "claim_creator_trading_fee" | "claim_protocol_fee" => "claim",
        "partner_withdraw_surplus" | "creator_withdraw_surplus" | "withdraw_migration_fee" | "withdraw_leftover" => "once",
        "claim_partner_pool_creation_fee" | "claim_protocol_pool_creation_fee" => "creation",
        "migrate_meteora_damm" | "migration_damm_v2" => "migrate",
        "migrate_meteora_damm_lock_lp_token" | "migrate_meteora_damm_claim_lp_token" => "lp",
        "initialize_virtual_pool_with_spl_token" | "initialize_virtual_pool_with_token2022" => "init",
        "create_virtual_pool_metadata" | "create_partner_metadata" => "record",
        "create_operator_account" | "close_operator_account" | "close_claim_protocol_fee_operator" => "operator",
        k => k,
    };
    let base: &[&'static str] = match (group, aspect) {
        ("swap", "slippage" | "mode") => &["C05"],
        ("swap", "single-swap") => &["C15"],
        ("swap", "completed" | "progress") => &["C09"],
        ("swap", "migration-base") => &["C01", "C11"],
        ("swap", "fees") => &["C03", "C06", "C07"],
        ("swap", "vol") => &["C06"],
        ("swap", "state") => &["C03", "C01"],
        ("swap", "tokens") => &["C03", "C02", "C01", "C06", "C07", "C05"],
        ("swap", "extract") => &["C04", "C01", "C03", "C02"],
        ("swap", "vault") => &["C01"],
        ("swap", "first-min") => &["C15", "C06"],
        ("swap", "accept") => &["C03", "C05"],
        ("swap", "lifecycle") => &["C09"],
        ("swap", _) => &["C03"],
        ("claim", "perm") => &["C21", "C08"],
        ("claim", "tokens") => &["C07", "C02", "C01"],
        ("claim", "flags") => &["C10", "C07"],
        ("claim", "lifecycle" | "early") => &["C09", "C07"],
        ("claim", _) => &["C07"],
        ("once", "early" | "lifecycle") => &["C10", "C09"],
        ("once", "tokens") => &["C10", "C02", "C01"],
        ("once", _) => &["C10"],
        ("creation", "perm") => &["C16", "C21", "C08"],
        ("creation", _) => &["C16"],
        ("zap_protocol_fee", "tokens") => &["C21", "C07", "C02", "C01"],
        ("zap_protocol_fee", "fees") => &["C21", "C07"],
        ("zap_protocol_fee", "lifecycle" | "early") => &["C09", "C21"],
        ("zap_protocol_fee", "flags") => &["C10", "C21"],
        ("zap_protocol_fee", "perm") => &["C21", "C08"],
        ("zap_protocol_fee", _) => &["C21"],
        ("transfer_pool_creator", "early") => &["C22", "C09"],
        ("transfer_pool_creator", _) => &["C22"],
        ("record", _) => &["C14"],
        ("operator", _) => &["C21"],
        ("create_locker", "progress" | "lifecycle") => &["C09", "C13"],
        ("create_locker", "tokens") => &["C13", "C02", "C01"],
        ("create_locker", _) => &["C13"],
        ("migrate", "progress" | "option" | "lifecycle") => &["C09"],
        ("migrate", "lp") => &["C12"],
        ("migrate", "amount" | "amm-params" | "amm-config") => &["C11"],
        ("migrate", "supply") => &["C02", "C11"],
        ("migrate", "tokens") => &["C11", "C02", "C01"],
        ("migrate", "fees") => &["C11", "C07"],
        ("migrate", _) => &["C11", "C09"],
        ("lp", "progress") => &["C12", "C09"],
        ("lp", _) => &["C12"],
        ("migration_damm_v2_create_metadata", _) => &["C24"],
        ("migration_meteora_damm_create_metadata", _) => &["C12", "C09"],
        ("create_config", _) => &["C17"],
        ("init", "supply") => &["C02", "C17"],
        ("init", "mint-auth") => &["C14", "C02"],
        ("init", "mint") => &["C14"],
        ("init", "lamports") => &["C16"],
        ("init", "pool" | "config") => &["C17", "C16"],
        ("init", "fee") => &["C17", "C06"],
        ("init", _) => &["C17", "C14"],
        _ => &[],
    };
    p.extend(base);
    let extra: &[&'static str] = match aspect {
        "auth" | "accounts" => &["C08"],
        "token" => &["C02", "C08"],
        "event" => &["C19"],
        "other-account" => &["C20", "C08"],
        "other-token" => &["C20", "C08", "C02", "C01"],
        "accept" => &["C24"],
        "authority" => &["C23"],
        "lamports" => &["C16", "C23"],
        "supply" => &["C02"],
        "twice" => &["C10"],
        _ => &[],
    };
    for x in extra {
        if aspect == "twice" && group != "once" {
            continue;
        }
        if !p.contains(x) {
            p.push(x);
        }
    }
    p
}

/// Refinement of [`props`] by what exactly went wrong.
fn refine(kind: &str, aspect: &'static str, what: &str, err: Option<&TxErr>, p: &mut Vec<&'static str>) {
    let mut put = |xs: &[&'static str]| {
        for x in xs {
            if !p.contains(x) {
                p.push(x);
            }
        }
    };
    if aspect == "accept" {
        match kind {
            "swap" | "swap2" | "create_locker" | "migrate_meteora_damm" | "migration_damm_v2" | "migration_meteora_damm_create_metadata"
            | "initialize_virtual_pool_with_spl_token" | "initialize_virtual_pool_with_token2022" => put(&["C17"]),
            _ => {}
        }
        // a legitimate transfer out of the pool that ran out of tokens
        if matches!(err, Some(TxErr::Program(_, p, solana_program::program_error::ProgramError::Custom(1))) if *p == TOKEN || *p == TOKEN22)
            && !matches!(kind, "initialize_virtual_pool_with_spl_token" | "initialize_virtual_pool_with_token2022")
        {
            put(&["C01"]);
        }
    }
    if kind == "create_config" && (aspect == "config" || what.contains("must be refused")) {
        // which guarantee the wrong parameter would undermine
        let t: &[(&[&str], &[&'static str])] = &[
            (&["fee out of bounds", "fee mode", "dynamic fee params", "partial scheduler", "cliff_fee", "fee_first", "fee_second", "fee_third", "fee_mode", "dyn_"], &["C06"]),
            (&["rate limiter"], &["C06", "C15"]),
            (&["first_swap_min"], &["C15"]),
            (&["creator fee pct", "creator_fee_pct", "collect_fee_mode"], &["C07"]),
            (&["migration fee pct", "mig_fee_pct", "creator_fee_pct", "threshold:"], &["C10"]),
            (
                &[
                    "migrated pool fee", "compounding", "market cap", "base fee mode", "migration price", "no base", "damm v1 constraints",
                    "base_threshold", "mig_sqrt", "migration_fee_option", "migration_option", "m_collect", "m_dynamic", "m_bps", "m_base_mode",
                    "m_fee_bytes", "mig_fee_pct",
                ],
                &["C11"],
            ),
            (&["empty vesting", "vesting without", "vesting too", "vesting bps", "vesting above", "liquidity shares", "not enough locked", "damm v1 has no", "_perm", "_liq", "partner_vest", "creator_vest"], &["C12"]),
            (&["locked vesting", "v_amount", "v_cliff", "v_freq", "v_periods"], &["C13"]),
            (&["token options", "token_decimal", "token_update_authority", "token_type"], &["C14"]),
            (&["creation fee", "creation_fee"], &["C16"]),
            (&["refused: curve", "curve:", "start_sqrt", "threshold:", "refused: threshold", "mig_sqrt", "swap_base_amount"], &["C03"]),
            (&["token supply", "leftover receiver", "quote mint unsupported", "pre_supply", "post_supply", "fixed_supply", "swap_base_amount"], &["C02"]),
        ];
        for (keys, ps) in t {
            if keys.iter().any(|k| what.contains(k)) {
                put(ps);
            }
        }
    }
}

/// Check every instruction of the program under test in one executed transaction.
pub fn check_tx(spec: &TxSpec, out: &TxOut, zaps: &[ZapCall], viols: &mut Vec<Viol>, seen: &mut Vec<Seen>) {
    for (i, t) in out.trace.iter().enumerate() {
        let Some(pre) = &t.pre else { continue };
        let Some(name) = dbc_name(&t.ix.data) else {
            seen.push(Seen { kind: "?", outcome: "skipped", class: 0 });
            continue;
        };
        let c = Ctx { pre, tr: &out.trace, i, ix: &t.ix, slot: out.slot, ts: out.ts as u64, spec, zaps };
        let v = judge(&c, name);
        let mut add = |aspect: &'static str, what: String| {
            let mut p = props(name, aspect);
            refine(name, aspect, &what, out.err.as_ref(), &mut p);
            viols.push(Viol { kind: name.into(), aspect, props: p, what });
        };
        let misb = out.misbehaved > 0;
        match (&v, &t.post) {
            (Err(("?", _)), _) => seen.push(Seen { kind: name, outcome: "unknown", class: 0 }),
            (Err((a, why)), Some(_)) => {
                if *a == "?" {
                    continue;
                }
                add(a, format!("{} was accepted although it must be refused: {}", name, why));
            }
            (Err((a, _)), None) => {
                let mut h = 0u64;
                for b in a.bytes() {
                    h = h.wrapping_mul(31).wrapping_add(b as u64);
                }
                seen.push(Seen { kind: name, outcome: "refused", class: h & 0xffff });
            }
            (Ok(e), None) => {
                seen.push(Seen { kind: name, outcome: "failed", class: 0 });
                let blame = matches!(&out.err, Some(_)) && !spec.injected();
                if e.must && blame && own_failure(out, i) {
                    add(
                        "accept",
                        format!("{} must succeed but failed: {}", name, out.err.as_ref().map(|x| x.short()).unwrap_or_default()),
                    );
                }
            }
            (Ok(e), Some(post)) => {
                seen.push(Seen { kind: name, outcome: "ok", class: e.class });
                if misb && spec.misbehave & 15 >= 2 {
                    let hit = t.pre.is_some();
                    if hit && authority_damaged(pre, post) {
                        add("authority", "a third party re-assigned or resized the pool authority and was accepted".into());
                        continue;
                    }
                }
                if !e.unknown {
                    diff(&c, e, post, misb, &mut add);
                } else {
                    for f in &e.post {
                        if let Some((a, s)) = f(post) {
                            add(a, s);
                        }
                    }
                }
            }
        }
    }
}
/// The failing instruction is the last one entered: anything after it never ran, and an
/// enclosing foreign program cannot be the cause if nothing followed.
fn own_failure(out: &TxOut, i: usize) -> bool {
    if matches!(out.err, Some(TxErr::Aborted(_))) {
        return false;
    }
    // no later instruction outside i's subtree
    out.trace.iter().enumerate().skip(i + 1).all(|(j, _)| {
        let mut p = Some(j);
        while let Some(x) = p {
            if x == i {
                return true;
            }
            p = out.trace[x].parent;
        }
        false
    }) && !matches!(out.err, Some(TxErr::Runtime(_, "InsufficientFundsForRent")) | Some(TxErr::Runtime(_, "UnbalancedInstruction")))
}
fn authority_damaged(pre: &Db, post: &Db) -> bool {
    let k = pool_authority();
    match (pre.get(&k), post.get(&k)) {
        (Some(a), Some(b)) => a.owner != b.owner || a.data != b.data,
        _ => true,
    }
}

fn third_party(o: &Pubkey) -> bool {
    matches!(*o, METAPLEX | DAMM1 | DAMM2 | LOCKER)
}

fn diff(c: &Ctx, e: &Exp, post: &Db, misb: bool, add: &mut dyn FnMut(&'static str, String)) {
    let pre = c.pre;
    let mut keys: BTreeSet<Pubkey> = BTreeSet::new();
    for (k, a) in post.iter() {
        match pre.get(k) {
            Some(b) if Rc::ptr_eq(a, b) || a == b => {}
            _ => {
                keys.insert(*k);
            }
        }
    }
    for k in pre.keys() {
        if !post.contains_key(k) {
            keys.insert(*k);
        }
    }
    keys.extend(e.tok.keys());
    keys.extend(e.lam.keys());
    keys.extend(e.pools.keys());
    keys.extend(e.d1.keys());
    keys.extend(e.supply.keys());
    keys.extend(e.created.keys());
    keys.extend(e.closed.iter());
    keys.remove(&IXSYSVAR);
    let pa = pool_authority();
    let thief = key("thief");
    let mut created_cost: i128 = 0;
    let live = |d: &Db, k: &Pubkey| d.get(k).filter(|a| a.lamports > 0 || !a.data.is_empty()).cloned();
    let swapk = matches!(dbc_name(&c.ix.data), Some("swap") | Some("swap2"));
    for k in &keys {
        let (a, b) = (live(pre, k), live(post, k));
        let lam_d = b.as_ref().map(|x| x.lamports as i128).unwrap_or(0) - a.as_ref().map(|x| x.lamports as i128).unwrap_or(0);
        let lam_e = e.lam.get(k).copied().unwrap_or(0);
        if *k == pa {
            match (&a, &b) {
                (Some(x), Some(y)) => {
                    if y.lamports < x.lamports {
                        add("authority", format!("pool authority lost {} lamports", x.lamports - y.lamports));
                    }
                    if y.owner != x.owner || y.data != x.data {
                        add("authority", "pool authority account changed".into());
                    }
                }
                (Some(_), None) => add("authority", "pool authority emptied".into()),
                _ => {}
            }
            continue;
        }
        if e.closed.contains(k) {
            if b.as_ref().map(|x| x.lamports > 0 || x.owner == DBC && x.data.iter().any(|z| *z != 0)).unwrap_or(false)
                && Some(k) != e.lam.keys().next()
            {
                add("record", format!("{} not closed", k));
            }
            continue;
        }
        let was_empty = a.as_ref().map(|x| x.data.is_empty() && x.owner == SYSTEM).unwrap_or(true);
        let now_data = b.as_ref().map(|x| !(x.data.is_empty() && x.owner == SYSTEM)).unwrap_or(false);
        if was_empty && now_data {
            let y = b.as_ref().unwrap();
            let have = a.as_ref().map(|x| x.lamports).unwrap_or(0);
            match e.created.get(k) {
                Some(f) => {
                    if let Some((asp, s)) = f(y) {
                        add(asp, format!("created {}: {}", k, s));
                    }
                }
                None => {
                    let fine = e.third && (third_party(&y.owner) || ((y.owner == TOKEN || y.owner == TOKEN22) && !y.data.is_empty()));
                    if !fine {
                        add("other-account", format!("unexpected new account {} owned by {}", k, y.owner));
                    }
                }
            }
            if !third_party(&y.owner) && !e.third {
                let want = (have.max(rent_min(y.data.len()))) as i128 + lam_e;
                if y.lamports as i128 != want {
                    add("lamports", format!("new account {} holds {} lamports, expected {}", k, y.lamports, want));
                }
            }
            created_cost += lam_d - lam_e;
            if let Some(t) = Tok::parse(y) {
                if t.mint == WSOL {
                    created_cost -= t.amount as i128 - have.saturating_sub(rent_min(y.data.len())) as i128;
                }
            }
            // token deltas into accounts created here are judged by their checkers
            if let (Some(t), Some(want)) = (Tok::parse(y), e.tok.get(k)) {
                if t.amount as i128 != *want {
                    add("tokens", format!("{} received {} instead of {}", k, t.amount, want));
                }
            }
            continue;
        }
        if e.created.contains_key(k) {
            add("record", format!("{} was not created", k));
            continue;
        }
        let (Some(x), Some(y)) = (&a, &b) else {
            match (&a, &b) {
                (None, Some(_)) => {
                    // plain lamports to a fresh wallet
                    if lam_d != lam_e && !(misb && *k == thief) {
                        add("lamports", format!("{} received {} lamports instead of {}", k, lam_d, lam_e));
                    }
                }
                (Some(x), None) => {
                    if Some(*k) == e.payer || (lam_d == lam_e && x.owner == SYSTEM) {
                    } else {
                        add("other-account", format!("account {} disappeared", k));
                    }
                }
                _ => {
                    if e.tok.get(k).map(|d| *d != 0).unwrap_or(false) {
                        add("tokens", format!("{} does not exist but should move {}", k, e.tok[k]));
                    }
                }
            }
            continue;
        };
        if x.owner == DBC {
            if y.owner != DBC {
                add("other-account", format!("{} re-assigned", k));
                continue;
            }
            if lam_d != lam_e {
                add("lamports", format!("{} changed by {} lamports, expected {}", k, lam_d, lam_e));
            }
            if let Some(want) = e.pools.get(k) {
                match Pool::parse(&y.data) {
                    Some(got) => {
                        pool_diff(swapk, want, &got, add);
                        if let (true, Some(was)) = (got != *want, Pool::parse(&x.data)) {
                            let fee = |p: &Pool| p.protocol_base as u128 + p.protocol_quote as u128;
                            for (pk, asp, next, protocol) in &e.alt {
                                if pk == k && got.sqrt_price == *next && fee(&got).wrapping_sub(fee(&was)) == *protocol as u128 {
                                    add(asp, format!("first swap fee of pool {} given or withheld wrongly", k));
                                }
                            }
                        }
                    }
                    None => add("state", "pool unreadable".into()),
                }
            } else if let Some(want) = e.d1.get(k) {
                match d1meta(post, k) {
                    Some(got) if got == *want => {}
                    got => add("lp", format!("migration metadata {}", dbg_diff(&format!("{:?}", Some(want)), &format!("{:?}", got)))),
                }
            } else if x.data != y.data {
                add("other-account", format!("program account {} changed", k));
            }
            continue;
        }
        if let (Some(t), Some(u)) = (Tok::parse(x), Tok::parse(y)) {
            let want = e.tok.get(k).copied().unwrap_or(0);
            let got = u.amount as i128 - t.amount as i128;
            if got != want {
                let expected = e.tok.contains_key(k);
                let asp = if !expected {
                    "other-token"
                } else if swapk && got > want && t.owner != pa {
                    "extract"
                } else {
                    "tokens"
                };
                add(asp, format!("token account {} (owner {}) moved {} instead of {}", k, name_of(&t.owner), got, want));
            }
            let lam_want = if t.mint == WSOL { got } else { 0 } + lam_e;
            if lam_d != lam_want {
                add("lamports", format!("token account {} changed by {} lamports, expected {}", k, lam_d, lam_want));
            }
            let mut t2 = t.clone();
            t2.amount = u.amount;
            if u.delegated < t.delegated && t.delegated as i128 - u.delegated as i128 == -got {
                t2.delegated = u.delegated;
                if u.delegated == 0 {
                    t2.delegate = None;
                }
            }
            if t2 != u {
                add("other-token", format!("token account {} fields changed", k));
            }
            continue;
        }
        if let (Some(m), Some(n)) = (MintV::parse(x), MintV::parse(y)) {
            let want = e.supply.get(k).copied().unwrap_or(0);
            let got = n.supply as i128 - m.supply as i128;
            if got != want {
                add("supply", format!("supply of {} changed by {} instead of {}", k, got, want));
            }
            let mut m2 = m.clone();
            m2.supply = n.supply;
            if m2 != n {
                add("mint-auth", format!("mint {} changed", k));
            }
            if lam_d != lam_e {
                add("lamports", format!("mint {} changed by {} lamports", k, lam_d));
            }
            continue;
        }
        if third_party(&x.owner) || third_party(&y.owner) {
            if !e.third && (x.data != y.data || x.owner != y.owner || lam_d != lam_e) {
                add("other-account", format!("third-party account {} changed", k));
            }
            continue;
        }
        // wallets
        if Some(*k) == e.payer || (misb && *k == thief) {
            continue;
        }
        if x.data != y.data || x.owner != y.owner {
            add("other-account", format!("account {} changed", k));
        }
        if lam_d != lam_e {
            add("lamports", format!("wallet {} changed by {} lamports, expected {}", name_of(k), lam_d, lam_e));
        }
    }
    if let Some(p) = e.payer {
        let d = lamports(post, &p) as i128 - lamports(pre, &p) as i128;
        let want = e.lam.get(&p).copied().unwrap_or(0) - created_cost;
        if d != want && !misb {
            // repaying or topping up the pool authority is the payer's business, but is bounded
            let pa_gain = lamports(post, &pa) as i128 - lamports(pre, &pa) as i128;
            if d != want - pa_gain {
                add("lamports", format!("payer changed by {} lamports, expected {}", d, want));
            }
        }
    }
    // events
    let mut got: Vec<Vec<u8>> =
        c.children().filter(|t| t.ix.program_id == DBC && is_event_ix(&t.ix.data)).map(|t| t.ix.data[8..].to_vec()).collect();
    let mut want = e.events.clone();
    got.sort();
    want.sort();
    if got != want {
        let g: Vec<&Vec<u8>> = got.iter().filter(|x| !want.contains(x)).collect();
        let w: Vec<&Vec<u8>> = want.iter().filter(|x| !got.contains(x)).collect();
        add("event", format!("events differ: got {:?} want {:?}", hexes(&g), hexes(&w)));
    }
    for f in &e.post {
        if let Some((a, s)) = f(post) {
            add(a, s);
        }
    }
}
fn hexes(v: &[&Vec<u8>]) -> Vec<String> {
    v.iter().map(|x| crate::sim::hex(x)).collect()
}

fn pool_diff(swap: bool, w: &Pool, g: &Pool, add: &mut dyn FnMut(&'static str, String)) {
    if w == g {
        return;
    }
    let mut f = |asp: &'static str, name: &str, a: String, b: String| {
        if a != b {
            add(asp, format!("pool.{} is {} instead of {}", name, b, a));
        }
    };
    macro_rules! cmp {
        ($asp:expr, $($n:ident),*) => { $( f($asp, stringify!($n), format!("{:?}", w.$n), format!("{:?}", g.$n)); )* };
    }
    cmp!("state", base_reserve, quote_reserve, sqrt_price);
    cmp!("vol", last_update, sqrt_ref, vol_acc, vol_ref);
    cmp!("fees", protocol_base, protocol_quote, partner_base, partner_quote, creator_base, creator_quote, met, mig_base_fee, mig_quote_fee, mig_bps);
    cmp!("lifecycle", progress, is_migrated, finish_ts);
    cmp!("flags", partner_surplus_done, protocol_surplus_done, creator_surplus_done, leftover_done, migration_fee_status, legacy_bits, creation_bits);
    cmp!("first-min", has_swap);
    cmp!("auth", creator, config, base_mint, base_vault, quote_vault, activation_point, pool_type);
    let _ = swap;
}
