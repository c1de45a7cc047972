//! Execution of a recorded schedule: every step is applied to the simulated chain and judged by
//! the oracles. Knows nothing about how the schedule was generated, so a replay file is executed
//! by exactly the code that found it.

use crate::abi::*;
use crate::model;
use crate::oracle::{self, Seen, Viol};
use crate::progs::*;
use crate::rt::{rent_min, Acct, Db, TxErr, TxOut};
use crate::sim::*;
use serde_json::{json, Value};
use solana_program::{instruction::Instruction, pubkey::Pubkey};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Step {
    Tx(TxSpec),
    /// liveness: from here, without faults, the pool reaches the end of its life (forked)
    Drive { pool: Pubkey, slot: u64, ts: i64, arg: u64 },
    /// what-if (forked): 0 bank run, 1 round trip, 2 everybody claims, 3 the same
    /// history without unrelated transactions, 4 alternative next swaps, 5 alternative configs
    Probe { kind: u8, pool: Pubkey, slot: u64, ts: i64, arg: u64 },
}
impl Step {
    pub fn json(&self) -> Value {
        match self {
            Step::Tx(t) => {
                let mut v = t.json();
                v["step"] = "tx".into();
                v
            }
            Step::Drive { pool, slot, ts, arg } => {
                json!({"step": "drive", "pool": pool.to_string(), "slot": slot, "ts": ts, "arg": arg})
            }
            Step::Probe { kind, pool, slot, ts, arg } => {
                json!({"step": "probe", "kind": kind, "pool": pool.to_string(), "slot": slot, "ts": ts, "arg": arg})
            }
        }
    }
    pub fn parse(v: &Value) -> Option<Step> {
        let pool = || v["pool"].as_str()?.parse().ok();
        Some(match v["step"].as_str()? {
            "tx" => Step::Tx(TxSpec::parse(v)?),
            "drive" => {
                Step::Drive { pool: pool()?, slot: v["slot"].as_u64()?, ts: v["ts"].as_i64()?, arg: v["arg"].as_u64()? }
            }
            "probe" => Step::Probe {
                kind: v["kind"].as_u64()? as u8,
                pool: pool()?,
                slot: v["slot"].as_u64()?,
                ts: v["ts"].as_i64()?,
                arg: v["arg"].as_u64()?,
            },
            _ => return None,
        })
    }
    pub fn time(&self) -> (u64, i64) {
        match self {
            Step::Tx(t) => (t.slot, t.ts),
            Step::Drive { slot, ts, .. } | Step::Probe { slot, ts, .. } => (*slot, *ts),
        }
    }
}

#[derive(Clone, Default)]
struct PoolHist {
    init: Pool,
    cfg: Option<Rc<Acct>>,
    max_progress: u8,
    complete: bool,
    frozen: Option<(u64, u64, u128)>,
    once: BTreeMap<String, u32>,
    /// paid out so far: partner base/quote, creator base/quote, protocol base/quote
    paid: [u128; 6],
    mig_fee: (u64, u64),
}

#[derive(Default, Clone)]
pub struct Cov {
    pub kinds: BTreeMap<(&'static str, &'static str), u64>,
    pub states: HashSet<u64>,
    /// distinct (kind, outcome, class)
    pub classes: HashSet<(&'static str, &'static str, u64)>,
    pub faults: BTreeMap<String, u64>,
    pub txs: u64,
    pub tx_ok: u64,
    pub slots: u64,
    pub secs: u64,
    pub runs: u64,
    pub drives: u64,
    pub drives_done: u64,
    pub probes: u64,
    pub quotes: u64,
    pub steps: u64,
    pub invariants: u64,
}
impl Cov {
    pub fn add(&mut self, o: &Cov) {
        for (k, v) in &o.kinds {
            *self.kinds.entry(*k).or_default() += v;
        }
        self.states.extend(o.states.iter());
        self.classes.extend(o.classes.iter());
        for (k, v) in &o.faults {
            *self.faults.entry(k.clone()).or_default() += v;
        }
        self.txs += o.txs;
        self.tx_ok += o.tx_ok;
        self.slots += o.slots;
        self.secs += o.secs;
        self.runs += o.runs;
        self.drives += o.drives;
        self.drives_done += o.drives_done;
        self.probes += o.probes;
        self.quotes += o.quotes;
        self.steps += o.steps;
        self.invariants += o.invariants;
    }
    pub fn fault(&mut self, k: &str) {
        *self.faults.entry(k.into()).or_default() += 1;
    }
}

pub struct Run {
    pub db: Db,
    hist: BTreeMap<Pubkey, PoolHist>,
    pub steps: Vec<Step>,
    pub viols: Vec<(usize, Viol)>,
    pub cov: Cov,
    /// running digest of everything observed (determinism witness)
    pub digest: u64,
    pub keep_steps: bool,
    pub verbose: bool,
    last: (u64, i64),
    /// transactions executed so far with their result code (None: success), for counterfactuals
    specs: Vec<(Rc<TxSpec>, Option<u32>)>,
    /// counterfactual attacks on every transaction of this (forked) run
    pub sweep: Option<crate::sweep::Sweep>,
    /// accounts an older release left behind, and whether the current transaction uses one
    pub old: BTreeSet<Pubkey>,
    pub on_old: bool,
    /// release of the client that sent the current transaction (0: today's)
    pub client: u8,
    pub drive_client: u8,
}

fn mix(h: u64, x: u64) -> u64 {
    let mut z = h ^ x.wrapping_add(0x9E3779B97F4A7C15).wrapping_add(h << 6).wrapping_add(h >> 2);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z ^ (z >> 27)
}
pub fn hash_bytes(mut h: u64, d: &[u8]) -> u64 {
    for c in d.chunks(8) {
        let mut b = [0u8; 8];
        b[..c.len()].copy_from_slice(c);
        h = mix(h, u64::from_le_bytes(b));
    }
    mix(h, d.len() as u64)
}

pub fn pool_ref(db: &Db, k: &Pubkey) -> Option<PoolRef> {
    let p = pool(db, k)?;
    let c = config(db, &p.config)?;
    Some(PoolRef {
        pool: *k,
        config: p.config,
        base: p.base_mint,
        quote: c.quote_mint,
        base_tp: tp_of(db, &p.base_mint),
        quote_tp: tp_of(db, &c.quote_mint),
        base_vault: p.base_vault,
        quote_vault: p.quote_vault,
        fee_claimer: c.fee_claimer,
        leftover: c.leftover_receiver,
    })
}
pub fn signers_of(ixs: &[Instruction]) -> Vec<Pubkey> {
    let mut v: Vec<Pubkey> = vec![];
    for ix in ixs {
        for m in &ix.accounts {
            if m.is_signer && m.pubkey != pool_authority() && !v.contains(&m.pubkey) {
                v.push(m.pubkey);
            }
        }
    }
    v
}

/// The same as clients of an older release would send it, as far as that release can say it.
pub fn old_ixs(db: &Db, ixs: Vec<Instruction>, v: u8) -> (Vec<Instruction>, u8) {
    if v == 0 {
        return (ixs, 0);
    }
    let mut used = 0;
    let o = ixs
        .into_iter()
        .map(|ix| match crate::old::old_client(db, &ix, v) {
            Some(o) => {
                used = v;
                o
            }
            None => ix,
        })
        .collect();
    (o, used)
}

impl Run {
    pub fn new() -> Run {
        Run {
            db: genesis(),
            hist: BTreeMap::new(),
            steps: vec![],
            viols: vec![],
            cov: Cov::default(),
            digest: 0,
            keep_steps: true,
            verbose: false,
            last: (S0, T0),
            specs: vec![],
            sweep: None,
            old: Default::default(),
            on_old: false,
            client: 0,
            drive_client: 0,
        }
    }
    pub fn fork(&self) -> Run {
        Run {
            db: self.db.clone(),
            hist: self.hist.clone(),
            steps: vec![],
            viols: vec![],
            cov: Cov::default(),
            digest: self.digest,
            keep_steps: false,
            verbose: self.verbose,
            last: self.last,
            specs: vec![],
            sweep: None,
            old: self.old.clone(),
            on_old: self.on_old,
            client: 0,
            drive_client: 0,
        }
    }
    fn add(&mut self, kind: &str, aspect: &'static str, props: &[&'static str], what: String) {
        let mut v = Viol { kind: kind.into(), aspect, what, props: props.to_vec() };
        if self.on_old {
            v.props.push("C25");
        }
        if self.client != 0 {
            v.props.push("C26");
        }
        if self.verbose {
            eprintln!("  !! {} {:?}: {}", v.sig(), v.props, v.what);
        }
        self.viols.push((self.steps.len(), v));
    }
    pub fn step(&mut self, s: Step) -> bool {
        let t = s.time();
        self.cov.slots += t.0.saturating_sub(self.last.0);
        self.cov.secs += (t.1 - self.last.1).max(0) as u64;
        self.last = (t.0.max(self.last.0), t.1.max(self.last.1));
        self.cov.steps += 1;
        let ok = match &s {
            Step::Tx(t) => {
                let o = self.tx(t);
                self.specs.push((Rc::new(t.clone()), o.err.as_ref().map(|e| e.code())));
                o.ok()
            }
            Step::Probe { kind: 3, pool, arg, .. } => {
                let n = self.viols.len();
                self.isolation(*pool, *arg);
                self.viols.len() == n
            }
            Step::Drive { pool, slot, ts, arg } => {
                let mut f = self.fork();
                f.cov.drives += 1;
                if arg >> 63 == 1 {
                    f.sweep = Some(crate::sweep::Sweep::new(*arg, *pool));
                }
                f.drive(*pool, *slot, *ts, *arg);
                self.absorb(f)
            }
            Step::Probe { kind, pool, slot, ts, arg } => {
                let mut f = self.fork();
                f.cov.probes += 1;
                match kind {
                    0 => f.bank_run(*pool, *slot, *ts),
                    1 => f.round_trip(*pool, *slot, *ts, *arg),
                    4 => f.fan_out(*pool, *slot, *ts, *arg),
                    5 => f.config_fan(*slot, *ts, *arg),
                    _ => f.claim_all(*pool, *slot, *ts, *arg, true),
                }
                self.absorb(f)
            }
        };
        if self.keep_steps {
            self.steps.push(s);
        } else {
            self.steps.push(Step::Probe { kind: 255, pool: Pubkey::default(), slot: 0, ts: 0, arg: 0 });
        }
        ok
    }
    pub fn absorb(&mut self, f: Run) -> bool {
        let n = self.steps.len();
        let ok = f.viols.is_empty();
        for (_, v) in f.viols {
            self.viols.push((n, v));
        }
        self.cov.add(&f.cov);
        self.digest = mix(self.digest, f.digest);
        ok
    }

    // -------------------------------------------------------------- one transaction
    pub fn tx(&mut self, t: &TxSpec) -> TxOut {
        let (out, zaps) = exec(&self.db, t, false);
        let (mut viols, mut seen) = (vec![], vec![]);
        oracle::check_tx(t, &out, &zaps, &mut viols, &mut seen);
        self.cov.txs += 1;
        self.cov.tx_ok += out.ok() as u64;
        if out.stub_faults_fired > 0 {
            self.cov.fault("third-party CPI failure");
        }
        if out.misbehaved > 0 {
            self.cov.fault(match t.misbehave & 15 {
                1 => "third party drains pool authority",
                2 => "third party re-assigns pool authority",
                _ => "third party allocates in pool authority",
            });
        }
        if matches!(out.err, Some(TxErr::Aborted(_))) {
            self.cov.fault("abort mid-transaction");
        }
        if !t.patch.is_empty() {
            self.cov.fault("program upgraded over older state");
        }
        if t.take_less > 0 && out.ok() && t.ixs.iter().any(|ix| matches!(dbc_name(&ix.data), Some("migrate_meteora_damm") | Some("migration_damm_v2"))) {
            self.cov.fault("AMM rounds the deposit down");
        }
        let err = out.err.as_ref().map(|e| e.code() as u64 + 1).unwrap_or(0);
        self.digest = mix(self.digest, err);
        for s in &seen {
            *self.cov.kinds.entry((s.kind, s.outcome)).or_default() += 1;
            self.cov.classes.insert((s.kind, s.outcome, s.class));
            self.digest = mix(self.digest, s.class ^ (s.outcome.len() as u64) << 40);
        }
        if self.verbose {
            eprintln!(
                "#{} slot +{} ts +{} {} [{}] -> {} {:?}",
                self.steps.len(),
                t.slot - S0,
                t.ts - T0,
                t.tag,
                t.ixs.iter().map(what).collect::<Vec<_>>().join(" "),
                out.err.as_ref().map(|e| e.short()).unwrap_or("ok".into()),
                seen.iter().map(|s| format!("{} {} {:x}", s.kind, s.outcome, s.class)).collect::<Vec<_>>()
            );
        }
        self.client = t.client;
        if t.client != 0 {
            self.cov.fault("sent by a client of an older release");
        }
        self.old.extend(t.patch.iter().map(|p| p.key).filter(|k| out.pre.get(k).map(|a| a.owner == DBC).unwrap_or(false)));
        self.on_old = !self.old.is_empty()
            && out.trace.iter().any(|x| x.ix.program_id == DBC && x.ix.accounts.iter().any(|m| self.old.contains(&m.pubkey)));
        let handed_over = || {
            out.trace.iter().filter(|x| x.ix.program_id == DBC).flat_map(|x| &x.ix.accounts).any(|m| {
                match (self.hist.get(&m.pubkey), pool(&out.pre, &m.pubkey)) {
                    (Some(h), Some(p)) => h.cfg.is_some() && h.init.creator != p.creator,
                    _ => false,
                }
            })
        };
        for mut v in viols {
            // what a creator may do no longer follows the role once it was handed over
            if matches!(v.aspect, "auth" | "accept" | "accounts")
                && !v.props.contains(&"C22")
                && matches!(
                    v.kind.as_str(),
                    "claim_creator_trading_fee" | "creator_withdraw_surplus" | "withdraw_migration_fee" | "create_virtual_pool_metadata"
                        | "create_locker" | "migrate_meteora_damm_lock_lp_token" | "migrate_meteora_damm_claim_lp_token"
                        | "migrate_meteora_damm" | "migration_damm_v2"
                )
                && handed_over()
            {
                v.props.push("C22");
            }
            if self.on_old {
                v.props.push("C25");
            }
            if self.client != 0 {
                v.props.push("C26");
            }
            if self.verbose {
                eprintln!("  !! {} {:?}: {}", v.sig(), v.props, v.what);
            }
            self.viols.push((self.steps.len(), v));
        }
        self.sdk(&out);
        if out.ok() {
            self.history(t, &out);
            self.db = out.post.clone();
        }
        if !t.patch.is_empty() {
            for (k, h) in self.hist.iter_mut() {
                if let (true, Some(p)) = (h.cfg.is_some(), pool(&out.post, k)) {
                    h.cfg = out.post.get(&p.config).cloned();
                    if t.patch.iter().any(|x| x.key == *k) {
                        h.frozen = None;
                    }
                }
            }
        }
        self.invariants(&out);
        out
    }

    // -------------------------------------------------------------- SDK quotes
    fn sdk(&mut self, out: &TxOut) {
        use dynamic_bonding_curve::state::{PoolConfig, VirtualPool};
        for (i, t) in out.trace.iter().enumerate() {
            let name = match dbc_name(&t.ix.data) {
                Some(n @ ("swap" | "swap2")) => n,
                _ => continue,
            };
            let (Some(pre), true) = (&t.pre, t.ix.program_id == DBC && t.ix.accounts.len() >= 13) else { continue };
            let k = |i: usize| t.ix.accounts[i].pubkey;
            let (Some(p), Some(c), Some(tin)) = (pool(pre, &k(2)), config(pre, &k(1)), tok(pre, &k(3))) else { continue };
            if p.config != k(1) || t.ix.data.len() < 24 {
                continue;
            }
            let mode = if name == "swap" { 0 } else { t.ix.data.get(24).copied().unwrap_or(0) };
            if mode > 2 {
                continue;
            }
            let sell = tin.mint == p.base_mint;
            if !sell && tin.mint != c.quote_mint {
                continue;
            }
            let a0 = u64_at(&t.ix.data, 8);
            let refd = k(12) != DBC;
            let vp: VirtualPool = bytemuck_read(&pre[&k(2)].data[8..]);
            let pc: PoolConfig = bytemuck_read(&pre[&k(1)].data[8..]);
            // the privileged first swap is recognisable from the recorded fee alone; ask the model
            let top = t.top;
            let first = first_min_eligible(&p, &c, refd, t, out, top);
            let (ts, slot) = (out.ts as u64, out.slot);
            let q = std::panic::catch_unwind(|| match mode {
                0 => dynamic_bonding_curve_sdk::quote_exact_in::quote_exact_in(&vp, &pc, sell, ts, slot, a0, refd, first),
                1 => dynamic_bonding_curve_sdk::quote_partial_fill::quote_partial_fill(&vp, &pc, sell, ts, slot, a0, refd, first),
                _ => dynamic_bonding_curve_sdk::quote_exact_out::quote_exact_out(&vp, &pc, sell, ts, slot, a0, first),
            });
            // nothing swapped is no swap, in whichever mode (the program refuses it always)
            let zero = std::panic::catch_unwind(|| {
                use dynamic_bonding_curve_sdk::*;
                quote_exact_in::quote_exact_in(&vp, &pc, sell, ts, slot, 0, refd, first).is_ok()
                    || quote_partial_fill::quote_partial_fill(&vp, &pc, sell, ts, slot, 0, refd, first).is_ok()
                    || quote_exact_out::quote_exact_out(&vp, &pc, sell, ts, slot, 0, first).is_ok()
            });
            match zero {
                Ok(false) => {}
                Ok(true) => self.add(name, "quote", &["C18"], "SDK quotes a swap of nothing".into()),
                Err(_) => self.add(name, "quote", &["C18"], "SDK panics on an amount of zero".into()),
            }
            self.cov.quotes += 1;
            match (&q, &t.post) {
                (Ok(Ok(r)), Some(post)) => {
                    let n = pool(post, &k(2)).unwrap_or_default();
                    let din = bal(pre, &k(3)) as i128 - bal(post, &k(3)) as i128;
                    let dout = bal(post, &k(4)) as i128 - bal(pre, &k(4)) as i128;
                    let vault = |x: Pubkey| x == p.base_vault || x == p.quote_vault;
                    let alias = k(3) == k(4) || vault(k(3)) || vault(k(4)) || vault(k(12));
                    // total protocol + referral + trading fee as booked on chain
                    let booked = (n.met[0] - p.met[0]) as u128
                        + (n.met[1] - p.met[1]) as u128
                        + (n.met[2] - p.met[2]) as u128
                        + (n.met[3] - p.met[3]) as u128;
                    let quoted = r.trading_fee as u128 + r.protocol_fee as u128 + if mode == 2 { r.referral_fee as u128 } else { 0 };
                    let vref = if refd {
                        let fb = !sell && c.collect_fee_mode == 1;
                        let v = if fb { p.base_vault } else { p.quote_vault };
                        let _ = v;
                        (bal(post, &k(12)) - bal(pre, &k(12)).min(bal(post, &k(12)))) as u128
                    } else {
                        0
                    };
                    let booked_total = booked + if mode == 2 && k(12) != k(3) && k(12) != k(4) { vref } else { 0 };
                    let ref_alias = refd && (k(12) == k(3) || k(12) == k(4));
                    if !alias && !ref_alias {
                        if din != r.included_fee_input_amount as i128 || dout != r.output_amount as i128 {
                            self.add(
                                name,
                                "quote",
                                &["C18"],
                                format!(
                                    "SDK quoted in {} out {}, executed in {} out {} (mode {})",
                                    r.included_fee_input_amount, r.output_amount, din, dout, mode
                                ),
                            );
                        }
                        if booked_total != quoted {
                            self.add(name, "quote", &["C18"], format!("SDK quoted fees {}, executed {} (mode {})", quoted, booked_total, mode));
                        }
                        // and each of them (an exact-out quote cannot know of a referral)
                        let d = |i: usize| (n.met[i] - p.met[i]) as u128 + (n.met[i + 1] - p.met[i + 1]) as u128;
                        let want = (r.protocol_fee as u128, r.trading_fee as u128, r.referral_fee as u128);
                        let got = (d(0), d(2), vref);
                        if (mode < 2 || !refd) && want != got {
                            self.add(name, "quote", &["C18"], format!("SDK quoted protocol, trading and referral fees {:?}, executed {:?} (mode {})", want, got, mode));
                        }
                    }
                    if n.sqrt_price != r.next_sqrt_price {
                        self.add(name, "quote", &["C18"], format!("SDK quoted price {}, executed {}", r.next_sqrt_price, n.sqrt_price));
                    }
                }
                (Ok(Err(e)), Some(_)) => {
                    self.add(name, "quote", &["C18"], format!("SDK refuses a swap the program executes: {}", e));
                }
                (Err(_), Some(_)) => {
                    self.add(name, "quote", &["C18"], "SDK panics on a swap the program executes".into());
                }
                (Ok(Ok(r)), None) => {
                    // the program refused what the SDK quotes: legitimate only for reasons outside
                    // the quote (limits, funds, accounts); checked against the model's verdict
                    let m = model::swap(
                        &c,
                        &p,
                        &model::SwapReq { buy: !sell, mode, amount: a0, referral: refd, first_min: first, ts, slot },
                    );
                    if let Err(e) = m {
                        if !e.starts_with('?') {
                            self.add(name, "quote", &["C18"], format!("SDK quotes {} out for a swap that cannot execute: {}", r.output_amount, e));
                        }
                    }
                    if p.quote_reserve >= c.threshold {
                        self.add(name, "quote", &["C18"], format!("SDK quotes {} out although the curve is complete", r.output_amount));
                    }
                    let _ = i;
                }
                (Err(_), None) => {
                    self.add(name, "quote", &["C18"], "SDK panics on a swap the program refuses cleanly".into());
                }
                _ => {}
            }
        }
    }

    // -------------------------------------------------------------- history
    fn history(&mut self, spec: &TxSpec, out: &TxOut) {
        // at most one rate-limited buy per pool and transaction
        let mut buys: BTreeMap<Pubkey, u32> = BTreeMap::new();
        for t in out.trace.iter() {
            let (Some(pre), Some(post)) = (&t.pre, &t.post) else { continue };
            let Some(name) = dbc_name(&t.ix.data) else { continue };
            let k = |i: usize| t.ix.accounts.get(i).map(|m| m.pubkey).unwrap_or_default();
            let who = match name {
                "partner_withdraw_surplus" | "creator_withdraw_surplus" | "withdraw_migration_fee" | "withdraw_leftover"
                | "claim_protocol_fee" | "zap_protocol_fee" | "swap" | "swap2" => k(2),
                "claim_trading_fee" => k(2),
                "claim_creator_trading_fee" | "claim_partner_pool_creation_fee" | "claim_protocol_pool_creation_fee" => k(1),
                "create_locker" | "migrate_meteora_damm" | "migration_damm_v2" | "migrate_meteora_damm_lock_lp_token"
                | "migrate_meteora_damm_claim_lp_token" | "create_virtual_pool_metadata" => k(0),
                _ => continue,
            };
            let (Some(p), Some(n)) = (pool(pre, &who), pool(post, &who)) else { continue };
            let Some(cfg) = config(pre, &p.config) else { continue };
            let dv = |v: &Pubkey| bal(pre, v) as i128 - bal(post, v) as i128;
            let (db_, dq) = (dv(&p.base_vault), dv(&p.quote_vault));
            // what a claim paid: measured at the vault, unless it was sent back to the vault
            let to = |i: usize, vault: &Pubkey, moved: i128, before: u64, after: u64| -> u128 {
                if k(i) == *vault {
                    before.saturating_sub(after) as u128
                } else {
                    moved.max(0) as u128
                }
            };
            let (mut dup, mut early) = (None, false);
            {
                let h = self.hist.entry(who).or_default();
                let mut once = |key: String| {
                    let c = h.once.entry(key.clone()).or_default();
                    *c += 1;
                    if *c > 1 {
                        dup = Some(key);
                    }
                };
                match name {
                    "partner_withdraw_surplus" | "creator_withdraw_surplus" => {
                        once(name.into());
                        early = p.quote_reserve < cfg.threshold;
                    }
                    "withdraw_migration_fee" => {
                        once(format!("{}:{}", name, t.ix.data.get(8).copied().unwrap_or(9)));
                        early = p.quote_reserve < cfg.threshold;
                    }
                    "withdraw_leftover" => {
                        once(name.into());
                        early = p.progress != 3;
                    }
                    "claim_partner_pool_creation_fee" => once(name.into()),
                    "claim_protocol_pool_creation_fee" => {
                        // twice at most: a pool of an older release owes its own fee as well
                        if lamports(post, &who) < lamports(pre, &who) {
                            let old = p.legacy_bits & 3 == 1;
                            if old {
                                once(format!("{} (older release)", name));
                            }
                            if !old || p.creation_bits & 1 == 0 && cfg.creation_fee > 0 {
                                once(name.into());
                            }
                        }
                    }
                    "create_locker" | "migrate_meteora_damm" | "migration_damm_v2" | "create_virtual_pool_metadata" => once(name.into()),
                    "migrate_meteora_damm_lock_lp_token" | "migrate_meteora_damm_claim_lp_token" => {
                        once(format!("{}:{}", name, k(6)));
                    }
                    "claim_trading_fee" => {
                        h.paid[0] += to(3, &p.base_vault, db_, p.partner_base, n.partner_base);
                        h.paid[1] += to(4, &p.quote_vault, dq, p.partner_quote, n.partner_quote);
                    }
                    "claim_creator_trading_fee" => {
                        h.paid[2] += to(2, &p.base_vault, db_, p.creator_base, n.creator_base);
                        h.paid[3] += to(3, &p.quote_vault, dq, p.creator_quote, n.creator_quote);
                    }
                    "claim_protocol_fee" | "zap_protocol_fee" => {
                        h.paid[4] += db_.max(0) as u128;
                        h.paid[5] += dq.max(0) as u128;
                    }
                    "swap" | "swap2" => {
                        let buy = n.quote_reserve > p.quote_reserve || n.sqrt_price > p.sqrt_price;
                        let point = if cfg.activation_type == 0 { out.slot } else { out.ts as u64 };
                        if model::BaseFee::of(&cfg).rl_applied(point, p.activation_point, buy) {
                            *buys.entry(who).or_default() += 1;
                        }
                        h.complete |= n.quote_reserve >= cfg.threshold;
                    }
                    _ => {}
                }
                if n.is_migrated == 1 && p.is_migrated == 0 {
                    h.mig_fee = (n.mig_base_fee, n.mig_quote_fee);
                }
            }
            if let Some(key) = dup {
                let props: &[&'static str] = match name {
                    "create_locker" => &["C13", "C09"],
                    "migrate_meteora_damm" | "migration_damm_v2" => &["C09", "C11"],
                    "migrate_meteora_damm_lock_lp_token" | "migrate_meteora_damm_claim_lp_token" => &["C12"],
                    "create_virtual_pool_metadata" => &["C14"],
                    "claim_partner_pool_creation_fee" | "claim_protocol_pool_creation_fee" => &["C16"],
                    _ => &["C10"],
                };
                self.add(name, "history-once", props, format!("{} succeeded twice for pool {}", key, who));
            }
            if early {
                self.add(name, "history-early", &["C10", "C09"], format!("{} before the pool reached that stage", name));
            }
        }
        for (p, n) in buys {
            if n > 1 {
                self.add("transaction", "single-swap", &["C15"], format!("{} rate limited buys of pool {} in one transaction", n, p));
            }
        }
        let _ = spec;
    }

    // -------------------------------------------------------------- invariants over the state
    fn invariants(&mut self, out: &TxOut) {
        let pre = &out.pre;
        let post = self.db.clone();
        let pa = pool_authority();
        if out.ok() {
            if lamports(&post, &pa) < lamports(pre, &pa) {
                let w = format!("pool authority lost {} lamports in a transaction", lamports(pre, &pa) - lamports(&post, &pa));
                self.add("transaction", "authority", &["C23"], w);
            }
            match post.get(&pa) {
                Some(a) if a.owner == SYSTEM && a.data.is_empty() => {}
                _ => self.add("transaction", "authority", &["C23"], "pool authority is no longer a plain system account".into()),
            }
        } else {
            return;
        }
        let mut touched: BTreeSet<Pubkey> = BTreeSet::new();
        for (k, a) in post.iter() {
            let same = pre.get(k).map(|b| Rc::ptr_eq(a, b) || a == b).unwrap_or(false);
            if same {
                continue;
            }
            if let Some(t) = Tok::parse(a) {
                if t.owner == pa {
                    // vaults are found through their pools below
                    touched.insert(*k);
                }
            }
            if a.owner == DBC {
                touched.insert(*k);
                if let (Some(b), true) = (pre.get(k), Config::parse(&a.data).is_some()) {
                    if b.data != a.data && b.owner == DBC {
                        self.add("transaction", "config-changed", &["C17", "C20"], format!("config {} changed after creation", k));
                    }
                }
                if let Some(b) = pre.get(k) {
                    if b.owner == DBC && b.data.len() >= 8 && a.data.len() >= 8 && b.data[..8] != a.data[..8] {
                        self.add("transaction", "record", &["C14", "C08"], format!("account {} changed its type", k));
                    }
                }
            }
        }
        for (k, b) in pre.iter() {
            let old_op = b.data.len() >= 8 && b.data[..8] == disc("account", "ClaimFeeOperator");
            if b.owner == DBC && !post.contains_key(k) && operator(pre, k).is_none() && !old_op {
                self.add("transaction", "record", &["C14", "C08", "C20"], format!("program account {} vanished", k));
            }
        }
        let pools: Vec<Pubkey> =
            post.iter().filter(|(_, a)| a.owner == DBC && Pool::parse(&a.data).is_some()).map(|(k, _)| *k).collect();
        for k in pools {
            let p = pool(&post, &k).unwrap();
            if !(touched.contains(&k) || touched.contains(&p.base_vault) || touched.contains(&p.quote_vault)) {
                continue;
            }
            let Some(c) = config(&post, &p.config) else {
                self.add("invariant", "config", &["C17"], format!("pool {} lost its config", k));
                continue;
            };
            self.cov.invariants += 1;
            let before = pool(pre, &k);
            self.pool_invariants(&k, &p, before.as_ref(), &c, &post);
            // state coverage: the abstract shape of the pool
            let sz = |x: u64| 64 - x.leading_zeros() as u64;
            let mut h = mix(p.progress as u64, c.fee_mode as u64 | (c.collect_fee_mode as u64) << 3 | (c.migration_option as u64) << 4);
            h = mix(h, c.dyn_init as u64 | (c.token_type as u64) << 1 | (c.fixed_supply as u64) << 2 | (model::has_vesting(&c) as u64) << 3);
            h = mix(h, sz(p.quote_reserve) | sz(p.base_fees()) << 8 | sz(p.quote_fees()) << 16);
            h = mix(
                h,
                p.partner_surplus_done as u64
                    | (p.creator_surplus_done as u64) << 1
                    | (p.protocol_surplus_done as u64) << 2
                    | (p.leftover_done as u64) << 3
                    | (p.migration_fee_status as u64) << 4
                    | (p.creation_bits as u64) << 8
                    | (p.has_swap as u64) << 10,
            );
            h = mix(h, model::segs(c.start_sqrt, &c.curve).iter().filter(|s| s.lo < p.sqrt_price).count() as u64);
            self.cov.states.insert(h);
            self.digest = hash_bytes(self.digest, &post[&k].data);
        }
    }
    fn pool_invariants(&mut self, k: &Pubkey, p: &Pool, before: Option<&Pool>, c: &Config, db: &Db) {
        let mut bad: Vec<(&'static str, &'static [&'static str], String)> = vec![];
        let fresh = !self.hist.get(k).map(|h| h.cfg.is_some()).unwrap_or(false);
        let cfg_img = db.get(&p.config).cloned();
        let h = self.hist.entry(*k).or_default();
        if fresh {
            h.init = before.cloned().unwrap_or_else(|| p.clone());
            if before.is_none() {
                // the pool may already have traded in the transaction that created it
                h.init.base_reserve = model::initial_supply(c).unwrap_or(0);
                h.init.quote_reserve = 0;
                h.init.sqrt_price = c.start_sqrt;
            }
            h.cfg = cfg_img.clone();
        } else if let (Some(a), Some(b)) = (&h.cfg, &cfg_img) {
            if a.data != b.data {
                bad.push(("config-changed", &["C17", "C20"], "the configuration of the pool changed".into()));
            }
        }
        let i = h.init.clone();
        // identity never changes
        if (p.config, p.base_mint, p.base_vault, p.quote_vault, p.activation_point, p.pool_type)
            != (i.config, i.base_mint, i.base_vault, i.quote_vault, i.activation_point, i.pool_type)
        {
            bad.push(("identity", &["C20", "C08"], "pool identity fields changed".into()));
        }
        // lifecycle
        if p.progress > 3 || p.progress < h.max_progress {
            bad.push(("progress", &["C09"], format!("progress went from {} to {}", h.max_progress, p.progress)));
        }
        h.max_progress = h.max_progress.max(p.progress);
        let complete = p.quote_reserve >= c.threshold;
        if (p.progress > 0) != complete {
            bad.push(("progress", &["C09"], format!("progress {} with {} of {} raised", p.progress, p.quote_reserve, c.threshold)));
        }
        if (p.is_migrated == 1) != (p.progress == 3) {
            bad.push(("progress", &["C09"], "migration flag does not match progress".into()));
        }
        if p.progress == 1 && !model::has_vesting(c) {
            bad.push(("progress", &["C09", "C13"], "waiting for a locker that is not needed".into()));
        }
        if complete {
            let f = (p.base_reserve, p.quote_reserve, p.sqrt_price);
            match h.frozen {
                None => h.frozen = Some(f),
                Some(g) if g != f => bad.push(("frozen", &["C09"], format!("reserves or price moved after completion: {:?} -> {:?}", g, f))),
                _ => {}
            }
            if p.finish_ts == 0 {
                bad.push(("progress", &["C09"], "no finish time".into()));
            }
        }
        // solvency
        let (qv, bv) = (bal(db, &p.quote_vault) as i128, bal(db, &p.base_vault) as i128);
        let (ps, cs, xs) = model::surplus(c, p.quote_reserve);
        let (pf, cf) = model::migration_fee_split(c);
        let unpaid = if p.partner_surplus_done == 0 { ps as i128 } else { 0 }
            + if p.creator_surplus_done == 0 { cs as i128 } else { 0 }
            + if p.protocol_surplus_done == 0 { xs as i128 } else { 0 }
            + if p.migration_fee_status & 0b100 == 0 { pf as i128 } else { 0 }
            + if p.migration_fee_status & 0b010 == 0 { cf as i128 } else { 0 };
        let (mq, _) = model::migration_quote(c.threshold, c.mig_fee_pct);
        let vest = model::config_vesting(c) as i128;
        let (need_q, need_b) = if !complete {
            (p.quote_fees() as i128 + p.quote_reserve as i128, p.base_fees() as i128 + p.base_reserve as i128)
        } else if p.progress < 3 {
            (
                p.quote_fees() as i128 + mq as i128 + unpaid,
                p.base_fees() as i128 + c.base_threshold as i128 + if p.progress == 1 { vest } else { 0 },
            )
        } else {
            (
                p.quote_fees() as i128 + p.mig_quote_fee as i128 + unpaid,
                p.base_fees() as i128 + p.mig_base_fee as i128,
            )
        };
        if qv < need_q {
            bad.push(("solvency", &["C01"], format!("quote vault {} below obligations {} (progress {})", qv, need_q, p.progress)));
        }
        if bv < need_b {
            bad.push(("solvency", &["C01"], format!("base vault {} below obligations {} (progress {})", bv, need_b, p.progress)));
        }
        // trading potential: the reserves never fall below what the curve integral says
        if !complete || before.map(|b| b.quote_reserve < c.threshold).unwrap_or(true) {
            let (mut q, mut b_) = (model::b(0u8), model::b(0u8));
            for s in model::segs(c.start_sqrt, &c.curve) {
                if p.sqrt_price <= s.lo {
                    break;
                }
                let hi = s.hi.min(p.sqrt_price);
                q += model::b(s.l) * model::b(hi - s.lo);
                b_ += model::div((model::b(s.l) * model::b(hi - s.lo)) << 192usize, model::b(hi) * model::b(s.lo), true);
            }
            if (model::b(p.quote_reserve) << 128usize) < q {
                bad.push(("potential", &["C04", "C01"], format!("quote reserve {} below the curve integral at price {}", p.quote_reserve, p.sqrt_price)));
            }
            if p.base_reserve < i.base_reserve && (model::b(i.base_reserve - p.base_reserve) << 192usize) > b_ {
                bad.push(("potential", &["C04", "C01"], format!("more base sold ({}) than the curve releases at price {}", i.base_reserve - p.base_reserve, p.sqrt_price)));
            }
        }
        if p.sqrt_price < c.start_sqrt || p.sqrt_price > c.mig_sqrt.max(c.start_sqrt) && !complete {
            bad.push(("price-range", &["C03", "C04"], format!("price {} outside [{}, {}]", p.sqrt_price, c.start_sqrt, c.mig_sqrt)));
        }
        // fee ledger over the whole history
        let tr = |side: usize| -> (u128, u128) {
            let out = if side == 0 { p.partner_base as u128 + p.creator_base as u128 } else { p.partner_quote as u128 + p.creator_quote as u128 };
            (p.met[2 + side] as u128, out + h.paid[side] + h.paid[2 + side])
        };
        for side in 0..2 {
            let (credited, sum) = tr(side);
            if credited != sum {
                bad.push(("ledger", &["C07"], format!("trading fees credited {} but outstanding plus claimed is {} (side {})", credited, sum, side)));
            }
            let mig = if side == 0 { (p.mig_base_fee, h.mig_fee.0) } else { (p.mig_quote_fee, h.mig_fee.1) };
            let prot = if side == 0 { p.protocol_base } else { p.protocol_quote } as u128;
            let sur = if side == 1 && p.protocol_surplus_done == 1 { xs as u128 } else { 0 };
            if p.met[side] as u128 + mig.1 as u128 + sur != prot + mig.0 as u128 + h.paid[4 + side] {
                bad.push((
                    "ledger",
                    &["C07", "C11"],
                    format!(
                        "protocol fees credited {} (+{} migration +{} surplus) but outstanding {} and claimed {} (side {})",
                        p.met[side], mig.1, sur, prot, h.paid[4 + side], side
                    ),
                ));
            }
        }
        // pool creation fee stays with the pool until claimed
        let protocol = model::muldiv(c.creation_fee, 10, 100, false);
        let due = if p.creation_bits & 1 == 0 { protocol } else { 0 } + if p.creation_bits & 2 == 0 { c.creation_fee - protocol } else { 0 }
            + if p.legacy_bits & 3 == 1 { oracle::LEGACY_FEE } else { 0 };
        if lamports(db, k) < rent_min(424) + due {
            bad.push(("lamports", &["C16"], format!("pool holds {} lamports, owes {} above rent", lamports(db, k), due)));
        }
        for (asp, props, w) in bad {
            self.add("invariant", asp, props, format!("pool {}: {}", k, w));
        }
    }

    /// Counterfactual: the same schedule without what should not matter to this pool (bit 0 of
    /// `arg`: other pools' transactions; bit 1: donations) leaves the pool exactly as it is.
    fn isolation(&mut self, pk: Pubkey, arg: u64) {
        let Some(want) = pool(&self.db, &pk) else { return };
        self.cov.probes += 1;
        let pools: BTreeSet<Pubkey> = self.hist.keys().copied().collect();
        let mut vaults: BTreeSet<Pubkey> = BTreeSet::new();
        for k in &pools {
            if let Some(p) = pool(&self.db, k) {
                vaults.extend([*k, p.base_vault, p.quote_vault, p.base_mint]);
            }
        }
        vaults.insert(pool_authority());
        let donation = |t: &TxSpec| {
            t.ixs.iter().all(|ix| {
                let to = match (ix.program_id, ix.data.first()) {
                    (SYSTEM, Some(2)) => 1,
                    (TOKEN | TOKEN22, Some(3)) => 1,
                    (TOKEN | TOKEN22, Some(12)) => 2,
                    _ => return false,
                };
                ix.accounts.get(to).map(|m| vaults.contains(&m.pubkey)).unwrap_or(false)
            })
        };
        let mut db = genesis();
        let (mut gone, mut quote_gift, mut base_gift) = (0u64, 0i128, 0i128);
        for (t, was) in self.specs.clone() {
            let keys: BTreeSet<Pubkey> =
                t.ixs.iter().flat_map(|i| i.accounts.iter().map(|m| m.pubkey)).chain(t.patch.iter().map(|p| p.key)).collect();
            let foreign = arg & 1 == 1
                // an upgrade over older state also rewrites configs, which pools share
                && !t.patch.iter().any(|p| p.key == want.config)
                && !keys.contains(&pk)
                && !keys.contains(&want.base_vault)
                && !keys.contains(&want.quote_vault)
                && !keys.contains(&want.base_mint)
                && keys.iter().any(|k| pools.contains(k));
            let gift = arg & 2 == 2 && !t.ixs.is_empty() && donation(&t);
            if foreign || gift {
                gone += 1;
                if gift && was.is_none() {
                    for ix in &t.ixs {
                        if ix.program_id != SYSTEM {
                            let to = ix.accounts[if ix.data[0] == 3 { 1 } else { 2 }].pubkey;
                            let n = u64_at(&ix.data, 1) as i128;
                            if to == want.quote_vault {
                                quote_gift += n;
                            } else if to == want.base_vault {
                                base_gift += n;
                            }
                        }
                    }
                }
                continue;
            }
            let (o, _) = exec(&db, &t, false);
            let now = o.err.as_ref().map(|e| e.code());
            if was.is_some() != now.is_some() {
                // wallets and shared accounts differ without the removed transactions: running out
                // of funds, or a record only they created, says nothing about this pool
                let excuse = |c: Option<u32>| matches!(c, Some(1) | Some(0) | Some(2) | Some(3012) | Some(3007));
                if excuse(was) || excuse(now) || !keys.contains(&pk) {
                    *self.cov.kinds.entry(("isolation", "inconclusive")).or_default() += 1;
                    return;
                }
                self.add(
                    "isolation",
                    "outcome",
                    &["C20"],
                    format!(
                        "pool {}: {} gives {:?}, but {:?} without {} unrelated transactions (donations or other pools)",
                        pk, t.tag, was, now, gone
                    ),
                );
                return;
            }
            if now.is_none() {
                db = o.post.clone();
            }
        }
        if gone == 0 {
            *self.cov.kinds.entry(("isolation", "nothing to remove")).or_default() += 1;
            return;
        }
        *self.cov.kinds.entry(("isolation", "compared")).or_default() += 1;
        let (a, b) = (&self.db.clone(), &db);
        if a.get(&pk).map(|x| &x.data) != b.get(&pk).map(|x| &x.data) {
            let w = oracle::dbg_diff(&format!("{:?}", pool(b, &pk)), &format!("{:?}", want));
            self.add("isolation", "state", &["C20"], format!("pool {} depends on {} unrelated transactions: {}", pk, gone, w));
        }
        let dq = bal(a, &want.quote_vault) as i128 - bal(b, &want.quote_vault) as i128;
        if dq != quote_gift {
            self.add("isolation", "vault", &["C20", "C01"], format!("quote vault of {} differs by {} after gifts of {}", pk, dq, quote_gift));
        }
        let db_ = bal(a, &want.base_vault) as i128 - bal(b, &want.base_vault) as i128;
        if db_ != base_gift && want.leftover_done == 0 && want.progress < 3 {
            self.add("isolation", "vault", &["C20", "C01"], format!("base vault of {} differs by {} after gifts of {}", pk, db_, base_gift));
        }
    }
    /// End of run: every base token is accounted for.
    pub fn finish(&mut self) {
        let mut sums: BTreeMap<Pubkey, u128> = BTreeMap::new();
        for a in self.db.values() {
            if let Some(t) = Tok::parse(a) {
                *sums.entry(t.mint).or_default() += t.amount as u128;
            }
        }
        let pools: Vec<Pool> = self.db.values().filter(|a| a.owner == DBC).filter_map(|a| Pool::parse(&a.data)).collect();
        for p in pools {
            let Some(m) = mint(&self.db, &p.base_mint) else { continue };
            let s = sums.get(&p.base_mint).copied().unwrap_or(0);
            if s != m.supply as u128 {
                self.add("end", "supply", &["C02"], format!("base supply {} but balances add up to {}", m.supply, s));
            }
        }
    }

    // -------------------------------------------------------------- liveness driver
    fn go(&mut self, slot: &mut u64, ts: &mut i64, tag: &str, ixs: Vec<Instruction>) -> bool {
        *slot += 2;
        *ts += 1;
        let (ixs, client) = old_ixs(&self.db, ixs, self.drive_client);
        let signers = signers_of(&ixs);
        let t = TxSpec { slot: *slot, ts: *ts, ixs, signers, client, tag: format!("driver {}", tag), ..Default::default() };
        self.assault(&t);
        self.tx(&t).ok()
    }
    fn must(&mut self, slot: &mut u64, ts: &mut i64, tag: &'static str, ixs: Vec<Instruction>) -> bool {
        *slot += 2;
        *ts += 1;
        let (ixs, client) = old_ixs(&self.db, ixs, self.drive_client);
        let signers = signers_of(&ixs);
        let t = TxSpec { slot: *slot, ts: *ts, ixs, signers, client, tag: format!("driver {}", tag), ..Default::default() };
        if t.ixs.iter().flat_map(|i| &i.accounts).any(|m| m.is_signer && !can_sign(&self.db, &m.pubkey)) {
            return true; // the role was handed to an address nobody holds a key for
        }
        self.assault(&t);
        let o = self.tx(&t);
        if !o.ok() {
            let props: &[&'static str] = match tag {
                "complete" => &["C24", "C17"],
                "locker" => &["C24", "C13", "C17"],
                "migrate" => &["C24", "C17", "C11"],
                "lp" => &["C24", "C12"],
                "surplus" | "migration fee" | "leftover" => &["C24", "C10", "C01"],
                "claim" => &["C24", "C07", "C01"],
                "creation fee" => &["C24", "C16"],
                _ => &["C24"],
            };
            let w = format!("stuck: {} failed with {}", tag, o.err.as_ref().map(|e| e.short()).unwrap_or_default());
            self.add("liveness", tag, props, w);
        }
        o.ok()
    }
    /// The migration about to happen, offered every AMM configuration that is wrong in one
    /// respect only (each on a fork of its own).
    fn near_miss_amm(&mut self, slot: u64, ts: i64, right: &Pubkey, build: impl Fn(Pubkey) -> Vec<Instruction>) {
        for wrong in near_miss_configs(&self.db, right) {
            let (ixs, client) = old_ixs(&self.db, build(wrong), self.drive_client);
            let signers = signers_of(&ixs);
            let t = TxSpec { slot: slot + 2, ts: ts + 1, ixs, signers, client, tag: format!("migration with {}", name_of(&wrong)), ..Default::default() };
            let mut f = self.fork();
            f.tx(&t);
            f.cov.fault("AMM configuration wrong in one respect");
            self.absorb(f);
        }
    }
    pub fn drive(&mut self, pk: Pubkey, mut slot: u64, mut ts: i64, arg: u64) {
        let Some(r) = pool_ref(&self.db, &pk) else { return };
        self.drive_client = if arg >> 62 & 1 == 1 { 1 + (arg >> 60 & 3) as u8 } else { 0 };
        let (s, t) = (&mut slot, &mut ts);
        let (stage, nth) = (mix(arg, 0x57A6E), std::cell::Cell::new(0u64));
        // one stage of the pool's life in most drives, every instruction tried in it
        let stage = |me: &mut Run, s: u64, t: i64| {
            let n = nth.get();
            nth.set(n + 1);
            if stage % 8 == n {
                me.out_of_order(pk, s, t);
            }
        };
        let c = config(&self.db, &r.config).unwrap();
        let whale = key("driver");
        let (uq, ub) = (ata(&whale, &r.quote, &r.quote_tp), ata(&whale, &r.base, &r.base_tp));
        self.assault_extras(*s, *t);
        stage(self, *s, *t);
        // 1. finish the curve
        let mut rounds = 0;
        if pool(&self.db, &pk).unwrap().progress == 0 {
            if !self.go(s, t, "ata", vec![create_ata(whale, whale, r.base, r.base_tp)]) {
                return;
            }
            if arg & 1 == 0 {
                // wait for the anti-sniper window to pass
                *s += 110_000;
                *t += 44_000;
            }
            while pool(&self.db, &pk).unwrap().progress == 0 {
                rounds += 1;
                let funds = bal(&self.db, &uq);
                if funds == 0 && c.threshold > FUND / 256 {
                    return; // nobody here is rich enough; says nothing about the program
                }
                if rounds > 24 || funds == 0 {
                    self.add("liveness", "complete", &["C24", "C17"], format!("curve not complete after {} unlimited buys", rounds));
                    return;
                }
                let amt = match rounds % 3 {
                    1 => funds,
                    2 => funds / 2 + 1,
                    _ => funds.min(c.threshold.saturating_mul(4)),
                };
                let ix = swap(&r, whale, uq, ub, Some(MODE_PARTIAL), amt, 0, None, true);
                if !self.must(s, t, "complete", vec![ix]) {
                    return;
                }
            }
        }
        if arg & 2 != 0 {
            self.claim_all(pk, *s, *t, arg >> 8, false);
            *s += 200;
            *t += 80;
        }
        self.assault_extras(*s, *t);
        stage(self, *s, *t);
        let p = pool(&self.db, &pk).unwrap();
        // 2. locker
        if p.progress == 1 {
            let esc = escrow_addr(&base_locker(&pk));
            if !self.go(s, t, "ata", vec![create_ata(whale, esc, r.base, r.base_tp)]) {
                return;
            }
            if !self.must(s, t, "locker", vec![create_locker(&r, p.creator, whale)]) {
                return;
            }
        }
        // 3. migration
        stage(self, *s, *t);
        let p = pool(&self.db, &pk).unwrap();
        let bps = ["25", "30", "100", "200", "400", "600", "custom"][(c.migration_fee_option as usize).min(6)];
        if p.progress == 2 {
            if c.migration_option == 0 {
                let dc = key(&format!("d1cfg:{}", bps));
                if d1meta(&self.db, &damm1_metadata(&pk)).is_none()
                    && !self.must(s, t, "migrate", vec![d1_create_metadata(&r, whale)])
                {
                    return;
                }
                self.near_miss_amm(*s, *t, &dc, |x| vec![d1_migrate(&r, x, whale)]);
                if !self.must(s, t, "migrate", vec![d1_migrate(&r, dc, whale)]) {
                    return;
                }
            } else {
                let dc = key(&format!("d2cfg:{}", bps));
                let mut ixs = vec![d2_migrate(&r, dc, whale, true)];
                if self.drive_client != 0 {
                    ixs.insert(0, d2_create_metadata(&r, whale));
                }
                self.near_miss_amm(*s, *t, &dc, |x| vec![d2_migrate(&r, x, whale, true)]);
                if !self.must(s, t, "migrate", ixs) {
                    return;
                }
            }
        }
        let p = pool(&self.db, &pk).unwrap();
        if p.progress != 3 {
            self.add("liveness", "migrate", &["C24", "C09"], format!("progress {} after the migration", p.progress));
            return;
        }
        self.assault_extras(*s, *t);
        stage(self, *s, *t);
        if c.migration_option == 0 {
            let dc = key(&format!("d1cfg:{}", bps));
            let d = d1_addrs(&r, &dc);
            let m = d1meta(&self.db, &damm1_metadata(&pk)).unwrap_or_default();
            for who in [m.partner, p.creator] {
                let m = d1meta(&self.db, &damm1_metadata(&pk)).unwrap_or_default();
                let (locked, lst, free, cst) = if who == m.partner && who == p.creator {
                    (m.partner_locked + m.creator_locked, m.partner_locked_status | m.creator_locked_status, m.partner_liq + m.creator_liq, m.partner_claim_status | m.creator_claim_status)
                } else if who == m.partner {
                    (m.partner_locked, m.partner_locked_status, m.partner_liq, m.partner_claim_status)
                } else {
                    (m.creator_locked, m.creator_locked_status, m.creator_liq, m.creator_claim_status)
                };
                if locked > 0 && lst == 0 {
                    let le = d1_lock_escrow(&d.pool, &who);
                    if !self.db.contains_key(&le) && !self.go(s, t, "escrow", vec![d1_create_lock_escrow(&d, who, whale)]) {
                        return;
                    }
                    self.go(s, t, "ata", vec![create_ata(whale, le, d.lp_mint, TOKEN)]);
                    self.must(s, t, "lp", vec![d1_lock(&r, dc, who)]);
                }
                if free > 0 && cst == 0 {
                    self.go(s, t, "ata", vec![create_ata(whale, who, d.lp_mint, TOKEN)]);
                    self.must(s, t, "lp", vec![d1_claim(&r, dc, who, whale)]);
                }
            }
        }
        self.claim_all(pk, *s, *t, arg >> 16, false);
        stage(self, *s, *t);
        let p = pool(&self.db, &pk).unwrap();
        if p.progress == 3 {
            let owed = p.base_fees() as u128 + p.quote_fees() as u128 + p.mig_base_fee as u128 + p.mig_quote_fee as u128;
            let roles = [r.fee_claimer, p.creator].iter().all(|k| can_sign(&self.db, k));
            if owed != 0 && roles {
                self.add("liveness", "claim", &["C24", "C07"], format!("{} fee units cannot be claimed", owed));
            }
        }
        self.cov.drives_done += 1;
    }
    /// Everybody entitled to something takes it, in an order picked by `arg`.
    fn claim_all(&mut self, pk: Pubkey, mut slot: u64, mut ts: i64, arg: u64, probe: bool) {
        let Some(r) = pool_ref(&self.db, &pk) else { return };
        let (s, t) = (&mut slot, &mut ts);
        let c = config(&self.db, &r.config).unwrap();
        let payer = key("driver");
        let p0 = pool(&self.db, &pk).unwrap();
        let op = key("drive-op");
        if operator(&self.db, &operator_addr(&op)).is_none() {
            self.go(s, t, "operator", vec![create_operator(ADMINS[0], payer, op, 3)]);
        }
        for (w, m, tp) in [
            (r.fee_claimer, r.base, r.base_tp),
            (r.fee_claimer, r.quote, r.quote_tp),
            (p0.creator, r.base, r.base_tp),
            (p0.creator, r.quote, r.quote_tp),
            (TREASURY, r.base, r.base_tp),
            (TREASURY, r.quote, r.quote_tp),
            (r.leftover, r.base, r.base_tp),
        ] {
            if !self.db.contains_key(&ata(&w, &m, &tp)) {
                self.go(s, t, "ata", vec![create_ata(payer, w, m, tp)]);
            }
        }
        let mut rng = Rng::new(arg ^ 0x51ED);
        let mut order: Vec<u8> = (0..11).collect();
        for i in (1..order.len()).rev() {
            order.swap(i, rng.below(i as u64 + 1) as usize);
        }
        let a = |w: &Pubkey, base: bool| if base { ata(w, &r.base, &r.base_tp) } else { ata(w, &r.quote, &r.quote_tp) };
        let _ = probe;
        for o in order {
            let p = pool(&self.db, &pk).unwrap();
            let complete = p.quote_reserve >= c.threshold;
            let fc = r.fee_claimer;
            let cr = p.creator;
            match o {
                0 => {
                    self.must(s, t, "claim", vec![claim_trading_fee(&r, fc, a(&fc, true), a(&fc, false), u64::MAX, u64::MAX)]);
                }
                1 => {
                    self.must(s, t, "claim", vec![claim_creator_trading_fee(&r, cr, a(&cr, true), a(&cr, false), u64::MAX, u64::MAX)]);
                }
                2 => {
                    self.must(
                        s,
                        t,
                        "claim",
                        vec![claim_protocol_fee(&r, operator_addr(&op), op, a(&TREASURY, true), a(&TREASURY, false), u64::MAX, u64::MAX)],
                    );
                }
                3 if complete && p.partner_surplus_done == 0 => {
                    self.must(s, t, "surplus", vec![surplus(&r, true, fc, a(&fc, false))]);
                }
                4 if complete && p.creator_surplus_done == 0 => {
                    self.must(s, t, "surplus", vec![surplus(&r, false, cr, a(&cr, false))]);
                }
                5 if complete && p.migration_fee_status & 0b100 == 0 => {
                    self.must(s, t, "migration fee", vec![withdraw_migration_fee(&r, 0, fc, a(&fc, false))]);
                }
                6 if complete && p.migration_fee_status & 0b010 == 0 => {
                    self.must(s, t, "migration fee", vec![withdraw_migration_fee(&r, 1, cr, a(&cr, false))]);
                }
                7 if c.creation_fee > 0 && p.creation_bits & 2 == 0 => {
                    self.must(s, t, "creation fee", vec![claim_partner_creation_fee(&r, fc, fc)]);
                }
                8 if c.creation_fee > 0 && p.creation_bits & 1 == 0 || p.legacy_bits & 3 == 1 => {
                    self.must(s, t, "creation fee", vec![claim_protocol_creation_fee(&r, operator_addr(&op), op, TREASURY)]);
                }
                9 if p.progress == 3 && c.fixed_supply == 1 && p.leftover_done == 0 => {
                    self.must(s, t, "leftover", vec![withdraw_leftover(&r, r.leftover, a(&r.leftover, true))]);
                }
                _ => {}
            }
        }
    }
    /// Every holder of base tokens sells everything back; all of them must be served.
    fn bank_run(&mut self, pk: Pubkey, mut slot: u64, mut ts: i64) {
        let Some(r) = pool_ref(&self.db, &pk) else { return };
        let p = pool(&self.db, &pk).unwrap();
        let c = config(&self.db, &r.config).unwrap();
        if p.quote_reserve >= c.threshold {
            return;
        }
        let (s, t) = (&mut slot, &mut ts);
        let holders: Vec<(Pubkey, Tok)> = self
            .db
            .iter()
            .filter_map(|(k, a)| Tok::parse(a).map(|t| (*k, t)))
            .filter(|(k, t)| t.mint == r.base && t.amount > 0 && *k != r.base_vault && t.owner != pool_authority())
            .collect();
        let payer = key("driver");
        for (k, h) in holders {
            let uq = ata(&h.owner, &r.quote, &r.quote_tp);
            if !self.db.contains_key(&uq) {
                self.go(s, t, "ata", vec![create_ata(payer, h.owner, r.quote, r.quote_tp)]);
            }
            let ix = swap(&r, h.owner, k, uq, Some(MODE_IN), h.amount, 0, None, true);
            let n = self.viols.len();
            *s += 2;
            *t += 1;
            let signers = signers_of(std::slice::from_ref(&ix));
            let tx = TxSpec { slot: *s, ts: *t, ixs: vec![ix], signers, tag: "bank run".into(), ..Default::default() };
            let o = self.tx(&tx);
            if !o.ok() && self.viols.len() == n {
                let cp = pool(&self.db, &pk).unwrap();
                let dust = model::swap(
                    &c,
                    &cp,
                    &model::SwapReq { buy: false, mode: MODE_IN, amount: h.amount, referral: false, first_min: false, ts: *t as u64, slot: *s },
                )
                .map(|x| x.out == 0)
                .unwrap_or(false);
                if !dust {
                    self.add(
                        "bank-run",
                        "stuck",
                        &["C01", "C04"],
                        format!("holder of {} base cannot sell: {}", h.amount, o.err.as_ref().map(|e| e.short()).unwrap_or_default()),
                    );
                }
            }
        }
    }
    /// A trader who started with quote only never ends with more of it.
    fn round_trip(&mut self, pk: Pubkey, mut slot: u64, mut ts: i64, arg: u64) {
        let Some(r) = pool_ref(&self.db, &pk) else { return };
        let c = config(&self.db, &r.config).unwrap();
        let p = pool(&self.db, &pk).unwrap();
        if p.quote_reserve >= c.threshold {
            return;
        }
        let (s, t) = (&mut slot, &mut ts);
        let mut rng = Rng::new(arg);
        let u = key("atk");
        let (uq, ub) = (ata(&u, &r.quote, &r.quote_tp), ata(&u, &r.base, &r.base_tp));
        if !self.db.contains_key(&ub) {
            self.go(s, t, "ata", vec![create_ata(u, u, r.base, r.base_tp)]);
        }
        let (q0, b0) = (bal(&self.db, &uq), bal(&self.db, &ub));
        let left = c.threshold - p.quote_reserve;
        for _ in 0..rng.range(1, 4) {
            let held = bal(&self.db, &ub).saturating_sub(b0);
            let ix = if held == 0 || rng.chance(1, 2) {
                let amt = if rng.chance(1, 2) { rng.log(1, left.max(1)) } else { rng.range(1, left / 2 + 1) };
                if rng.chance(1, 4) {
                    swap(&r, u, uq, ub, Some(MODE_OUT), rng.log(1, (p.base_reserve / 4).max(1)), q0 / 2, None, true)
                } else {
                    swap(&r, u, uq, ub, Some(if rng.chance(1, 3) { MODE_IN } else { MODE_PARTIAL }), amt, 0, None, true)
                }
            } else {
                let mode = rng.below(3) as u8;
                let amt = if rng.chance(1, 4) { rng.log(1, held) } else { rng.range(1, held) };
                if mode == MODE_OUT {
                    swap(&r, u, ub, uq, Some(MODE_OUT), rng.log(1, left.max(2)), held, None, true)
                } else {
                    swap(&r, u, ub, uq, Some(mode), amt, 0, None, true)
                }
            };
            if rng.chance(1, 3) {
                *s += rng.log(1, 10_000);
                *t += rng.log(1, 4_000) as i64;
            }
            self.go(s, t, "round trip", vec![ix]);
        }
        let held = bal(&self.db, &ub).saturating_sub(b0);
        if held > 0 && pool(&self.db, &pk).unwrap().quote_reserve < c.threshold {
            let ix = swap(&r, u, ub, uq, Some(MODE_IN), held, 0, None, true);
            self.go(s, t, "round trip close", vec![ix]);
        }
        let (q1, b1) = (bal(&self.db, &uq), bal(&self.db, &ub));
        if b1 >= b0 && q1 > q0 {
            self.add("round-trip", "profit", &["C04"], format!("trader gained {} quote and {} base from nothing", q1 - q0, b1 - b0));
        } else if b1 > b0 && q1 == q0 {
            self.add("round-trip", "profit", &["C04"], format!("trader received {} base for nothing", b1 - b0));
        }
    }
}

/// Is this the pool creator's bundled first buy (entitled to the minimum fee)?
fn first_min_eligible(p: &Pool, c: &Config, refd: bool, t: &crate::rt::TraceIx, out: &TxOut, top: usize) -> bool {
    c.first_swap_min == 1
        && p.has_swap == 0
        && !refd
        && t.ix.accounts.get(15).map(|m| m.pubkey) == Some(IXSYSVAR)
        && out.trace.iter().find(|x| x.top == top && x.height == 1).map(|x| x.ix.program_id == DBC).unwrap_or(false)
        && out.trace.iter().any(|x| {
            x.height == 1
                && x.top < top
                && x.ix.program_id == DBC
                && matches!(
                    dbc_name(&x.ix.data),
                    Some("initialize_virtual_pool_with_spl_token") | Some("initialize_virtual_pool_with_token2022")
                )
                && x.ix.accounts.get(5).map(|m| m.pubkey) == Some(t.ix.accounts[2].pubkey)
        })
}
fn bytemuck_read<T: Copy>(d: &[u8]) -> T {
    assert!(d.len() >= std::mem::size_of::<T>());
    unsafe { std::ptr::read_unaligned(d.as_ptr() as *const T) }
}
