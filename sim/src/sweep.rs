//! Counterfactual assault: before a legitimate transaction runs, an attacker with one of
//! everything tries a sample of the ways to bend exactly this transaction in exactly this state,
//! each on a throw-away fork. What is accepted is judged by the same oracles as everything else.

use crate::abi::*;
use crate::run::{signers_of, Run};
use crate::rt::IX_SYSVAR;
use crate::sim::*;
use solana_program::{instruction::Instruction, pubkey::Pubkey};

pub struct Sweep {
    pub rng: Rng,
    /// attempts per transaction
    pub budget: usize,
    pub pool: Pubkey,
    ready: bool,
}
impl Sweep {
    pub fn new(seed: u64, pool: Pubkey) -> Sweep {
        Sweep { rng: Rng::new(seed), budget: 14, pool, ready: false }
    }
}

enum Bend {
    /// slot of instruction j shows another account
    Slot(usize, usize, Pubkey),
    /// slot a shows what slot b shows
    Alias(usize, usize, usize),
    Steal(usize, Pubkey, bool),
    Unsigned(usize, Pubkey),
    Args(usize, u8, u64),
    Twice(usize),
    Proxied(usize, u8),
    /// slot shows a copy that lives in a program of the attacker, as it is or with the
    /// attacker written in wherever the rightful signer is named
    Forged(usize, usize, bool),
    /// everything of the other pool except the parts in the mask
    Cross(usize, Pubkey, u8),
    /// only these parts of the other pool
    Parts(usize, Pubkey, u8),
}

fn parts(r: &PoolRef) -> [Pubkey; 6] {
    [r.pool, r.config, r.base, r.quote, r.base_vault, r.quote_vault]
}

/// Accounts a careless check would take for `k`.
fn lookalikes(db: &crate::rt::Db, k: &Pubkey) -> Vec<Pubkey> {
    let Some(a) = db.get(k) else { return vec![] };
    let t = crate::abi::Tok::parse(a);
    db.iter()
        .filter(|(x, b)| {
            *x != k
                && b.owner == a.owner
                && b.executable == a.executable
                && if let Some(t) = &t {
                    crate::abi::Tok::parse(b).map(|u| u.mint == t.mint).unwrap_or(false)
                } else if a.owner == DBC {
                    b.data.len() >= 8 && a.data.len() >= 8 && b.data[..8] == a.data[..8]
                } else {
                    b.data.len() == a.data.len()
                }
        })
        .map(|(x, _)| *x)
        .collect()
}

/// What the instructions sysvar would hold if these were all of the transaction.
fn sysvar_image(ixs: &[Instruction]) -> Vec<u8> {
    use solana_program::sysvar::instructions::*;
    let b: Vec<BorrowedInstruction> = ixs
        .iter()
        .map(|ix| BorrowedInstruction {
            program_id: &ix.program_id,
            accounts: ix
                .accounts
                .iter()
                .map(|m| BorrowedAccountMeta { pubkey: &m.pubkey, is_signer: m.is_signer, is_writable: m.is_writable })
                .collect(),
            data: &ix.data,
        })
        .collect();
    construct_instructions_data(&b)
}

impl Run {
    /// What the attacker owns: decoy vaults under the pool authority, a config and a pool of its own.
    fn arm(&mut self, slot: u64, ts: i64) {
        let Some(mut sw) = self.sweep.take() else { return };
        if !sw.ready {
            sw.ready = true;
            let pk = sw.pool;
            if let (Some(r), Some(p)) = (crate::run::pool_ref(&self.db, &pk), pool(&self.db, &pk)) {
                let c = config(&self.db, &p.config).unwrap_or_default();
                let atk = key("atk");
                let run1 = |me: &mut Run, ixs: Vec<Instruction>| {
                    let signers = signers_of(&ixs);
                    let t = TxSpec { slot, ts, ixs, signers, tag: "attacker prepares".into(), ..Default::default() };
                    me.tx(&t).ok()
                };
                for (m, tp) in [(r.base, r.base_tp), (r.quote, r.quote_tp)] {
                    run1(self, vec![create_ata(atk, pool_authority(), m, tp)]);
                    run1(self, vec![create_ata(atk, atk, m, tp)]);
                }
                let n = FUND / 64;
                run1(
                    self,
                    vec![token_transfer(r.quote_tp, ata(&atk, &r.quote, &r.quote_tp), ata(&pool_authority(), &r.quote, &r.quote_tp), atk, n)],
                );
                let op = key("drive-op");
                if operator(&self.db, &operator_addr(&op)).is_none() {
                    run1(self, vec![create_operator(ADMINS[0], key("driver"), op, 3)]);
                }
                // its own config over the same quote token
                let own = key("sweep:config");
                let cp = ConfigParams {
                    cliff_fee: 10_000_000,
                    migration_option: c.migration_option,
                    token_decimal: 6,
                    token_type: c.token_type,
                    partner_perm: 100,
                    threshold: 1 << 30,
                    start_sqrt: 1u128 << 64,
                    migration_fee_option: 5,
                    creator_fee_pct: sw.rng.below(101) as u8,
                    mig_fee_pct: 90,
                    creator_mig_fee_pct: sw.rng.below(101) as u8,
                    creation_fee: 1_000_000_000,
                    curve: vec![(4u128 << 64, 1u128 << 100), (MAX_SQRT, 1u128 << 98)],
                    ..Default::default()
                };
                if run1(self, vec![create_config(own, atk, atk, r.quote, atk, &cp)]) {
                    run1(
                        self,
                        vec![init_pool(cp.token_type == 1, own, atk, key("sweep:base"), r.quote, r.quote_tp, atk, "A", "B", "C")],
                    );
                }
            }
        }
        self.sweep = Some(sw);
    }
    pub fn assault(&mut self, t: &TxSpec) {
        if self.sweep.is_none() || !t.ixs.iter().any(|i| i.program_id == DBC) {
            return;
        }
        self.arm(t.slot, t.ts);
        let mut sw = self.sweep.take().unwrap();
        self.bend(t, &mut sw);
        self.sweep = Some(sw);
    }
    fn bend(&mut self, t: &TxSpec, sw: &mut Sweep) {
        {
            // only what works as it is can be bent meaningfully
            let mut f = self.fork();
            let ok = f.tx(t).ok();
            self.absorb(f);
            if !ok {
                return;
            }
        }
        let rng = &mut sw.rng;
        let db = self.db.clone();
        let others: Vec<PoolRef> = db
            .iter()
            .filter(|(k, a)| **k != sw.pool && a.owner == DBC && Pool::parse(&a.data).is_some())
            .filter_map(|(k, _)| crate::run::pool_ref(&db, k))
            .collect();
        let me = crate::run::pool_ref(&db, &sw.pool);
        let mut all: Vec<Bend> = vec![];
        for (j, ix) in t.ixs.iter().enumerate() {
            if ix.program_id != DBC {
                continue;
            }
            for (a, m) in ix.accounts.iter().enumerate() {
                let forgeable = m.pubkey == IX_SYSVAR || db.get(&m.pubkey).map(|x| !x.executable && !x.data.is_empty()).unwrap_or(false);
                if forgeable && !m.is_signer {
                    all.push(Bend::Forged(j, a, rng.chance(1, 2)));
                }
                let v = lookalikes(&db, &m.pubkey);
                if m.is_signer || v.is_empty() {
                    continue;
                }
                let token = tok(&db, &m.pubkey);
                let mut take: Vec<Pubkey> = vec![];
                match &token {
                    Some(x) => {
                        // same owner first (decoys), then strangers
                        let same: Vec<Pubkey> = v.iter().filter(|k| tok(&db, k).map(|y| y.owner == x.owner).unwrap_or(false)).copied().collect();
                        take.extend(same.iter().take(2));
                        take.push(ata(&key("atk"), &x.mint, &tp_of(&db, &x.mint)));
                        take.push(*rng.pick(&v));
                    }
                    None => {
                        for _ in 0..2 {
                            take.push(*rng.pick(&v));
                        }
                        if db[&m.pubkey].owner == DBC {
                            take.push(key("sweep:config"));
                            take.push(*rng.pick(&v));
                        }
                    }
                }
                take.retain(|k| *k != m.pubkey && v.contains(k));
                if db[&m.pubkey].owner == DBC {
                    // another kind of account of the program
                    let kinds: Vec<Pubkey> = db.iter().filter(|(k, b)| b.owner == DBC && **k != m.pubkey && !v.contains(k)).map(|(k, _)| *k).collect();
                    if !kinds.is_empty() {
                        take.push(*rng.pick(&kinds));
                    }
                }
                take.dedup();
                for k in take {
                    all.push(Bend::Slot(j, a, k));
                }
            }
            let n = ix.accounts.len() as u64;
            for _ in 0..4 {
                let (a, b) = (rng.below(n) as usize, rng.below(n) as usize);
                if a != b && ix.accounts[a].pubkey != ix.accounts[b].pubkey && !ix.accounts[a].is_signer {
                    all.push(Bend::Alias(j, a, b));
                }
            }
            let mut sg: Vec<Pubkey> = ix.accounts.iter().filter(|m| m.is_signer).map(|m| m.pubkey).collect();
            sg.dedup();
            for s in sg {
                all.push(Bend::Steal(j, s, false));
                all.push(Bend::Steal(j, s, true));
                all.push(Bend::Unsigned(j, s));
            }
            if ix.data.len() > 8 {
                for _ in 0..3 {
                    all.push(Bend::Args(j, rng.below(4) as u8, rng.u64()));
                }
            }
            all.push(Bend::Twice(j));
            all.push(Bend::Proxied(j, rng.below(2) as u8));
            if !others.is_empty() {
                for _ in 0..5 {
                    let o = rng.pick(&others).pool;
                    let mask = rng.range(1, 62) as u8;
                    all.push(if rng.chance(1, 2) { Bend::Cross(j, o, mask & (1 << rng.below(6))) } else { Bend::Parts(j, o, mask) });
                }
            }
        }
        for i in (1..all.len()).rev() {
            all.swap(i, rng.below(i as u64 + 1) as usize);
        }
        all.truncate(sw.budget);
        for b in all {
            let mut ixs = t.ixs.clone();
            let mut forged: Option<(Pubkey, crate::rt::Acct)> = None;
            let tag = match b {
                Bend::Slot(j, a, k) => {
                    ixs[j].accounts[a].pubkey = k;
                    format!("account {} of {} becomes {}", a, what(&t.ixs[j]), name_of(&k))
                }
                Bend::Alias(j, a, b) => {
                    ixs[j].accounts[a].pubkey = ixs[j].accounts[b].pubkey;
                    format!("account {} of {} is account {}", a, what(&t.ixs[j]), b)
                }
                Bend::Steal(j, victim, moved) => {
                    let atk = key("atk");
                    for m in ixs[j].accounts.iter_mut() {
                        if m.pubkey == victim {
                            m.pubkey = atk;
                        } else if let (true, Some(x)) = (moved, tok(&db, &m.pubkey)) {
                            if x.owner == victim {
                                m.pubkey = ata(&atk, &x.mint, &tp_of(&db, &x.mint));
                            }
                        }
                    }
                    format!("the attacker signs {} in place of {}", what(&t.ixs[j]), name_of(&victim))
                }
                Bend::Forged(j, a, theft) => {
                    let (atk, k) = (key("atk"), ixs[j].accounts[a].pubkey);
                    let fake = key(&format!("forged:{}", a));
                    let mut acct = match db.get(&k) {
                        Some(x) => (**x).clone(),
                        None => crate::rt::Acct { lamports: 1 << 40, data: sysvar_image(&ixs[j..=j]), owner: SYSTEM, executable: false },
                    };
                    acct.owner = key("atk:program");
                    if theft {
                        let victims: Vec<Pubkey> = ixs[j].accounts.iter().filter(|m| m.is_signer).map(|m| m.pubkey).collect();
                        let n = acct.data.len();
                        for v in &victims {
                            for i in 0..n.saturating_sub(31) {
                                if acct.data[i..i + 32] == v.to_bytes() {
                                    acct.data[i..i + 32].copy_from_slice(atk.as_ref());
                                }
                            }
                        }
                        for m in ixs[j].accounts.iter_mut() {
                            if victims.contains(&m.pubkey) {
                                m.pubkey = atk;
                            } else if let Some(x) = tok(&db, &m.pubkey) {
                                if victims.contains(&x.owner) {
                                    m.pubkey = ata(&atk, &x.mint, &tp_of(&db, &x.mint));
                                }
                            }
                        }
                    }
                    for m in ixs[j].accounts.iter_mut().filter(|m| m.pubkey == k) {
                        m.pubkey = fake;
                    }
                    forged = Some((fake, acct));
                    format!("account {} of {} is a forged copy{}", a, what(&t.ixs[j]), if theft { " naming the attacker" } else { "" })
                }
                Bend::Unsigned(j, victim) => {
                    for m in ixs[j].accounts.iter_mut() {
                        if m.pubkey == victim {
                            m.is_signer = false;
                        }
                    }
                    format!("{} without the signature of {}", what(&t.ixs[j]), name_of(&victim))
                }
                Bend::Args(j, how, x) => {
                    let d = &mut ixs[j].data;
                    let n = d.len();
                    let at = 8 + x as usize % (n - 8);
                    match how {
                        0 => d[at] = (x >> 32) as u8,
                        1 => d[at] = d[at].wrapping_add(1),
                        2 => d[8..].iter_mut().take(8).for_each(|b| *b = 0xff),
                        _ => d[8..].iter_mut().take(8).for_each(|b| *b = 0),
                    }
                    format!("{} with other arguments", what(&t.ixs[j]))
                }
                Bend::Twice(j) => {
                    let x = ixs[j].clone();
                    ixs.insert(j, x);
                    format!("{} twice in a row", what(&t.ixs[j]))
                }
                Bend::Proxied(j, nest) => {
                    let x = ixs[j].clone();
                    ixs[j] = via_proxy(&[x], nest);
                    format!("{} through another program", what(&t.ixs[j]))
                }
                Bend::Cross(j, o, mask) | Bend::Parts(j, o, mask) => {
                    let (Some(a), Some(o)) = (&me, others.iter().find(|x| x.pool == o)) else { continue };
                    let keep = matches!(b, Bend::Cross(..));
                    for (x, (p, q)) in parts(a).iter().zip(parts(o).iter()).enumerate() {
                        if (mask >> x & 1 == 1) == keep {
                            continue;
                        }
                        for m in ixs[j].accounts.iter_mut() {
                            if m.pubkey == *p {
                                m.pubkey = *q;
                            }
                        }
                    }
                    format!("{} with parts {:b} of another pool", what(&t.ixs[j]), mask)
                }
            };
            let signers = signers_of(&ixs);
            let s = TxSpec { ixs, signers, tag: format!("assault: {}", tag), client: 0, ..t.clone() };
            let mut f = self.fork();
            if let Some((k, a)) = forged {
                f.db.insert(k, std::rc::Rc::new(a));
                f.cov.fault("counterfactual forged account");
            }
            let ok = f.tx(&s).ok();
            for (_, v) in f.viols.iter_mut() {
                v.what = format!("[{}] {}", tag, v.what);
            }
            f.cov.fault("counterfactual attack");
            if ok {
                f.cov.fault("counterfactual attack accepted and judged harmless");
            }
            self.absorb(f);
        }
        self.environment(t, sw);
    }
    /// What the world around this very transaction can do to it: third parties misbehaving at
    /// every opportunity, failing calls, lamports already sitting on addresses to be created.
    fn environment(&mut self, t: &TxSpec, sw: &mut Sweep) {
        let heavy = t.ixs.iter().any(|i| {
            i.program_id == DBC && matches!(dbc_name(&i.data), Some(n) if n.starts_with("migrat") || n.contains("locker") || n.contains("lock_lp") || n.contains("metadata"))
        });
        let rng = &mut sw.rng;
        let mut all: Vec<(TxSpec, String, &'static str)> = vec![];
        if heavy {
            for kind in 1..=3u8 {
                for skip in 0..6u8 {
                    let s = TxSpec { misbehave: kind + 16 * skip, client: 0, ..t.clone() };
                    all.push((s, format!("third party misbehaves ({}) at opportunity {}", kind, skip + 1), "counterfactual misbehaviour"));
                }
            }
            for n in 1..=10 {
                all.push((TxSpec { fail_nth: n, client: 0, ..t.clone() }, format!("third-party call {} fails", n), "counterfactual CPI failure"));
            }
            all.push((TxSpec { take_less: rng.log(1, 50), client: 0, ..t.clone() }, "the AMM takes less".into(), "counterfactual AMM rounding"));
        }
        let mut fresh: Vec<Pubkey> = t
            .ixs
            .iter()
            .flat_map(|i| &i.accounts)
            .filter(|m| m.is_writable && !m.is_signer && !self.db.contains_key(&m.pubkey))
            .map(|m| m.pubkey)
            .collect();
        fresh.sort();
        fresh.dedup();
        for k in fresh {
            let mut ixs = vec![sys_transfer(key("atk"), k, 890_880 + rng.log(0, 34))];
            ixs.extend(t.ixs.iter().cloned());
            let signers = signers_of(&ixs);
            let s = TxSpec { ixs, signers, client: 0, ..t.clone() };
            all.push((s, format!("lamports already on {}", name_of(&k)), "counterfactual prefunded address"));
        }
        // a wallet gives one of its token accounts to somebody else just before
        let mut handed: Vec<(Pubkey, Tok, Pubkey)> = vec![];
        let heir = crate::run::pool_ref(&self.db, &sw.pool).and_then(|r| config(&self.db, &r.config)).map(|c| c.leftover_receiver);
        for m in t.ixs.iter().flat_map(|i| &i.accounts) {
            let Some(x) = tok(&self.db, &m.pubkey) else { continue };
            let wallet = x.owner == TREASURY || Some(x.owner) == heir || t.signers.contains(&x.owner);
            if wallet && self.db[&m.pubkey].owner == TOKEN && can_sign(&self.db, &x.owner) && handed.iter().all(|h| h.0 != m.pubkey) {
                handed.push((m.pubkey, x, TOKEN));
            }
        }
        for (k, x, tp) in handed {
            let mut ixs = vec![token_give(tp, k, x.owner, key("atk"))];
            ixs.extend(t.ixs.iter().cloned());
            let signers = signers_of(&ixs);
            all.push((TxSpec { ixs, signers, client: 0, ..t.clone() }, format!("{} given away first", name_of(&k)), "counterfactual token account given away"));
        }
        for i in (1..all.len()).rev() {
            all.swap(i, rng.below(i as u64 + 1) as usize);
        }
        all.truncate(sw.budget / 2);
        for (mut s, tag, kind) in all {
            s.tag = format!("assault: {}", tag);
            let mut f = self.fork();
            f.tx(&s);
            for (_, v) in f.viols.iter_mut() {
                v.what = format!("[{}] {}", tag, v.what);
            }
            f.cov.fault(kind);
            self.absorb(f);
        }
    }
    /// Legitimate operations the liveness driver itself has no use for.
    pub fn assault_extras(&mut self, slot: u64, ts: i64) {
        let Some(pk) = self.sweep.as_ref().map(|s| s.pool) else { return };
        let Some(r) = crate::run::pool_ref(&self.db, &pk) else { return };
        self.arm(slot, ts);
        let p = pool(&self.db, &pk).unwrap();
        let c = config(&self.db, &r.config).unwrap();
        let payer = key("driver");
        // fill the decoy of the base vault as well
        let (mine, decoy) = (ata(&payer, &r.base, &r.base_tp), ata(&pool_authority(), &r.base, &r.base_tp));
        let n = bal(&self.db, &mine) / 8 * 7;
        if n > 0 && self.db.contains_key(&decoy) {
            let ixs = vec![token_transfer(r.base_tp, mine, decoy, payer, n)];
            let t = TxSpec { slot, ts, signers: signers_of(&ixs), ixs, tag: "attacker prepares".into(), ..Default::default() };
            self.tx(&t);
        }
        let op = key("drive-op");
        let a = |w: &Pubkey, base: bool| if base { ata(w, &r.base, &r.base_tp) } else { ata(w, &r.quote, &r.quote_tp) };
        let mut list: Vec<Vec<Instruction>> = vec![
            vec![transfer_creator(&r, p.creator, key("c3"), c.migration_option == 0)],
            vec![create_pool_metadata(&r, p.creator, payer, "a", "b", "c")],
            vec![create_partner_metadata(r.fee_claimer, payer, "a", "b", "c")],
            vec![create_operator(ADMINS[1], payer, key("sweep:op"), 3)],
        ];
        for base in [true, false] {
            let mut v = vec![];
            if !self.db.contains_key(&a(&op, base)) {
                v.push(create_ata(payer, op, if base { r.base } else { r.quote }, if base { r.base_tp } else { r.quote_tp }));
            }
            v.push(zap(&r, base, a(&op, base), operator_addr(&op), op, u64::MAX));
            list.push(v);
        }
        list.push(vec![close_old_operator(ADMINS[0], old_operator(2), payer)]);
        if operator(&self.db, &operator_addr(&op)).is_some() {
            list.push(vec![close_operator(ADMINS[0], operator_addr(&op), payer)]);
        }
        let n = self.sweep.as_mut().map(|s| s.rng.u64()).unwrap_or(0);
        let base = key(&format!("sweep:base:{}", n));
        let t22 = c.token_type == 1;
        list.push(vec![init_pool(t22, r.config, key("c2"), base, r.quote, r.quote_tp, payer, "n", "s", "u")]);
        for ixs in list {
            let signers = signers_of(&ixs);
            let t = TxSpec { slot, ts, ixs, signers, tag: "assault base".into(), ..Default::default() };
            if signers_ok(&self.db, &t) {
                self.assault(&t);
            }
        }
        // a pool whose quote token is not the one of its config
        for q in quotes() {
            if q.mint != r.quote {
                let base = key(&format!("sweep:base:{}:{}", n, q.mint));
                let ixs = vec![init_pool(t22, r.config, key("c2"), base, q.mint, q.tp, payer, "n", "s", "u")];
                let signers = signers_of(&ixs);
                let t = TxSpec { slot, ts, ixs, signers, tag: "assault: foreign quote token".into(), ..Default::default() };
                let mut f = self.fork();
                f.tx(&t);
                f.cov.fault("counterfactual attack");
                self.absorb(f);
            }
        }
    }
}
fn signers_ok(db: &crate::rt::Db, t: &TxSpec) -> bool {
    t.ixs.iter().flat_map(|i| &i.accounts).all(|m| !m.is_signer || can_sign(db, &m.pubkey))
}
impl Run {
    /// Every instruction of the pool's life, whatever its stage.
    pub fn out_of_order(&mut self, pk: Pubkey, slot: u64, ts: i64) {
        let Some(r) = crate::run::pool_ref(&self.db, &pk) else { return };
        let p = pool(&self.db, &pk).unwrap();
        let c = config(&self.db, &r.config).unwrap();
        let payer = key("driver");
        let mine = ata(&payer, &r.base, &r.base_tp);
        let lab = |o: u8| ["25", "30", "100", "200", "400", "600", "custom"][(o as usize).min(6)];
        let d1 = key(&format!("d1cfg:{}", lab(c.migration_fee_option.min(5))));
        let d2 = key(&format!("d2cfg:{}", lab(c.migration_fee_option)));
        let d = d1_addrs(&r, &d1);
        let qa = |w: &Pubkey| ata(w, &r.quote, &r.quote_tp);
        let ba = |w: &Pubkey| ata(w, &r.base, &r.base_tp);
        let mk = |w: &Pubkey, m: Pubkey, tp: Pubkey| create_ata(payer, *w, m, tp);
        let (fc, cr, lr) = (r.fee_claimer, p.creator, r.leftover);
        let mut now: Vec<Vec<Instruction>> = vec![
            vec![d1_create_metadata(&r, payer), d1_migrate(&r, d1, payer)],
            vec![d1_migrate(&r, d1, payer)],
            vec![d2_create_metadata(&r, payer), d2_migrate(&r, d2, payer, true)],
            vec![d2_migrate(&r, d2, payer, false)],
            vec![mk(&escrow_addr(&base_locker(&pk)), r.base, r.base_tp), create_locker(&r, cr, payer)],
            vec![mk(&lr, r.base, r.base_tp), withdraw_leftover(&r, lr, ba(&lr))],
            vec![mk(&fc, r.quote, r.quote_tp), surplus(&r, true, fc, qa(&fc))],
            vec![mk(&cr, r.quote, r.quote_tp), surplus(&r, false, cr, qa(&cr))],
            vec![mk(&fc, r.quote, r.quote_tp), withdraw_migration_fee(&r, 0, fc, qa(&fc))],
            vec![mk(&cr, r.quote, r.quote_tp), withdraw_migration_fee(&r, 1, cr, qa(&cr))],
            vec![mk(&fc, r.base, r.base_tp), mk(&fc, r.quote, r.quote_tp), claim_trading_fee(&r, fc, ba(&fc), qa(&fc), u64::MAX, u64::MAX)],
            vec![mk(&cr, r.base, r.base_tp), mk(&cr, r.quote, r.quote_tp), claim_creator_trading_fee(&r, cr, ba(&cr), qa(&cr), u64::MAX, u64::MAX)],
            vec![swap(&r, payer, qa(&payer), ba(&payer), Some(1), 1_000_000, 0, None, true)],
            vec![swap(&r, payer, ba(&payer), qa(&payer), Some(0), bal(&self.db, &mine).max(1), 0, None, true)],
        ];
        for who in [fc, cr] {
            now.push(vec![mk(&who, d.lp_mint, TOKEN), d1_claim(&r, d1, who, payer)]);
            now.push(vec![d1_create_lock_escrow(&d, who, payer), create_ata(payer, d1_lock_escrow(&d.pool, &who), d.lp_mint, TOKEN), d1_lock(&r, d1, who)]);
        }
        for mut ixs in now {
            // setup that cannot succeed yet must not hide the instruction of interest
            let keep = ixs.pop().unwrap();
            let mut f = self.fork();
            for pre in ixs {
                let t = TxSpec { slot, ts, signers: signers_of(std::slice::from_ref(&pre)), ixs: vec![pre], tag: "what-if setup".into(), ..Default::default() };
                f.tx(&t);
            }
            let t = TxSpec { slot, ts, signers: signers_of(std::slice::from_ref(&keep)), ixs: vec![keep], tag: "what-if now".into(), ..Default::default() };
            if signers_ok(&f.db, &t) {
                f.tx(&t);
            }
            f.cov.fault("what-if instruction out of order");
            self.absorb(f);
        }
    }
}
