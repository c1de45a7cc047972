//! Seeded generator: clients, network, clock and faults. Produces the schedule of one run while
//! executing it; every step it emits is a self-contained value, so replay needs none of this.

use crate::abi::*;
use crate::model::{self, QuoteFacts};
use crate::progs::*;
use crate::rt::Db;
use crate::run::*;
use crate::sim::*;
use solana_program::{
    instruction::{AccountMeta, Instruction},
    pubkey::Pubkey,
};
use std::collections::{BTreeMap, BTreeSet};

/// What a run concentrates on. Weights are relative; the swarm scales them per run.
#[derive(Clone, Debug)]
pub struct Prof {
    pub steps: u64,
    pub swap: u64,
    pub bundle: u64,
    pub claim: u64,
    pub once: u64,
    pub creation: u64,
    pub migrate: u64,
    pub transfer: u64,
    pub records: u64,
    pub operator: u64,
    pub zap: u64,
    pub attack: u64,
    pub tokens: u64,
    pub config: u64,
    pub pool: u64,
    pub probe: u64,
    pub drive: u64,
    /// percent of transactions / messages hit by each fault
    pub net: u64,
    pub abort: u64,
    pub cpi_fail: u64,
    pub misbehave: u64,
    pub jump: u64,
    /// config preferences, percent
    pub rl: u64,
    pub sched: u64,
    pub dynamic: u64,
    pub base_fees: u64,
    pub vest: u64,
    pub fixed: u64,
    pub v1: u64,
    pub custom: u64,
    pub creation_fee: u64,
    pub first_min: u64,
    pub bad_config: u64,
    pub lp_vest: u64,
    /// how quickly trades fill the curve (larger = smaller trades)
    pub small: u64,
    pub referral: u64,
    pub start_complete: u64,
    /// chance of the counterfactual replay at the end of a run
    pub isolation: u64,
    /// chance that a liveness drive also tries counterfactual attacks on each of its transactions
    pub sweep: u64,
    /// weight of fanning out alternative swaps
    pub fan: u64,
    /// chance that a config or pool is turned into what an older release left behind
    pub legacy: u64,
    /// weight of fanning out configurations
    pub cfan: u64,
    /// chance that a run belongs to users of an older client
    pub old_client: u64,
}
impl Default for Prof {
    fn default() -> Prof {
        Prof {
            steps: 90,
            swap: 100,
            bundle: 12,
            claim: 18,
            once: 20,
            creation: 8,
            migrate: 40,
            transfer: 6,
            records: 5,
            operator: 6,
            zap: 8,
            attack: 30,
            tokens: 6,
            config: 4,
            pool: 6,
            probe: 5,
            drive: 2,
            net: 12,
            abort: 3,
            cpi_fail: 4,
            misbehave: 3,
            jump: 12,
            rl: 20,
            sched: 40,
            dynamic: 35,
            base_fees: 30,
            vest: 35,
            fixed: 35,
            v1: 35,
            custom: 30,
            creation_fee: 40,
            first_min: 30,
            bad_config: 10,
            lp_vest: 25,
            small: 1,
            referral: 25,
            start_complete: 0,
            isolation: 4,
            sweep: 3,
            fan: 2,
            legacy: 8,
            old_client: 7,
            cfan: 1,
        }
    }
}
pub fn profile(prop: &str) -> Prof {
    let d = Prof::default();
    match prop {
        "C03" | "C04" => Prof { legacy: 16, fan: 16, swap: 200, probe: 14, small: 3, attack: 15, bundle: 20, ..d },
        "C05" => Prof { fan: 12, swap: 200, bundle: 20, net: 35, small: 3, ..d },
        "C06" => Prof { fan: 24, swap: 200, jump: 35, small: 6, rl: 35, sched: 45, dynamic: 50, steps: 110, first_min: 40, ..d },
        "C01" => Prof { legacy: 16, ..d },
        "C07" => Prof { legacy: 12, fan: 6, claim: 60, swap: 120, referral: 50, base_fees: 45, small: 3, ..d },
        "C08" => Prof { sweep: 50, attack: 160, once: 30, claim: 30, small: 2, ..d },
        "C09" => Prof { migrate: 80, attack: 60, net: 30, abort: 8, cpi_fail: 12, ..d },
        "C10" => Prof { legacy: 25, sweep: 12, claim: 30, zap: 20, operator: 12, once: 80, migrate: 50, net: 30, start_complete: 30, ..d },
        "C11" | "C12" => Prof { cfan: 3, legacy: 16, sweep: 12, migrate: 100, swap: 80, lp_vest: 45, custom: 50, start_complete: 60, steps: 60, cpi_fail: 8, ..d },
        "C13" => Prof { sweep: 12, vest: 95, migrate: 90, start_complete: 50, steps: 60, ..d },
        "C14" => Prof { sweep: 12, pool: 40, config: 20, records: 60, start_complete: 10, steps: 70, ..d },
        "C15" => Prof { fan: 4, rl: 75, sched: 5, bundle: 90, first_min: 60, small: 6, pool: 40, jump: 16, ..d },
        "C16" => Prof { legacy: 35, sweep: 12, creation_fee: 95, creation: 70, pool: 25, config: 12, ..d },
        "C17" => Prof { cfan: 24, config: 70, pool: 30, bad_config: 35, drive: 14, steps: 60, jump: 8, ..d },
        "C18" => Prof { fan: 24, pool: 20, first_min: 45, swap: 220, small: 4, dynamic: 45, rl: 30, jump: 20, ..d },
        "C21" => Prof { sweep: 12, operator: 70, zap: 70, attack: 60, claim: 30, small: 2, ..d },
        "C22" => Prof { sweep: 12, transfer: 70, migrate: 60, start_complete: 40, once: 30, ..d },
        "C23" => Prof { misbehave: 35, pool: 25, migrate: 100, start_complete: 60, vest: 60, steps: 60, ..d },
        "C26" => Prof { old_client: 90, swap: 120, claim: 30, once: 40, migrate: 70, records: 15, transfer: 10, start_complete: 25, config: 8, pool: 12, drive: 8, cfan: 0, attack: 8, first_min: 40, ..d },
        "C25" => Prof { legacy: 60, fan: 8, swap: 120, claim: 30, once: 40, migrate: 60, creation: 20, creation_fee: 60, start_complete: 25, sweep: 6, drive: 5, ..d },
        "C24" => Prof { drive: 16, start_complete: 20, steps: 70, ..d },
        "C20" => Prof { sweep: 12, pool: 25, config: 12, attack: 100, tokens: 40, isolation: 100, ..d },
        _ => d,
    }
}

#[derive(Clone)]
struct CfgInfo {
    key: Pubkey,
    p: ConfigParams,
    q: usize,
    claimer: Pubkey,
    leftover: Pubkey,
}
#[derive(Clone)]
struct Msg {
    spec: TxSpec,
}

pub struct World<'a> {
    pub run: &'a mut Run,
    rng: Rng,
    pf: Prof,
    cfgs: Vec<CfgInfo>,
    pools: Vec<(PoolRef, usize)>,
    slot: u64,
    ts: i64,
    frac: u64,
    queue: BTreeMap<(u64, u64), Msg>,
    seq: u64,
    partition: BTreeMap<Pubkey, u64>,
    stalled: bool,
    recent: Vec<(Vec<Instruction>, String)>,
    keeper_pending: BTreeMap<Pubkey, u64>,
    n_label: u64,
    tag: String,
    /// completed pools already considered for `older_surplus`
    aged: BTreeSet<Pubkey>,
    client: u8,
}

macro_rules! pct {
    ($s:expr, $p:expr) => {
        $s.rng.chance($p, 100)
    };
}

/// Generate and execute one run.
pub fn simulate(run: &mut Run, seed: u64, prof: &Prof) {
    let mut rng = Rng::new(seed);
    let mut pf = prof.clone();
    // swarm: each run disables or boosts some activities and faults
    {
        let mut f = |w: &mut u64| match rng.below(8) {
            0 => *w = 0,
            1 => *w *= 3,
            2 => *w /= 2,
            _ => {}
        };
        for w in [
            &mut pf.bundle, &mut pf.claim, &mut pf.once, &mut pf.creation, &mut pf.transfer, &mut pf.records, &mut pf.operator,
            &mut pf.zap, &mut pf.attack, &mut pf.tokens, &mut pf.probe, &mut pf.net, &mut pf.abort, &mut pf.cpi_fail,
            &mut pf.misbehave, &mut pf.jump, &mut pf.referral,
        ] {
            f(w);
        }
        for w in [&mut pf.net, &mut pf.abort, &mut pf.cpi_fail, &mut pf.misbehave, &mut pf.jump, &mut pf.referral] {
            *w = (*w).min(90);
        }
    }
    pf.small = (pf.small * rng.pick(&[1, 1, 2, 4, 8])).max(1);
    // now and then one pool gets a very long history of small trades
    if rng.chance(1, 60) {
        pf.steps *= 6;
        pf.swap *= 3;
        pf.small = 60 * rng.range(1, 20);
        pf.fan = 0;
        pf.cfan = 0;
        pf.sweep = 0;
        pf.pool = 0;
        pf.config = 0;
        pf.start_complete = 0;
    }
    let client = if rng.chance(pf.old_client, 100) { rng.range(1, 4) as u8 } else { 0 };
    let mut w = World {
        client,
        run,
        rng,
        pf,
        cfgs: vec![],
        pools: vec![],
        slot: S0,
        ts: T0,
        frac: 0,
        queue: BTreeMap::new(),
        seq: 0,
        partition: BTreeMap::new(),
        stalled: false,
        recent: vec![],
        keeper_pending: BTreeMap::new(),
        n_label: 0,
        tag: String::new(),
        aged: Default::default(),
    };
    w.main();
}

impl World<'_> {
    fn db(&self) -> &Db {
        &self.run.db
    }
    fn main(&mut self) {
        // bootstrap: operators, one or two configs and pools
        if pct!(self, 70) {
            let perm = *self.rng.pick(&[1u128, 2, 3, 3]);
            let ix = create_operator(ADMINS[0], key("keeper"), key("o0"), perm);
            self.direct(vec![ix], "operator");
        }
        for _ in 0..self.rng.range(1, 2) {
            self.act_config(true);
        }
        for _ in 0..self.rng.range(1, 2) {
            self.act_pool(true);
        }
        if self.rng.chance(self.pf.start_complete, 100) {
            for i in 0..self.pools.len() {
                self.complete(i);
            }
        }
        let n = self.pf.steps;
        let mut k = 0;
        while k < n {
            k += 1;
            self.clock();
            self.deliver();
            self.act();
        }
        // heal: everything still in flight arrives, then the pools must reach their end
        self.partition.clear();
        self.stalled = false;
        while !self.queue.is_empty() {
            self.slot += 1;
            self.ts += 1;
            self.deliver();
        }
        for i in 0..self.pools.len() {
            let (r, _) = self.pools[i].clone();
            let arg = self.drive_arg();
            self.slot += 3;
            self.ts += 2;
            self.run.step(Step::Drive { pool: r.pool, slot: self.slot, ts: self.ts, arg });
            if pct!(self, 30) {
                let (kind, arg) = (self.rng.below(3) as u8, self.rng.u64());
                self.run.step(Step::Probe { kind, pool: r.pool, slot: self.slot, ts: self.ts, arg });
            }
        }
        if self.rng.chance(self.pf.isolation, 100) {
            for i in 0..self.pools.len() {
                let r = self.pools[i].0.clone();
                let arg = self.rng.range(1, 3);
                self.run.step(Step::Probe { kind: 3, pool: r.pool, slot: self.slot, ts: self.ts, arg });
            }
        }
        self.run.finish();
    }

    // -------------------------------------------------------------- clock
    fn clock(&mut self) {
        let d = match self.rng.below(10) {
            0..=3 => 0,
            4..=7 => 1,
            8 => self.rng.range(2, 5),
            _ => self.rng.range(5, 40),
        };
        self.advance(d);
        if pct!(self, 4) {
            self.stalled = !self.stalled;
            if self.stalled {
                self.run.cov.fault("clock stall (timestamp frozen while slots pass)");
            }
        }
        if self.rng.chance(self.pf.jump, 100) {
            self.jump();
        }
    }
    fn advance(&mut self, slots: u64) {
        self.slot += slots;
        if self.stalled {
            return;
        }
        self.frac += slots * 400;
        self.ts += (self.frac / 1000) as i64;
        self.frac %= 1000;
    }
    /// Jump to an instant that matters to some pool, or just far away.
    fn jump(&mut self) {
        self.run.cov.fault("clock jump");
        let mut target: Option<(u64, bool)> = None;
        if !self.pools.is_empty() && pct!(self, 85) {
            let i = self.rng.below(self.pools.len() as u64) as usize;
            let (r, ci) = self.pools[i].clone();
            let c = self.cfgs[ci].p.clone();
            if let Some(p) = pool(self.db(), &r.pool) {
                let by_slot = c.activation_type == 0;
                let now = if by_slot { self.slot } else { self.ts as u64 };
                let el = now.saturating_sub(p.activation_point);
                match self.rng.below(4) {
                    0 | 1 if c.fee_mode < 2 && c.fee_second > 0 => {
                        let per = c.fee_second as u128;
                        let k = match self.rng.below(5) {
                            4 => 1u128 << self.rng.below(17),
                            0 => el as u128 / per + 1,
                            1 => el as u128 / per + 1 + self.rng.below(c.fee_first as u64 + 2) as u128,
                            2 => c.fee_first as u128,
                            _ => (c.fee_first as u128).saturating_sub(1),
                        };
                        let t = p.activation_point as u128 + k * per;
                        if t < 1 << 62 {
                            target = Some((t as u64, by_slot));
                        }
                    }
                    0 | 1 if c.fee_mode == 2 => target = Some((p.activation_point + c.fee_second, by_slot)),
                    _ => {
                        if let Some(d) = &c.dynamic {
                            let k = *self.rng.pick(&[d.filter as u64, d.decay as u64]);
                            target = Some((p.last_update + k, false));
                        }
                    }
                }
            }
        }
        match target {
            Some((t, by_slot)) => {
                let t = (t as i128 + self.rng.below(3) as i128 - 1).max(0) as u64;
                if by_slot {
                    if t > self.slot {
                        let d = t - self.slot;
                        if d < 1 << 40 {
                            self.slot = t;
                            if pct!(self, 70) {
                                self.ts += (d * 2 / 5) as i64;
                            }
                        }
                    }
                } else if t as i64 > self.ts {
                    let d = (t as i64 - self.ts) as u64;
                    if d < 1 << 40 {
                        self.ts = t as i64;
                        if pct!(self, 70) {
                            self.slot += d * 5 / 2;
                        }
                    }
                }
            }
            None => {
                let d = match self.rng.below(5) {
                    0 => self.rng.range(1, 120),
                    1 => self.rng.range(1, 7200),
                    2 => self.rng.range(1, 90_000),
                    3 => self.rng.range(86_400, 86_400 * 400),
                    _ => self.rng.log(1, 1 << 34),
                };
                if pct!(self, 80) {
                    self.ts += d as i64;
                }
                if pct!(self, 80) {
                    self.slot += d * 5 / 2;
                }
            }
        }
    }

    // -------------------------------------------------------------- network
    fn deliver(&mut self) {
        let due: Vec<(u64, u64)> = self.queue.range(..=(self.slot, u64::MAX)).map(|(k, _)| *k).collect();
        for k in due {
            let m = self.queue.remove(&k).unwrap();
            self.apply(m.spec);
        }
    }
    fn apply(&mut self, mut t: TxSpec) -> bool {
        t.slot = self.slot;
        t.ts = self.ts;
        self.recent.push((t.ixs.clone(), t.tag.clone()));
        if self.recent.len() > 40 {
            self.recent.remove(0);
        }
        self.run.step(Step::Tx(t))
    }
    fn spec(&mut self, ixs: Vec<Instruction>, tag: &str) -> TxSpec {
        let v = if self.client != 0 && self.rng.chance(9, 10) { self.client } else { 0 };
        let (ixs, client) = crate::run::old_ixs(&self.run.db, ixs, v);
        let signers = signers_of(&ixs);
        TxSpec { slot: self.slot, ts: self.ts, ixs, signers, client, tag: tag.into(), ..Default::default() }
    }
    /// Executed at once, no faults (bootstrap).
    fn direct(&mut self, ixs: Vec<Instruction>, tag: &str) -> bool {
        let t = self.spec(ixs, tag);
        self.apply(t)
    }
    /// Submitted by `who` through the network.
    fn submit(&mut self, who: Pubkey, ixs: Vec<Instruction>, tag: &str) {
        let mut t = self.spec(ixs, tag);
        self.faults(&mut t);
        self.send(who, t);
    }
    fn send(&mut self, who: Pubkey, t: TxSpec) {
        if !self.rng.chance(self.pf.net, 100) && !self.partition.contains_key(&who) {
            self.apply(t);
            return;
        }
        let mut at = self.slot;
        if let Some(until) = self.partition.get(&who).copied() {
            if until > self.slot {
                at = until;
                self.run.cov.fault("message held by a partition");
            } else {
                self.partition.remove(&who);
            }
        }
        match self.rng.below(6) {
            0 => {
                self.run.cov.fault("message lost");
                return;
            }
            1 | 2 => {
                let n = self.rng.range(1, 2);
                for _ in 0..n {
                    let d = self.rng.log(1, 200);
                    self.enqueue(at + d, t.clone());
                }
                self.run.cov.fault("message duplicated");
            }
            3 => {
                let d = self.rng.range(20, 400);
                self.partition.insert(who, self.slot + d);
                self.run.cov.fault("partition");
                at = self.slot + d;
            }
            _ => {
                at += self.rng.log(1, 60);
                self.run.cov.fault("message delayed / reordered");
            }
        }
        self.enqueue(at, t);
    }
    fn enqueue(&mut self, at: u64, t: TxSpec) {
        self.seq += 1;
        let tie = self.rng.below(1 << 20) << 32 | self.seq;
        self.queue.insert((at, tie), Msg { spec: t });
    }
    fn faults(&mut self, t: &mut TxSpec) {
        let heavy = t.ixs.iter().any(|ix| {
            matches!(
                dbc_name(&ix.data),
                Some(
                    "migrate_meteora_damm"
                        | "migration_damm_v2"
                        | "create_locker"
                        | "migrate_meteora_damm_lock_lp_token"
                        | "initialize_virtual_pool_with_spl_token"
                        | "initialize_virtual_pool_with_token2022"
                )
            )
        });
        if self.rng.chance(self.pf.abort, 100) {
            t.abort_at = Some(if pct!(self, 60) { self.rng.range(1, 8) } else { self.rng.range(1, 30) });
        } else if self.rng.chance(self.pf.cpi_fail * if heavy { 2 } else { 1 }, 100) {
            t.fail_nth = self.rng.range(1, if heavy { 8 } else { 2 }) as u32;
        } else if heavy && self.rng.chance(self.pf.misbehave, 100) {
            t.misbehave = self.rng.range(1, 3) as u8;
            if self.rng.chance(1, 2) {
                t.misbehave += 16 * self.rng.range(1, 4) as u8;
            }
        }
        if heavy && pct!(self, 25) {
            t.take_less = self.rng.log(1, 50);
        }
        if t.ixs.iter().any(|ix| dbc_name(&ix.data) == Some("zap_protocol_fee")) && pct!(self, 12) {
            t.zap = self.rng.range(1, 4) as u8;
        }
    }

    // -------------------------------------------------------------- activities
    fn act(&mut self) {
        if self.pools.is_empty() {
            if self.cfgs.is_empty() || pct!(self, 20) {
                self.act_config(false);
            } else {
                self.act_pool(false);
            }
            return;
        }
        self.age();
        let i = self.rng.below(self.pools.len() as u64) as usize;
        let r = self.pools[i].0.clone();
        let (live, progress) = match pool(self.db(), &r.pool) {
            Some(p) => (p.progress == 0, p.progress),
            None => (true, 9),
        };
        if progress == 9 {
            // its creation is still in flight (or was lost): forget it sometimes
            if pct!(self, 10) {
                self.pools.remove(i);
                return;
            }
        }
        let p = &self.pf;
        let swap = if live { p.swap } else { 6 };
        let w = [
            swap,
            if live { p.bundle } else { p.bundle / 6 },
            p.claim,
            if live { p.once / 5 } else { p.once * 2 },
            p.creation,
            if live { p.migrate / 8 } else { p.migrate * 2 },
            p.transfer,
            p.records,
            p.operator,
            p.zap,
            p.attack,
            p.tokens,
            p.config,
            p.pool,
            if live { p.probe } else { p.probe / 3 },
            p.drive,
            if live { p.fan } else { 0 },
            p.cfan,
        ];
        let total: u64 = w.iter().sum();
        let mut x = self.rng.below(total.max(1));
        let mut a = 0;
        for (j, v) in w.iter().enumerate() {
            if x < *v {
                a = j;
                break;
            }
            x -= v;
        }
        match a {
            0 => self.act_swap(i),
            1 => self.act_bundle(i),
            2 => self.act_claim(i),
            3 => self.act_once(i),
            4 => self.act_creation(i),
            5 => self.act_migrate(i),
            6 => self.act_transfer(i),
            7 => self.act_records(i),
            8 => self.act_operator(),
            9 => self.act_zap(i),
            10 => self.act_attack(i),
            11 => self.act_tokens(i),
            12 => self.act_config(false),
            13 => self.act_pool(false),
            14 => {
                let kind = if pct!(self, 60) { 1 } else { *self.rng.pick(&[0u8, 2]) };
                let arg = self.rng.u64();
                let (slot, ts) = (self.slot, self.ts);
                self.run.step(Step::Probe { kind, pool: r.pool, slot, ts, arg });
            }
            16 => {
                let arg = self.rng.u64();
                let (slot, ts) = (self.slot, self.ts);
                self.run.step(Step::Probe { kind: 4, pool: r.pool, slot, ts, arg });
            }
            17 => {
                let arg = self.rng.u64();
                let (slot, ts) = (self.slot, self.ts);
                self.run.step(Step::Probe { kind: 5, pool: r.pool, slot, ts, arg });
            }
            _ => {
                let arg = self.drive_arg();
                let (slot, ts) = (self.slot, self.ts);
                self.run.step(Step::Drive { pool: r.pool, slot, ts, arg });
            }
        }
    }
    fn drive_arg(&mut self) -> u64 {
        let a = self.rng.u64() >> 1;
        let a = a & !(7 << 60) | (self.client.saturating_sub(1) as u64) << 60 | ((self.client != 0) as u64) << 62;
        a | (self.rng.chance(self.pf.sweep, 100) as u64) << 63
    }
    fn label(&mut self, s: &str) -> Pubkey {
        self.n_label += 1;
        key(&format!("{}:{}", s, self.n_label))
    }
    fn trader(&mut self) -> Pubkey {
        match self.rng.below(12) {
            0 => key(&format!("c{}", self.rng.below(4))),
            1 => key(&format!("p{}", self.rng.below(3))),
            2 => key("atk"),
            _ => key(&format!("t{}", self.rng.below(5))),
        }
    }

    // -------------------------------------------------------------- configs and pools
    fn act_config(&mut self, boot: bool) {
        let qs = quotes();
        let n_try = 30;
        let bad = !boot && self.rng.chance(self.pf.bad_config, 100);
        let claimer = key(&format!("p{}", self.rng.below(3)));
        let leftover = if pct!(self, 80) { key("rcv0") } else if pct!(self, 50) { claimer } else { key("c0") };
        for _ in 0..n_try {
            let mut q = self.rng.below(qs.len() as u64) as usize;
            let mut p = gen_params(&mut self.rng, &self.pf);
            if self.client != 0 && self.rng.chance(4, 5) {
                crate::old::downgrade(&mut p, self.client);
            }
            if p.migration_option == 0 && qs[q].tp != TOKEN {
                q = self.rng.below(4) as usize;
            }
            let f = QuoteFacts { is_token: qs[q].tp == TOKEN, supported: true };
            let mut ok = model::create_config(&p, &f, false, self.ts as u64);
            if ok.is_err() {
                continue;
            }
            let mut left = leftover;
            let mut mint = qs[q].mint;
            if bad {
                match self.rng.below(12) {
                    0 => left = Pubkey::default(),
                    1 => {
                        let bq = bad_quotes();
                        mint = self.rng.pick(&bq).mint;
                    }
                    _ => {
                        let n = self.rng.range(1, 2);
                        for _ in 0..n {
                            perturb(&mut self.rng, &mut p);
                        }
                    }
                }
                ok = model::create_config(&p, &f, left == Pubkey::default(), self.ts as u64);
            }
            let k = self.label("cfg");
            let payer = if pct!(self, 50) { claimer } else { key("keeper") };
            let ix = create_config(k, claimer, left, mint, payer, &p);
            // off-chain parties only build on configs that made it to the chain
            if boot {
                self.direct(vec![ix], "create config");
            } else {
                self.submit(payer, vec![ix], "create config");
            }
            if config(self.db(), &k).is_some() && pct!(self, self.pf.legacy) {
                self.older_config(k);
            }
            if config(self.db(), &k).is_some() || ok.is_ok() {
                self.cfgs.push(CfgInfo { key: k, p, q, claimer, leftover: left });
            }
            return;
        }
    }
    /// What a config of an older release looks like: tombstones in the padding, curves of up to
    /// twenty points, migrated liquidity that is not locked at all.
    fn older_config(&mut self, k: Pubkey) {
        let Some(c) = config(self.db(), &k) else { return };
        let mut t = self.spec(vec![], "older config");
        let mut put = |off: usize, bytes: Vec<u8>| t.patch.push(Patch { key: k, off: 8 + off, bytes, lamports: 0 });
        put(222, vec![20, 20]);
        if c.partner_vest.pct == 0 && c.creator_vest.pct == 0 && self.rng.chance(1, 6) {
            // no new pools on it
            put(231, vec![0, c.partner_liq + c.partner_perm, 0, c.creator_liq + c.creator_perm]);
        }
        if self.rng.chance(2, 3) {
            let n = self.rng.range(17, 20) as usize;
            let mut v = c.curve.clone();
            for _ in 0..200 {
                if v.len() >= n {
                    break;
                }
                let i = self.rng.below(v.len() as u64) as usize;
                let a = if i == 0 { c.start_sqrt } else { v[i - 1].0 };
                if v[i].0 > a + 1 {
                    let d = v[i].0 - a;
                    let mid = a + 1 + ((d - 1) as f64 * (self.rng.below(1000) as f64 / 1000.0)) as u128;
                    if mid > a && mid < v[i].0 {
                        v.insert(i, (mid, v[i].1));
                    }
                }
            }
            let sb = model::base_for_swap(c.start_sqrt, c.mig_sqrt, &v);
            let need = u64::try_from(sb.clone()).ok().and_then(|s| {
                let w = model::swap_with_buffer(s, c.start_sqrt, &v).ok()?;
                w.checked_add(c.base_threshold)?.checked_add(model::config_vesting(&c) as u64)
            });
            let fits = need.map(|n| c.fixed_supply == 0 || n <= c.pre_supply).unwrap_or(false);
            if let (Ok(sb), true) = (u64::try_from(sb), fits) {
                put(248, sb.to_le_bytes().to_vec());
                let bytes: Vec<u8> = v.iter().flat_map(|(a, b)| [a.to_le_bytes(), b.to_le_bytes()].concat()).collect();
                put(400, bytes);
            }
        }
        if self.rng.chance(1, 5) {
            // fees below today's minimum: no new pools
            let mut b = model::BaseFee::of(&c);
            b.cliff = *self.rng.pick(&[1, 100_000, 1_000_000, 2_499_999, 2_500_000]);
            if b.min_fee().map(|x| x > 0).unwrap_or(false) {
                t.patch.push(Patch { key: k, off: 8 + 96, bytes: b.cliff.to_le_bytes().to_vec(), lamports: 0 });
            }
        }
        self.apply(t);
    }
    /// What a pool of an older release looks like: a flat creation fee kept for the protocol
    /// (perhaps paid out already), no protocol share of the migrated liquidity.
    fn older_pool(&mut self, k: Pubkey) {
        let Some(p) = pool(self.db(), &k) else { return };
        if p.legacy_bits != 0 || p.mig_bps == 0 || p.progress != 0 {
            return;
        }
        let mut t = self.spec(vec![], "older pool");
        match self.rng.below(8) {
            0..=3 => t.patch.push(Patch { key: k, off: 368, bytes: vec![1], lamports: 10_000_000 }),
            4 => t.patch.push(Patch { key: k, off: 368, bytes: vec![3], lamports: 0 }),
            _ => {}
        }
        if self.rng.chance(2, 3) {
            t.patch.push(Patch { key: k, off: 376, bytes: vec![0, 0], lamports: 0 });
        }
        // the metadata account once required to migrate to DAMM v2
        if let (Some(c), true) = (config(self.db(), &p.config), self.rng.chance(1, 3)) {
            if c.migration_option == 1 {
                let key = Pubkey::find_program_address(&[b"damm_v2", k.as_ref()], &DBC).0;
                let mut bytes = [&disc("account", "MeteoraDammV2Metadata")[..], k.as_ref(), p.creator.as_ref(), c.fee_claimer.as_ref()].concat();
                bytes.resize(8 + 222, 0);
                t.patch.push(Patch { key, off: PATCH_NEW, bytes, lamports: 0 });
            }
        }
        if let (Some(c), true) = (config(self.db(), &p.config), self.rng.chance(1, 4)) {
            if c.partner_vest.pct == 0 && c.creator_vest.pct == 0 {
                let bytes = vec![0, c.partner_liq + c.partner_perm, 0, c.creator_liq + c.creator_perm];
                t.patch.push(Patch { key: p.config, off: 8 + 231, bytes, lamports: 0 });
            }
        }
        if !t.patch.is_empty() {
            self.apply(t);
        }
    }
    /// Before 0.1.7 the last exact-in swap went beyond the migration price: completed pools that
    /// are not migrated yet may hold a real surplus.
    fn age(&mut self) {
        for i in 0..self.pools.len() {
            let k = self.pools[i].0.pool;
            let Some(p) = pool(self.db(), &k) else { continue };
            if (p.progress == 1 || p.progress == 2) && self.aged.insert(k) && pct!(self, self.pf.legacy * 2) {
                self.older_surplus(k);
            }
        }
    }
    fn older_surplus(&mut self, k: Pubkey) {
        let p = pool(self.db(), &k).unwrap();
        let Some(c) = config(self.db(), &p.config) else { return };
        if p.partner_surplus_done | p.creator_surplus_done | p.protocol_surplus_done | p.migration_fee_status != 0 {
            return;
        }
        let (Some(qv), Some(bv), Some(qm)) = (tok(self.db(), &p.quote_vault), tok(self.db(), &p.base_vault), mint(self.db(), &c.quote_mint)) else { return };
        // a holder to whom the last buy paid out
        let holder = self.db().iter().find(|(a, x)| {
            **a != p.base_vault && Tok::parse(x).map(|t| t.mint == p.base_mint && t.owner != pool_authority()).unwrap_or(false)
        });
        let Some(holder) = holder.map(|(a, _)| *a) else { return };
        let need = c.base_threshold as u128 + model::config_vesting(&c) as u128;
        let room = (p.base_reserve as u128).saturating_sub(need).min(bv.amount as u128 - need.min(bv.amount as u128)) as u64;
        let mut x = match self.rng.below(3) {
            0 => self.rng.log(1, 62).min(c.threshold / 2 + self.rng.below(1000)),
            _ => (c.threshold as u128 * self.rng.range(1, 120) as u128 / 100) as u64,
        };
        for _ in 0..64 {
            let Ok(w) = model::walk_buy_in(c.start_sqrt, &c.curve, p.sqrt_price, MAX_SQRT, x) else { return };
            let y = u64::try_from(w.output.clone()).unwrap_or(u64::MAX);
            if w.left == 0 && y <= room && x > 0 && qm.supply.checked_add(x).is_some() && qv.amount.checked_add(x).is_some() && p.quote_reserve.checked_add(x).is_some() {
                let mut t = self.spec(vec![], "completed by an older release");
                let native = c.quote_mint == WSOL;
                let mut put = |key: Pubkey, off: usize, b: Vec<u8>, lamports: u64| t.patch.push(Patch { key, off, bytes: b, lamports });
                put(k, 8 + 232, (p.quote_reserve + x).to_le_bytes().to_vec(), 0);
                put(k, 8 + 224, (p.base_reserve - y).to_le_bytes().to_vec(), 0);
                put(k, 8 + 272, w.next.to_le_bytes().to_vec(), 0);
                put(p.quote_vault, PATCH_ADD + 64, x.to_le_bytes().to_vec(), if native { x } else { 0 });
                if !native {
                    put(c.quote_mint, PATCH_ADD + 36, x.to_le_bytes().to_vec(), 0);
                }
                if y > 0 {
                    put(p.base_vault, PATCH_ADD + 64, y.wrapping_neg().to_le_bytes().to_vec(), 0);
                    put(holder, PATCH_ADD + 64, y.to_le_bytes().to_vec(), 0);
                }
                self.apply(t);
                return;
            }
            x /= 2;
            if x == 0 {
                return;
            }
        }
    }
    fn act_pool(&mut self, boot: bool) {
        self.act_pool_(boot);
        if let Some((r, _)) = self.pools.last() {
            let k = r.pool;
            if pct!(self, self.pf.legacy) {
                self.older_pool(k);
            }
        }
    }
    fn act_pool_(&mut self, boot: bool) {
        if self.cfgs.is_empty() || self.pools.len() >= 5 {
            return;
        }
        let ci = self.rng.below(self.cfgs.len() as u64) as usize;
        let c = self.cfgs[ci].clone();
        let q = quotes()[c.q];
        let creator = key(&format!("c{}", self.rng.below(4)));
        let payer = if pct!(self, 60) { creator } else { key("keeper") };
        let base = self.label("base");
        let t22 = if pct!(self, 95) { c.p.token_type == 1 } else { c.p.token_type == 0 };
        let (n, s, u) = match self.rng.below(7) {
            0 => ("", "", ""),
            1 => ("A token with exactly 32 bytes  xx", "SYMBOLLONG", "https://x/y.json"),
            2 => ("12345678901234567890123456789012", "1234567890", "u"),
            3 => ("T\u{f6}k\u{e9}n \u{1f680}", "\u{20ac}", "https://x/\u{fc}"),
            _ => ("Token", "TKN", "https://x/y.json"),
        };
        let ix = init_pool(t22, c.key, creator, base, q.mint, q.tp, payer, n, s, u);
        let pk = pool_addr(&c.key, &base, &q.mint);
        let tp = if t22 { TOKEN22 } else { TOKEN };
        let r = PoolRef {
            pool: pk,
            config: c.key,
            base,
            quote: q.mint,
            base_tp: tp,
            quote_tp: q.tp,
            base_vault: vault_addr(&base, &pk),
            quote_vault: vault_addr(&q.mint, &pk),
            fee_claimer: c.claimer,
            leftover: c.leftover,
        };
        let mut ixs = vec![ix];
        let k = self.rng.below(10);
        // bundled first buys, with and without the privileges they need
        if k < 4 {
            let buyer = if pct!(self, 60) { creator } else { self.trader() };
            let (uq, ub) = (ata(&buyer, &r.quote, &r.quote_tp), ata(&buyer, &r.base, &r.base_tp));
            ixs.push(create_ata(buyer, buyer, r.base, r.base_tp));
            let m = self.rng.range(1, 2);
            for _ in 0..m {
                let sw = self.first_buy(&r, &c, buyer, uq, ub);
                if pct!(self, 15) {
                    let nest = self.rng.below(2) as u8;
                    ixs.push(self.proxied(vec![sw], nest));
                } else {
                    ixs.push(sw);
                }
            }
            if pct!(self, 8) {
                ixs.swap(0, 1);
            }
            self.fillers(&mut ixs);
        }
        if boot {
            self.direct(ixs, "create pool");
            if pool(self.db(), &pk).is_none() {
                let ix = init_pool(c.p.token_type == 1, c.key, creator, base, q.mint, q.tp, payer, "Token", "TKN", "u");
                self.direct(vec![ix], "create pool");
            }
            if pool(self.db(), &pk).is_some() {
                let r = pool_ref(self.db(), &pk).unwrap();
                self.pools.push((r, ci));
            }
        } else {
            let right = (c.p.token_type == 1) == t22;
            if right && c.p.first_swap_min && k >= 4 && k < 8 {
                // a pool whose privileged first swap was not used: nobody gets it later
                self.direct(ixs, "create pool");
                if pool(self.db(), &pk).is_some() {
                    self.pools.push((r.clone(), ci));
                    self.late_first(&r, &c, payer);
                }
                return;
            }
            self.submit(payer, ixs, "create pool");
            if right {
                self.pools.push((r, ci));
            }
        }
    }
    /// A first buy as bundled with the creation of its pool, in any mode.
    fn first_buy(&mut self, r: &PoolRef, c: &CfgInfo, buyer: Pubkey, uq: Pubkey, ub: Pubkey) -> Instruction {
        let refd = if pct!(self, 15) { Some(ata(&key("r0"), &r.quote, &r.quote_tp)) } else { None };
        let mode = *self.rng.pick(&[None, Some(0u8), Some(1), Some(2)]);
        let sysvar = pct!(self, 80);
        if mode == Some(2) {
            let b = config(self.db(), &c.key).map(|x| x.swap_base_amount).unwrap_or(1 << 20);
            let amt = if pct!(self, 20) { self.rng.log(1, b.max(2)) } else { (b / self.rng.range(2, 60)).max(1) };
            swap(r, buyer, uq, ub, mode, amt, FUND, refd, sysvar)
        } else {
            let amt = if pct!(self, 15) { self.rng.log(1, c.p.threshold.max(2)) } else { (c.p.threshold / self.rng.range(2, 60)).max(1) };
            swap(r, buyer, uq, ub, mode, amt, 0, refd, sysvar)
        }
    }
    /// The first swap of a pool that already exists, dressed up as if it came with a creation.
    fn late_first(&mut self, r: &PoolRef, c: &CfgInfo, payer: Pubkey) {
        let buyer = self.trader();
        let (uq, ub) = (ata(&buyer, &r.quote, &r.quote_tp), ata(&buyer, &r.base, &r.base_tp));
        let sw = self.first_buy(r, c, buyer, uq, ub);
        let mut ixs = vec![create_ata(buyer, buyer, r.base, r.base_tp)];
        match self.rng.below(6) {
            0..=2 => {
                // another pool of the same configuration is created in front of it
                let base = self.label("base");
                let mut ix = init_pool(c.p.token_type == 1, c.key, key("c1"), base, r.quote, r.quote_tp, payer, "Token", "TKN", "u");
                let n = ix.accounts.len();
                match self.rng.below(4) {
                    0 => {}
                    1 => ix.accounts.push(AccountMeta::new_readonly(r.pool, false)),
                    2 => ix.accounts.push(AccountMeta::new(r.pool, false)),
                    _ => {
                        for _ in 0..self.rng.range(1, 4) {
                            ix.accounts.push(AccountMeta::new_readonly(r.pool, false));
                        }
                    }
                }
                let _ = n;
                ixs.push(ix);
            }
            3 => {
                let mut x = sys_transfer(key("t1"), key("t2"), 1);
                for _ in 0..self.rng.range(1, 6) {
                    x.accounts.push(AccountMeta::new_readonly(r.pool, false));
                }
                ixs.push(x);
            }
            4 => {
                // another instruction of the program, with the pool at the position of a creation
                let mut x = create_partner_metadata(key("t2"), payer, "n", "w", "l");
                while x.accounts.len() < 6 {
                    x.accounts.push(AccountMeta::new_readonly(r.pool, false));
                }
                ixs.push(x);
            }
            _ => {}
        }
        if pct!(self, 12) {
            let nest = self.rng.below(2) as u8;
            ixs.push(self.proxied(vec![sw], nest));
        } else {
            ixs.push(sw);
        }
        self.fillers(&mut ixs);
        self.direct(ixs, "late first swap");
    }
    fn complete(&mut self, i: usize) {
        let r = self.pools[i].0.clone();
        let u = key("t0");
        let (uq, ub) = (ata(&u, &r.quote, &r.quote_tp), ata(&u, &r.base, &r.base_tp));
        let ix = create_ata(u, u, r.base, r.base_tp);
        self.direct(vec![ix], "ata");
        for _ in 0..6 {
            self.slot += 2;
            self.ts += 1;
            if pool(self.db(), &r.pool).map(|p| p.progress != 0).unwrap_or(true) {
                break;
            }
            let amt = FUND / 8;
            let ix = swap(&r, u, uq, ub, Some(1), amt, 0, None, true);
            self.direct(vec![ix], "complete");
        }
    }

    // -------------------------------------------------------------- trading
    fn swap_ix(&mut self, i: usize, buy: Option<bool>) -> (Pubkey, Vec<Instruction>) {
        let (r, ci) = self.pools[i].clone();
        let c = self.cfgs[ci].p.clone();
        let u = self.trader();
        let (uq, ub) = (ata(&u, &r.quote, &r.quote_tp), ata(&u, &r.base, &r.base_tp));
        let mut pre = vec![];
        if !self.db().contains_key(&ub) {
            pre.push(create_ata(u, u, r.base, r.base_tp));
        }
        let p = pool(self.db(), &r.pool).unwrap_or_default();
        let cfg = config(self.db(), &r.config).unwrap_or_default();
        let held = bal(self.db(), &ub);
        let buy = buy.unwrap_or_else(|| held == 0 || pct!(self, 58));
        let left = c.threshold.saturating_sub(p.quote_reserve).max(1);
        let mode = *self.rng.pick(&[None, Some(0u8), Some(0), Some(1), Some(1), Some(2), Some(2)]);
        let m = mode.unwrap_or(0);
        let refd = self.rng.chance(self.pf.referral, 100);
        let sysvar = c.fee_mode == 2 && pct!(self, 92) || c.first_swap_min && pct!(self, 60) || pct!(self, 10);
        let small = self.pf.small;
        let amount = if m == 2 {
            if buy {
                let b = cfg.swap_base_amount.max(1);
                match self.rng.below(8) {
                    0 => self.rng.range(1, 5),
                    1 => self.rng.log(1, b),
                    2 => b.saturating_sub(cfg_initial(&cfg).saturating_sub(p.base_reserve)).max(1),
                    3 => b.saturating_sub(cfg_initial(&cfg).saturating_sub(p.base_reserve)).saturating_add(1),
                    _ => self.rng.range(1, (b / self.rng.clone().range(1, 12 * small)).max(1)),
                }
            } else {
                match self.rng.below(6) {
                    0 => self.rng.range(1, 5),
                    1 => self.rng.log(1, p.quote_reserve.max(1)),
                    _ => self.rng.range(1, (p.quote_reserve / 3).max(1)),
                }
            }
        } else if buy {
            match self.rng.below(14) {
                0 => self.rng.range(1, 20),
                1 => left,
                2 => left.saturating_add(1),
                3 => left.saturating_sub(1).max(1),
                4 => self.rng.log(1, left.saturating_mul(3).max(2)),
                5 if m == 1 => self.rng.log(left, FUND / 2),
                6 => {
                    // gross up so that the net amount lands on the threshold
                    let num = c.cliff_fee.saturating_add(self.rng.below(3)).min(990_000_000);
                    let g = (left as u128 * 1_000_000_000 / (1_000_000_000 - num as u128)) as u64;
                    g.saturating_add(self.rng.below(4)).saturating_sub(1).max(1)
                }
                7 | 8 if c.fee_mode == 2 && c.fee_third > 0 => {
                    // around multiples of the rate limiter's reference amount
                    let k = self.rng.range(1, 12);
                    c.fee_third.saturating_mul(k).saturating_add(self.rng.below(3)).saturating_sub(1).max(1)
                }
                _ => {
                    let d = self.rng.range(2, 14 * small);
                    self.rng.range(1, (c.threshold / d).max(1))
                }
            }
        } else {
            match self.rng.below(6) {
                0 => self.rng.range(1, 20),
                1 => held,
                2 => held.saturating_add(1),
                3 => self.rng.log(1, held.max(1)),
                _ => self.rng.range(1, (held / 2).max(1)),
            }
        }
        .max(1);
        // slippage limit from a quote on the state the client sees now
        let q = model::swap(
            &cfg,
            &p,
            &model::SwapReq { buy, mode: m, amount, referral: refd, first_min: false, ts: self.ts as u64, slot: self.slot },
        );
        let limit = match (&q, m) {
            (Ok(x), 2) => match self.rng.below(6) {
                0 => x.incl_in,
                1 => x.incl_in.saturating_sub(1),
                2 => x.incl_in.saturating_add(1),
                3 => x.incl_in.saturating_add(x.incl_in / 50),
                _ => FUND,
            },
            (Ok(x), _) => match self.rng.below(6) {
                0 => x.out,
                1 => x.out.saturating_add(1),
                2 => x.out.saturating_sub(1),
                3 => x.out - x.out / 50,
                _ => 0,
            },
            (_, 2) => FUND,
            _ => 0,
        };
        let refk = if refd {
            let fb = buy && c.collect_fee_mode == 1;
            let who = key(&format!("r{}", self.rng.below(2)));
            let (m, tp) = if fb { (r.base, r.base_tp) } else { (r.quote, r.quote_tp) };
            let a = ata(&who, &m, &tp);
            if !self.db().contains_key(&a) {
                pre.push(create_ata(u, who, m, tp));
            }
            Some(a)
        } else {
            None
        };
        let (i_, o_) = if buy { (uq, ub) } else { (ub, uq) };
        let ix = swap(&r, u, i_, o_, mode, amount, limit, refk, sysvar);
        if mode.is_some() && pct!(self, 1) {
            let mut ix = ix;
            ix.data[24] = self.rng.range(3, 255) as u8;
            pre.push(ix);
            return (u, pre);
        }
        pre.push(ix);
        (u, pre)
    }
    fn act_swap(&mut self, i: usize) {
        let (u, ixs) = self.swap_ix(i, None);
        self.submit(u, ixs, "swap");
    }
    /// Forward through another program, which lists its accounts in whatever order it likes.
    fn proxied(&mut self, mut inner: Vec<Instruction>, nest: u8) -> Instruction {
        let mut front: Vec<AccountMeta> = vec![];
        match self.rng.below(6) {
            0 => {
                // accounts of its own first
                for n in 0..self.rng.range(1, 20) {
                    front.push(AccountMeta::new_readonly(key(&format!("bot{n}")), false));
                }
            }
            1 => front.extend(inner[0].accounts.iter().rev().cloned()),
            2 => {
                front.extend(inner[0].accounts.iter().cloned());
                let by = self.rng.below(front.len() as u64) as usize;
                front.rotate_left(by);
            }
            _ => {}
        }
        if pct!(self, 25) {
            for _ in 0..self.rng.range(1, 3) {
                let at = self.rng.below(inner.len() as u64 + 1) as usize;
                inner.insert(at, proxy_nop());
            }
        }
        // one entry per account
        let mut seen = std::collections::BTreeSet::new();
        front.retain(|m| seen.insert(m.pubkey));
        via_proxy_with(front, &inner, nest)
    }
    /// Instructions that have nothing to do with anybody, in front, behind or between.
    fn fillers(&mut self, ixs: &mut Vec<Instruction>) {
        if pct!(self, 20) {
            for _ in 0..self.rng.range(1, 7) {
                let at = self.rng.below(ixs.len() as u64 + 1) as usize;
                ixs.insert(at, proxy_nop());
            }
        }
    }
    /// Several swaps in one transaction, directly and through other programs.
    fn act_bundle(&mut self, i: usize) {
        let mut i = i;
        if pct!(self, 60) {
            // where it is restricted, if anywhere
            let now: Vec<usize> = (0..self.pools.len())
                .filter(|j| {
                    let (Some(p), Some(c)) = (pool(self.db(), &self.pools[*j].0.pool), config(self.db(), &self.pools[*j].0.config)) else { return false };
                    let point = if c.activation_type == 0 { self.slot } else { self.ts as u64 };
                    p.progress == 0 && p.quote_reserve < c.threshold && model::BaseFee::of(&c).rl_applied(point, p.activation_point, true)
                })
                .collect();
            if !now.is_empty() {
                i = *self.rng.pick(&now);
            }
        }
        let n = self.rng.range(1, 3);
        let mut ixs = vec![];
        let mut who = key("t0");
        for _ in 0..n {
            let j = if pct!(self, 75) { i } else { self.rng.below(self.pools.len() as u64) as usize };
            let dir = if pct!(self, 65) { Some(true) } else { None };
            let (u, v) = self.swap_ix(j, dir);
            who = u;
            for ix in v {
                if ix.program_id == DBC && pct!(self, 35) {
                    let nest = *self.rng.pick(&[0u8, 0, 1, 2]);
                    let mut inner = vec![ix];
                    match self.rng.below(8) {
                        0 | 1 => {
                            let (_, more) = self.swap_ix(j, Some(true));
                            inner.extend(more.into_iter().filter(|x| x.program_id == DBC));
                        }
                        // the same again, once or twice
                        2 => inner.push(inner[0].clone()),
                        3 => {
                            let other = self.rng.below(self.pools.len() as u64) as usize;
                            let (_, more) = self.swap_ix(other, None);
                            let again = inner[0].clone();
                            inner.extend(more.into_iter().filter(|x| x.program_id == DBC));
                            inner.push(again);
                        }
                        _ => {}
                    }
                    ixs.push(self.proxied(inner, nest));
                } else {
                    ixs.push(ix);
                }
            }
        }
        if pct!(self, 15) {
            // an unrelated instruction that merely names the pool
            let r = self.pools[i].0.clone();
            let mut x = sys_transfer(key("t1"), key("t2"), 1);
            x.accounts.push(AccountMeta::new_readonly(r.pool, false));
            let at = self.rng.below(ixs.len() as u64 + 1) as usize;
            ixs.insert(at, x);
        }
        self.fillers(&mut ixs);
        self.submit(who, ixs, "bundle");
    }

    // -------------------------------------------------------------- claims
    fn cap(&mut self, have: u64) -> u64 {
        match self.rng.below(7) {
            0 => 0,
            1 => 1,
            2 => have,
            3 => have.saturating_sub(1),
            4 => self.rng.range(0, have.max(1)),
            _ => u64::MAX,
        }
    }
    fn dest(&mut self, who: &Pubkey, r: &PoolRef, base: bool, pre: &mut Vec<Instruction>) -> Pubkey {
        let (m, tp) = if base { (r.base, r.base_tp) } else { (r.quote, r.quote_tp) };
        let k = ata(who, &m, &tp);
        if !self.db().contains_key(&k) && pct!(self, 96) {
            pre.push(create_ata(key("keeper"), *who, m, tp));
        }
        k
    }
    fn act_claim(&mut self, i: usize) {
        let r = self.pools[i].0.clone();
        let p = pool(self.db(), &r.pool).unwrap_or_default();
        let mut pre = vec![];
        match self.rng.below(3) {
            0 => {
                let who = r.fee_claimer;
                let to = if pct!(self, 80) { who } else { self.trader() };
                let (a, b) = (self.dest(&to, &r, true, &mut pre), self.dest(&to, &r, false, &mut pre));
                let (x, y) = (self.cap(p.partner_base), self.cap(p.partner_quote));
                pre.push(claim_trading_fee(&r, who, a, b, x, y));
                self.submit(who, pre, "claim partner");
            }
            1 => {
                let who = p.creator;
                let to = if pct!(self, 80) { who } else { self.trader() };
                let (a, b) = (self.dest(&to, &r, true, &mut pre), self.dest(&to, &r, false, &mut pre));
                let (x, y) = (self.cap(p.creator_base), self.cap(p.creator_quote));
                pre.push(claim_creator_trading_fee(&r, who, a, b, x, y));
                self.submit(who, pre, "claim creator");
            }
            _ => {
                let who = key(if pct!(self, 85) { "o0" } else { "o1" });
                let odd = if self.pf.attack > 100 { 25 } else { 6 };
                let foreign = |w: &mut Self| if w.rng.chance(odd, 100) { *w.rng.pick(&[key("atk"), who, r.fee_claimer, p.creator]) } else { TREASURY };
                let (t1, t2) = (foreign(self), foreign(self));
                let (a, b) = (self.dest(&t1, &r, true, &mut pre), self.dest(&t2, &r, false, &mut pre));
                let (x, y) = (self.cap(p.protocol_base + p.mig_base_fee), self.cap(p.protocol_quote + p.mig_quote_fee));
                pre.push(claim_protocol_fee(&r, operator_addr(&who), who, a, b, x, y));
                self.submit(who, pre, "claim protocol");
            }
        }
    }
    fn act_once(&mut self, i: usize) {
        let r = self.pools[i].0.clone();
        let p = pool(self.db(), &r.pool).unwrap_or_default();
        let mut pre = vec![];
        let wrong = pct!(self, 6);
        match self.rng.below(5) {
            k @ (0 | 1) => {
                let partner = k == 0;
                let mut who = if partner { r.fee_claimer } else { p.creator };
                if wrong {
                    who = self.trader();
                }
                let b = self.dest(&who, &r, false, &mut pre);
                pre.push(surplus(&r, partner, who, b));
                self.submit(who, pre, "surplus");
            }
            k @ (2 | 3) => {
                let flag = if pct!(self, 97) { (k - 2) as u8 } else { self.rng.range(2, 255) as u8 };
                let mut who = if flag == 0 { r.fee_claimer } else { p.creator };
                if wrong {
                    who = if pct!(self, 50) { self.trader() } else if flag == 0 { p.creator } else { r.fee_claimer };
                }
                let b = self.dest(&who, &r, false, &mut pre);
                pre.push(withdraw_migration_fee(&r, flag, who, b));
                if pct!(self, 8) {
                    pre.push(pre.last().unwrap().clone());
                }
                self.submit(who, pre, "migration fee");
            }
            _ => {
                let who = if wrong { self.trader() } else { r.leftover };
                let a = self.dest(&who, &r, true, &mut pre);
                pre.push(withdraw_leftover(&r, who, a));
                let k = self.trader();
                self.submit(k, pre, "leftover");
            }
        }
    }
    fn act_creation(&mut self, i: usize) {
        let r = self.pools[i].0.clone();
        let op = key(if pct!(self, 85) { "o0" } else { "o1" });
        if pct!(self, 50) {
            let to = if pct!(self, 70) { r.fee_claimer } else { self.label("fresh") };
            let who = if pct!(self, 92) { r.fee_claimer } else { self.trader() };
            self.submit(who, vec![claim_partner_creation_fee(&r, who, to)], "creation fee");
        } else {
            let to = if pct!(self, 95) { TREASURY } else { key("atk") };
            self.submit(op, vec![claim_protocol_creation_fee(&r, operator_addr(&op), op, to)], "creation fee");
        }
    }
    fn act_zap(&mut self, i: usize) {
        let r = self.pools[i].0.clone();
        let p = pool(self.db(), &r.pool).unwrap_or_default();
        let who = key(if pct!(self, 85) { "o0" } else { "o1" });
        let base = pct!(self, 50);
        let mut pre = vec![];
        let to = if pct!(self, 93) { who } else { self.trader() };
        let rc = self.dest(&to, &r, base, &mut pre);
        let have = if base { p.protocol_base + p.mig_base_fee } else { p.protocol_quote + p.mig_quote_fee };
        let max = self.cap(have);
        pre.push(zap(&r, base, rc, operator_addr(&who), who, max));
        self.submit(who, pre, "zap");
    }

    // -------------------------------------------------------------- migration keeper
    fn bps_label(&self, i: usize) -> String {
        let c = &self.cfgs[self.pools[i].1].p;
        ["25", "30", "100", "200", "400", "600", "custom"][(c.migration_fee_option as usize).min(6)].to_string()
    }
    fn act_migrate(&mut self, i: usize) {
        let (r, ci) = self.pools[i].clone();
        let c = self.cfgs[ci].p.clone();
        let p = pool(self.db(), &r.pool).unwrap_or_default();
        // keeper memory: it does not resubmit what it believes is pending, until it crashes
        if pct!(self, 10) {
            self.keeper_pending.clear();
            self.run.cov.fault("keeper crash and restart");
        }
        if let Some(u) = self.keeper_pending.get(&r.pool) {
            if *u > self.slot && pct!(self, 60) {
                return;
            }
        }
        self.keeper_pending.insert(r.pool, self.slot + 4);
        let payer = key(if pct!(self, 80) { "keeper" } else { "keeper2" });
        let esc = escrow_addr(&base_locker(&r.pool));
        let lab = if pct!(self, 93) {
            self.bps_label(i)
        } else {
            self.rng.pick(&["25", "30", "100", "200", "400", "600", "custom", "25:bad1", "25:bad2", "25:bad3", "25:bad4", "25:bad5", "25:bad6", "25:bad7", "100:bad1", "100:bad3", "100:bad6", "100:bad7"]).to_string()
        };
        let bad = match self.bps_label(i).as_str() {
            b if b != "custom" && pct!(self, 8) => format!("{}:bad{}", b, self.rng.range(1, 10)),
            _ => lab,
        };
        let step = self.rng.below(10);
        let mut ixs = vec![];
        if c.migration_option == 0 {
            let mut d1 = key(&format!("d1cfg:{}", bad));
            if !self.db().contains_key(&d1) {
                d1 = key("d1cfg:100");
            }
            let have_meta = self.db().contains_key(&damm1_metadata(&r.pool));
            if p.progress == 3 || step == 9 {
                let dc = key(&format!("d1cfg:{}", self.bps_label(i)));
                let d = d1_addrs(&r, &dc);
                let who = if pct!(self, 92) {
                    if pct!(self, 50) { r.fee_claimer } else { p.creator }
                } else {
                    self.trader()
                };
                if pct!(self, 50) {
                    let le = d1_lock_escrow(&d.pool, &who);
                    if !self.db().contains_key(&le) {
                        ixs.push(d1_create_lock_escrow(&d, who, payer));
                    }
                    ixs.push(create_ata(payer, le, d.lp_mint, TOKEN));
                    ixs.push(d1_lock(&r, dc, who));
                } else {
                    ixs.push(create_ata(payer, who, d.lp_mint, TOKEN));
                    ixs.push(d1_claim(&r, dc, who, if pct!(self, 50) { payer } else { who }));
                }
                self.submit(payer, ixs, "lp");
                return;
            }
            if p.progress == 1 && step < 8 {
                ixs.push(create_ata(payer, esc, r.base, r.base_tp));
                ixs.push(create_locker(&r, p.creator, payer));
            } else if !have_meta && step < 8 {
                ixs.push(d1_create_metadata(&r, payer));
                if pct!(self, 30) {
                    ixs.push(d1_migrate(&r, d1, payer));
                }
            } else {
                ixs.push(d1_migrate(&r, d1, payer));
            }
        } else {
            let mut d2 = key(&format!("d2cfg:{}", bad));
            if !self.db().contains_key(&d2) {
                d2 = key("d2cfg:100");
            }
            if p.progress == 1 && step < 8 {
                ixs.push(create_ata(payer, esc, r.base, r.base_tp));
                ixs.push(create_locker(&r, p.creator, payer));
            } else {
                let second = pct!(self, 92);
                ixs.push(d2_migrate(&r, d2, payer, second));
            }
            if p.progress == 1 && pct!(self, 15) {
                ixs.push(d2_migrate(&r, d2, payer, true));
            }
        }
        if pct!(self, 5) {
            ixs.push(ixs.last().unwrap().clone());
        }
        self.submit(payer, ixs, "migrate");
    }

    // -------------------------------------------------------------- records
    fn act_transfer(&mut self, i: usize) {
        let (r, ci) = self.pools[i].clone();
        let p = pool(self.db(), &r.pool).unwrap_or_default();
        let v1 = self.cfgs[ci].p.migration_option == 0;
        let who = if pct!(self, 90) { p.creator } else { self.trader() };
        let new = match self.rng.below(8) {
            0 => p.creator,
            1 => r.fee_claimer,
            _ => key(&format!("c{}", self.rng.below(4))),
        };
        let meta = if pct!(self, 85) { v1 } else { !v1 };
        let mut ix = transfer_creator(&r, who, new, meta);
        if v1 && pct!(self, 10) && self.pools.len() > 1 {
            // the migration record of some other pool
            let o = self.rng.pick(&self.pools.clone()).0.pool;
            if let Some(a) = ix.accounts.last_mut() {
                a.pubkey = damm1_metadata(&o);
            }
        }
        self.submit(who, vec![ix], "transfer creator");
    }
    fn act_records(&mut self, i: usize) {
        let r = self.pools[i].0.clone();
        let p = pool(self.db(), &r.pool).unwrap_or_default();
        let payer = key("keeper");
        let long = "x".repeat(self.rng.range(200, 2000) as usize);
        let s = ["", "name", "https://website.example/with/a/long/path", "\u{fc}n\u{ef}c\u{f6}d\u{e9} \u{1f680}", &long];
        let (a, b, c) = (*self.rng.pick(&s), *self.rng.pick(&s), *self.rng.pick(&s));
        match self.rng.below(4) {
            0 | 1 => {
                let who = if pct!(self, 75) { p.creator } else { self.trader() };
                self.submit(who, vec![create_pool_metadata(&r, who, payer, a, b, c)], "pool metadata");
            }
            2 => {
                let who = key(&format!("p{}", self.rng.below(3)));
                let mut ix = create_partner_metadata(who, payer, a, b, c);
                if pct!(self, 15) {
                    let o = key(&format!("p{}", self.rng.below(3)));
                    ix.accounts[0].pubkey = partner_metadata(&o);
                }
                self.submit(who, vec![ix], "partner metadata");
            }
            _ => {
                let ix = if pct!(self, 25) { d2_create_metadata(&r, payer) } else { d1_create_metadata(&r, payer) };
                self.submit(payer, vec![ix], "migration metadata");
            }
        }
    }
    fn act_operator(&mut self) {
        let who = key(if pct!(self, 70) { "o0" } else { "o1" });
        let admin = if pct!(self, 85) { *self.rng.pick(&ADMINS) } else { *self.rng.pick(&[key("atk"), who]) };
        if pct!(self, 65) {
            let perm = match self.rng.below(9) {
                0 => 0,
                1 => 4,
                2 => 1u128 << self.rng.below(128),
                3 => u128::MAX,
                4 => 1,
                5 => 2,
                _ => 3,
            };
            self.submit(admin, vec![create_operator(admin, key("keeper"), who, perm)], "create operator");
        } else {
            let to = if pct!(self, 60) { key("keeper") } else { self.label("rent") };
            if pct!(self, 12) {
                let k = old_operator(self.rng.below(3) as u8);
                self.submit(admin, vec![close_old_operator(admin, k, to)], "close old operator");
                return;
            }
            self.submit(admin, vec![close_operator(admin, operator_addr(&who), to)], "close operator");
        }
    }
    fn act_tokens(&mut self, i: usize) {
        let r = self.pools[i].0.clone();
        let u = self.trader();
        let (uq, ub) = (ata(&u, &r.quote, &r.quote_tp), ata(&u, &r.base, &r.base_tp));
        match self.rng.below(6) {
            0 => {
                let n = self.rng.log(1, 1 << 30);
                self.submit(u, vec![token_transfer(r.quote_tp, uq, r.quote_vault, u, n)], "donate quote");
            }
            1 => {
                let h = bal(self.db(), &ub);
                if h > 0 {
                    let n = self.rng.range(1, h);
                    self.submit(u, vec![token_transfer(r.base_tp, ub, r.base_vault, u, n)], "donate base");
                }
            }
            2 => {
                let h = bal(self.db(), &ub);
                if h > 0 {
                    let n = self.rng.range(1, h);
                    self.submit(u, vec![token_burn(r.base_tp, ub, r.base, u, n)], "burn base");
                }
            }
            3 => {
                let n = self.rng.log(1, 1 << 30);
                self.submit(u, vec![sys_transfer(u, r.pool, n)], "lamports to pool");
            }
            4 => {
                let n = self.rng.log(1, 1 << 30);
                let to = *self.rng.pick(&[pool_authority(), r.quote_vault, r.base]);
                self.submit(u, vec![sys_transfer(u, to, n)], "lamports");
            }
            _ => {
                let v = self.trader();
                let h = bal(self.db(), &ub);
                if h > 0 && v != u {
                    let n = self.rng.range(1, h);
                    let vb = ata(&v, &r.base, &r.base_tp);
                    self.submit(
                        u,
                        vec![create_ata(u, v, r.base, r.base_tp), token_transfer(r.base_tp, ub, vb, u, n)],
                        "send base",
                    );
                }
            }
        }
    }

    // -------------------------------------------------------------- attacker
    /// Take something plausible and bend it: foreign accounts, missing signatures, stolen roles,
    /// other pools' parts, altered arguments, replays.
    fn act_attack(&mut self, i: usize) {
        let mut base: Vec<Instruction>;
        if pct!(self, 45) && !self.recent.is_empty() {
            base = self.rng.pick(&self.recent.clone()).0.clone();
            if pct!(self, 20) {
                // verbatim replay
                self.run.cov.fault("replayed transaction");
                let t = self.spec(base, "replay");
                self.apply(t);
                return;
            }
        } else {
            base = self.plausible(i);
        }
        let targets: Vec<usize> = (0..base.len()).filter(|j| base[*j].program_id == DBC).collect();
        if targets.is_empty() {
            return;
        }
        let j = *self.rng.pick(&targets);
        let atk = key("atk");
        let mut signers = None;
        let n = if pct!(self, 80) { 1 } else { 2 };
        let mut kinds = vec![];
        for _ in 0..n {
            let ix = &mut base[j];
            let na = ix.accounts.len();
            if na == 0 {
                return;
            }
            match self.rng.below(12) {
                0..=4 => {
                    // another account of the same kind
                    let a = self.rng.below(na as u64) as usize;
                    let cur = base[j].accounts[a].pubkey;
                    if base[j].accounts[a].is_signer && !self.db().contains_key(&cur) {
                        continue; // turning somebody's wallet into a program account only breaks the client
                    }
                    if let Some(k) = self.similar(&cur) {
                        // nobody turns a wallet in use into a new mint or config, nor lends the driver's key
                        let fresh = matches!(dbc_name(&base[j].data), Some("create_config")) && a == 0
                            || dbc_name(&base[j].data).map(|n| n.starts_with("initialize_virtual_pool")).unwrap_or(false) && a == 3;
                        let wallet = self.db().get(&k).map(|x| x.owner == SYSTEM).unwrap_or(true);
                        let driver = key("driver");
                        if fresh && wallet || k == driver || tok(self.db(), &k).map(|t| t.owner == driver).unwrap_or(false) {
                            continue;
                        }
                        base[j].accounts[a].pubkey = k;
                        kinds.push("foreign account");
                    }
                }
                5 | 6 => {
                    // role takeover: the attacker signs in place of a legitimate signer
                    let sg: Vec<Pubkey> = ix.accounts.iter().filter(|m| m.is_signer).map(|m| m.pubkey).collect();
                    if sg.is_empty() {
                        continue;
                    }
                    let victim = *self.rng.pick(&sg);
                    let moved = pct!(self, 60);
                    let db = self.run.db.clone();
                    for m in base[j].accounts.iter_mut() {
                        if m.pubkey == victim {
                            m.pubkey = atk;
                        } else if moved {
                            if let Some(t) = tok(&db, &m.pubkey) {
                                if t.owner == victim {
                                    m.pubkey = ata(&atk, &t.mint, &tp_of(&db, &t.mint));
                                }
                            }
                        }
                    }
                    if moved && pct!(self, 70) {
                        // make sure the attacker's base account exists
                        let r = self.pools[i].0.clone();
                        if !self.db().contains_key(&ata(&atk, &r.base, &r.base_tp)) {
                            let ix = create_ata(atk, atk, r.base, r.base_tp);
                            base.insert(0, ix);
                            kinds.push("stolen role");
                            break;
                        }
                    }
                    kinds.push("stolen role");
                }
                7 => {
                    // signature requirement dropped
                    let sg: Vec<usize> = (0..na).filter(|a| ix.accounts[*a].is_signer).collect();
                    if sg.is_empty() {
                        continue;
                    }
                    let a = *self.rng.pick(&sg);
                    let k = ix.accounts[a].pubkey;
                    for m in base[j].accounts.iter_mut() {
                        if m.pubkey == k {
                            m.is_signer = false;
                        }
                    }
                    kinds.push("missing signature");
                    signers = Some(());
                }
                8 => {
                    // two slots share one account
                    let (a, b) = (self.rng.below(na as u64) as usize, self.rng.below(na as u64) as usize);
                    let k = ix.accounts[b].pubkey;
                    if ix.accounts[a].is_signer && (!self.run.db.contains_key(&ix.accounts[a].pubkey) || a == 0 || a == 3) {
                        continue;
                    }
                    ix.accounts[a].pubkey = k;
                    kinds.push("aliased account");
                }
                9 => {
                    // argument changed
                    if ix.data.len() > 8 {
                        let a = self.rng.range(8, ix.data.len() as u64 - 1) as usize;
                        match self.rng.below(3) {
                            0 => ix.data[a] = self.rng.below(256) as u8,
                            1 => ix.data[a] = ix.data[a].wrapping_add(1),
                            _ => {
                                for b in ix.data[8..].iter_mut().take(8) {
                                    *b = 0xff;
                                }
                            }
                        }
                        kinds.push("argument changed");
                    }
                }
                10 => {
                    if pct!(self, 50) {
                        ix.accounts.pop();
                    } else {
                        let k = ix.accounts[self.rng.below(na as u64) as usize].clone();
                        ix.accounts.push(k);
                    }
                    kinds.push("account list changed");
                }
                _ => {
                    // everything that belongs to another pool, except one slot
                    if self.pools.len() > 1 {
                        let o = self.rng.pick(&self.pools.clone()).0.clone();
                        let r = self.pools[i].0.clone();
                        let pairs = [
                            (r.pool, o.pool),
                            (r.config, o.config),
                            (r.base, o.base),
                            (r.quote, o.quote),
                            (r.base_vault, o.base_vault),
                            (r.quote_vault, o.quote_vault),
                        ];
                        let skip = self.rng.below(pairs.len() as u64) as usize;
                        for (x, (a, b)) in pairs.iter().enumerate() {
                            if x == skip {
                                continue;
                            }
                            for m in base[j].accounts.iter_mut() {
                                if m.pubkey == *a {
                                    m.pubkey = *b;
                                }
                            }
                        }
                        kinds.push("cross pool");
                    }
                }
            }
        }
        for k in &kinds {
            self.run.cov.fault(&format!("attack: {}", k));
        }
        let _ = signers;
        let mut t = self.spec(base, &format!("attack {}", kinds.join("+")));
        self.faults(&mut t);
        self.apply(t);
    }
    /// Another account that looks the same to a careless check.
    fn similar(&mut self, k: &Pubkey) -> Option<Pubkey> {
        let db = self.run.db.clone();
        let c: Vec<Pubkey> = match db.get(k) {
            Some(a) => {
                let tk = Tok::parse(a);
                let same: Vec<Pubkey> = db
                    .iter()
                    .filter(|(x, b)| {
                        *x != k
                            && b.owner == a.owner
                            && b.executable == a.executable
                            && if a.owner == DBC {
                                b.data.len() >= 8 && a.data.len() >= 8 && b.data[..8] == a.data[..8]
                            } else {
                                b.data.len() == a.data.len()
                            }
                    })
                    .map(|(x, _)| *x)
                    .collect();
                // token accounts: prefer those of the same mint
                match tk {
                    Some(t) if pct!(self, 75) => {
                        let v: Vec<Pubkey> =
                            same.iter().filter(|x| tok(&db, x).map(|y| y.mint == t.mint).unwrap_or(false)).copied().collect();
                        if v.is_empty() {
                            same
                        } else {
                            v
                        }
                    }
                    _ => same,
                }
            }
            None => vec![],
        };
        if c.is_empty() || pct!(self, 6) {
            let all: Vec<Pubkey> = db.keys().copied().collect();
            return Some(*self.rng.pick(&all));
        }
        Some(*self.rng.pick(&c))
    }
    /// A legitimate-looking instruction of any kind for pool `i`.
    fn plausible(&mut self, i: usize) -> Vec<Instruction> {
        let (r, ci) = self.pools[i].clone();
        let p = pool(self.db(), &r.pool).unwrap_or_default();
        let c = self.cfgs[ci].p.clone();
        let (o0, k) = (key("o0"), key("keeper"));
        let q = |w: &Pubkey| ata(w, &r.quote, &r.quote_tp);
        let b = |w: &Pubkey| ata(w, &r.base, &r.base_tp);
        let fc = r.fee_claimer;
        let cr = p.creator;
        let late = p.progress > 0;
        let lab = self.bps_label(i);
        let n = if late { self.rng.below(22) } else { *self.rng.pick(&[0u64, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 18, 19, 20]) };
        let mut pre = vec![];
        match n {
            0 => return self.swap_ix(i, None).1,
            1 => {
                for m in [true, false] {
                    self.dest(&fc, &r, m, &mut pre);
                }
                pre.push(claim_trading_fee(&r, fc, b(&fc), q(&fc), u64::MAX, u64::MAX));
            }
            2 => {
                for m in [true, false] {
                    self.dest(&cr, &r, m, &mut pre);
                }
                pre.push(claim_creator_trading_fee(&r, cr, b(&cr), q(&cr), u64::MAX, u64::MAX));
            }
            3 => {
                for m in [true, false] {
                    self.dest(&TREASURY, &r, m, &mut pre);
                }
                pre.push(claim_protocol_fee(&r, operator_addr(&o0), o0, b(&TREASURY), q(&TREASURY), u64::MAX, u64::MAX));
            }
            4 => pre.push(surplus(&r, true, fc, q(&fc))),
            5 => pre.push(surplus(&r, false, cr, q(&cr))),
            6 => pre.push(withdraw_migration_fee(&r, 0, fc, q(&fc))),
            7 => pre.push(withdraw_migration_fee(&r, 1, cr, q(&cr))),
            8 => {
                self.dest(&r.leftover, &r, true, &mut pre);
                pre.push(withdraw_leftover(&r, r.leftover, b(&r.leftover)));
            }
            9 => pre.push(claim_partner_creation_fee(&r, fc, fc)),
            10 => pre.push(claim_protocol_creation_fee(&r, operator_addr(&o0), o0, TREASURY)),
            11 => {
                let base = pct!(self, 50);
                self.dest(&o0, &r, base, &mut pre);
                pre.push(zap(&r, base, if base { b(&o0) } else { q(&o0) }, operator_addr(&o0), o0, u64::MAX));
            }
            12 => pre.push(transfer_creator(&r, cr, key("atk"), c.migration_option == 0)),
            13 => pre.push(create_pool_metadata(&r, cr, k, "a", "b", "c")),
            14 => pre.push(create_operator(ADMINS[0], k, key("o1"), 3)),
            15 => pre.push(close_operator(ADMINS[0], operator_addr(&o0), k)),
            16 => {
                let esc = escrow_addr(&base_locker(&r.pool));
                pre.push(create_ata(k, esc, r.base, r.base_tp));
                pre.push(create_locker(&r, cr, k));
            }
            17 | 21 => {
                if c.migration_option == 0 {
                    if !self.db().contains_key(&damm1_metadata(&r.pool)) {
                        pre.push(d1_create_metadata(&r, k));
                    }
                    pre.push(d1_migrate(&r, key(&format!("d1cfg:{}", lab)), k));
                } else {
                    pre.push(d2_migrate(&r, key(&format!("d2cfg:{}", lab)), k, true));
                }
            }
            18 => pre.push(create_partner_metadata(fc, k, "a", "b", "c")),
            19 => {
                let ci = self.rng.below(self.cfgs.len() as u64) as usize;
                let c = self.cfgs[ci].clone();
                let qq = quotes()[c.q];
                let base = self.label("base");
                pre.push(init_pool(c.p.token_type == 1, c.key, key("c1"), base, qq.mint, qq.tp, k, "n", "s", "u"));
            }
            20 => pre.push(d1_create_metadata(&r, k)),
            _ => return self.swap_ix(i, None).1,
        }
        if n == 17 && c.migration_option == 0 && p.progress == 3 || n == 20 && p.progress == 3 {
            let dc = key(&format!("d1cfg:{}", lab));
            let d = d1_addrs(&r, &dc);
            let who = if pct!(self, 50) { fc } else { cr };
            pre.clear();
            if pct!(self, 50) {
                let le = d1_lock_escrow(&d.pool, &who);
                if !self.db().contains_key(&le) {
                    pre.push(d1_create_lock_escrow(&d, who, k));
                }
                pre.push(create_ata(k, le, d.lp_mint, TOKEN));
                pre.push(d1_lock(&r, dc, who));
            } else {
                pre.push(create_ata(k, who, d.lp_mint, TOKEN));
                pre.push(d1_claim(&r, dc, who, who));
            }
        }
        pre
    }
}
fn cfg_initial(c: &Config) -> u64 {
    model::initial_supply(c).unwrap_or(0)
}

// ------------------------------------------------------------------ configuration generator
pub fn gen_params(rng: &mut Rng, pf: &Prof) -> ConfigParams {
    let mut p = ConfigParams::default();
    let on = |rng: &mut Rng, x: u64| rng.chance(x, 100);
    p.activation_type = rng.below(2) as u8;
    p.migration_option = if on(rng, pf.v1) { 0 } else { 1 };
    p.token_type = if p.migration_option == 0 { 0 } else { rng.below(2) as u8 };
    p.token_decimal = rng.range(6, 9) as u8;
    p.collect_fee_mode = on(rng, pf.base_fees) as u8;
    // shape of the curve
    let threshold = match rng.below(8) {
        0 => rng.log(1_000, 100_000),
        1 => rng.log(1 << 30, 1 << 48),
        // percentages of these no longer fit in 64 bits
        2 if on(rng, 30) => rng.log(1 << 48, 1 << 60),
        _ => rng.log(1_000_000, 1 << 40),
    };
    let base_target = match rng.below(6) {
        0 => rng.log(100_000, 1 << 30),
        1 => rng.log(1 << 50, 1 << 60),
        _ => rng.log(1 << 28, 1 << 54),
    };
    let r = (threshold as f64 / base_target as f64).sqrt() * 18446744073709551616.0;
    let spread = match rng.below(4) {
        0 => 1.01 + rng.below(100) as f64 / 1000.0,
        1 => 1.1 + rng.below(100) as f64 / 50.0,
        _ => 1.5 + rng.below(100) as f64 / 10.0,
    };
    let lo = (r / spread).max(MIN_SQRT as f64 + 1.0);
    let hi = (r * spread).min(MAX_SQRT as f64 / 2.0).max(lo * 1.0001);
    p.start_sqrt = lo as u128;
    let n = match rng.below(6) {
        0 | 1 => 1,
        2 | 3 => rng.range(2, 4),
        4 => rng.range(5, 15),
        _ => 15,
    } as usize;
    // prices: geometric with jitter
    let mut pts: Vec<u128> = (1..=n)
        .map(|i| {
            let f = i as f64 / n as f64;
            let j = 1.0 + rng.below(100) as f64 / 100_000.0;
            (lo * (hi / lo).powf(f) * j) as u128
        })
        .collect();
    if rng.chance(1, 6) && n > 1 {
        // adjacent points almost touching
        let i = rng.below(n as u64 - 1) as usize;
        pts[i + 1] = pts[i] + 1 + rng.below(1000) as u128;
    }
    pts.sort();
    pts.dedup();
    pts.retain(|x| *x > p.start_sqrt && *x < MAX_SQRT);
    if pts.is_empty() {
        pts.push(p.start_sqrt.saturating_mul(2));
    }
    let weights: Vec<u64> = pts.iter().map(|_| if rng.chance(1, 3) { rng.log(1, 10_000) } else { rng.range(50, 200) }).collect();
    // scale liquidity so that the threshold falls at the wanted place
    let mut sum = 0f64;
    let mut prev = p.start_sqrt;
    for (x, w) in pts.iter().zip(&weights) {
        sum += (*x - prev) as f64 * *w as f64;
        prev = *x;
    }
    let reach = *rng.pick(&[1.0000001f64, 1.01, 1.3, 2.0, 5.0]);
    let scale = threshold as f64 * reach * 2f64.powi(128) / sum;
    p.curve = pts
        .iter()
        .zip(&weights)
        .map(|(x, w)| (*x, ((*w as f64 * scale) as u128).max(1)))
        .collect();
    if rng.chance(1, 4) && p.curve.len() < 16 {
        let l = p.curve.last().unwrap().1;
        p.curve.push((MAX_SQRT, (l / rng.log(1, 1000) as u128).max(1)));
    }
    p.threshold = threshold;
    if rng.chance(1, 6) {
        // the migration price falls exactly on a point of the curve, or right next to it
        let k = rng.range(1, p.curve.len() as u64) as usize;
        let mut lo = p.start_sqrt;
        let mut t = model::b(0u8);
        for (hi, l) in &p.curve[..k] {
            t += model::delta_quote(lo, *hi, *l, true);
            lo = *hi;
        }
        if let Ok(t) = model::u64_(t) {
            if t > 100 {
                p.threshold = t + *rng.pick(&[0, 0, 0, 1]) - *rng.pick(&[0, 0, 0, 1]);
            }
        }
    }
    let round = rng.chance(1, 12);
    if round {
        // everything round: prices are powers of two, the curve completes exactly on one
        let e = if rng.chance(1, 3) { 0 } else { rng.range(0, 16) as i32 - 8 };
        let q = if rng.chance(1, 2) { 1u64 << rng.range(18, 36) } else { rng.log(1_000_000, 1 << 36) };
        let at = 1u128 << (64 + e);
        let l = (q as u128) << (65 - e);
        p.start_sqrt = at / 2;
        p.curve = vec![(at, l)];
        if rng.chance(1, 2) {
            p.curve.push((at * 2, l / rng.range(1, 50) as u128));
        }
        p.threshold = if rng.chance(1, 4) { q / 4 * 3 } else { q };
    }
    // fees
    p.cliff_fee = match rng.below(6) {
        0 => 2_500_000,
        1 => 990_000_000,
        2 => rng.range(400_000_000, 990_000_000),
        _ => rng.log(2_500_000, 200_000_000),
    };
    if on(rng, pf.rl) {
        p.fee_mode = 2;
        p.collect_fee_mode = 0;
        if on(rng, 95) {
            p.cliff_fee = rng.log(2_500_000, 300_000_000);
            p.fee_first = match rng.below(4) {
                0 => rng.range(1, 10),
                1 => 9_999,
                _ => rng.range(10, 1_000),
            } as u16;
            let max = if p.activation_type == 0 { 108_000 } else { 43_200 };
            p.fee_second = if rng.chance(1, 6) { max } else { rng.log(1, max) };
            p.fee_third = match rng.below(5) {
                0 => rng.range(1, 50),
                1 => rng.log(1, threshold.saturating_mul(4)),
                _ => (threshold / rng.range(3, 60)).max(1),
            };
        }
    } else if on(rng, pf.sched) {
        p.fee_mode = rng.below(2) as u8;
        p.fee_first = match rng.below(4) {
            0 => rng.range(1, 3),
            1 => rng.range(1, 65_535),
            _ => rng.range(2, 200),
        } as u16;
        p.fee_second = match rng.below(4) {
            0 => 1,
            1 => rng.log(1, 1 << 30),
            _ => rng.log(1, 600),
        };
        if p.fee_mode == 0 {
            let room = p.cliff_fee.saturating_sub(2_500_000);
            p.fee_third = (room / p.fee_first as u64).max(1);
            if rng.chance(1, 2) {
                p.fee_third = rng.range(1, p.fee_third);
            }
        } else {
            p.fee_third = match rng.below(4) {
                0 => rng.range(1, 20),
                // decays slowly enough for tens of thousands of periods
                1 => {
                    p.fee_first = (65_535 - rng.log(0, 65_000)) as u16;
                    rng.range(1, 3)
                }
                _ => rng.log(1, 3_000),
            };
            // bring the end fee above the minimum
            let end = p.cliff_fee as f64 * (1.0 - p.fee_third as f64 / 10_000.0).powf(p.fee_first as f64);
            if end < 2_600_000.0 {
                let n = ((2_600_000.0 / p.cliff_fee as f64).ln() / (1.0 - p.fee_third as f64 / 10_000.0).ln()).floor();
                p.fee_first = n.clamp(0.0, 65535.0) as u16;
                if p.fee_first == 0 {
                    p.fee_second = 0;
                    p.fee_third = 0;
                }
            }
        }
    }
    if on(rng, pf.dynamic) {
        let filter = if rng.chance(1, 6) { rng.log(0, 65_000) as u16 } else { rng.range(0, 120) as u16 };
        let max_vol = match rng.below(4) {
            0 => 0xffffff,
            1 => rng.log(1, 0xffffff) as u32,
            _ => rng.range(10_000, 3_000_000) as u32,
        };
        p.dynamic = Some(DynFee {
            bin_step: 1,
            bin_step_u128: 1844674407370955,
            filter,
            decay: filter + if rng.chance(1, 6) { rng.log(1, (u16::MAX - filter) as u64).min((u16::MAX - filter) as u64) } else { rng.range(1, 500) } as u16,
            reduction: match rng.below(4) {
                0 => 0,
                1 => 10_000,
                _ => rng.range(1, 9_999) as u16,
            },
            max_vol,
            vfc: match rng.below(4) {
                0 => 0xffffff,
                1 => rng.range(0, 3) as u32,
                _ => rng.log(1, 0xffffff) as u32,
            },
        });
    }
    p.creator_fee_pct = if rng.chance(1, 3) { rng.below(101) as u8 } else { *rng.pick(&[0, 100, 50, 1, 99, 33, 77]) };
    p.token_update_authority = rng.below(5) as u8;
    p.mig_fee_pct = if rng.chance(1, 3) { 0 } else if rng.chance(1, 3) { rng.range(1, 99) as u8 } else { *rng.pick(&[1, 2, 5, 37, 50, 98, 99]) };
    if round && rng.chance(1, 2) {
        p.mig_fee_pct = 0;
    }
    p.creator_mig_fee_pct = if p.mig_fee_pct == 0 { 0 } else if rng.chance(1, 3) { rng.below(101) as u8 } else { *rng.pick(&[0, 100, 50, 1, 99, 33]) };
    if on(rng, pf.creation_fee) {
        p.creation_fee = match rng.below(4) {
            0 => 1_000_000,
            1 => 100_000_000_000,
            _ => rng.log(1_000_000, 100_000_000_000),
        };
    }
    p.first_swap_min = on(rng, pf.first_min);
    if on(rng, pf.vest) {
        p.v_freq = rng.log(1, 1 << 30);
        match rng.below(4) {
            0 => p.v_cliff_amount = rng.log(1, 1 << 40),
            1 => {
                p.v_amount = rng.log(1, 1 << 30);
                p.v_periods = rng.log(1, 10_000);
            }
            _ => {
                p.v_amount = rng.log(1, 1 << 30);
                p.v_periods = rng.log(1, 10_000);
                p.v_cliff_amount = rng.log(1, 1 << 40);
            }
        }
        p.v_cliff_dur = match rng.below(8) {
            0 => u64::MAX - rng.below(3),
            1 => u64::MAX - rng.log(1, 1 << 40),
            2 => 0,
            _ => rng.log(1, 1 << 34),
        };
    }
    // migration
    p.migration_fee_option = rng.below(6) as u8;
    if p.migration_option == 1 && on(rng, pf.custom) {
        p.migration_fee_option = 6;
        p.m_bps = match rng.below(3) {
            0 => 10,
            1 => 1000,
            _ => rng.range(10, 1000) as u16,
        };
        p.m_collect = if round && rng.chance(1, 2) { 2 } else { rng.below(3) as u8 };
        p.m_dynamic = rng.below(2) as u8;
        if p.m_collect == 2 {
            p.compounding_bps = rng.range(1, 10_000) as u16;
        }
        p.m_base_mode = *rng.pick(&[0, 0, 1, 3, 4]);
        if p.m_base_mode >= 3 {
            let cliff = p.m_bps as u64 * 100_000;
            p.mc_periods = if rng.chance(1, 4) { rng.log(1, 65_535) } else { rng.range(1, 200) } as u16;
            p.mc_step = rng.range(1, 5_000) as u16;
            p.mc_expiry = rng.log(1, u32::MAX as u64) as u32;
            p.mc_reduction = if p.m_base_mode == 3 {
                ((cliff - 100_000) / p.mc_periods as u64).max(1)
            } else {
                match p.mc_periods {
                    0..=200 => rng.range(1, 100),
                    n => rng.range(1, 1 + 20_000 / n as u64),
                }
            };
            if p.m_base_mode == 3 && rng.chance(1, 2) {
                p.mc_reduction = rng.range(1, p.mc_reduction);
            }
        }
    }
    // liquidity shares: six parts summing to 100
    let mut cuts = [0u64; 6];
    let vest_ok = p.migration_option == 1 && on(rng, pf.lp_vest);
    let mut left = 100u64;
    for _ in 0..8 {
        let i = rng.below(6) as usize;
        if i >= 4 && !vest_ok {
            continue;
        }
        let x = if rng.chance(1, 5) { left } else { rng.range(0, left) };
        cuts[i] += x;
        left -= x;
    }
    cuts[1] += left;
    if rng.chance(1, 8) {
        cuts = [0, 100, 0, 0, 0, 0];
    } else if rng.chance(1, 8) {
        cuts = [0, 0, 90, 10, 0, 0];
    } else if rng.chance(1, 6) {
        // lopsided: each kind that is there at all is either most of a party's share or a sliver
        let (side, total) = (rng.below(2) as usize, rng.range(2, 98));
        cuts = [0; 6];
        for (s, all) in [(side, total), (1 - side, 100 - total)] {
            let kinds = [2 * s, 2 * s + 1, 4 + s];
            let main = kinds[rng.below(if vest_ok { 3 } else { 2 }) as usize];
            cuts[main] += all;
            for k in kinds {
                if k != main && (k < 4 || vest_ok) && cuts[main] > 2 && rng.chance(1, 2) {
                    let sliver = rng.range(1, 2);
                    cuts[k] += sliver;
                    cuts[main] -= sliver;
                }
            }
        }
    }
    let [a, b, c, d, e, f] = cuts.map(|x| x as u8);
    p.partner_liq = a;
    p.partner_perm = b;
    p.creator_liq = c;
    p.creator_perm = d;
    for (pct, v) in [(e, &mut p.partner_vest), (f, &mut p.creator_vest)] {
        if pct > 0 {
            v.pct = pct;
            v.periods = if rng.chance(1, 5) { rng.log(60, 10_000) as u16 } else { rng.range(0, 60) as u16 };
            if v.periods > 0 {
                v.bps_per_period = rng.range(1, (10_000 / v.periods as u64).max(1)) as u16;
                v.freq = rng.log(1, 1_000_000) as u32;
            }
            v.cliff = match rng.below(3) {
                0 => 0,
                1 => 86_400,
                _ => rng.log(1, 40_000_000) as u32,
            };
            if v.periods == 0 && v.cliff == 0 {
                v.cliff = 90_000;
            }
        }
    }
    // supply
    if on(rng, pf.fixed) {
        let f = QuoteFacts { is_token: true, supported: true };
        let mut t = p.clone();
        t.supply = None;
        if let Ok(m) = model::create_config(&t, &f, false, T0 as u64) {
            if let Ok(min) = model::initial_supply(&m) {
                let post = m.swap_base_amount as u128 + m.base_threshold as u128 + model::config_vesting(&m) as u128;
                let extra = match rng.below(4) {
                    0 => 0,
                    1 => rng.range(0, 5),
                    _ => rng.log(1, (min / 2).max(2)),
                };
                let pre = min.saturating_add(extra);
                let post = post.min(u64::MAX as u128) as u64;
                let post = match rng.below(4) {
                    0 => post,
                    1 => pre,
                    _ => rng.range(post, pre.max(post)),
                };
                p.supply = Some((pre, post));
            }
        }
    }
    p
}
/// Every numeric field of a configuration, one at a time.
pub fn each_field(p: &mut ConfigParams, mut f: impl FnMut(usize, u32, u128) -> Option<u128>) {
    let mut i = 0;
    macro_rules! go {
        ($($x:expr => $t:ty),* $(,)?) => {$(
            if let Some(v) = f(i, <$t>::BITS, $x as u128) { $x = v as $t; }
            i += 1;
        )*};
    }
    go!(p.cliff_fee => u64, p.fee_first => u16, p.fee_second => u64, p.fee_third => u64, p.fee_mode => u8,
        p.collect_fee_mode => u8, p.migration_option => u8, p.activation_type => u8, p.token_type => u8,
        p.token_decimal => u8, p.partner_liq => u8, p.partner_perm => u8, p.creator_liq => u8, p.creator_perm => u8,
        p.threshold => u64, p.start_sqrt => u128, p.v_amount => u64, p.v_cliff_dur => u64, p.v_freq => u64,
        p.v_periods => u64, p.v_cliff_amount => u64, p.migration_fee_option => u8, p.creator_fee_pct => u8,
        p.token_update_authority => u8, p.mig_fee_pct => u8, p.creator_mig_fee_pct => u8, p.m_collect => u8,
        p.m_dynamic => u8, p.m_bps => u16, p.creation_fee => u64, p.m_base_mode => u8, p.mc_periods => u16,
        p.mc_step => u16, p.mc_expiry => u32, p.mc_reduction => u64, p.compounding_bps => u16);
    for v in [&mut p.partner_vest, &mut p.creator_vest] {
        go!(v.pct => u8, v.bps_per_period => u16, v.periods => u16, v.cliff => u32, v.freq => u32);
    }
    if let Some(d) = &mut p.dynamic {
        go!(d.bin_step => u16, d.bin_step_u128 => u128, d.filter => u16, d.decay => u16, d.reduction => u16, d.max_vol => u32, d.vfc => u32);
    }
    if let Some(s) = &mut p.supply {
        go!(s.0 => u64, s.1 => u64);
    }
    for c in p.curve.iter_mut() {
        go!(c.0 => u128, c.1 => u128);
    }
    let _ = i;
}
/// The same configuration with each field in turn next to its value, at a bound or out of range.
pub fn field_sweep(rng: &mut Rng, p: &ConfigParams) -> Vec<ConfigParams> {
    const MAGIC: &[u128] = &[
        0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 99, 100, 101, 255, 256, 999, 1000, 1001, 9_999, 10_000, 10_001, 65_535, 65_536, 43_199, 43_200, 43_201,
        86_399, 86_400, 86_401, 108_000, 108_001, 999_999, 1_000_000, 2_499_999, 2_500_000, 2_500_001, 0xfffffe, 0xffffff, 0x1000000,
        63_072_000, 63_072_001, 31_536_000, 990_000_000, 990_000_001, 1_000_000_000, 100_000_000_000, 100_000_000_001,
        u64::MAX as u128, u64::MAX as u128 - 1, MIN_SQRT - 1, MIN_SQRT, MIN_SQRT + 1, MAX_SQRT - 1, MAX_SQRT, MAX_SQRT + 1,
    ];
    let mut n = 0;
    each_field(&mut p.clone(), |_, _, _| {
        n += 1;
        None
    });
    let mut out = vec![];
    for k in 0..n {
        for _ in 0..2 {
            let mut q = p.clone();
            each_field(&mut q, |i, bits, v| {
                if i != k {
                    return None;
                }
                let max = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
                let near = MAGIC.iter().position(|m| *m > v).unwrap_or(MAGIC.len()) as u64;
                Some(match rng.below(8) {
                    0 => 0,
                    1 => v.saturating_sub(1),
                    2 => v.saturating_add(1).min(max),
                    3 => max,
                    4 => v.saturating_mul(rng.range(2, 100) as u128).min(max),
                    // the bounds of this size
                    5 => MAGIC[((near + rng.below(7)).saturating_sub(3) as usize).min(MAGIC.len() - 1)].min(max),
                    _ => *rng.pick(&MAGIC.iter().copied().filter(|m| *m <= max).collect::<Vec<_>>()),
                })
            });
            out.push(q);
        }
    }
    out
}
/// Push one field to a boundary or out of range.
pub fn perturb(rng: &mut Rng, p: &mut ConfigParams) {
    // one field of a feature that is in use
    if rng.chance(1, 3) {
        let k = rng.below(6);
        if k < 2 && p.m_base_mode >= 3 {
            match rng.below(5) {
                0 => p.mc_periods = *rng.pick(&[0, 1, u16::MAX]),
                1 => p.mc_step = *rng.pick(&[0, 1, u16::MAX]),
                2 => p.mc_expiry = *rng.pick(&[0, 1, u32::MAX]),
                3 => p.mc_reduction = *rng.pick(&[0, 1, 9_999, 10_000, 10_001]),
                _ => p.m_base_mode = 7 - p.m_base_mode,
            }
            return;
        }
        if k < 4 {
            let v = *rng.pick(&[0u64, 0, 0, 1]);
            match rng.below(3) {
                0 => p.fee_first = v as u16,
                1 => p.fee_second = v,
                _ => p.fee_third = v,
            }
            return;
        }
        if let (4, Some(d)) = (k, &mut p.dynamic) {
            match rng.below(7) {
                0 => d.filter = 0,
                1 => d.decay = 0,
                2 => d.reduction = 0,
                3 => d.max_vol = 0,
                4 => d.vfc = 0,
                5 => d.bin_step = 0,
                _ => d.bin_step_u128 = 0,
            }
            return;
        }
        if k == 5 {
            match rng.below(5) {
                0 => p.v_amount = 0,
                1 => p.v_periods = 0,
                2 => p.v_freq = 0,
                3 => p.v_cliff_amount = 0,
                _ => p.v_cliff_dur = 0,
            }
            return;
        }
    }
    match rng.below(58) {
        0 => p.cliff_fee = *rng.pick(&[2_499_999, 2_500_000, 990_000_000, 990_000_001, 1_000_000_000, 0, u64::MAX]),
        1 => p.fee_mode = rng.below(4) as u8,
        2 => p.fee_first = *rng.pick(&[0, 1, 9_999, 10_000, u16::MAX]),
        3 => p.fee_second = *rng.pick(&[0, 1, 43_200, 43_201, 108_000, 108_001, u64::MAX]),
        4 => p.fee_third = *rng.pick(&[0, 1, 9_999, 10_000, 10_001, u64::MAX]),
        5 => {
            if let Some(d) = &mut p.dynamic {
                match rng.below(6) {
                    0 => d.filter = d.decay,
                    1 => d.reduction = *rng.pick(&[10_000, 10_001]),
                    2 => d.max_vol = *rng.pick(&[0xffffff, 0x1000000]),
                    3 => d.vfc = *rng.pick(&[0xffffff, 0x1000000]),
                    4 => d.bin_step = 2,
                    _ => d.bin_step_u128 += 1,
                }
            }
        }
        6 => p.creator_fee_pct = *rng.pick(&[100, 101]),
        7 => p.mig_fee_pct = *rng.pick(&[0, 99, 100]),
        8 => p.creator_mig_fee_pct = *rng.pick(&[1, 100, 101]),
        9 => p.collect_fee_mode = rng.below(3) as u8,
        10 => p.migration_option = rng.below(3) as u8,
        11 => p.activation_type = rng.below(3) as u8,
        12 => p.token_type = rng.below(3) as u8,
        13 => p.token_decimal = *rng.pick(&[5, 6, 9, 10]),
        14 => p.token_update_authority = *rng.pick(&[4, 5]),
        15 => p.partner_liq = p.partner_liq.wrapping_add(1),
        16 => {
            // move everything to unlocked liquidity
            p.partner_liq = p.partner_liq.saturating_add(p.partner_perm);
            p.partner_perm = 0;
        }
        17 => {
            p.creator_liq = p.creator_liq.saturating_add(p.creator_perm);
            p.creator_perm = 0;
        }
        18 => {
            *p = ConfigParams { partner_liq: 45, creator_liq: 45, partner_perm: 5, creator_perm: 5, partner_vest: LpVest::default(), creator_vest: LpVest::default(), ..p.clone() };
            if rng.chance(1, 2) {
                p.partner_liq = 46;
                p.partner_perm = 4;
            }
        }
        19 => p.threshold = *rng.pick(&[0, 1, u64::MAX]),
        20 => p.threshold = p.threshold.saturating_mul(100),
        21 => p.start_sqrt = *rng.pick(&[0, MIN_SQRT - 1, MIN_SQRT, MAX_SQRT - 1, MAX_SQRT]),
        22 if !p.curve.is_empty() => {
            let n = p.curve.len();
            let i = rng.below(n as u64) as usize;
            match rng.below(4) {
                0 => p.curve[i].1 = 0,
                1 => p.curve[i].0 = if i > 0 { p.curve[i - 1].0 } else { p.start_sqrt },
                2 => p.curve[n - 1].0 = MAX_SQRT + rng.below(2) as u128,
                _ => p.curve[i].1 = u128::MAX,
            }
        }
        23 => p.curve.clear(),
        24 => {
            while p.curve.len() < 17 {
                let l = *p.curve.last().unwrap_or(&(p.start_sqrt, 1));
                p.curve.push((l.0.saturating_add(1), 1));
            }
        }
        25 => p.v_freq = 0,
        26 => p.v_cliff_dur = *rng.pick(&[0, 1, u64::MAX]),
        27 => {
            p.v_amount = u64::MAX;
            p.v_periods = *rng.pick(&[0, 1, 2]);
        }
        28 => p.v_cliff_amount = *rng.pick(&[0, 1, u64::MAX]),
        29 => p.creation_fee = *rng.pick(&[1, 999_999, 1_000_000, 100_000_000_000, 100_000_000_001, u64::MAX]),
        30 => p.supply = Some(*rng.pick(&[(0, 0), (u64::MAX, u64::MAX), (1, 2)])),
        31 | 32 => {
            if let Some((a, b)) = p.supply {
                p.supply = Some(match rng.below(4) {
                    0 => (a.saturating_sub(1), b),
                    1 => (a, b.saturating_sub(1)),
                    2 => (b, a),
                    _ => (a, a.saturating_add(1)),
                });
            }
        }
        33 => p.migration_fee_option = *rng.pick(&[5, 6, 7]),
        34 => p.m_bps = *rng.pick(&[0, 9, 10, 1000, 1001]),
        35 => p.m_collect = rng.below(4) as u8,
        36 => p.m_dynamic = rng.below(3) as u8,
        37 => p.compounding_bps = *rng.pick(&[0, 1, 10_000, 10_001]),
        38 => p.m_base_mode = rng.below(6) as u8,
        39 => p.mc_reduction = *rng.pick(&[0, 1, 10_000, u64::MAX]),
        40 => p.mc_periods = *rng.pick(&[0, 1, u16::MAX]),
        41 => {
            let v = if rng.chance(1, 2) { &mut p.partner_vest } else { &mut p.creator_vest };
            match rng.below(5) {
                0 => v.pct = 101,
                1 => v.periods = u16::MAX,
                2 => v.bps_per_period = *rng.pick(&[0, 10_000, 10_001]),
                3 => v.cliff = *rng.pick(&[0, 86_399, 86_400, 86_401, 63_072_000, 63_072_001, u32::MAX]),
                _ => v.freq = *rng.pick(&[0, u32::MAX]),
            }
        }
        42 => {
            // vested liquidity that is (not) locked long enough to count
            let d = *rng.pick(&[0u32, 1, 86_399, 86_400, 86_401]);
            *p = ConfigParams {
                partner_liq: 50,
                creator_liq: 40,
                partner_perm: 0,
                creator_perm: 0,
                partner_vest: LpVest { pct: 10, bps_per_period: 0, periods: 0, cliff: d, freq: 0 },
                creator_vest: LpVest::default(),
                ..p.clone()
            };
        }
        43..=48 => {
            // supplies around every bound that could matter
            let f = QuoteFacts { is_token: true, supported: true };
            let mut t = p.clone();
            t.supply = None;
            if p.v_freq == 0 && rng.chance(1, 2) {
                t.v_freq = 1;
                t.v_cliff_amount = rng.log(1, 1 << 40);
            }
            if let Ok(m) = model::create_config(&t, &f, false, T0 as u64) {
                let (sw, mb, v) = (m.swap_base_amount as u128, m.base_threshold as u128, model::config_vesting(&m) as u128);
                let buf = model::swap_with_buffer(m.swap_base_amount, m.start_sqrt, &m.curve).unwrap_or(u64::MAX) as u128;
                let pre = *rng.pick(&[buf + mb + v, buf + mb + v, buf + mb, buf + mb + v / 2, sw + mb + v, buf + v, buf.max(sw + mb + v)]);
                let post = *rng.pick(&[sw + mb + v, sw + mb + v, sw + mb, pre, sw + v, buf + mb + v]);
                let j = |rng: &mut Rng, x: u128| (x + rng.below(3) as u128).saturating_sub(1).min(u64::MAX as u128) as u64;
                t.supply = Some((j(rng, pre), j(rng, post)));
                *p = t;
            }
        }
        49 | 50 => {
            // liquidity locked for a day hovers around the required tenth
            let x = rng.range(1, 60);
            let perm = rng.range(0, 9).min(100 - x);
            let mut v = LpVest { pct: x as u8, bps_per_period: 0, periods: 0, cliff: 0, freq: 0 };
            v.cliff = *rng.pick(&[0u32, 1, 3_600, 43_200, 86_399, 86_400, 86_401]);
            v.periods = rng.range(0, 30) as u16;
            if v.periods > 0 {
                v.bps_per_period = rng.range(1, (10_000 / v.periods as u64).max(1)) as u16;
                v.freq = *rng.pick(&[1u32, 600, 3_600, 8_640, 14_400, 43_200, 86_399, 86_400, 86_401, 100_000]);
            }
            p.migration_option = 1;
            let side = rng.chance(1, 2);
            p.partner_vest = if side { v.clone() } else { LpVest::default() };
            p.creator_vest = if side { LpVest::default() } else { v };
            let rest = 100 - x - perm;
            p.partner_liq = rng.range(0, rest) as u8;
            p.creator_liq = rest as u8 - p.partner_liq;
            p.partner_perm = if side { perm as u8 } else { 0 };
            p.creator_perm = if side { 0 } else { perm as u8 };
        }
        51 | 52 if p.fee_mode == 0 && p.fee_first > 0 => {
            // the scheduler's last fee lands exactly at (or next to) the minimum
            p.fee_first = rng.range(1, 500) as u16;
            p.fee_second = p.fee_second.max(1);
            p.fee_third = rng.log(1, 1_500_000);
            let c = 2_500_000u128 + p.fee_first as u128 * p.fee_third as u128;
            p.cliff_fee = (c + rng.below(3) as u128 - 1).min(u64::MAX as u128) as u64;
        }
        51 | 52 if p.fee_mode == 1 && p.fee_first > 0 => {
            p.fee_first = p.fee_first.saturating_add(rng.range(1, 3) as u16);
        }
        53 | 54 if p.m_base_mode >= 3 => {
            let n = rng.range(1, 100);
            p.mc_periods = n as u16;
            let room = (p.m_bps as u64).saturating_mul(100_000).saturating_sub(100_000);
            p.mc_reduction = room / n;
            if rng.chance(1, 2) {
                p.mc_reduction += 1;
            }
        }
        55 => {
            // near-compounding amounts and shares
            p.m_collect = 2;
            p.migration_fee_option = 6;
            p.migration_option = 1;
            p.m_bps = p.m_bps.clamp(10, 1000);
            p.compounding_bps = *rng.pick(&[1, 5_000, 10_000, 10_001, 0]);
            let price = (p.start_sqrt as f64 / 18446744073709551616.0).powi(2);
            if price > 5.0 && price < 1e12 && rng.chance(2, 3) {
                // so little base that rounding moves the price by about a percent
                p.compounding_bps = 5_000;
                p.threshold = (price * (20.0 + rng.below(8_000) as f64 / 100.0)) as u64;
                p.mig_fee_pct = 0;
                p.creator_mig_fee_pct = 0;
                p.supply = None;
            }
        }
        56 => {
            let k = rng.below(6);
            let v = [&mut p.partner_liq, &mut p.partner_perm, &mut p.creator_liq, &mut p.creator_perm, &mut p.partner_vest.pct, &mut p.creator_vest.pct];
            for (i, x) in v.into_iter().enumerate() {
                // sums that only look right in eight bits
                if i as u64 == k {
                    *x = x.wrapping_add(*rng.pick(&[1, 255, 128, 100]));
                }
            }
        }
        _ => p.first_swap_min = !p.first_swap_min,
    }
}
