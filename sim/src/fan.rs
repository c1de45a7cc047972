//! Fan-out: from one reached state, many alternative next swaps (each on its own fork) at the
//! amounts and instants where the arithmetic changes its path: ends of curve segments, the
//! migration price, fee period boundaries, the volatility window, the anti-sniper window.

use crate::abi::*;
use crate::model;
use crate::run::{pool_ref, signers_of, Run};
use crate::sim::*;
use crate::world::{each_field, field_sweep, gen_params, perturb, Prof};
use num_traits::ToPrimitive;
use solana_program::pubkey::Pubkey;

/// Pairs of configurations that differ by one in one field, the first acceptable to the model and
/// the second not.
fn edges(rng: &mut Rng, p: &ConfigParams, ts: u64, is_token: bool) -> Vec<ConfigParams> {
    let facts = model::QuoteFacts { is_token, supported: true };
    let good = |q: &ConfigParams| model::create_config(q, &facts, false, ts).is_ok();
    let mut out = vec![];
    if !good(p) {
        return out;
    }
    let mut n = 0;
    each_field(&mut p.clone(), |_, _, _| {
        n += 1;
        None
    });
    for _ in 0..14 {
        let k = rng.below(n) as usize;
        let with = |x: Option<u128>| {
            let (mut q, mut old, mut max) = (p.clone(), 0, 0);
            each_field(&mut q, |i, bits, v| {
                if i != k {
                    return None;
                }
                (old, max) = (v, if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 });
                x
            });
            (q, old, max)
        };
        let (_, v, max) = with(None);
        let far = match rng.below(6) {
            0 => max,
            1 => 0,
            2 => v / 2,
            3 => v.saturating_add(v / rng.range(1, 2_000) as u128).min(max),
            4 => v - v / rng.range(2, 2_000) as u128,
            _ => v.saturating_mul(2).min(max),
        };
        if far == v || good(&with(Some(far)).0) {
            continue;
        }
        let (mut a, mut z) = (v, far);
        while a.abs_diff(z) > 1 {
            let m = a / 2 + z / 2 + (a & z & 1);
            if good(&with(Some(m)).0) {
                a = m;
            } else {
                z = m;
            }
        }
        out.extend([with(Some(a)).0, with(Some(z)).0]);
    }
    out
}
impl Run {
    pub fn fan_out(&mut self, pk: Pubkey, slot: u64, ts: i64, arg: u64) {
        let Some(r) = pool_ref(&self.db, &pk) else { return };
        let p = pool(&self.db, &pk).unwrap();
        if p.progress != 0 {
            return;
        }
        let mut rng = Rng::new(arg);
        let u = key("driver");
        if !self.db.contains_key(&ata(&u, &r.base, &r.base_tp)) {
            self.fan_tx(slot, ts, vec![create_ata(u, u, r.base, r.base_tp)]);
        }
        let rk = key("r1");
        for (m, tp) in [(r.base, r.base_tp), (r.quote, r.quote_tp)] {
            if !self.db.contains_key(&ata(&rk, &m, &tp)) {
                self.fan_tx(slot, ts, vec![create_ata(u, rk, m, tp)]);
            }
        }
        for _ in 0..10 {
            let mut f = self.fork();
            let (mut s, mut t) = (slot, ts);
            for _ in 0..rng.range(1, 3) {
                f.fan_swap(&r, &mut s, &mut t, &mut rng);
            }
            f.cov.fault("what-if swap path");
            let bad = !f.viols.is_empty();
            self.absorb(f);
            if bad {
                return;
            }
        }
    }
    /// Many configurations, valid ones and ones pushed across a boundary, each on its own fork;
    /// some of the accepted ones are lived through to the end.
    pub fn config_fan(&mut self, slot: u64, ts: i64, arg: u64) {
        let mut rng = Rng::new(arg);
        let pf = Prof { custom: 50, ..Prof::default() };
        let qs = quotes();
        // one configuration, every field at some bound
        let p = gen_params(&mut rng, &pf);
        let q = qs[rng.below(if p.migration_option == 0 { 4 } else { qs.len() as u64 }) as usize];
        let mut f = self.fork();
        let start = f.db.clone();
        for (i, p) in field_sweep(&mut rng, &p).iter().enumerate() {
            f.cov.fault("what-if configuration");
            f.fan_tx(slot, ts, vec![create_config(key(&format!("fan:cfg:{}:f{}", arg, i)), key("p0"), key("rcv0"), q.mint, key("driver"), p)]);
            f.db = start.clone();
        }
        // and the exact edge between what must be accepted and what must be refused
        for (i, p) in edges(&mut rng, &p, ts as u64, q.tp == TOKEN).iter().enumerate() {
            f.cov.fault("what-if edge configuration");
            f.fan_tx(slot, ts, vec![create_config(key(&format!("fan:cfg:{}:e{}", arg, i)), key("p0"), key("rcv0"), q.mint, key("driver"), p)]);
            f.db = start.clone();
        }
        let bad = !f.viols.is_empty();
        self.absorb(f);
        if bad {
            return;
        }
        for i in 0..20 {
            let mut p = gen_params(&mut rng, &pf);
            let q = qs[rng.below(if p.migration_option == 0 { 4 } else { qs.len() as u64 }) as usize];
            if rng.chance(4, 5) {
                for _ in 0..rng.range(1, 2) {
                    perturb(&mut rng, &mut p);
                }
            }
            let left = if rng.chance(1, 12) { Pubkey::default() } else { key("rcv0") };
            let live = rng.chance(1, 8);
            let seed = rng.u64();
            let mut f = self.fork();
            let (k, who) = (key(&format!("fan:cfg:{}:{}", arg, i)), key("driver"));
            f.cov.fault("what-if configuration");
            if f.fan_tx(slot, ts, vec![create_config(k, key("p0"), left, q.mint, who, &p)]) && live {
                let base = key(&format!("fan:base:{}:{}", arg, i));
                let ix = init_pool(p.token_type == 1, k, key("c0"), base, q.mint, q.tp, who, "n", "s", "u");
                if f.fan_tx(slot, ts, vec![ix]) {
                    let pk = pool_addr(&k, &base, &q.mint);
                    f.fan_out(pk, slot, ts, seed);
                    f.drive(pk, slot, ts, seed >> 1);
                }
            }
            let bad = !f.viols.is_empty();
            self.absorb(f);
            if bad {
                return;
            }
        }
    }
    fn fan_tx(&mut self, slot: u64, ts: i64, ixs: Vec<solana_program::instruction::Instruction>) -> bool {
        let signers = signers_of(&ixs);
        let t = TxSpec { slot, ts, ixs, signers, tag: "what-if".into(), ..Default::default() };
        self.tx(&t).ok()
    }
    fn fan_swap(&mut self, r: &PoolRef, slot: &mut u64, ts: &mut i64, rng: &mut Rng) {
        let p = pool(&self.db, &r.pool).unwrap();
        let c = config(&self.db, &r.config).unwrap();
        if p.quote_reserve >= c.threshold {
            return;
        }
        // when
        let now = if c.activation_type == 0 { *slot } else { *ts as u64 };
        let mut at = |point: u64| {
            if point > now && point - now < 400_000_000 {
                if c.activation_type == 0 {
                    *slot = point;
                    *ts += (point - now) as i64 * 2 / 5;
                } else {
                    *ts = point as i64;
                    *slot += (point - now) * 5 / 2;
                }
            }
        };
        match rng.below(6) {
            0 | 1 if c.fee_second > 0 => {
                let k = if c.fee_mode == 2 { 1 } else { *rng.pick(&[1, 2, c.fee_first as u64, rng.clone().range(0, c.fee_first as u64 + 2)]) };
                let edge = p.activation_point.saturating_add(c.fee_second.saturating_mul(k));
                at(edge.saturating_add(rng.below(3)).saturating_sub(1));
            }
            2 if c.dyn_init != 0 => {
                let w = *rng.pick(&[c.dyn_filter, c.dyn_decay]) as u64;
                let t = (p.last_update + w + rng.below(3)).saturating_sub(1) as i64;
                if t > *ts {
                    *slot += (t - *ts) as u64 * 5 / 2;
                    *ts = t;
                }
            }
            3 => at(now + rng.log(1, 2_000_000)),
            _ => {}
        }
        // who
        let u = key("driver");
        let holder = self
            .db
            .iter()
            .filter_map(|(k, a)| Tok::parse(a).map(|t| (*k, t)))
            .filter(|(_, t)| t.mint == r.base && t.amount > 0 && t.state == 1 && t.owner != pool_authority() && can_sign(&self.db, &t.owner))
            .max_by_key(|(k, t)| (t.amount, *k));
        let buy = holder.is_none() || rng.chance(3, 5);
        let (who, src, dst) = if buy {
            (u, ata(&u, &r.quote, &r.quote_tp), ata(&u, &r.base, &r.base_tp))
        } else {
            let (k, t) = holder.unwrap();
            (t.owner, k, ata(&t.owner, &r.quote, &r.quote_tp))
        };
        if !self.db.contains_key(&dst) {
            self.fan_tx(*slot, *ts, vec![create_ata(u, who, if buy { r.base } else { r.quote }, if buy { r.base_tp } else { r.quote_tp })]);
        }
        let mode = rng.below(3) as u8;
        let refd = rng.chance(1, 4);
        let (st, sl) = (*ts as u64, *slot);
        let req = |amount: u64| model::SwapReq { buy, mode, amount, referral: refd, first_min: false, ts: st, slot: sl };
        // how much: to an edge of the curve
        let mut edges: Vec<u128> = vec![c.start_sqrt, c.mig_sqrt];
        edges.extend(c.curve.iter().map(|x| x.0));
        edges.retain(|e| if buy { *e > p.sqrt_price && *e <= c.mig_sqrt } else { *e < p.sqrt_price });
        let mut amount = if rng.chance(3, 4) && !edges.is_empty() {
            let e = *rng.pick(&edges);
            let (mut quote, mut base) = (model::b(0u8), model::b(0u8));
            for s in model::segs(c.start_sqrt, &c.curve) {
                let (lo, hi) = if buy { (s.lo.max(p.sqrt_price), s.hi.min(e)) } else { (s.lo.max(e), s.hi.min(p.sqrt_price)) };
                if hi > lo {
                    quote += model::delta_quote(lo, hi, s.l, buy);
                    base += model::delta_base(lo, hi, s.l, !buy);
                }
            }
            let x = if buy == (mode != MODE_OUT) { quote } else { base };
            x.to_u64().unwrap_or(u64::MAX)
        } else {
            match rng.below(4) {
                0 => rng.range(1, 8),
                1 => rng.log(1, u64::MAX),
                2 if c.fee_mode == 2 && c.fee_third > 0 => c.fee_third.saturating_mul(rng.log(1, 400)),
                _ => rng.log(1, c.threshold.max(2)),
            }
        };
        // with or without the fee the model says this swap pays
        if rng.chance(1, 2) {
            if let Ok(x) = model::swap(&c, &p, &req(amount.max(1))) {
                let n = *x.numerators.first().unwrap_or(&0);
                let on_input = c.collect_fee_mode == 0 && buy;
                amount = if mode != MODE_OUT && on_input {
                    model::included(n, amount).map(|v| v.0).unwrap_or(amount)
                } else if mode == MODE_OUT && !on_input {
                    model::excluded(n, amount).0
                } else {
                    amount
                };
            }
        }
        amount = amount.saturating_add(*rng.pick(&[0, 0, 1, 2])).saturating_sub(*rng.pick(&[0, 0, 1, 2])).max(1);
        let q = model::swap(&c, &p, &req(amount));
        let limit = match (&q, mode) {
            (Ok(x), MODE_OUT) if rng.chance(1, 3) => x.incl_in.saturating_add(rng.below(2)).saturating_sub(rng.below(2)),
            (_, MODE_OUT) => u64::MAX,
            (Ok(x), _) if rng.chance(1, 3) => x.out.saturating_add(rng.below(2)).saturating_sub(rng.below(2)),
            _ => 0,
        };
        let fee_base = buy && c.collect_fee_mode == 1;
        let rf = refd.then(|| if fee_base { ata(&key("r1"), &r.base, &r.base_tp) } else { ata(&key("r1"), &r.quote, &r.quote_tp) });
        let v2 = if mode == MODE_IN && rng.chance(1, 3) { None } else { Some(mode) };
        self.fan_tx(*slot, *ts, vec![swap(r, who, src, dst, v2, amount, limit, rf, true)]);
    }
}
