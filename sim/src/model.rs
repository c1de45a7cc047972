//! Reference model: what the protocol promises, in arbitrary-precision arithmetic, independent of
//! the program's own math, written against the documented formulas. `Err` means "the request must
//! be refused".

use crate::abi::{Config, ConfigParams, LpVest, Pool, MAX_SQRT, MIN_SQRT, MODE_IN, MODE_OUT, MODE_PARTIAL};
use num_bigint::{BigInt, BigUint};
use num_traits::{One, ToPrimitive, Zero};

pub type R<T> = Result<T, &'static str>;
pub type B = BigUint;

pub const D: u64 = 1_000_000_000;
pub const MAX_FEE: u64 = 990_000_000;
pub const MIN_FEE: u64 = 2_500_000;

pub fn b<T: Into<BigUint>>(x: T) -> B {
    x.into()
}
pub fn div(a: B, d: B, up: bool) -> B {
    if up {
        (a + &d - B::one()) / d
    } else {
        a / d
    }
}
pub fn u64_(x: B) -> R<u64> {
    x.to_u64().ok_or("exceeds u64")
}
pub fn u128_(x: B) -> R<u128> {
    x.to_u128().ok_or("exceeds u128")
}
/// base amount between two prices: L*(hi-lo)/(lo*hi)
pub fn delta_base(lo: u128, hi: u128, l: u128, up: bool) -> B {
    div(b(l) * b(hi - lo), b(lo) * b(hi), up)
}
/// quote amount between two prices: L*(hi-lo)/2^128
pub fn delta_quote(lo: u128, hi: u128, l: u128, up: bool) -> B {
    div(b(l) * b(hi - lo), B::one() << 128, up)
}
pub fn muldiv(x: u64, y: u64, d: u64, up: bool) -> u64 {
    div(b(x) * b(y), b(d), up).to_u64().unwrap_or(u64::MAX)
}

#[derive(Clone, Copy, Debug)]
pub struct Seg {
    pub lo: u128,
    pub hi: u128,
    pub l: u128,
}
pub fn segs(start: u128, curve: &[(u128, u128)]) -> Vec<Seg> {
    let mut lo = start;
    curve
        .iter()
        .map(|(p, l)| {
            let s = Seg { lo, hi: *p, l: *l };
            lo = *p;
            s
        })
        .collect()
}

// ------------------------------------------------------------------ curve walks
pub struct Walk {
    pub input: B,
    pub output: B,
    pub next: u128,
    pub left: u64,
}
fn quote_in_next(p: u128, l: u128, amt: u64) -> R<u128> {
    u128_(b(p) + ((b(amt) << 128) / b(l)))
}
fn base_in_next(p: u128, l: u128, amt: u64) -> R<u128> {
    if amt == 0 {
        return Ok(p);
    }
    u128_(div(b(l) * b(p), b(l) + b(amt) * b(p), true))
}
/// Buy with `amt` quote (already net of fees), price never beyond `stop`.
pub fn walk_buy_in(start: u128, curve: &[(u128, u128)], cur: u128, stop: u128, amt: u64) -> R<Walk> {
    let mut p = cur;
    let mut left = amt;
    let mut out = B::zero();
    for s in segs(start, curve) {
        let hi = s.hi.min(stop);
        if hi <= p {
            if p == stop {
                break;
            }
            continue;
        }
        let max = delta_quote(p, hi, s.l, true);
        if b(left) < max {
            let n = quote_in_next(p, s.l, left)?;
            out += delta_base(p, n, s.l, false);
            p = n;
            left = 0;
            break;
        }
        out += delta_base(p, hi, s.l, false);
        left -= u64_(max)?;
        p = hi;
        if p == stop {
            break;
        }
    }
    Ok(Walk { input: b(amt - left), output: out, next: p, left })
}
/// Sell `amt` base; the price never goes below the curve start.
pub fn walk_sell_in(start: u128, curve: &[(u128, u128)], cur: u128, amt: u64) -> R<Walk> {
    let mut p = cur;
    let mut left = amt;
    let mut out = B::zero();
    let ss = segs(start, curve);
    for (k, s) in ss.iter().enumerate().rev() {
        if k == 0 {
            continue;
        }
        if s.lo >= p {
            continue;
        }
        let max = delta_base(s.lo, p, s.l, true);
        if b(left) < max {
            let n = base_in_next(p, s.l, left)?;
            out += delta_quote(n, p, s.l, false);
            p = n;
            left = 0;
            break;
        }
        out += delta_quote(s.lo, p, s.l, false);
        left -= u64_(max)?;
        p = s.lo;
    }
    if left != 0 {
        let s = ss[0];
        let n = base_in_next(p, s.l, left)?;
        if n < start {
            let used = u64_(delta_base(start, p, s.l, true))?;
            out += delta_quote(start, p, s.l, false);
            left = left.checked_sub(used).ok_or("negative leftover")?;
            p = start;
        } else {
            out += delta_quote(n, p, s.l, false);
            p = n;
            left = 0;
        }
    }
    Ok(Walk { input: b(amt - left), output: out, next: p, left })
}
pub fn walk_buy_out(start: u128, curve: &[(u128, u128)], cur: u128, stop: u128, amt: u64) -> R<Walk> {
    let mut p = cur;
    let mut left = amt;
    let mut inp = B::zero();
    for s in segs(start, curve) {
        // an exhausted amount still crosses what is left of segments too thin to hold one unit
        if s.hi <= p {
            continue;
        }
        let max = delta_base(p, s.hi, s.l, false);
        if b(left) < max {
            let n = {
                let d = b(left) * b(p);
                if b(s.l) <= d {
                    return Err("not enough liquidity");
                }
                u128_(div(b(s.l) * b(p), b(s.l) - d, true))?
            };
            inp += delta_quote(p, n, s.l, true);
            p = n;
            left = 0;
            break;
        }
        inp += delta_quote(p, s.hi, s.l, true);
        left -= u64_(max)?;
        p = s.hi;
    }
    if left != 0 {
        return Err("not enough liquidity");
    }
    if p > stop {
        return Err("beyond migration price");
    }
    Ok(Walk { input: inp, output: b(amt), next: p, left: 0 })
}
pub fn walk_sell_out(start: u128, curve: &[(u128, u128)], cur: u128, amt: u64) -> R<Walk> {
    let mut p = cur;
    let mut left = amt;
    let mut inp = B::zero();
    let ss = segs(start, curve);
    let next = |p: u128, l: u128, left: u64| -> R<u128> {
        let q = div(b(left) << 128, b(l), true);
        if q > b(p) {
            return Err("not enough liquidity");
        }
        u128_(b(p) - q)
    };
    for (k, s) in ss.iter().enumerate().rev() {
        if k == 0 {
            continue;
        }
        if s.lo >= p {
            continue;
        }
        let max = delta_quote(s.lo, p, s.l, false);
        if b(left) < max {
            let n = next(p, s.l, left)?;
            inp += delta_base(n, p, s.l, true);
            p = n;
            left = 0;
            break;
        }
        inp += delta_base(s.lo, p, s.l, true);
        left -= u64_(max)?;
        p = s.lo;
    }
    if left != 0 {
        let s = ss[0];
        if b(left) > delta_quote(start, p, s.l, false) {
            return Err("not enough liquidity");
        }
        let n = next(p, s.l, left)?;
        if n < start {
            return Err("not enough liquidity");
        }
        inp += delta_base(n, p, s.l, true);
        p = n;
    }
    Ok(Walk { input: inp, output: b(amt), next: p, left: 0 })
}

// ------------------------------------------------------------------ fees
#[derive(Clone, Copy, Debug)]
pub struct BaseFee {
    pub cliff: u64,
    pub first: u16,
    pub second: u64,
    pub third: u64,
    pub mode: u8,
}
impl BaseFee {
    pub fn of(c: &Config) -> BaseFee {
        BaseFee { cliff: c.cliff_fee, first: c.fee_first, second: c.fee_second, third: c.fee_third, mode: c.fee_mode }
    }
    pub fn of_params(c: &ConfigParams) -> BaseFee {
        BaseFee { cliff: c.cliff_fee, first: c.fee_first, second: c.fee_second, third: c.fee_third, mode: c.fee_mode }
    }
    /// scheduler: fee after `n` whole periods
    pub fn at_period(&self, n: u64) -> R<u64> {
        let n = n.min(self.first as u64);
        if self.mode == 0 {
            let red = b(self.third) * b(n);
            if red > b(u64::MAX) || red > b(self.cliff) {
                return Err("scheduler underflow");
            }
            u64_(b(self.cliff) - red)
        } else {
            decay(self.cliff, self.third, n)
        }
    }
    pub fn min_fee(&self) -> R<u64> {
        if self.mode == 2 {
            Ok(self.cliff)
        } else {
            self.at_period(self.first as u64)
        }
    }
    fn rl_zero(&self) -> bool {
        self.third == 0 && self.second == 0 && self.first == 0
    }
    pub fn inc(&self) -> u64 {
        self.first as u64 * (D / 10_000)
    }
    pub fn max_index(&self) -> u64 {
        (MAX_FEE - self.cliff) / self.inc()
    }
    pub fn rl_applied(&self, point: u64, act: u64, buy: bool) -> bool {
        self.mode == 2 && !self.rl_zero() && buy && point as u128 <= act as u128 + self.second as u128
    }
    /// total fee numerator for an input amount under the rate limiter
    pub fn rl_num_included(&self, amt: u64) -> R<u64> {
        if amt <= self.third {
            return Ok(self.cliff);
        }
        let x0 = b(self.third);
        let c = b(self.cliff);
        let i = b(self.inc());
        let rest = amt - self.third;
        let (a, rem) = (rest / self.third, rest % self.third);
        let m = self.max_index();
        let tri = |n: u64| b(n) * b(n as u128 + 1) / b(2u8);
        let fee = if a < m {
            &x0 * (&c + &c * b(a) + &i * tri(a)) + b(rem) * (&c + &i * b(a as u128 + 1))
        } else {
            &x0 * (&c + &c * b(m) + &i * tri(m)) + (b(a - m) * &x0 + b(rem)) * b(MAX_FEE)
        };
        let fee = div(fee, b(D), true);
        u64_(div(fee * b(D), b(amt), true))
    }
    fn rl_net(&self, amt: u64) -> R<u64> {
        Ok(excluded(self.rl_num_included(amt)?, amt).0)
    }
    pub fn rl_num_excluded(&self, ex: u64) -> R<u64> {
        if ex <= self.rl_net(self.third)? {
            return Ok(self.cliff);
        }
        let x0 = b(self.third);
        let m = self.max_index();
        let top = b(m as u128 + 1) * &x0;
        let (checked_in, over) = match top.to_u64() {
            Some(v) => (v, false),
            None => (u64::MAX, true),
        };
        let checked_ex = self.rl_net(checked_in)?;
        if ex == checked_ex {
            return self.rl_num_included(checked_in);
        }
        let total: B = if ex < checked_ex {
            let i = b(self.inc());
            let c = b(self.cliff);
            let y = b(2u8) * b(D) * &x0 + &i * &x0 - b(2u8) * &c * &x0;
            let z = b(2u8) * b(ex) * b(D) * &x0;
            let y2 = &y * &y;
            let xz4 = b(4u8) * &i * &z;
            if xz4 > y2 {
                return Err("?rate limiter: no real root");
            }
            let inc = (&y - (y2 - xz4).sqrt()) / (b(2u8) * &i);
            let inc = inc.to_u64().ok_or("?rate limiter overflow")?;
            let a1 = inc / self.third;
            let got = self.rl_net(inc)?;
            if got > ex {
                return Err("?rate limiter rounding");
            }
            let rate = c + i * b(a1);
            if rate >= b(D) {
                return Err("?rate limiter rate");
            }
            let more = div(b(ex - got) * b(D), b(D) - rate, true);
            b(inc) + more
        } else {
            if over {
                return Err("rate limiter: amount too large");
            }
            let more = div(b(ex - checked_ex) * b(D), b(D - MAX_FEE), true);
            more + b(checked_in)
        };
        let total = u64_(total)?;
        let num = u64_(div(b(total - ex) * b(D), b(total), true))?;
        if num < self.cliff {
            return Err("?rate limiter below cliff");
        }
        Ok(num)
    }
}
/// cliff * (1 - red/10000)^n in Q64.64, truncating at every step
pub fn decay(cliff: u64, red: u64, n: u64) -> R<u64> {
    let one: B = B::one() << 64usize;
    let sub: B = (b(red) << 64usize) / b(10_000u64);
    if sub > one || b(red) << 64 > b(u128::MAX) {
        return Err("reduction above 100%");
    }
    let mut base = &one - sub;
    let mut e = n;
    let mut acc: B = one.clone();
    // 1.0^n with no reduction: representable only below 1.0, handled by identity
    if base == one {
        // The Q64.64 reciprocal trick of the program maps 1.0 -> u128::MAX / 2^64 = 2^64 - 1;
        // a zero reduction is never accepted by validation.
        if n == 0 {
            return u64_((acc * b(cliff)) >> 64);
        }
        return Err("?zero reduction");
    }
    if n == 0 {
        return Ok(cliff);
    }
    while e > 0 {
        if e & 1 == 1 {
            acc = (acc * &base) >> 64;
        }
        base = (&base * &base) >> 64;
        e >>= 1;
    }
    if acc.is_zero() {
        return Err("decayed to nothing");
    }
    u64_((acc * b(cliff)) >> 64)
}
pub fn excluded(num: u64, amt: u64) -> (u64, u64) {
    let fee = muldiv(amt, num, D, true);
    (amt - fee, fee)
}
pub fn included(num: u64, ex: u64) -> R<(u64, u64)> {
    let inc = u64_(div(b(ex) * b(D), b(D - num), true))?;
    Ok((inc, inc - ex))
}
pub fn variable_fee(c: &Config, vol_acc: u128) -> B {
    if c.dyn_init == 0 {
        return B::zero();
    }
    let s = b(vol_acc) * b(c.dyn_bin_step);
    div(&s * &s * b(c.dyn_vfc), b(100_000_000_000u64), true)
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct Vol {
    pub last: u64,
    pub sref: u128,
    pub acc: u128,
    pub vref: u128,
}
impl Vol {
    pub fn of(p: &Pool) -> Vol {
        Vol { last: p.last_update, sref: p.sqrt_ref, acc: p.vol_acc, vref: p.vol_ref }
    }
}
pub fn delta_bins(step: u128, x: u128, y: u128) -> R<u128> {
    let (hi, lo) = if x > y { (x, y) } else { (y, x) };
    if lo == 0 || step == 0 {
        return Err("?zero price reference");
    }
    let ratio = (b(hi) << 64) / b(lo);
    let ratio = u128_(ratio)?;
    u128_(b((ratio - (1u128 << 64)) / step) * b(2u8))
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SwapRes {
    pub incl_in: u64,
    pub excl_in: u64,
    pub left: u64,
    pub out: u64,
    pub next: u128,
    pub trading: u64,
    pub protocol: u64,
    pub referral: u64,
    pub fee_on_input: bool,
    pub numerators: Vec<u64>,
    pub vol: Vol,
}
impl SwapRes {
    pub fn total_fee(&self) -> u64 {
        self.trading + self.protocol + self.referral
    }
}
pub struct SwapReq {
    pub buy: bool,
    pub mode: u8,
    pub amount: u64,
    pub referral: bool,
    pub first_min: bool,
    pub ts: u64,
    pub slot: u64,
}
fn split(fee: u64, referral: bool) -> (u64, u64, u64) {
    let protocol = muldiv(fee, 20, 100, false);
    let trading = fee - protocol;
    let refe = if referral { muldiv(protocol, 20, 100, false) } else { 0 };
    (trading, protocol - refe, refe)
}
/// Complete swap: price path, fees, and the updated volatility tracker.
pub fn swap(c: &Config, p: &Pool, q: &SwapReq) -> R<SwapRes> {
    if p.sqrt_price == 0 {
        return Err("no such pool");
    }
    let mut vol = Vol::of(p);
    if c.dyn_init != 0 {
        let elapsed = q.ts.saturating_sub(vol.last);
        if elapsed >= c.dyn_filter as u64 {
            vol.sref = p.sqrt_price;
            vol.vref =
                if elapsed < c.dyn_decay as u64 { vol.acc * c.dyn_reduction as u128 / 10_000 } else { 0 };
        }
    }
    let point = if c.activation_type == 0 { q.slot } else { q.ts };
    let fee = BaseFee::of(c);
    // total numerator for an amount that includes / excludes the fee
    let num = |amt: u64, incl: bool| -> R<u64> {
        if q.first_min {
            return fee.min_fee();
        }
        let base = match fee.mode {
            2 => {
                if fee.rl_applied(point, p.activation_point, q.buy) {
                    if incl {
                        fee.rl_num_included(amt)?
                    } else {
                        fee.rl_num_excluded(amt)?
                    }
                } else {
                    fee.cliff
                }
            }
            _ => {
                if fee.second == 0 {
                    fee.cliff
                } else {
                    let el = point.checked_sub(p.activation_point).ok_or("before activation")?;
                    fee.at_period(el / fee.second)?
                }
            }
        };
        let t = b(base) + variable_fee(c, p_vol_acc(p));
        Ok(t.to_u64().unwrap_or(u64::MAX).min(MAX_FEE))
    };
    let fee_on_input = c.collect_fee_mode == 0 && q.buy;
    let mut numerators = vec![];
    let (mut incl_in, excl_in, out, next, left, total_fee);
    match q.mode {
        MODE_IN | MODE_PARTIAL => {
            let n0 = num(q.amount, true)?;
            numerators.push(n0);
            let net = if fee_on_input { excluded(n0, q.amount).0 } else { q.amount };
            let w = if q.buy {
                walk_buy_in(c.start_sqrt, &c.curve, p.sqrt_price, c.mig_sqrt, net)?
            } else {
                walk_sell_in(c.start_sqrt, &c.curve, p.sqrt_price, net)?
            };
            if q.mode == MODE_IN && w.left != 0 {
                return Err("insufficient liquidity");
            }
            left = w.left;
            next = w.next;
            excl_in = net - left;
            let gross = u64_(w.output)?;
            if fee_on_input {
                incl_in = q.amount;
                let mut f = q.amount - net;
                if left != 0 {
                    let n1 = num(excl_in, false)?;
                    numerators.push(n1);
                    let (inc, fe) = included(n1, excl_in)?;
                    incl_in = inc;
                    f = fe;
                }
                total_fee = f;
                out = gross;
            } else {
                incl_in = excl_in;
                let (net_out, f) = excluded(n0, gross);
                total_fee = f;
                out = net_out;
            }
        }
        MODE_OUT => {
            let (want, f0) = if fee_on_input {
                (q.amount, 0)
            } else {
                let n0 = num(q.amount, false)?;
                numerators.push(n0);
                included(n0, q.amount)?
            };
            let w = if q.buy {
                walk_buy_out(c.start_sqrt, &c.curve, p.sqrt_price, c.mig_sqrt, want)?
            } else {
                walk_sell_out(c.start_sqrt, &c.curve, p.sqrt_price, want)?
            };
            excl_in = u64_(w.input)?;
            next = w.next;
            left = 0;
            out = q.amount;
            if fee_on_input {
                let n1 = num(excl_in, false)?;
                numerators.push(n1);
                let (inc, f) = included(n1, excl_in)?;
                incl_in = inc;
                total_fee = f;
            } else {
                incl_in = excl_in;
                total_fee = f0;
            }
        }
        _ => return Err("unknown mode"),
    }
    let (trading, protocol, referral) = split(total_fee, q.referral);
    if c.dyn_init != 0 {
        let d = delta_bins(c.dyn_bin_step_u128, next, vol.sref)?;
        vol.acc = u128_(b(vol.vref) + b(d) * b(10_000u64))?.min(c.dyn_max_vol as u128);
        if delta_bins(c.dyn_bin_step_u128, p.sqrt_price, next)? > 0 {
            vol.last = q.ts;
        }
    }
    Ok(SwapRes {
        incl_in,
        excl_in,
        left,
        out,
        next,
        trading,
        protocol,
        referral,
        fee_on_input,
        numerators,
        vol,
    })
}
/// The variable fee uses the accumulator as it stood before this swap.
fn p_vol_acc(p: &Pool) -> u128 {
    p.vol_acc
}

// ------------------------------------------------------------------ configuration
pub fn migration_price(threshold: u64, start: u128, curve: &[(u128, u128)]) -> R<u128> {
    let mut left = threshold;
    let mut p = start;
    for s in segs(start, curve) {
        if left == 0 {
            break;
        }
        let max = delta_quote(s.lo, s.hi, s.l, true);
        if max > b(left) {
            return quote_in_next(s.lo, s.l, left);
        }
        left -= u64_(max)?;
        p = s.hi;
    }
    if left != 0 {
        return Err("curve cannot reach the threshold");
    }
    Ok(p)
}
pub fn base_for_swap(start: u128, to: u128, curve: &[(u128, u128)]) -> B {
    let mut t = B::zero();
    for s in segs(start, curve) {
        if s.hi > to {
            if to > s.lo {
                t += delta_base(s.lo, to, s.l, true);
            }
            break;
        }
        t += delta_base(s.lo, s.hi, s.l, true);
    }
    t
}
/// (quote that goes to the AMM, migration fee)
pub fn migration_quote(threshold: u64, pct: u8) -> (u64, u64) {
    let q = muldiv(threshold, 100 - pct as u64, 100, true);
    (q, threshold - q)
}
pub fn liq_from_quote(q: u64, p: u128) -> R<u128> {
    if p <= MIN_SQRT {
        return Err("price at minimum");
    }
    u128_((b(q) << 128) / b(p - MIN_SQRT))
}
pub fn liq_from_base(a: u64, p: u128) -> B {
    b(a) * b(p) * b(MAX_SQRT) / b(MAX_SQRT - p)
}
pub fn base_for_migration(quote: u64, p: u128, constant_product: bool) -> R<u64> {
    if constant_product {
        u64_(div(b(quote) << 128, b(p) * b(p), true))
    } else {
        u64_(delta_base(p, MAX_SQRT, liq_from_quote(quote, p)?, true))
    }
}
pub const DEAD: u128 = 100 << 64;
pub fn compounding_initial(a: u64, q: u64) -> R<(u128, u128)> {
    if a == 0 {
        return Err("no base");
    }
    let s1: B = div(b(q) << 128usize, b(a), true).sqrt();
    if s1 < b(MIN_SQRT) || s1 > b(MAX_SQRT) {
        return Err("price out of range");
    }
    let s2: B = ((b(q) << 128usize) / b(a)).sqrt();
    Ok((u128_(s1)?, u128_(s2 * b(a))?))
}
/// protocol migration fee (base, quote)
pub fn protocol_migration_fee(base: u64, quote: u64, bps: u16, p: u128, constant_product: bool) -> R<(u64, u64)> {
    let qf = muldiv(quote, bps as u64, 10_000, false);
    if constant_product {
        Ok((muldiv(base, bps as u64, 10_000, false), qf))
    } else {
        Ok((u64_(delta_base(p, MAX_SQRT, liq_from_quote(qf, p)?, false))?, qf))
    }
}
pub fn is_cp(option: u8, m_collect: u8) -> bool {
    option == 0 || m_collect == 2
}
pub fn vesting_total(per: u64, n: u64, cliff: u64) -> R<u64> {
    u64_(b(per) * b(n)).and_then(|x| u64_(b(x) + b(cliff)))
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct VestPlan {
    pub cliff_point: u64,
    pub per_period: u128,
    pub cliff_amount: u128,
    pub freq: u64,
    pub periods: u16,
}
pub fn vest_plan(v: &LpVest, total: u128, now: u64) -> R<VestPlan> {
    let mut freq = v.freq as u64;
    let mut n = v.periods;
    let mut cliff = v.cliff as u64;
    let bps = (v.bps_per_period as u32) * (n as u32);
    if bps > u16::MAX as u32 {
        return Err("vesting bps overflow");
    }
    let after = u128_(b(total) * b(bps) / b(10_000u32))?;
    let per = if n > 0 { after / n as u128 } else { 0 };
    if per == 0 {
        n = 0;
        freq = 0;
        cliff = cliff.max(1);
    }
    let scheduled = per.checked_mul(n as u128).ok_or("overflow")?;
    let cliff_amount = total.checked_sub(scheduled).ok_or("vesting above 100%")?;
    Ok(VestPlan { cliff_point: now + cliff, per_period: per, cliff_amount, freq, periods: n })
}
fn is_zero_vest(v: &LpVest) -> bool {
    *v == LpVest::default()
}
fn check_vest(v: &LpVest, now: u64) -> R<()> {
    if is_zero_vest(v) {
        return Ok(());
    }
    let total = u128_(b(u128::MAX) * b(v.pct) / b(100u8)).map_err(|_| "vesting pct")?;
    let p = vest_plan(v, total, now)?;
    if p.cliff_point == now && p.periods == 0 {
        return Err("empty vesting");
    }
    if p.periods > 0 && (p.freq == 0 || p.per_period == 0) {
        return Err("vesting without frequency");
    }
    if p.cliff_point - now + p.freq * p.periods as u64 > 3600 * 24 * 365 * 2 {
        return Err("vesting too long");
    }
    if total == 0 {
        return Err("empty vesting");
    }
    Ok(())
}
/// share (bps, rounded down) of the LP still locked `secs` after migration
fn locked_bps(v: &LpVest, secs: u64) -> R<u64> {
    if is_zero_vest(v) {
        return Ok(0);
    }
    let total = u128_(b(u128::MAX) * b(v.pct) / b(100u8))?;
    let p = vest_plan(v, total, 0)?;
    let unlocked = if secs < p.cliff_point {
        0
    } else if p.freq == 0 {
        p.cliff_amount
    } else {
        let k = ((secs - p.cliff_point) / p.freq).min(p.periods as u64);
        p.cliff_amount + k as u128 * p.per_period
    };
    Ok((b(total - unlocked) * b(10_000u64) / b(u128::MAX)).to_u64().unwrap())
}

/// what new pools must keep locked one day after migration (older configs may promise less)
pub fn config_locked(c: &Config) -> R<u64> {
    Ok(locked_bps(&c.partner_vest, 86_400)?
        + locked_bps(&c.creator_vest, 86_400)?
        + (c.partner_perm as u64 + c.creator_perm as u64) * 100)
}

pub struct QuoteFacts {
    pub is_token: bool,
    pub supported: bool,
}
/// Decide whether a configuration must be accepted, and derive its stored quantities.
/// Returns Err for "must be refused".
pub fn create_config(c: &ConfigParams, q: &QuoteFacts, leftover_is_default: bool, now: u64) -> R<Config> {
    if !q.supported {
        return Err("quote mint unsupported");
    }
    if c.activation_type > 1 {
        return Err("activation type");
    }
    let f = BaseFee::of_params(c);
    match c.fee_mode {
        0 | 1 => {
            if (f.second != 0 || f.first != 0 || f.third != 0) && (f.second == 0 || f.first == 0 || f.third == 0) {
                return Err("partial scheduler");
            }
            let zero = f.first == 0;
            let min = if zero { f.cliff } else { f.at_period(f.first as u64)? };
            if min >= D || f.cliff >= D || min < MIN_FEE || f.cliff > MAX_FEE {
                return Err("fee out of bounds");
            }
        }
        2 => {
            if c.collect_fee_mode != 0 {
                return Err("rate limiter needs quote fees");
            }
            if f.cliff < MIN_FEE || f.cliff > MAX_FEE {
                return Err("fee out of bounds");
            }
            if !f.rl_zero() {
                if f.first == 0 || f.second == 0 || f.third == 0 {
                    return Err("partial rate limiter");
                }
                let max = if c.activation_type == 0 { 108_000 } else { 43_200 };
                if f.second > max || f.first as u64 >= 10_000 {
                    return Err("rate limiter bounds");
                }
                if f.rl_num_included(u64::MAX)? > MAX_FEE {
                    return Err("rate limiter max fee");
                }
            }
        }
        _ => return Err("fee mode"),
    }
    if let Some(d) = &c.dynamic {
        if d.bin_step != 1
            || d.bin_step_u128 != 1844674407370955
            || d.filter >= d.decay
            || d.reduction > 10_000
            || d.vfc > 0xffffff
            || d.max_vol > 0xffffff
        {
            return Err("dynamic fee params");
        }
    }
    if c.creator_fee_pct > 100 {
        return Err("creator fee pct");
    }
    if c.mig_fee_pct > 99
        || (c.mig_fee_pct == 0 && c.creator_mig_fee_pct != 0)
        || c.creator_mig_fee_pct > 100
    {
        return Err("migration fee pct");
    }
    if c.collect_fee_mode > 1 || c.migration_option > 1 || c.migration_fee_option > 6 || c.token_type > 1 {
        return Err("enum");
    }
    let none = c.m_collect == 0
        && c.m_dynamic == 0
        && c.m_bps == 0
        && c.compounding_bps == 0
        && c.m_base_mode == 0
        && c.mc_periods == 0
        && c.mc_step == 0
        && c.mc_expiry == 0
        && c.mc_reduction == 0;
    if c.migration_option == 0 {
        if c.token_type != 0 || !q.is_token || c.migration_fee_option == 6 || !none {
            return Err("damm v1 constraints");
        }
        if !is_zero_vest(&c.partner_vest) || !is_zero_vest(&c.creator_vest) {
            return Err("damm v1 has no vesting");
        }
    } else {
        if c.migration_fee_option == 6 {
            if c.m_bps < 10 || c.m_bps > 1000 || c.m_collect > 2 || c.m_dynamic > 1 {
                return Err("migrated pool fee");
            }
            if (c.m_collect == 2) != (c.compounding_bps > 0) || c.compounding_bps > 10_000 {
                return Err("compounding bps");
            }
            let mz = c.mc_periods == 0 && c.mc_step == 0 && c.mc_expiry == 0 && c.mc_reduction == 0;
            match c.m_base_mode {
                0 | 1 => {
                    if !mz {
                        return Err("market cap params");
                    }
                }
                3 | 4 => {
                    if c.mc_periods == 0 || c.mc_step == 0 || c.mc_expiry == 0 || c.mc_reduction == 0 {
                        return Err("market cap params");
                    }
                    let cliff = c.m_bps as u64 * 100_000;
                    let min = if c.m_base_mode == 3 {
                        let r = b(c.mc_reduction) * b(c.mc_periods);
                        if r > b(cliff) {
                            return Err("market cap underflow");
                        }
                        cliff - r.to_u64().unwrap()
                    } else {
                        decay(cliff, c.mc_reduction, c.mc_periods as u64)?
                    };
                    // DAMM v2 minimum fee: 1 bps
                    if min < 100_000 {
                        return Err("market cap min fee");
                    }
                }
                _ => return Err("base fee mode"),
            }
        } else if !none {
            return Err("migrated pool fee must be none");
        }
        check_vest(&c.partner_vest, now)?;
        check_vest(&c.creator_vest, now)?;
    }
    if c.token_update_authority > 4 || c.token_decimal < 6 || c.token_decimal > 9 {
        return Err("token options");
    }
    let sum = [c.partner_liq, c.partner_perm, c.creator_liq, c.creator_perm, c.partner_vest.pct, c.creator_vest.pct]
        .iter()
        .map(|x| *x as u32)
        .sum::<u32>();
    if sum != 100 {
        return Err("liquidity shares");
    }
    if c.threshold == 0 {
        return Err("threshold");
    }
    let has_vest = c.v_amount != 0 || c.v_cliff_dur != 0 || c.v_freq != 0 || c.v_periods != 0 || c.v_cliff_amount != 0;
    let vest_total = vesting_total(c.v_amount, c.v_periods, c.v_cliff_amount);
    if has_vest && (vest_total? == 0 || c.v_freq == 0) {
        return Err("locked vesting");
    }
    let vest_total = vest_total?;
    if c.creation_fee != 0 && !(1_000_000..=100_000_000_000).contains(&c.creation_fee) {
        return Err("creation fee");
    }
    if c.start_sqrt < MIN_SQRT || c.start_sqrt >= MAX_SQRT || c.curve.is_empty() || c.curve.len() > 16 {
        return Err("curve");
    }
    let mut prev = c.start_sqrt;
    for (p, l) in &c.curve {
        if *p <= prev || *l == 0 || *p > MAX_SQRT {
            return Err("curve");
        }
        prev = *p;
    }
    let mig = migration_price(c.threshold, c.start_sqrt, &c.curve)?;
    if mig >= MAX_SQRT {
        return Err("migration price");
    }
    let swap_base = u64_(base_for_swap(c.start_sqrt, mig, &c.curve))?;
    let cp = is_cp(c.migration_option, c.m_collect);
    let (mq, _) = migration_quote(c.threshold, c.mig_fee_pct);
    let mb = base_for_migration(mq, mig, cp)?;
    if mb == 0 || swap_base == 0 {
        return Err("no base");
    }
    if c.migration_option == 1 && c.m_collect == 2 {
        let (bf, qf) = protocol_migration_fee(mb, mq, 20, mig, true)?;
        let (s, l) = compounding_initial(mb - bf, mq - qf)?;
        if l <= DEAD {
            return Err("compounding liquidity");
        }
        let (hi, lo) = (s.max(mig), s.min(mig));
        if b(hi - lo) * b(100u8) > b(hi) {
            return Err("compounding price");
        }
    }
    if let Some((pre, post)) = c.supply {
        if leftover_is_default {
            return Err("leftover receiver");
        }
        let buf = swap_with_buffer(swap_base, c.start_sqrt, &c.curve)?;
        let minb = u64_(b(buf) + b(mb) + b(vest_total))?;
        let min = u64_(b(swap_base) + b(mb) + b(vest_total))?;
        if min > post || post > pre || minb > pre {
            return Err("token supply");
        }
    }
    let locked = locked_bps(&c.partner_vest, 86_400)?
        + locked_bps(&c.creator_vest, 86_400)?
        + (c.partner_perm as u64 + c.creator_perm as u64) * 100;
    if locked < 1000 {
        return Err("not enough locked liquidity");
    }
    let d = c.dynamic.clone().unwrap_or_default();
    let mut mfb = vec![];
    mfb.extend(c.mc_periods.to_le_bytes());
    mfb.extend(c.mc_step.to_le_bytes());
    mfb.extend(c.mc_expiry.to_le_bytes());
    mfb.extend(c.mc_reduction.to_le_bytes());
    Ok(Config {
        cliff_fee: c.cliff_fee,
        fee_first: c.fee_first,
        fee_second: c.fee_second,
        fee_third: c.fee_third,
        fee_mode: c.fee_mode,
        dyn_init: c.dynamic.is_some() as u8,
        dyn_max_vol: d.max_vol,
        dyn_vfc: d.vfc,
        dyn_bin_step: d.bin_step,
        dyn_filter: d.filter,
        dyn_decay: d.decay,
        dyn_reduction: d.reduction,
        dyn_bin_step_u128: d.bin_step_u128,
        partner_vest: c.partner_vest.clone(),
        creator_vest: c.creator_vest.clone(),
        collect_fee_mode: c.collect_fee_mode,
        migration_option: c.migration_option,
        activation_type: c.activation_type,
        token_decimal: c.token_decimal,
        version: 0,
        token_type: c.token_type,
        quote_token_flag: !q.is_token as u8,
        partner_perm: c.partner_perm,
        partner_liq: c.partner_liq,
        creator_perm: c.creator_perm,
        creator_liq: c.creator_liq,
        migration_fee_option: c.migration_fee_option,
        fixed_supply: c.supply.is_some() as u8,
        creator_fee_pct: c.creator_fee_pct,
        token_update_authority: c.token_update_authority,
        mig_fee_pct: c.mig_fee_pct,
        creator_mig_fee_pct: c.creator_mig_fee_pct,
        swap_base_amount: swap_base,
        threshold: c.threshold,
        base_threshold: mb,
        mig_sqrt: mig,
        v_amount: c.v_amount,
        v_cliff_dur: c.v_cliff_dur,
        v_freq: c.v_freq,
        v_periods: c.v_periods,
        v_cliff_amount: c.v_cliff_amount,
        pre_supply: c.supply.map(|x| x.0).unwrap_or(0),
        post_supply: c.supply.map(|x| x.1).unwrap_or(0),
        m_collect: c.m_collect,
        m_dynamic: c.m_dynamic,
        m_bps: c.m_bps,
        m_base_mode: c.m_base_mode,
        first_swap_min: c.first_swap_min as u8,
        compounding_bps: c.compounding_bps,
        creation_fee: c.creation_fee,
        m_fee_bytes: mfb.try_into().unwrap(),
        start_sqrt: c.start_sqrt,
        curve: c.curve.clone(),
        ..Default::default()
    })
}
pub fn swap_with_buffer(swap_base: u64, start: u128, curve: &[(u128, u128)]) -> R<u64> {
    let buf = b(swap_base) * b(125u8) / b(100u8);
    let max = base_for_swap(start, MAX_SQRT, curve);
    u64_(buf.min(max))
}
pub fn config_vesting(c: &Config) -> u64 {
    vesting_total(c.v_amount, c.v_periods, c.v_cliff_amount).unwrap_or(u64::MAX)
}
pub fn has_vesting(c: &Config) -> bool {
    c.v_amount != 0 || c.v_cliff_dur != 0 || c.v_freq != 0 || c.v_periods != 0 || c.v_cliff_amount != 0
}
pub fn initial_supply(c: &Config) -> R<u64> {
    if c.fixed_supply == 1 {
        return Ok(c.pre_supply);
    }
    let buf = swap_with_buffer(c.swap_base_amount, c.start_sqrt, &c.curve)?;
    u64_(b(buf) + b(c.base_threshold) + b(config_vesting(c)))
}

// ------------------------------------------------------------------ settlement amounts
/// (partner, creator, protocol) shares of the quote collected above the threshold
pub fn surplus(c: &Config, quote_reserve: u64) -> (u64, u64, u64) {
    let total = quote_reserve.saturating_sub(c.threshold);
    let pc = muldiv(total, 80, 100, false);
    let creator = muldiv(pc, c.creator_fee_pct as u64, 100, false);
    (pc - creator, creator, total - pc)
}
pub fn migration_fee_split(c: &Config) -> (u64, u64) {
    let (_, fee) = migration_quote(c.threshold, c.mig_fee_pct);
    let creator = muldiv(fee, c.creator_mig_fee_pct as u64, 100, false);
    (fee - creator, creator)
}
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Share {
    pub unlocked: u128,
    pub perm: u128,
    pub vested: u128,
    pub perm_pct: u8,
    pub vest: LpVest,
}
impl Share {
    pub fn total(&self) -> u128 {
        self.unlocked + self.perm + self.vested
    }
    pub fn adjust(&self, total: u128) -> Share {
        let mut s = self.clone();
        let locked = self.perm_pct as u128 + self.vest.pct as u128;
        if locked == 0 {
            s.unlocked = total;
            s.perm = 0;
            s.vested = 0;
        } else {
            s.unlocked = total.min(self.unlocked);
            let rest = total - s.unlocked;
            s.vested = (b(rest) * b(self.vest.pct) / b(locked)).to_u128().unwrap();
            s.perm = rest - s.vested;
        }
        s
    }
}
pub fn lp_shares(c: &Config, l: u128) -> (Share, Share) {
    let pct = |p: u8| (b(l) * b(p) / b(100u8)).to_u128().unwrap();
    let partner = Share {
        unlocked: pct(c.partner_liq),
        perm: pct(c.partner_perm),
        vested: pct(c.partner_vest.pct),
        perm_pct: c.partner_perm,
        vest: c.partner_vest.clone(),
    };
    let (cp, cv) = (pct(c.creator_perm), pct(c.creator_vest.pct));
    let creator = Share {
        unlocked: l - partner.total() - cp - cv,
        perm: cp,
        vested: cv,
        perm_pct: c.creator_perm,
        vest: c.creator_vest.clone(),
    };
    (partner, creator)
}
#[allow(dead_code)]
pub fn signed(x: u64) -> BigInt {
    BigInt::from(x)
}
