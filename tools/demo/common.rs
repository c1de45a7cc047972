//! Small helper for demonstrations: a few accounts, one pool, plain asserts.
pub use crate::abi::*;
pub use crate::rt::*;
pub use crate::sim::*;
pub use solana_program::instruction::Instruction;
pub use solana_program::pubkey::Pubkey;

pub struct S {
    pub db: Db,
    pub slot: u64,
    pub ts: i64,
    pub fault: u8,
}
impl S {
    pub fn new() -> S {
        S { db: genesis(), slot: S0, ts: T0, fault: 0 }
    }
    /// run a transaction; the ledger changes only when it succeeds
    pub fn run(&mut self, ixs: Vec<Instruction>) -> TxOut {
        let mut signers = vec![];
        for ix in &ixs {
            for m in &ix.accounts {
                if m.is_signer {
                    signers.push(m.pubkey)
                }
            }
        }
        let t = TxSpec { slot: self.slot, ts: self.ts, ixs, signers, misbehave: self.fault, ..Default::default() };
        let (o, _) = exec(&self.db, &t, true);
        self.db = o.post.clone();
        o
    }
    pub fn ok(&mut self, what: &str, ixs: Vec<Instruction>) -> TxOut {
        let o = self.run(ixs);
        if !o.ok() {
            for l in &o.logs {
                eprintln!("      {}", l)
            }
            panic!("{} should succeed but failed: {}", what, o.err.as_ref().map(|e| e.short()).unwrap_or_default());
        }
        o
    }
    pub fn refused(&mut self, what: &str, ixs: Vec<Instruction>) -> String {
        let o = self.run(ixs);
        assert!(!o.ok(), "{} should be refused but succeeded", what);
        o.err.as_ref().map(|e| e.short()).unwrap_or_default()
    }
    /// time passes
    pub fn pass(&mut self, slots: u64, secs: i64) {
        self.slot += slots;
        self.ts += secs;
    }
    pub fn bal(&self, k: &Pubkey) -> u64 {
        bal(&self.db, k)
    }
    pub fn lam(&self, k: &Pubkey) -> u64 {
        lamports(&self.db, k)
    }
    pub fn pool(&self, p: &Pl) -> Pool {
        pool(&self.db, &p.pool).expect("pool account")
    }
    pub fn config(&self, p: &Pl) -> Config {
        config(&self.db, &p.config).expect("config account")
    }
    pub fn supply(&self, p: &Pl) -> u64 {
        mint(&self.db, &p.base).expect("base mint").supply
    }
    pub fn make_config(&mut self, c: &ConfigParams, q: Quote, tag: &str) -> Pubkey {
        let cfg = key(&format!("cfg-{}", tag));
        let ix = create_config(cfg, key("p0"), key("rcv0"), q.mint, key("p0"), c);
        self.ok("create_config", vec![ix]);
        cfg
    }
    pub fn config_refused(&mut self, c: &ConfigParams, q: Quote, tag: &str) -> String {
        let ix = create_config(key(&format!("cfg-{}", tag)), key("p0"), key("rcv0"), q.mint, key("p0"), c);
        self.refused("create_config", vec![ix])
    }
    /// a config and a pool; partner p0, creator c0, leftover receiver rcv0
    pub fn make_pool(&mut self, c: &ConfigParams, q: Quote, tag: &str) -> Pl {
        let cfg = self.make_config(c, q, tag);
        let p = Pl::of(cfg, q, c.token_type == 1, tag);
        self.ok("initialize pool", vec![p.init()]);
        self.atas(&p);
        p
    }
    pub fn atas(&mut self, p: &Pl) {
        let mut who: Vec<Pubkey> = ["p0", "c0", "c1", "t0", "t1", "r0", "o0", "rcv0", "atk"].iter().map(|l| key(l)).collect();
        who.push(TREASURY);
        for w in who {
            self.ok("create ata", vec![create_ata(key("keeper"), w, p.base, p.base_tp)]);
        }
    }
    pub fn operator(&mut self, perm: u128) -> Pubkey {
        self.ok("create_operator", vec![create_operator(ADMINS[0], ADMINS[0], key("o0"), perm)]);
        operator_addr(&key("o0"))
    }
    /// buy up to the threshold in one partial fill
    pub fn fill(&mut self, p: &Pl) {
        self.ok("fill", vec![p.partial(key("t1"), true, 1 << 50, 0)]);
        assert!(self.pool(p).progress != 0, "curve should be complete");
    }
    pub fn lock(&mut self, p: &Pl) {
        let k = key("keeper");
        let esc = escrow_addr(&base_locker(&p.pool));
        self.ok("escrow ata", vec![create_ata(k, esc, p.base, p.base_tp)]);
        let creator = self.pool(p).creator;
        self.ok("create_locker", vec![create_locker(&p.pr, creator, k)]);
    }
    pub fn migrate1(&mut self, p: &Pl) {
        let k = key("keeper");
        self.ok("v1 metadata", vec![d1_create_metadata(&p.pr, k)]);
        self.ok("v1 migrate", vec![d1_migrate(&p.pr, key("d1cfg:100"), k)]);
    }
    pub fn migrate2(&mut self, p: &Pl) -> TxOut {
        let o = self.ok("v2 migrate", vec![d2_migrate(&p.pr, key("d2cfg:100"), key("keeper"), true)]);
        o
    }
    /// (unlocked, vested, permanently locked) of the two positions of a v2 migration, and their owners
    pub fn positions(&self, p: &Pl) -> Vec<(Pubkey, u128, u128, u128)> {
        let d = d2_addrs(&p.pr, &key("d2cfg:100"));
        let mut v = vec![];
        for pos in [d.pos1, d.pos2] {
            if let Some(x) = self.db.get(&pos).and_then(|a| crate::progs::d2_pos_view(a)) {
                let owner = self
                    .db
                    .values()
                    .filter_map(|a| Tok::parse(a))
                    .find(|t| t.mint == x.nft && t.amount == 1)
                    .map(|t| t.owner)
                    .unwrap_or_default();
                v.push((owner, x.unlocked, x.vested, x.permanent));
            }
        }
        v
    }
}
/// the pool a demonstration works with
#[derive(Clone)]
pub struct Pl {
    pub pr: PoolRef,
    pub q: Quote,
    pub t22: bool,
    pub pool: Pubkey,
    pub config: Pubkey,
    pub base: Pubkey,
    pub base_tp: Pubkey,
}
impl Pl {
    pub fn of(cfg: Pubkey, q: Quote, t22: bool, tag: &str) -> Pl {
        let base = key(&format!("base-{}", tag));
        let pool = pool_addr(&cfg, &base, &q.mint);
        let base_tp = if t22 { TOKEN22 } else { TOKEN };
        let pr = PoolRef {
            pool,
            config: cfg,
            base,
            quote: q.mint,
            base_tp,
            quote_tp: q.tp,
            base_vault: vault_addr(&base, &pool),
            quote_vault: vault_addr(&q.mint, &pool),
            fee_claimer: key("p0"),
            leftover: key("rcv0"),
        };
        Pl { pr, q, t22, pool, config: cfg, base, base_tp }
    }
    pub fn init(&self) -> Instruction {
        init_pool(self.t22, self.config, key("c0"), self.base, self.q.mint, self.q.tp, key("keeper"), "Name", "SYM", "http://x")
    }
    pub fn b(&self, who: &str) -> Pubkey {
        self.bk(&key(who))
    }
    pub fn qt(&self, who: &str) -> Pubkey {
        self.qk(&key(who))
    }
    pub fn bk(&self, who: &Pubkey) -> Pubkey {
        ata(who, &self.base, &self.base_tp)
    }
    pub fn qk(&self, who: &Pubkey) -> Pubkey {
        ata(who, &self.q.mint, &self.q.tp)
    }
    fn sides(&self, u: &Pubkey, buy: bool) -> (Pubkey, Pubkey) {
        if buy {
            (self.qk(u), self.bk(u))
        } else {
            (self.bk(u), self.qk(u))
        }
    }
    pub fn mode(&self, u: Pubkey, buy: bool, mode: Option<u8>, a0: u64, a1: u64, referral: Option<Pubkey>, sysvar: bool) -> Instruction {
        let (i, o) = self.sides(&u, buy);
        swap(&self.pr, u, i, o, mode, a0, a1, referral, sysvar)
    }
    /// exact input
    pub fn swap_in(&self, u: Pubkey, buy: bool, amount: u64, min: u64) -> Instruction {
        self.mode(u, buy, Some(MODE_IN), amount, min, None, true)
    }
    pub fn partial(&self, u: Pubkey, buy: bool, amount: u64, min: u64) -> Instruction {
        self.mode(u, buy, Some(MODE_PARTIAL), amount, min, None, true)
    }
    pub fn swap_out(&self, u: Pubkey, buy: bool, amount: u64, max: u64) -> Instruction {
        self.mode(u, buy, Some(MODE_OUT), amount, max, None, true)
    }
}
pub fn q6() -> Quote {
    quotes()[0]
}
/// 1 % fee on the quote token, two segments, half the liquidity to each side
pub fn params(opt: u8) -> ConfigParams {
    ConfigParams {
        cliff_fee: 10_000_000,
        migration_option: opt,
        token_decimal: 6,
        partner_liq: 20,
        partner_perm: 30,
        creator_liq: 20,
        creator_perm: 30,
        threshold: 50_000_000_000,
        start_sqrt: START,
        migration_fee_option: 2,
        creator_fee_pct: 30,
        token_update_authority: 1,
        curve: vec![(START * 3, 1u128 << 100), (MAX_SQRT, 1u128 << 98)],
        ..Default::default()
    }
}
pub const START: u128 = 583337266871351588;

/// events of the program in a transaction: (discriminator, payload)
pub fn events(o: &TxOut, name: &str) -> Vec<Vec<u8>> {
    let d = disc("event", name);
    o.trace
        .iter()
        .filter(|t| t.ix.program_id == DBC && is_event_ix(&t.ix.data) && t.ix.data.len() >= 16 && t.ix.data[8..16] == d)
        .map(|t| t.ix.data[16..].to_vec())
        .collect()
}
/// Program logs go to stdout; send them nowhere and report on stderr.
pub fn demo(f: fn(&mut S)) -> ! {
    extern "C" {
        fn dup2(a: i32, b: i32) -> i32;
    }
    use std::os::fd::AsRawFd;
    let null = std::fs::OpenOptions::new().write(true).open("/dev/null").expect("/dev/null");
    unsafe { dup2(null.as_raw_fd(), 1) };
    install();
    let r = std::panic::catch_unwind(|| f(&mut S::new()));
    match r {
        Ok(()) => {
            eprintln!("demonstration: holds");
            std::process::exit(0)
        }
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            eprintln!("demonstration: FAILS: {}", m);
            std::process::exit(1)
        }
    }
}
