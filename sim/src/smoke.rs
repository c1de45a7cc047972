use crate::abi::*;
use crate::sim::*;
use crate::rt::*;
use solana_program::instruction::Instruction;
use solana_program::pubkey::Pubkey;

pub struct S { pub db: Db, pub slot: u64, pub ts: i64 }
impl S {
    pub fn run(&mut self, name: &str, ixs: Vec<Instruction>) -> bool {
        let mut signers = vec![];
        for ix in &ixs { for m in &ix.accounts { if m.is_signer { signers.push(m.pubkey) } } }
        let t = TxSpec { slot: self.slot, ts: self.ts, ixs, signers, ..Default::default() };
        let (o, z) = exec(&self.db, &t, true);
        let (mut v, mut se) = (vec![], vec![]);
        crate::oracle::check_tx(&t, &o, &z, &mut v, &mut se);
        for x in &v { println!("  !! {} {}", x.sig(), x.what); }
        for x in &se { print!("[{} {} {:x}] ", x.kind, x.outcome, x.class); }
        println!("{:30} {:?} sys={}", name, o.err.as_ref().map(|e| e.short()), o.syscalls);
        if !o.ok() { for l in &o.logs { println!("      {}", l) } }
        self.db = o.post.clone();
        self.slot += 2; self.ts += 1;
        o.ok()
    }
}
pub fn params(opt: u8, t22: bool, vest: bool) -> ConfigParams {
    ConfigParams {
        cliff_fee: 10_000_000, fee_mode: 0, collect_fee_mode: 0, migration_option: opt, activation_type: 0,
        token_type: t22 as u8, token_decimal: 6, partner_liq: 20, partner_perm: 30, creator_liq: 20, creator_perm: 30,
        threshold: 50_000_000_000, start_sqrt: 583337266871351588,
        migration_fee_option: 2, creator_fee_pct: 30, token_update_authority: 1, mig_fee_pct: 3, creator_mig_fee_pct: 50,
        creation_fee: 1_000_000_0,
        v_amount: if vest {100_000} else {0}, v_cliff_dur: 10, v_freq: if vest {5} else {0}, v_periods: if vest {10} else {0}, v_cliff_amount: if vest {7} else {0},
        curve: vec![(583337266871351588*3, 1u128<<100), (MAX_SQRT, 1u128<<98)],
        ..Default::default()
    }
}
pub fn smoke() {
    for (opt, t22, vest) in [(0u8,false,false),(1,false,true),(1,true,false)] {
        let mut s = S { db: genesis(), slot: S0, ts: T0 };
        let q = quotes()[0];
        let mut p = params(opt, t22, vest);
        if !vest { p.v_cliff_dur = 0 }
        let cfg = key("cfg0");
        let (p0,c0,t0,k) = (key("p0"), key("c0"), key("t0"), key("keeper"));
        s.run("create_config", vec![create_config(cfg, p0, key("rcv0"), q.mint, p0, &p)]);
        println!("{:?}", config(&s.db,&cfg).map(|c| (c.threshold, c.base_threshold, c.swap_base_amount, c.mig_sqrt)));
        let m = crate::model::create_config(&p, &crate::model::QuoteFacts{is_token:true,supported:true}, false, s.ts as u64);
        match m { Ok(mut m) => { m.quote_mint=q.mint; m.fee_claimer=p0; m.leftover_receiver=key("rcv0"); let c=config(&s.db,&cfg).unwrap(); if m!=c { println!("MODEL DIFF {:#?} {:#?}", m, c) } } Err(e) => println!("model err {}", e) }
        let base = key("base0");
        s.run("init", vec![init_pool(t22, cfg, c0, base, q.mint, q.tp, k, "Nm","SY","http://x")]);
        let pk = pool_addr(&cfg,&base,&q.mint);
        let btp = if t22 {TOKEN22} else {TOKEN};
        let pr = PoolRef{pool:pk,config:cfg,base,quote:q.mint,base_tp:btp,quote_tp:q.tp,base_vault:vault_addr(&base,&pk),quote_vault:vault_addr(&q.mint,&pk),fee_claimer:p0,leftover:key("rcv0")};
        let uq = ata(&t0,&q.mint,&q.tp); let ub = ata(&t0,&base,&btp);
        s.run("ata", vec![create_ata(t0,t0,base,btp)]);
        s.run("swap", vec![swap(&pr,t0,uq,ub,None,1_000_000_000,0,None,false)]);
        s.run("sell", vec![swap(&pr,t0,ub,uq,Some(0),100_000,0,None,false)]);
        s.run("out", vec![swap(&pr,t0,uq,ub,Some(2),100_000,u64::MAX>>8,Some(ata(&key("r0"),&q.mint,&q.tp)),true)]);
        s.run("fill", vec![swap(&pr,t0,uq,ub,Some(1),100_000_000_000,0,None,false)]);
        println!("{:?}", pool(&s.db,&pk));
        s.run("op", vec![create_operator(ADMINS[0],ADMINS[0],key("o0"),3)]);
        for (n,w) in [("p0",p0),("c0",c0),("t",TREASURY),("rcv",key("rcv0"))] { s.run(n, vec![create_ata(k,w,base,btp)]); }
        let a = |w: &Pubkey, m: &Pubkey| if *m==base { ata(w,m,&btp) } else { ata(w,m,&q.tp) };
        s.run("claim", vec![claim_trading_fee(&pr,p0,a(&p0,&base),a(&p0,&q.mint),u64::MAX,u64::MAX)]);
        s.run("cclaim", vec![claim_creator_trading_fee(&pr,c0,a(&c0,&base),a(&c0,&q.mint),u64::MAX,u64::MAX)]);
        s.run("pclaim", vec![claim_protocol_fee(&pr,operator_addr(&key("o0")),key("o0"),a(&TREASURY,&base),a(&TREASURY,&q.mint),u64::MAX,u64::MAX)]);
        s.run("psurplus", vec![surplus(&pr,true,p0,a(&p0,&q.mint))]);
        s.run("csurplus", vec![surplus(&pr,false,c0,a(&c0,&q.mint))]);
        s.run("pmf", vec![withdraw_migration_fee(&pr,0,p0,a(&p0,&q.mint))]);
        s.run("cmf", vec![withdraw_migration_fee(&pr,1,c0,a(&c0,&q.mint))]);
        s.run("pcf", vec![claim_partner_creation_fee(&pr,p0,p0)]);
        s.run("prcf", vec![claim_protocol_creation_fee(&pr,operator_addr(&key("o0")),key("o0"),TREASURY)]);
        s.run("meta", vec![create_pool_metadata(&pr,c0,k,"a","b","c")]);
        s.run("pmeta", vec![create_partner_metadata(p0,k,"a","b","c")]);
        if vest {
            let esc = escrow_addr(&base_locker(&pk));
            s.run("escata", vec![create_ata(k,esc,base,btp)]);
            s.run("locker", vec![create_locker(&pr,c0,k)]);
        }
        if opt == 0 {
            let dc = key("d1cfg:100");
            s.run("d1meta", vec![d1_create_metadata(&pr,k)]);
            s.run("d1mig", vec![d1_migrate(&pr,dc,k)]);
            let d = d1_addrs(&pr,&dc);
            for (o,n) in [(p0,"p"),(c0,"c")] {
                s.run("esc", vec![d1_create_lock_escrow(&d,o,k)]);
                let le = d1_lock_escrow(&d.pool,&o);
                s.run("escv", vec![create_ata(k,le,d.lp_mint,TOKEN)]);
                s.run(&format!("lock{}",n), vec![d1_lock(&pr,dc,o)]);
                s.run("ata", vec![create_ata(k,o,d.lp_mint,TOKEN)]);
                s.run(&format!("claim{}",n), vec![d1_claim(&pr,dc,o,o)]);
            }
            println!("{:?}", d1meta(&s.db,&damm1_metadata(&pk)));
        } else {
            let dc = key("d2cfg:100");
            s.run("d2mig", vec![d2_migrate(&pr,dc,k,true)]);
            let d = d2_addrs(&pr,&dc);
            for x in [d.pos1,d.pos2] { if let Some(v)=s.db.get(&x).and_then(|a| crate::progs::d2_pos_view(a)) { println!("pos {} {} {}", v.unlocked,v.vested,v.permanent) } }
        }
        s.run("xfer", vec![transfer_creator(&pr,c0,key("c1"),opt==0)]);
        s.run("leftover", vec![withdraw_leftover(&pr,key("rcv0"),a(&key("rcv0"),&base))]);
        s.run("zap", vec![zap(&pr,true,a(&key("o0"),&base),operator_addr(&key("o0")),key("o0"),u64::MAX)]);
        println!("{:?}", pool(&s.db,&pk));
    }
}
