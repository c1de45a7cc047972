// Offsets inside LiquidityVestingInfo: pct, bps_per_period, periods, cliff, frequency
const LPV: (usize, usize, usize, usize, usize) = (1, 4, 6, 12, 8);

impl Config {
    pub fn parse(d: &[u8]) -> Option<Config> {
        if d.len() < 1048 || d[..8] != disc("account", "PoolConfig") {
            return None;
        }
        let d = &d[8..];
        let mut fee_bytes = [0u8; 16];
        fee_bytes.copy_from_slice(&d[368..384]);
        Some(Config {
            quote_mint: key_at(d, 0),
            fee_claimer: key_at(d, 32),
            leftover_receiver: key_at(d, 64),
            cliff_fee: u64_at(d, 96),
            fee_second: u64_at(d, 104),
            fee_third: u64_at(d, 112),
            fee_first: u16_at(d, 120),
            fee_mode: d[122],
            dyn_init: d[128],
            dyn_max_vol: u32_at(d, 136),
            dyn_vfc: u32_at(d, 140),
            dyn_bin_step: u16_at(d, 144),
            dyn_filter: u16_at(d, 146),
            dyn_decay: u16_at(d, 148),
            dyn_reduction: u16_at(d, 150),
            dyn_bin_step_u128: u128_at(d, 160),
            partner_vest: lpvest(d, 176),
            creator_vest: lpvest(d, 192),
            collect_fee_mode: d[224],
            migration_option: d[225],
            activation_type: d[226],
            token_decimal: d[227],
            version: d[228],
            token_type: d[229],
            quote_token_flag: d[230],
            partner_perm: d[231],
            partner_liq: d[232],
            creator_perm: d[233],
            creator_liq: d[234],
            migration_fee_option: d[235],
            fixed_supply: d[236],
            creator_fee_pct: d[237],
            token_update_authority: d[238],
            mig_fee_pct: d[239],
            creator_mig_fee_pct: d[240],
            swap_base_amount: u64_at(d, 248),
            threshold: u64_at(d, 256),
            base_threshold: u64_at(d, 264),
            mig_sqrt: u128_at(d, 272),
            v_amount: u64_at(d, 288),
            v_cliff_dur: u64_at(d, 296),
            v_freq: u64_at(d, 304),
            v_periods: u64_at(d, 312),
            v_cliff_amount: u64_at(d, 320),
            pre_supply: u64_at(d, 336),
            post_supply: u64_at(d, 344),
            m_collect: d[352],
            m_dynamic: d[353],
            m_bps: u16_at(d, 354),
            m_base_mode: d[356],
            first_swap_min: d[357],
            compounding_bps: u16_at(d, 358),
            creation_fee: u64_at(d, 360),
            m_fee_bytes: fee_bytes,
            start_sqrt: u128_at(d, 384),
            curve: (0..20)
                .map(|i| (u128_at(d, 400 + i * 32), u128_at(d, 416 + i * 32)))
                .take_while(|(_, l)| *l != 0)
                .collect(),
        })
    }
}
