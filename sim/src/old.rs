//! Clients built against earlier releases: instruction data and account lists as their published
//! IDLs (/repo/scripts/idl) lay them out.

use crate::abi::*;
use crate::rt::Db;
use crate::sim::*;
use solana_program::instruction::Instruction;

pub const RELEASES: [&str; 5] = ["current", "0.1.2", "0.1.3", "0.1.4", "0.1.6"];

/// account privileges published in the IDLs of releases 0.1.2 to 0.1.6, in account order
const IDL: &[(&str, &str)] = &[
    ("claim_creator_trading_fee", "- w w w w w - - s - - - -"),
    ("claim_trading_fee", "- - w w w w w - - s - - - -"),
    ("create_config", "ws - - - ws - - -"),
    ("create_locker", "w - w w w w - w w ws - - - -"),
    ("create_partner_metadata", "w ws s - - -"),
    ("create_virtual_pool_metadata", "w w s ws - - -"),
    ("creator_withdraw_surplus", "- - w w w - s - - -"),
    ("initialize_virtual_pool_with_spl_token", "- - s ws - w w w w - ws - - - - -"),
    ("initialize_virtual_pool_with_token2022", "- - s ws - w w w ws - - - - -"),
    ("migrate_meteora_damm", "w w - w w - w w - w w w w w w w w w w w w w ws - w - - - - - -"),
    ("migrate_meteora_damm_claim_lp_token", "- w w - w w - s -"),
    ("migrate_meteora_damm_lock_lp_token", "- w w w - w - w w - - - - - - - -"),
    ("migration_damm_v2", "w - - w w w w w w w w - - w w w w w w ws - - - - -"),
    ("migration_damm_v2_create_metadata", "- - - - - - -"),
    ("migration_meteora_damm_create_metadata", "- - w ws - - -"),
    ("partner_withdraw_surplus", "- - w w w - s - - -"),
    ("swap", "- - w w w w w - - s - - w - -"),
    ("swap2", "- - w w w w w - - s - - w - -"),
    ("transfer_pool_creator", "w - s - - -"),
    ("withdraw_leftover", "- - w w w - - - - -"),
    ("withdraw_migration_fee", "- - w w w - s - - -"),
];

/// `ix` as a client of release `v` would send it; `None` if that release cannot say it.
pub fn old_client(db: &Db, ix: &Instruction, v: u8) -> Option<Instruction> {
    if ix.program_id != DBC || v == 0 {
        return None;
    }
    let mut name = dbc_name(&ix.data)?;
    let mut o = ix.clone();
    if name == "swap2" && v < 4 {
        if ix.data.get(24) != Some(&MODE_IN) {
            return None;
        }
        name = "swap";
        o.data = [&disc("global", name)[..], &ix.data[8..24]].concat();
    }
    let flags: Vec<&str> = IDL.iter().find(|x| x.0 == name)?.1.split(' ').collect();
    match name {
        "create_config" => {
            let c = ConfigParams::decode(&ix.data[8..])?;
            if !sayable(&c, v) {
                return None;
            }
            o.data.truncate(8);
            o.data.extend(encode(&c, v));
        }
        "migration_damm_v2" if v < 4 || db.len() % 2 == 0 => {
            // a real account in the slot of the retired migration metadata
            let k = solana_program::pubkey::Pubkey::find_program_address(&[b"damm_v2", ix.accounts.first()?.pubkey.as_ref()], &DBC).0;
            if o.accounts.get(1)?.pubkey == SYSTEM {
                o.accounts[1].pubkey = k;
            }
        }
        // no remaining accounts before the rate limiter
        "swap" | "swap2" if o.accounts.len() == 16 => {
            let limited = config(db, &o.accounts[1].pubkey).map(|c| c.fee_mode == 2).unwrap_or(false);
            if !limited {
                o.accounts.truncate(15);
            }
        }
        _ => {}
    }
    if o.accounts.len() < flags.len() {
        return None;
    }
    for (i, m) in o.accounts.iter_mut().enumerate() {
        let Some(f) = flags.get(i) else { break };
        let retired = name == "migration_damm_v2_create_metadata" && v < 4;
        let f = if retired { ["-", "-", "w", "ws", "-", "-", "-"][i] } else { f };
        m.is_writable &= f.contains('w');
        // position NFT mints sign although the IDLs do not say so
        m.is_signer &= f.contains('s') || (name == "migration_damm_v2" && (i == 5 || i == 8));
    }
    Some(o)
}

/// Can release `v` express this configuration?
pub fn sayable(c: &ConfigParams, v: u8) -> bool {
    let none = LpVest::default();
    let base = c.creation_fee == 0
        && c.partner_vest == none
        && c.creator_vest == none
        && c.m_base_mode == 0
        && (c.mc_periods, c.mc_step, c.mc_expiry, c.mc_reduction) == (0, 0, 0, 0)
        && !c.first_swap_min
        && c.compounding_bps == 0
        && c.padding == [0, 0];
    let migrated = (c.m_collect, c.m_dynamic, c.m_bps) == (0, 0, 0) && c.migration_fee_option < 6;
    base && (v >= 4 || migrated) && (v >= 2 || c.fee_mode < 2)
}

/// Make `c` expressible in release `v`.
pub fn downgrade(c: &mut ConfigParams, v: u8) {
    c.creation_fee = 0;
    for (perm, vest, liq) in [
        (&mut c.partner_perm, &mut c.partner_vest, &mut c.partner_liq),
        (&mut c.creator_perm, &mut c.creator_vest, &mut c.creator_liq),
    ] {
        *perm += vest.pct.min(10);
        *liq += vest.pct.saturating_sub(10);
        *vest = LpVest::default();
    }
    c.m_base_mode = 0;
    (c.mc_periods, c.mc_step, c.mc_expiry, c.mc_reduction) = (0, 0, 0, 0);
    c.first_swap_min = false;
    c.compounding_bps = 0;
    c.padding = [0, 0];
    if c.m_collect == 2 {
        c.m_collect = 0;
    }
    if v < 4 {
        (c.m_collect, c.m_dynamic, c.m_bps) = (0, 0, 0);
        if c.migration_fee_option == 6 {
            c.migration_fee_option = 2;
        }
    }
}

/// `ConfigParameters` of release `v`, field by field from its IDL.
fn encode(c: &ConfigParams, v: u8) -> Vec<u8> {
    let mut o: Vec<u8> = vec![];
    // pool_fees.base_fee: cliff_fee_numerator, number_of_period / first_factor, ...
    o.extend(c.cliff_fee.to_le_bytes());
    o.extend(c.fee_first.to_le_bytes());
    o.extend(c.fee_second.to_le_bytes());
    o.extend(c.fee_third.to_le_bytes());
    o.push(c.fee_mode);
    match &c.dynamic {
        None => o.push(0),
        Some(d) => {
            o.push(1);
            o.extend(d.bin_step.to_le_bytes());
            o.extend(d.bin_step_u128.to_le_bytes());
            o.extend(d.filter.to_le_bytes());
            o.extend(d.decay.to_le_bytes());
            o.extend(d.reduction.to_le_bytes());
            o.extend(d.max_vol.to_le_bytes());
            o.extend(d.vfc.to_le_bytes());
        }
    }
    o.extend([c.collect_fee_mode, c.migration_option, c.activation_type, c.token_type, c.token_decimal]);
    // partner_lp, partner_locked_lp, creator_lp, creator_locked_lp
    o.extend([c.partner_liq, c.partner_perm, c.creator_liq, c.creator_perm]);
    o.extend(c.threshold.to_le_bytes());
    o.extend(c.start_sqrt.to_le_bytes());
    for x in [c.v_amount, c.v_cliff_dur, c.v_freq, c.v_periods, c.v_cliff_amount] {
        o.extend(x.to_le_bytes());
    }
    o.push(c.migration_fee_option);
    match c.supply {
        None => o.push(0),
        Some((a, b)) => {
            o.push(1);
            o.extend(a.to_le_bytes());
            o.extend(b.to_le_bytes());
        }
    }
    o.extend([c.creator_fee_pct, c.token_update_authority, c.mig_fee_pct, c.creator_mig_fee_pct]);
    if v < 4 {
        o.extend([0u8; 4]); // padding_0
    } else {
        o.extend([c.m_collect, c.m_dynamic]); // migrated_pool_fee
        o.extend(c.m_bps.to_le_bytes());
    }
    o.extend([0u8; 56]); // seven padding words
    o.extend((c.curve.len() as u32).to_le_bytes());
    for (p, l) in &c.curve {
        o.extend(p.to_le_bytes());
        o.extend(l.to_le_bytes());
    }
    o
}
