//! Stand-in for `protocol-zap` of MeteoraAg/zap-program (not fetchable offline).
//!
//! The call that matters, `validate_zap_out_to_treasury`, is a seam: the simulator installs a
//! thread-local verdict, so it decides (from its seed) whether the zap validation passes, and
//! records every argument it was called with.
pub mod error {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum ProtozolZapError {
        MathOverflow,
        InvalidZapOutParameters,
        TypeCastFailed,
        MissingZapOutInstruction,
        InvalidWithdrawProtocolFeeZapAccounts,
        MintRestrictedFromZap,
        CpiDisabled,
        InvalidZapAccounts,
    }
}

pub mod constants {
    /// So11111111111111111111111111111111111111112
    pub const SOL: [u8; 32] = [
        6, 155, 136, 87, 254, 171, 129, 132, 251, 104, 127, 99, 70, 24, 192, 53, 218, 196, 57, 220,
        26, 235, 59, 85, 152, 160, 240, 0, 0, 0, 0, 1,
    ];
    /// EPjFWdd5AufqSSqeM2qN1xzybapC8G4wEGGkZwyTDt1v
    pub const USDC: [u8; 32] = [
        198, 250, 122, 243, 190, 219, 173, 58, 61, 101, 243, 106, 171, 201, 116, 49, 177, 187, 228,
        194, 210, 246, 224, 228, 124, 166, 2, 3, 69, 47, 93, 97,
    ];
    pub const MINTS_DISALLOWED_TO_ZAP_OUT: [[u8; 32]; 2] = [SOL, USDC];
}

pub mod utils {
    use crate::error::ProtozolZapError;
    use std::cell::{Cell, RefCell};

    #[derive(Debug, Clone, Default)]
    pub struct ZapCall {
        pub amount: u64,
        pub program: [u8; 32],
        pub receiver: [u8; 32],
        pub receiver_data_len: usize,
        pub sysvar_len: usize,
        pub treasury: [u8; 32],
        pub paired_destination: [u8; 32],
    }

    thread_local! {
        static VERDICT: Cell<Option<ProtozolZapError>> = const { Cell::new(None) };
        static CALLS: RefCell<Vec<ZapCall>> = const { RefCell::new(Vec::new()) };
    }

    pub fn sim_set_verdict(v: Option<ProtozolZapError>) {
        VERDICT.with(|c| c.set(v));
    }
    pub fn sim_take_calls() -> Vec<ZapCall> {
        CALLS.with(|c| std::mem::take(&mut *c.borrow_mut()))
    }

    #[allow(clippy::too_many_arguments)]
    pub fn validate_zap_out_to_treasury(
        amount: u64,
        program_id: &[u8; 32],
        receiver: &[u8; 32],
        receiver_data: &[u8],
        sysvar_instructions_data: &[u8],
        treasury: &[u8; 32],
        paired_destination: &[u8; 32],
    ) -> Result<(), ProtozolZapError> {
        CALLS.with(|c| {
            c.borrow_mut().push(ZapCall {
                amount,
                program: *program_id,
                receiver: *receiver,
                receiver_data_len: receiver_data.len(),
                sysvar_len: sysvar_instructions_data.len(),
                treasury: *treasury,
                paired_destination: *paired_destination,
            })
        });
        match VERDICT.with(|c| c.get()) {
            None => Ok(()),
            Some(e) => Err(e),
        }
    }
}
