//! Stand-in for the git dependency that is not available offline: signatures only.
//! A proof treats these functions as unknown; nothing is assumed about what they return.
pub mod constants {
    pub const MINTS_DISALLOWED_TO_ZAP_OUT: [[u8; 32]; 2] = [[0; 32]; 2];
}
pub mod error {
    pub enum ProtozolZapError {
        MathOverflow,
        InvalidZapOutParameters,
        TypeCastFailed,
        MissingZapOutInstruction,
        InvalidWithdrawProtocolFeeZapAccounts,
        MintRestrictedFromZap,
        CpiDisabled,
        InvalidZapAccounts,
    }
}
pub mod utils {
    use super::error::ProtozolZapError;
    #[allow(clippy::too_many_arguments)]
    pub fn validate_zap_out_to_treasury(
        _amount: u64,
        _program: &[u8; 32],
        _receiver: &[u8; 32],
        _receiver_data: &[u8],
        _sysvar_data: &[u8],
        _treasury: &[u8; 32],
        _paired: &[u8; 32],
    ) -> Result<(), ProtozolZapError> {
        unimplemented!()
    }
}
