//! Entry point of the symbolic-execution harness: the real program's
//! `process_instruction`, called through a C ABI.
use pinocchio::{account_info::AccountInfo, program_error::ProgramError, pubkey::Pubkey};

#[no_mangle]
pub unsafe extern "C" fn verif_process(
    program_id: *const Pubkey,
    accounts: *const AccountInfo,
    n_accounts: usize,
    data: *const u8,
    data_len: usize,
) -> u64 {
    let accounts = core::slice::from_raw_parts(accounts, n_accounts);
    let data = core::slice::from_raw_parts(data, data_len);
    match xorca_staking_program::entrypoint::process_instruction(&*program_id, accounts, data) {
        Ok(()) => 0,
        Err(e) => {
            let e: ProgramError = e;
            e.into()
        }
    }
}
