//! The on-chain program's own codecs and helpers behind the same C ABI as the client harness:
//! the reference the client is compared with.
use borsh::BorshDeserialize;
use xorca_staking_program as prog;

struct W {
    p: *mut u8,
}
impl W {
    unsafe fn put(&mut self, b: &[u8]) {
        core::ptr::copy_nonoverlapping(b.as_ptr(), self.p, b.len());
        self.p = self.p.add(b.len());
    }
    unsafe fn u64(&mut self, v: u64) {
        self.put(&v.to_le_bytes())
    }
    unsafe fn u8(&mut self, v: u8) {
        self.put(&[v])
    }
}
unsafe fn r64(p: *const u8, o: usize) -> u64 {
    (p.add(o) as *const u64).read_unaligned()
}
unsafe fn rkey(p: *const u8, o: usize) -> [u8; 32] {
    (p.add(o) as *const [u8; 32]).read_unaligned()
}

struct Sink {
    p: *mut u8,
    n: usize,
}
impl core::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        unsafe { core::ptr::copy_nonoverlapping(s.as_ptr(), self.p.add(self.n), s.len()) };
        self.n += s.len();
        Ok(())
    }
}
macro_rules! errors {
    ($($v:ident),* $(,)?) => {
        fn prog_error(i: u64) -> Option<prog::error::ErrorCode> {
            let mut k = 0;
            $( if i == k { return Some(prog::error::ErrorCode::$v); } k += 1; )*
            let _ = k;
            None
        }
    };
}
errors!(
    UnknownInstructionDiscriminator,
    IncorrectProgramId,
    InvalidAccountRole,
    NotEnoughAccountKeys,
    IncorrectOwner,
    InvalidSeeds,
    IncorrectAccountAddress,
    InvalidAccountData,
    ArithmeticError,
    InsufficientFunds,
    StateAccountAlreadyInitialized,
    CoolDownPeriodStillActive,
    EmitEventError,
    InvalidCoolDownPeriod,
    InsufficientStakeAmount,
    InsufficientUnstakeAmount,
    InsufficientEscrow,
    CoolDownOverflow,
    InsufficientVaultBacking,
    UnauthorizedDeployerAccess,
);
#[no_mangle]
pub unsafe extern "C" fn conv_prog(i: *const u8, which: u64, o: *mut u8) -> u64 {
    use prog::util::math::*;
    let (a, n, s) = (r64(i, 0), r64(i, 8), r64(i, 16));
    let r = if which == 0 { convert_orca_to_xorca(a, n, s) } else { convert_xorca_to_orca(a, n, s) };
    match r {
        Ok(v) => {
            W { p: o }.u64(v);
            0
        }
        Err(e) => e.into(),
    }
}


/// how the program itself reads the account (its repr(C) view), in the same order of fields
#[no_mangle]
pub unsafe extern "C" fn state_prog(i: *const u8, _len: u64, o: *mut u8) -> u64 {
    use prog::state::ProgramAccount;
    let d = &*(i as *const prog::state::state::State);
    let mut w = W { p: o };
    w.u8(d.discriminator as u8);
    w.put(&d.padding1);
    w.u8(d.bump);
    w.u8(d.vault_bump);
    w.u64(d.escrowed_orca_amount);
    w.u64(d.cool_down_period_s as u64);
    w.put(&d.update_authority);
    w.put(&d.padding2);
    w.u64(prog::state::state::State::LEN as u64);
    w.u64(prog::state::state::State::DISCRIMINATOR as u64);
    0
}
#[no_mangle]
pub unsafe extern "C" fn pending_prog(i: *const u8, _len: u64, o: *mut u8) -> u64 {
    use prog::state::ProgramAccount;
    let d = &*(i as *const prog::state::pending_withdraw::PendingWithdraw);
    let mut w = W { p: o };
    w.u8(d.discriminator as u8);
    w.put(&d.padding1);
    w.u8(d.bump);
    w.u8(d.withdraw_index);
    w.put(&d.unstaker);
    w.u64(d.withdrawable_orca_amount);
    w.u64(d.withdrawable_timestamp as u64);
    w.put(&d.padding2);
    w.u64(prog::state::pending_withdraw::PendingWithdraw::LEN as u64);
    w.u64(prog::state::pending_withdraw::PendingWithdraw::DISCRIMINATOR as u64);
    0
}

/// the program emits an event (sol_log_data); which = variant
#[no_mangle]
pub unsafe extern "C" fn event_emit(i: *const u8, which: u64, _o: *mut u8) -> u64 {
    use prog::event::Event as E;
    let f = |k: usize| r64(i, 8 * k);
    let (a, b, c, d, e, s) = (f(0), f(1), f(2), f(3), f(4), f(5) as i64);
    let x = *i.add(48);
    let (k1, k2) = (rkey(i, 56), rkey(i, 88));
    let ev = match which {
        0 => E::Stake {
            orca_stake_amount: &a,
            vault_orca_amount: &b,
            vault_escrowed_orca_amount: &c,
            xorca_mint_supply: &d,
            xorca_to_mint: &e,
        },
        1 => E::Unstake {
            xorca_unstake_amount: &a,
            vault_orca_amount: &b,
            vault_escrowed_orca_amount: &c,
            xorca_mint_supply: &d,
            withdrawable_orca_amount: &e,
            cool_down_period_s: &s,
            withdraw_index: &x,
        },
        2 => E::Withdraw {
            vault_escrowed_orca_amount: &c,
            withdrawable_orca_amount: &e,
            cool_down_period_s: &s,
            withdraw_index: &x,
        },
        _ => E::UpdateAuthoritySet { new_authority: &k1, set_by: &k2 },
    };
    match ev.emit() {
        Ok(()) => 0,
        Err(e) => e.into(),
    }
}

// ------------------------------------------------------------------ instruction data as the program parses it
/// output: tag, then the arguments
#[no_mangle]
pub unsafe extern "C" fn ix_parse(i: *const u8, len: u64, o: *mut u8) -> u64 {
    use prog::instructions::{Instruction as I, StateUpdateInstruction as U};
    let b = core::slice::from_raw_parts(i, len as usize);
    let mut w = W { p: o };
    match I::try_from_slice(b) {
        Ok(I::Stake { orca_stake_amount }) => {
            w.u64(0);
            w.u64(orca_stake_amount);
        }
        Ok(I::Unstake { xorca_unstake_amount, withdraw_index }) => {
            w.u64(1);
            w.u64(xorca_unstake_amount);
            w.u8(withdraw_index);
        }
        Ok(I::Withdraw { withdraw_index }) => {
            w.u64(2);
            w.u8(withdraw_index);
        }
        Ok(I::Initialize { cool_down_period_s }) => {
            w.u64(3);
            w.u64(cool_down_period_s as u64);
        }
        Ok(I::Set { instruction_data: U::UpdateCoolDownPeriod { new_cool_down_period_s } }) => {
            w.u64(4);
            w.u64(0);
            w.u64(new_cool_down_period_s as u64);
        }
        Ok(I::Set { instruction_data: U::UpdateUpdateAuthority { new_authority } }) => {
            w.u64(4);
            w.u64(1);
            w.put(&new_authority);
        }
        Err(_) => return 1,
    }
    0
}


#[no_mangle]
pub unsafe extern "C" fn pda_prog(i: *const u8, which: u64, o: *mut u8) -> u64 {
    let (k, b) = match which {
        0 => prog::pda::find_state_address(),
        1 => prog::pda::find_vault_address(
            &rkey(i, 0),
            &rkey(i, 32),
            &rkey(i, 64),
        ),
        _ => prog::pda::find_pending_withdraw_address(&rkey(i, 0), &[*i.add(32)]),
    };
    let mut w = W { p: o };
    w.put(&k);
    w.u8(b);
    0
}

#[no_mangle]
pub unsafe extern "C" fn err_prog(i: *const u8, _n: u64, o: *mut u8) -> u64 {
    use core::fmt::Write;
    match prog_error(r64(i, 0)) {
        None => 1,
        Some(e) => {
            let mut s = Sink { p: o.add(24), n: 0 };
            let _ = write!(s, "{}", e);
            let mut w = W { p: o };
            w.u64(r64(i, 0));
            w.u64(match pinocchio::program_error::ProgramError::from(e) {
                pinocchio::program_error::ProgramError::Custom(c) => c as u64,
                _ => u64::MAX,
            });
            w.u64(s.n as u64);
            0
        }
    }
}


#[no_mangle]
pub unsafe extern "C" fn id_prog(_i: *const u8, _n: u64, o: *mut u8) -> u64 {
    W { p: o }.put(&prog::ID);
    0
}
