//! Entry points of the symbolic-execution harness for the Rust client: every function is
//! `(input bytes, parameter, output bytes) -> code`, calling the real client (or, for comparison,
//! the real program's own types).
#![allow(static_mut_refs)]
mod ix;
use borsh::BorshDeserialize;
use solana_account_info::AccountInfo;
use solana_pubkey::Pubkey;
use std::cell::RefCell;
use std::rc::Rc;

pub struct W {
    p: *mut u8,
}
impl W {
    pub unsafe fn put(&mut self, b: &[u8]) {
        core::ptr::copy_nonoverlapping(b.as_ptr(), self.p, b.len());
        self.p = self.p.add(b.len());
    }
    pub unsafe fn u64(&mut self, v: u64) {
        self.put(&v.to_le_bytes())
    }
    pub unsafe fn u8(&mut self, v: u8) {
        self.put(&[v])
    }
}
pub unsafe fn r64(p: *const u8, o: usize) -> u64 {
    (p.add(o) as *const u64).read_unaligned()
}
pub unsafe fn rkey(p: *const u8, o: usize) -> Pubkey {
    Pubkey::new_from_array((p.add(o) as *const [u8; 32]).read_unaligned())
}

// ------------------------------------------------------------------ conversions
fn conv_err(e: xorca::ConversionError) -> u64 {
    match e {
        xorca::ConversionError::Arithmetic => 1,
        xorca::ConversionError::ZeroSupplyOrNonEscrowed => 2,
    }
}
#[no_mangle]
pub unsafe extern "C" fn conv_client(i: *const u8, which: u64, o: *mut u8) -> u64 {
    let (a, n, s) = (r64(i, 0), r64(i, 8), r64(i, 16));
    let r = if which == 0 { xorca::convert_orca_to_xorca(a, n, s) } else { xorca::convert_xorca_to_orca(a, n, s) };
    match r {
        Ok(v) => {
            W { p: o }.u64(v);
            0
        }
        Err(e) => conv_err(e),
    }
}
// ------------------------------------------------------------------ account codecs
unsafe fn w_state(d: &xorca::State, o: *mut u8) {
    let mut w = W { p: o };
    w.u8(d.discriminator as u8);
    w.put(&d.padding1);
    w.u8(d.bump);
    w.u8(d.vault_bump);
    w.u64(d.escrowed_orca_amount);
    w.u64(d.cool_down_period_s as u64);
    w.put(d.update_authority.as_ref());
    w.put(&d.padding2);
    let e = borsh::to_vec(d).unwrap();
    w.u64(e.len() as u64);
    w.put(&e);
}
unsafe fn w_pending(d: &xorca::PendingWithdraw, o: *mut u8) {
    let mut w = W { p: o };
    w.u8(d.discriminator as u8);
    w.put(&d.padding1);
    w.u8(d.bump);
    w.u8(d.withdraw_index);
    w.put(d.unstaker.as_ref());
    w.u64(d.withdrawable_orca_amount);
    w.u64(d.withdrawable_timestamp as u64);
    w.put(&d.padding2);
    let e = borsh::to_vec(d).unwrap();
    w.u64(e.len() as u64);
    w.put(&e);
}
/// `len` = number of data bytes; which: 0 from_bytes, 1 TryFrom<&AccountInfo>
unsafe fn with_info<R>(data: &mut [u8], f: impl FnOnce(&AccountInfo) -> R) -> R {
    let key = Pubkey::new_from_array([7; 32]);
    let owner = Pubkey::new_from_array([8; 32]);
    let mut lam = 5u64;
    let ai = AccountInfo {
        key: &key,
        lamports: Rc::new(RefCell::new(&mut lam)),
        data: Rc::new(RefCell::new(data)),
        owner: &owner,
        rent_epoch: 0,
        is_signer: false,
        is_writable: false,
        executable: false,
    };
    f(&ai)
}
macro_rules! codec {
    ($bytes:ident, $info:ident, $t:ty, $w:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $bytes(i: *const u8, len: u64, o: *mut u8) -> u64 {
            match <$t>::from_bytes(core::slice::from_raw_parts(i, len as usize)) {
                Ok(d) => {
                    $w(&d, o);
                    0
                }
                Err(_) => 1,
            }
        }
        #[no_mangle]
        pub unsafe extern "C" fn $info(i: *mut u8, len: u64, o: *mut u8) -> u64 {
            with_info(core::slice::from_raw_parts_mut(i, len as usize), |a| match <$t>::try_from(a) {
                Ok(d) => {
                    $w(&d, o);
                    0
                }
                Err(_) => 1,
            })
        }
    };
}
codec!(state_bytes, state_info, xorca::State, w_state);
codec!(pending_bytes, pending_info, xorca::PendingWithdraw, w_pending);

#[no_mangle]
pub unsafe extern "C" fn token_account(i: *const u8, len: u64, o: *mut u8) -> u64 {
    let b = core::slice::from_raw_parts(i, len as usize);
    match xorca::TokenAccount::try_from_slice(b) {
        Ok(d) => {
            let mut w = W { p: o };
            w.put(d.mint.as_ref());
            w.put(d.owner.as_ref());
            w.u64(d.amount);
            w.put(&d.delegate_flag.to_le_bytes());
            w.put(d.delegate.as_ref());
            w.u8(d.state as u8);
            w.put(&d.is_native_flag.to_le_bytes());
            w.u64(d.native_amount);
            w.u64(d.delegate_amount);
            w.put(&d.close_authority_flag.to_le_bytes());
            w.put(d.close_authority.as_ref());
            let e = borsh::to_vec(&d).unwrap();
            w.u64(e.len() as u64);
            w.put(&e);
            0
        }
        Err(_) => 1,
    }
}
#[no_mangle]
pub unsafe extern "C" fn token_mint(i: *const u8, len: u64, o: *mut u8) -> u64 {
    let b = core::slice::from_raw_parts(i, len as usize);
    match xorca::TokenMint::try_from_slice(b) {
        Ok(d) => {
            let mut w = W { p: o };
            w.put(&d.mint_authority_flag.to_le_bytes());
            w.put(d.mint_authority.as_ref());
            w.u64(d.supply);
            w.u8(d.decimals);
            w.u8(d.is_initialized as u8);
            w.put(&d.freeze_authority_flag.to_le_bytes());
            w.put(d.freeze_authority.as_ref());
            let e = borsh::to_vec(&d).unwrap();
            w.u64(e.len() as u64);
            w.put(&e);
            0
        }
        Err(_) => 1,
    }
}

// ------------------------------------------------------------------ events
/// the client decodes log bytes; output in the input layout of event_emit
#[no_mangle]
pub unsafe extern "C" fn event_decode(i: *const u8, len: u64, o: *mut u8) -> u64 {
    let b = core::slice::from_raw_parts(i, len as usize);
    let ev = match xorca::Event::try_from_slice(b) {
        Ok(e) => e,
        Err(_) => return 1,
    };
    let e2 = borsh::to_vec(&ev).unwrap();
    let mut w = W { p: o };
    w.u64(e2.len() as u64);
    w.put(&e2);
    let mut w = W { p: o.add(256) };
    match ev {
        xorca::Event::Stake {
            orca_stake_amount,
            vault_orca_amount,
            vault_escrowed_orca_amount,
            xorca_mint_supply,
            xorca_to_mint,
        } => {
            w.u64(0);
            w.u64(orca_stake_amount);
            w.u64(vault_orca_amount);
            w.u64(vault_escrowed_orca_amount);
            w.u64(xorca_mint_supply);
            w.u64(xorca_to_mint);
        }
        xorca::Event::Unstake {
            xorca_unstake_amount,
            vault_orca_amount,
            vault_escrowed_orca_amount,
            xorca_mint_supply,
            withdrawable_orca_amount,
            cool_down_period_s,
            withdraw_index,
        } => {
            w.u64(1);
            w.u64(xorca_unstake_amount);
            w.u64(vault_orca_amount);
            w.u64(vault_escrowed_orca_amount);
            w.u64(xorca_mint_supply);
            w.u64(withdrawable_orca_amount);
            w.u64(cool_down_period_s as u64);
            w.u8(withdraw_index);
        }
        xorca::Event::Withdraw {
            vault_escrowed_orca_amount,
            withdrawable_orca_amount,
            cool_down_period_s,
            withdraw_index,
        } => {
            w.u64(2);
            w.u64(vault_escrowed_orca_amount);
            w.u64(withdrawable_orca_amount);
            w.u64(cool_down_period_s as u64);
            w.u8(withdraw_index);
        }
        xorca::Event::UpdateAuthoritySet { new_authority, set_by } => {
            w.u64(3);
            w.put(new_authority.as_ref());
            w.put(set_by.as_ref());
        }
    }
    0
}

// ------------------------------------------------------------------ addresses
#[no_mangle]
pub unsafe extern "C" fn pda(i: *const u8, which: u64, o: *mut u8) -> u64 {
    let r = match which {
        0 => xorca::find_state_address(),
        1 => xorca::find_orca_vault_address(&rkey(i, 0), &rkey(i, 32), &rkey(i, 64)),
        _ => xorca::find_pending_withdraw_pda(&rkey(i, 0), &*i.add(32)),
    };
    match r {
        Ok((k, b)) => {
            let mut w = W { p: o };
            w.put(k.as_ref());
            w.u8(b);
            0
        }
        Err(_) => 1,
    }
}
/// program id as the client and the program know it
#[no_mangle]
pub unsafe extern "C" fn constants(_i: *const u8, _n: u64, o: *mut u8) -> u64 {
    use core::str::FromStr;
    let mut w = W { p: o };
    w.put(xorca::XORCA_STAKING_PROGRAM_ID.as_ref());
    w.put(xorca::ID.as_ref());
    for s in [xorca::ORCA_MINT_ADDRESS, xorca::XORCA_MINT_ADDRESS, xorca::TOKEN_PROGRAM_ADDRESS] {
        match Pubkey::from_str(s) {
            Ok(k) => w.put(k.as_ref()),
            Err(_) => return 1,
        }
    }
    for d in [
        xorca::STAKE_DISCRIMINATOR,
        xorca::UNSTAKE_DISCRIMINATOR,
        xorca::WITHDRAW_DISCRIMINATOR,
        xorca::INITIALIZE_DISCRIMINATOR,
        xorca::SET_DISCRIMINATOR,
    ] {
        w.u8(d);
    }
    for v in [
        xorca::State::LEN as u64,
        xorca::PendingWithdraw::LEN as u64,
        xorca::STATE_DISCRIMINATOR as u64,
        xorca::PENDING_WITHDRAW_DISCRIMINATOR as u64,
    ] {
        w.u64(v);
    }
    0
}

// ------------------------------------------------------------------ errors
struct Sink {
    p: *mut u8,
    n: usize,
}
impl core::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        unsafe { core::ptr::copy_nonoverlapping(s.as_ptr(), self.p.add(self.n), s.len()) };
        self.n += s.len();
        Ok(())
    }
}
macro_rules! errors {
    ($($v:ident),* $(,)?) => {
        fn client_index(e: &xorca::XorcaStakingProgramError) -> u64 {
            let mut k = 0;
            $( if *e == xorca::XorcaStakingProgramError::$v { return k; } k += 1; )*
            let _ = k;
            999
        }
    };
}
errors!(
    UnknownInstructionDiscriminator,
    IncorrectProgramId,
    InvalidAccountRole,
    NotEnoughAccountKeys,
    IncorrectOwner,
    InvalidSeeds,
    IncorrectAccountAddress,
    InvalidAccountData,
    ArithmeticError,
    InsufficientFunds,
    StateAccountAlreadyInitialized,
    CoolDownPeriodStillActive,
    EmitEventError,
    InvalidCoolDownPeriod,
    InsufficientStakeAmount,
    InsufficientUnstakeAmount,
    InsufficientEscrow,
    CoolDownOverflow,
    InsufficientVaultBacking,
    UnauthorizedDeployerAccess,
);
/// what the client makes of an error number: [index of the variant, code it converts back to, message length, message]
#[no_mangle]
pub unsafe extern "C" fn err_client(i: *const u8, _n: u64, o: *mut u8) -> u64 {
    use core::fmt::Write;
    let code = r64(i, 0) as u32;
    match <xorca::XorcaStakingProgramError as num_traits::FromPrimitive>::from_u32(code) {
        None => 1,
        Some(e) => {
            let mut s = Sink { p: o.add(24), n: 0 };
            let _ = write!(s, "{}", e);
            let mut w = W { p: o };
            w.u64(client_index(&e));
            w.u64(match solana_program_error::ProgramError::from(e) {
                solana_program_error::ProgramError::Custom(c) => c as u64,
                _ => u64::MAX,
            });
            w.u64(s.n as u64);
            0
        }
    }
}
// ------------------------------------------------------------------ fetching
use solana_client::rpc_client::{Entry, RpcClient};
/// ledger entry in the input: [exists u64, lamports u64, len u64, owner 32, key 32, data ...2048]
const ENTRY: usize = 88 + 2048;
unsafe fn rpc(i: *const u8, n: usize) -> RpcClient {
    let mut ledger = Vec::with_capacity(n);
    for k in 0..n {
        let p = i.add(64 + k * ENTRY);
        ledger.push(Entry {
            exists: r64(p, 0) as u8,
            lamports: r64(p, 8),
            len: r64(p, 16) as usize,
            owner: rkey(p, 24),
            key: rkey(p, 56),
            data: p.add(88),
        });
    }
    RpcClient { ledger, asked: RefCell::new(Vec::with_capacity(n)) }
}
unsafe fn w_asked(r: &RpcClient, o: *mut u8) {
    let mut w = W { p: o };
    let a = r.asked.borrow();
    w.u64(a.len() as u64);
    for k in a.iter() {
        w.put(k.as_ref());
    }
}
/// input: [n entries u64, staker 32, max u64 (256 = default), which u64 ...] ; output: result at 1024, asked list at 20000
#[no_mangle]
pub unsafe extern "C" fn fetch(i: *const u8, which: u64, o: *mut u8) -> u64 {
    let n = r64(i, 0) as usize;
    let r = rpc(i, n);
    let mut w = W { p: o.add(1024) };
    let code = match which {
        0 => match xorca::fetch_state_account_data(&r) {
            Ok(d) => {
                w_state(&d, o.add(1024));
                0
            }
            Err(_) => 1,
        },
        1 => match xorca::fetch_state_account_cool_down_period_s(&r) {
            Ok(d) => {
                w.u64(d as u64);
                0
            }
            Err(_) => 1,
        },
        2 => {
            let max = r64(i, 40);
            let max = if max == 256 { None } else { Some(max as u8) };
            match xorca::fetch_pending_withdraws_for_staker(&r, &rkey(i, 8), max) {
                Ok(v) => {
                    w.u64(v.len() as u64);
                    for d in v.iter() {
                        w.u8(d.discriminator as u8);
                        w.put(&d.padding1);
                        w.u8(d.bump);
                        w.u8(d.withdraw_index);
                        w.put(d.unstaker.as_ref());
                        w.u64(d.withdrawable_orca_amount);
                        w.u64(d.withdrawable_timestamp as u64);
                    }
                    0
                }
                Err(_) => 1,
            }
        }
        3 => match xorca::fetch_vault_state(&r) {
            Ok(d) => {
                w.put(d.address.as_ref());
                w.put(d.owner.as_ref());
                w.put(d.mint.as_ref());
                w.u64(d.amount);
                core::mem::forget(d);
                0
            }
            Err(e) => {
                core::mem::forget(e);
                1
            }
        },
        4 => match xorca::fetch_xorca_mint_supply(&r) {
            Ok(d) => {
                w.u64(d);
                0
            }
            Err(e) => {
                core::mem::forget(e);
                1
            }
        },
        5 => match xorca::fetch_staking_exchange_rate(&r) {
            Ok(d) => {
                w.u64(d.numerator);
                w.u64(d.denominator);
                0
            }
            Err(e) => {
                core::mem::forget(e);
                1
            }
        },
        6 => match xorca::fetch_pending_withdraw(&r, &rkey(i, 8)) {
            Ok(d) => {
                w.put(d.address.as_ref());
                w.u64(d.account.lamports);
                w_pending(&d.data, o.add(1024 + 40));
                0
            }
            Err(_) => 1,
        },
        7 => match xorca::fetch_maybe_pending_withdraw(&r, &rkey(i, 8)) {
            Ok(xorca::MaybeAccount::Exists(d)) => {
                w.put(d.address.as_ref());
                w.u64(d.account.lamports);
                w_pending(&d.data, o.add(1024 + 40));
                0
            }
            Ok(xorca::MaybeAccount::NotFound(k)) => {
                w.put(k.as_ref());
                2
            }
            Err(_) => 1,
        },
        _ => match xorca::fetch_maybe_state(&r, &rkey(i, 8)) {
            Ok(xorca::MaybeAccount::Exists(d)) => {
                w.put(d.address.as_ref());
                w.u64(d.account.lamports);
                w_state(&d.data, o.add(1024 + 40));
                0
            }
            Ok(xorca::MaybeAccount::NotFound(k)) => {
                w.put(k.as_ref());
                2
            }
            Err(_) => 1,
        },
    };
    w_asked(&r, o.add(20000));
    code
}
