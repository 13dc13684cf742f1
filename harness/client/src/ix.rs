//! Instruction construction: struct, builder, CPI struct, CPI builder.
//! Input: [args 48 bytes][n + 1 + 2 accounts x (key 32, signer u8, writable u8, pad 6)]
//! (the n accounts of the instruction, the program account, two remaining accounts).
use crate::{r64, rkey, W};
use solana_account_info::AccountInfo;
use solana_instruction::{AccountMeta, Instruction};
use solana_pubkey::Pubkey;
use std::cell::RefCell;
use std::rc::Rc;

const ARGS: usize = 48;
const REC: usize = 40;

unsafe fn key(i: *const u8, k: usize) -> Pubkey {
    rkey(i, ARGS + REC * k)
}
unsafe fn flag(i: *const u8, k: usize, f: usize) -> bool {
    *i.add(ARGS + REC * k + 32 + f) & 1 == 1
}
unsafe fn metas(i: *const u8, n: usize, extra: usize) -> Vec<AccountMeta> {
    let mut v = Vec::with_capacity(extra);
    for k in n + 1..n + 1 + extra {
        v.push(AccountMeta { pubkey: key(i, k), is_signer: flag(i, k, 0), is_writable: flag(i, k, 1) });
    }
    v
}
unsafe fn w_ix(ix: &Instruction, o: *mut u8) {
    let mut w = W { p: o };
    w.put(ix.program_id.as_ref());
    w.u64(ix.accounts.len() as u64);
    for a in ix.accounts.iter() {
        w.put(a.pubkey.as_ref());
        w.u8(a.is_signer as u8);
        w.u8(a.is_writable as u8);
    }
    let mut w = W { p: o.add(1024) };
    w.u64(ix.data.len() as u64);
    w.put(&ix.data);
}
static mut OUT: *mut u8 = core::ptr::null_mut();
fn sink(ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) {
    unsafe {
        w_ix(ix, OUT);
        let mut w = W { p: OUT.add(2048) };
        w.u64(infos.len() as u64);
        for a in infos {
            w.put(a.key.as_ref());
        }
        w.u64(seeds.len() as u64);
        for s in seeds {
            w.u64(s.len() as u64);
            for x in s.iter() {
                w.u64(x.len() as u64);
                w.put(x);
            }
        }
    }
}
/// read an instruction argument from the argument bytes
trait Arg {
    unsafe fn get(i: *const u8, o: &mut usize) -> Self;
}
impl Arg for u64 {
    unsafe fn get(i: *const u8, o: &mut usize) -> Self {
        *o += 8;
        r64(i, *o - 8)
    }
}
impl Arg for i64 {
    unsafe fn get(i: *const u8, o: &mut usize) -> Self {
        *o += 8;
        r64(i, *o - 8) as i64
    }
}
impl Arg for u8 {
    unsafe fn get(i: *const u8, o: &mut usize) -> Self {
        *o += 8;
        *i.add(*o - 8)
    }
}
impl Arg for xorca::StateUpdateInstruction {
    unsafe fn get(i: *const u8, o: &mut usize) -> Self {
        let k = *o;
        *o += 40;
        if *i.add(k) == 0 {
            xorca::StateUpdateInstruction::UpdateCoolDownPeriod { new_cool_down_period_s: r64(i, k + 8) as i64 }
        } else {
            xorca::StateUpdateInstruction::UpdateUpdateAuthority { new_authority: rkey(i, k + 8) }
        }
    }
}

/// mode: 0 instruction(), 1 builder, 2 builder + 2 remaining, 3 struct + 2 remaining,
/// 4 CPI struct, 5 CPI builder, 6 CPI builder + 2 remaining, signed, 7 CPI struct + 2 remaining, signed,
/// 8 CPI invoke_signed, 9 builder with add_remaining_account one at a time, 10 CPI builder likewise
macro_rules! ix {
    ($f:ident, $s:ident, $args:ident, $b:ident, $cpi:ident, $cpia:ident, $cpib:ident,
     [$($acc:ident),*], {$($arg:ident : $t:ty),*}) => {
        #[no_mangle]
        pub unsafe extern "C" fn $f(i: *const u8, mode: u64, o: *mut u8) -> u64 {
            let mut off = 0usize;
            $( let $arg = <$t as Arg>::get(i, &mut off); )*
            let mut n = 0usize;
            $( let $acc = key(i, n); n += 1; )*
            if mode < 4 || mode == 9 {
                let rem = metas(i, n, 2);
                let ix = match mode {
                    0 => xorca::$s { $($acc),* }.instruction(xorca::$args { $($arg),* }),
                    3 => xorca::$s { $($acc),* }.instruction_with_remaining_accounts(xorca::$args { $($arg),* }, &rem),
                    _ => {
                        let mut b = xorca::$b::new();
                        $( b.$acc($acc); )*
                        $( b.$arg($arg); )*
                        if mode == 2 {
                            b.add_remaining_accounts(&rem);
                        } else if mode == 9 {
                            for r in rem.iter() {
                                b.add_remaining_account(r.clone());
                            }
                        }
                        b.instruction()
                    }
                };
                w_ix(&ix, o);
                return 0;
            }
            let owner = Pubkey::new_from_array([9; 32]);
            let mut keys = [Pubkey::new_from_array([0; 32]); 16];
            let mut lam = [1u64; 16];
            let mut data = [[0u8; 8]; 16];
            for k in 0..n + 3 {
                keys[k] = key(i, k);
            }
            let mut infos: Vec<AccountInfo> = Vec::with_capacity(16);
            for (k, (l, d)) in lam.iter_mut().zip(data.iter_mut()).enumerate().take(n + 3) {
                infos.push(AccountInfo {
                    key: &keys[k],
                    lamports: Rc::new(RefCell::new(l)),
                    data: Rc::new(RefCell::new(&mut d[..])),
                    owner: &owner,
                    rent_epoch: 0,
                    is_signer: flag(i, k, 0),
                    is_writable: flag(i, k, 1),
                    executable: false,
                });
            }
            OUT = o;
            solana_cpi::SINK = Some(sink);
            let mut k = 0usize;
            $( let $acc = &infos[k]; k += 1; )*
            let program = &infos[k];
            // (account, is_writable, is_signer)
            let rem = [
                (&infos[n + 1], flag(i, n + 1, 1), flag(i, n + 1, 0)),
                (&infos[n + 2], flag(i, n + 2, 1), flag(i, n + 2, 0)),
            ];
            let seeds: &[&[&[u8]]] = &[&[b"seed", &[3]]];
            let r = match mode {
                4 | 7 | 8 => {
                    let c = xorca::$cpi::new(program, xorca::$cpia { $($acc),* }, xorca::$args { $($arg),* });
                    match mode {
                        4 => c.invoke(),
                        8 => c.invoke_signed(seeds),
                        _ => c.invoke_signed_with_remaining_accounts(seeds, &rem),
                    }
                }
                _ => {
                    let mut b = xorca::$cpib::new(program);
                    $( b.$acc($acc); )*
                    $( b.$arg($arg); )*
                    if mode == 6 {
                        b.add_remaining_accounts(&rem);
                        b.invoke_signed(seeds)
                    } else if mode == 10 {
                        b.add_remaining_account(rem[0].0, rem[0].1, rem[0].2);
                        b.add_remaining_account(rem[1].0, rem[1].1, rem[1].2);
                        b.invoke()
                    } else {
                        b.invoke()
                    }
                }
            };
            match r {
                Ok(()) => 0,
                Err(_) => 1,
            }
        }
    };
}
ix!(ix_stake, Stake, StakeInstructionArgs, StakeBuilder, StakeCpi, StakeCpiAccounts, StakeCpiBuilder,
    [staker_account, vault_account, staker_orca_ata, staker_xorca_ata, xorca_mint_account, state_account,
     orca_mint_account, token_program_account], {orca_stake_amount: u64});
ix!(ix_unstake, Unstake, UnstakeInstructionArgs, UnstakeBuilder, UnstakeCpi, UnstakeCpiAccounts, UnstakeCpiBuilder,
    [unstaker_account, state_account, pending_withdraw_account, unstaker_xorca_ata, xorca_mint_account,
     orca_mint_account, vault_account, system_program_account, token_program_account],
    {xorca_unstake_amount: u64, withdraw_index: u8});
ix!(ix_withdraw, Withdraw, WithdrawInstructionArgs, WithdrawBuilder, WithdrawCpi, WithdrawCpiAccounts,
    WithdrawCpiBuilder,
    [unstaker_account, state_account, pending_withdraw_account, unstaker_orca_ata, vault_account, orca_mint_account,
     system_program_account, token_program_account], {withdraw_index: u8});
ix!(ix_initialize, Initialize, InitializeInstructionArgs, InitializeBuilder, InitializeCpi, InitializeCpiAccounts,
    InitializeCpiBuilder,
    [payer_account, update_authority_account, state_account, vault_account, xorca_mint_account, orca_mint_account,
     system_program_account, token_program_account, associated_token_program_account], {cool_down_period_s: i64});
ix!(ix_set, Set, SetInstructionArgs, SetBuilder, SetCpi, SetCpiAccounts, SetCpiBuilder,
    [update_authority_account, state_account], {instruction_data: xorca::StateUpdateInstruction});
