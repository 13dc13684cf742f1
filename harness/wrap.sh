#!/bin/bash
# RUSTC_WRAPPER: compile the on-chain crates as for target_os="solana" (so that every
# syscall is a real external call), everything else as is.
rustc="$1"; shift
name=""
prev=""
for a in "$@"; do
  if [ "$prev" = "--crate-name" ]; then name="$a"; break; fi
  prev="$a"
done
case "$name" in
  pinocchio|pinocchio_pubkey|pinocchio_token|pinocchio_system|pinocchio_associated_token_account|xorca_staking_program)
    exec "$rustc" "$@" --cfg 'target_os="solana"' -A explicit_builtin_cfgs_in_flags ;;
  *) exec "$rustc" "$@" ;;
esac
