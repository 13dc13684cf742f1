RC = "rust-client/src/"
G = RC + "generated/"
CSYM = "symbolic execution of the Rust client's LLVM IR (rustc output of the real crate, compared with the program's own code) + SMT (z3)"
CNOTE = ("Every path of the compiled client is decided by the solver for all inputs within the bounds in the evidence and replayed natively; "
         "trusts rustc, the IR translation, the address-derivation model and the RPC stand-in (a ledger keyed by address).")
P("C14", "The Rust client's conversions predict the program",
  "For every amount, unescrowed ORCA and xORCA supply the client's convert_orca_to_xorca and convert_xorca_to_orca return exactly what the program computes, "
  "and fail exactly when the program fails (naming a zero pool as such).",
  ["inputs"], "all 2^192 inputs of either direction", "Two or three sampled conversions; differences show at rounding and overflow boundaries.",
  [RC + "conversion.rs", SP + "util/math.rs"], [("checked 128-bit conversion", RC + "conversion.rs")], (), CNOTE, CSYM)
P("C15", "The Rust client reads accounts and events as the program writes them",
  "Decoding the State and PendingWithdraw accounts, SPL token and mint accounts and the program's events yields exactly the values the program stored, re-encoding "
  "restores the bytes, truncated data is rejected, and no bytes make the client panic.",
  ["inputs"], "all contents of the accounts, all event values, arbitrary bytes up to the stated length", "Layouts are 2048 and 1024 bytes; tests decode a fixture.",
  [G + "accounts/state.rs", G + "accounts/pending_withdraw.rs", G + "types/event.rs", G + "types/token_account.rs", G + "types/token_mint.rs",
   SP + "state/state.rs", SP + "state/pending_withdraw.rs", SP + "event.rs"], [("Borsh codecs against repr(C) views", G + "accounts/state.rs")], (), CNOTE, CSYM)
P("C16", "Instructions built by the Rust client are what the program expects",
  "Every way to build an instruction (struct, builder, CPI, CPI builder) lists the given accounts in the program's order, with exactly the authorising accounts "
  "as signers and enough write access for the program to accept a well-formed request, data the program parses back to the given arguments, the program's id, "
  "and remaining accounts, account infos and signer seeds passed on unchanged.",
  ["inputs"], "all arguments, addresses and flags, for all five instructions and eleven ways to build them", "No test builds most of them.",
  [G + "instructions/stake.rs", G + "instructions/unstake.rs", G + "instructions/withdraw.rs", G + "instructions/initialize.rs", G + "instructions/set.rs",
   I + "mod.rs"], [("instruction builders", G + "instructions/stake.rs")], (), CNOTE, CSYM)
P("C17", "Client and program derive the same addresses",
  "The state, vault and withdrawal-record addresses and bumps derived by the client are, for every owner, mint and index, those the program derives from its documented seeds; "
  "the client's program id, mint and token program constants are the program's.",
  ["inputs"], "all keys and indices", "Tests check three addresses.",
  [RC + "pda/mod.rs", SP + "pda.rs", G + "programs.rs", RC + "utils/mod.rs"], [("seed lists", RC + "pda/mod.rs")], (), CNOTE, CSYM)
P("C18", "The Rust client knows every program error",
  "For every 32-bit error number the client recognises exactly the program's error codes, with the program's name and message, and converts them back to the same number.",
  ["inputs"], "all 2^32 numbers", "Codes are listed by hand on both sides.",
  [G + "errors/xorca_staking_program.rs", SP + "error.rs"], [("error tables", G + "errors/xorca_staking_program.rs")], (), CNOTE, CSYM)
P("C19", "Fetch helpers report the ledger",
  "fetch_pending_withdraws_for_staker returns exactly the records that exist among the searched indices, in order, whatever lamports others sent to record addresses; the state, "
  "cooldown, vault, supply and exchange-rate helpers return exactly what the accounts hold (rate: vault minus escrow over supply), and report missing accounts or failed requests as errors.",
  ["inputs", "faults"], "all contents of the ledger at the addresses involved, every mix of missing and failing accounts within the bounds", "A fixture ledger with three records.",
  [RC + "utils/mod.rs", G + "accounts/pending_withdraw.rs", G + "accounts/state.rs"], [("fetch helpers", RC + "utils/mod.rs")], (), CNOTE, CSYM)

# ---------------------------------------------------------------- JS client
JC = "js-client/src/"
JG = JC + "generated/"
JSYM = ("symbolic execution of the JS client's source (type-erased by the TypeScript compiler) by engine/jsx.py, compared with the program's LLVM IR "
        "executed symbolically, + SMT (z3)")
JNOTE = ("Every path of the JS client through the tested entry points is decided by the solver for all inputs within the bounds in the evidence, and "
         "replayed in node; trusts type erasure, the JS semantics of engine/jsx.py, and harness/js/kit.js and token.js, which restate the "
         "@solana/kit and @solana-program/token functions used (those packages are not installed here). "
         "Code outside the interpreter's JS subset is reported as not covered, never as proved.")
P("C20", "The JS client's conversions predict the program",
  "Wherever the program converts an amount between ORCA and xORCA, the JS client's convertOrcaToXorca and convertXorcaToOrca return exactly the program's result; "
  "at a zero pool the former is one to one and the latter throws, and it throws nowhere else.",
  ["inputs"], "all 2^192 inputs of either direction", "No test of the JS conversions runs offline; rounding and precision faults show at particular amounts.",
  [JC + "utils/conversion.ts", SP + "util/math.rs"], [("bigint conversion", JC + "utils/conversion.ts")], (), JNOTE, JSYM)
P("C22", "The JS client reads accounts and events as the program writes them",
  "The JS codecs decode State, PendingWithdraw, SPL token and mint accounts and the program's events to exactly the values the program stored, re-encode them to the "
  "same bytes (zero padding by default), reject truncated data, and identify accounts by their discriminators; exported sizes, discriminators and program id are the program's.",
  ["inputs"], "all contents of the accounts, all event values, arbitrary event bytes up to the stated length", "Layouts are 2048 and 1024 bytes; no JS test decodes them.",
  [JG + "accounts/state.ts", JG + "accounts/pendingWithdraw.ts", JG + "types/event.ts", JG + "types/tokenAccount.ts", JG + "types/tokenMint.ts",
   JG + "programs/xorcaStakingProgram.ts", SP + "state/state.rs", SP + "state/pending_withdraw.rs", SP + "event.rs"],
  [("struct codecs", JG + "accounts/state.ts")], (), JNOTE, JSYM)
P("C25", "Instructions built by the JS client are what the program expects",
  "Each JS instruction function lists the given accounts in the program's order, with exactly the authorising accounts as signers (attached) and enough "
  "write access for the program to accept a well-formed request, data the program parses back to the given arguments, and the program's id or the one given; "
  "the client's parsers restore accounts, roles and arguments and refuse missing accounts.",
  ["inputs"], "all arguments and addresses, for all five instructions; amounts as bigint or number", "No test builds them.",
  [JG + "instructions/stake.ts", JG + "instructions/unstake.ts", JG + "instructions/withdraw.ts", JG + "instructions/initialize.ts", JG + "instructions/set.ts",
   JG + "shared/index.ts", JG + "types/stateUpdateInstruction.ts", I + "mod.rs"], [("instruction functions", JG + "instructions/stake.ts")], (), JNOTE, JSYM)
P("C26", "The JS client and program agree on addresses and errors",
  "The state, vault and withdrawal-record addresses and bumps found by the JS client are the program's for every owner, mint and index; its error codes, names and messages "
  "are the program's for every 32-bit number; and isXorcaStakingProgramError recognises exactly this program's custom errors (of the code given).",
  ["inputs"], "all keys, indices and error numbers", "Tests check none of it offline; codes and seeds are listed by hand on both sides.",
  [JC + "utils/index.ts", JG + "errors/xorcaStakingProgram.ts", SP + "pda.rs", SP + "error.rs"], [("seed lists", JC + "utils/index.ts")], (), JNOTE, JSYM)
P("C27", "JS fetch helpers report the ledger",
  "fetchPendingWithdrawsForStaker returns exactly the records that exist among the searched indices, in order, whatever lamports others sent to record addresses, for every "
  "search limit from 0 to 255 (others are refused); the state, cooldown, vault, supply, exchange-rate and generated fetch functions return exactly what the accounts hold, "
  "and report missing accounts or failed requests.",
  ["inputs", "faults"], "all contents of the ledger at the addresses involved, every mix of missing and failing accounts within the bounds", "JS tests need a live ledger.",
  [JC + "utils/index.ts", JG + "accounts/state.ts", JG + "accounts/pendingWithdraw.ts"], [("fetch helpers", JC + "utils/index.ts")], (), JNOTE, JSYM)
