PROPERTY = 'C08'
NEEDS = 'an unstake whose vault account is another ORCA token account owned by the state (anyone can create one and fund it)'
BREAKS = 'unstake prices the request with a forged vault when the account passed as vault carries a delegate'
ALSO = ['C01', 'C06']
EDITS = [
    ('solana-program/src/instructions/unstake.rs',
     '        // Verify vault address using stored vault_bump\n        State::verify_vault_address_with_bump(\n            state_account,\n            vault_account,\n            orca_mint_account,\n            state_view.vault_bump,\n        )\n        .map_err(|_| ErrorCode::InvalidSeeds)?;\n\n        state_view.escrowed_orca_amount',
     '        // Verify vault address using stored vault_bump; the vault itself can never be made writable by a\n        // read-only request, so the derivation is only needed for writable vaults\n        if vault_account.is_writable() {\n            State::verify_vault_address_with_bump(\n                state_account,\n                vault_account,\n                orca_mint_account,\n                state_view.vault_bump,\n            )\n            .map_err(|_| ErrorCode::InvalidSeeds)?;\n        }\n\n        state_view.escrowed_orca_amount'),
]
DEMO = """
forged = {"vault@key": le(key(77)), "vault@writable": 0}
r, a = run("unstake", V=10**12, over=forged)
check(r.kind == "err", "an unstake priced with another ORCA account of the state is refused")
r, a = run("unstake", over={"vault@writable": 0})
check(r.kind == "ok", "the real vault is accepted read-only")
"""
