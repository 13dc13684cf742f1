KIND = "client"
PROPERTY = 'C16'
NEEDS = 'an Unstake sent as a CPI built by the client'
BREAKS = 'the CPI marks the pending-withdraw account read-only, so the record cannot be created'
EDITS = [
    ('rust-client/src/generated/instructions/unstake.rs',
     '''        accounts.push(solana_instruction::AccountMeta::new(
            *self.pending_withdraw_account.key,
            false,
        ));''',
     '''        accounts.push(solana_instruction::AccountMeta::new_readonly(
            *self.pending_withdraw_account.key,
            false,
        ));'''),
]
DEMO = """
for mode in (0, 1, 4, 5, 8):
    k, v, out = call("ix_unstake", ix(u64(5, 1), 9), mode)
    check(k == "ret" and v == 0 and out[40 + 2 * 34 + 33] == 1, "the record is writable (mode %d)" % mode)
"""
