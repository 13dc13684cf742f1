PROPERTY = 'C06'
NEEDS = 'a withdraw of a record whose amount is above what the escrow counter still holds'
BREAKS = 'withdraw saturates the escrow at zero and drops the pre-check: when the recorded escrow is smaller than the record, escrow no longer equals the sum of records'
ALSO = ['C05']
EDITS = [
    ('solana-program/src/instructions/withdraw.rs',
     '        if state_data.escrowed_orca_amount < withdrawable_orca_amount {',
     '        if state_data.escrowed_orca_amount == 0 && withdrawable_orca_amount > 0 {'),
    ('solana-program/src/instructions/withdraw.rs',
     '        .checked_sub(withdrawable_orca_amount)\n        .ok_or(ErrorCode::InsufficientEscrow)?;',
     '        .saturating_sub(withdrawable_orca_amount);'),
]
DEMO = """
r, a = run("withdraw", E=10, amount=50000, V=5000000)
check(r.kind == "err", "a record above the escrow is never paid")
r, a = run("withdraw")
check(r.kind == "ok" and a.f("state", "state", "escrow") == 650000, "an ordinary one lowers the escrow by its amount")
"""
