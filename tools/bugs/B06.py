PROPERTY = 'C21'
NEEDS = 'a second Unstake by the same user with an index whose record is still open'
BREAKS = 'the address check of a fresh record is dropped and creation returns early for existing accounts: a second unstake overwrites an open record'
ALSO = ['C04', 'C06', 'C08']
EDITS = [
    ('solana-program/src/instructions/unstake.rs',
     '    assert_account_owner(pending_withdraw_account, &SYSTEM_PROGRAM_ID)?;\n    let withdraw_index_bytes',
     '    if pending_withdraw_account.data_len() == 0 {\n        assert_account_owner(pending_withdraw_account, &SYSTEM_PROGRAM_ID)?;\n    }\n    let withdraw_index_bytes'),
]
DEMO = """
u = key(50)
addr, bump = sol.pending_pda(u, 3)
over = {"pending@owner": le(sol.PID), "pending@len": 1024, "pending@lamports": 8017920, "pending.disc": 2, "pending.bump": bump,
        "pending.index": 3, "pending.unstaker": le(u), "pending.amount": 600000, "pending.ts": 1500}
r, a = run("unstake", over=over, idx=3, user=u)
check(r.kind == "err", "an index whose record is open cannot be used again")
check(a.f("pending", "pending", "amount") == 600000 if r.final else True, "the open record is unchanged")
"""
