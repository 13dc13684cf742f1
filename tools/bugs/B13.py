PROPERTY = 'C13'
NEEDS = 'any unstake when the pool already has escrowed ORCA (the event keeps the previous escrow)'
BREAKS = 'the Unstake event reports the escrow before the instruction'
ALSO = []
EDITS = [
    ('solana-program/src/instructions/unstake.rs',
     '        vault_escrowed_orca_amount: &state.escrowed_orca_amount,',
     '        vault_escrowed_orca_amount: &initial_escrowed_orca_amount,'),
]
DEMO = """
r, a = run("unstake", E=700000)
check(r.kind == "ok", "an unstake succeeds")
e = events(r)[0]
check(int.from_bytes(e[17:25], "little") == a.f("state", "state", "escrow"), "the event carries the escrow after the instruction")
"""
