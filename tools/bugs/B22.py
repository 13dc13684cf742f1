KIND = "client"
PROPERTY = 'C15'
NEEDS = 'an Unstake event of a pool whose escrow differs from its supply'
BREAKS = 'the client reads the escrow of Unstake events as the supply and vice versa'
EDITS = [
    ('rust-client/src/generated/types/event.rs',
     '''    Unstake {
        xorca_unstake_amount: u64,
        vault_orca_amount: u64,
        vault_escrowed_orca_amount: u64,
        xorca_mint_supply: u64,
''',
     '''    Unstake {
        xorca_unstake_amount: u64,
        vault_orca_amount: u64,
        xorca_mint_supply: u64,
        vault_escrowed_orca_amount: u64,
'''),
]
DEMO = """
data = bytes([1]) + u64(1, 2, 3, 4, 5, 6) + bytes([7])
k, v, out = call("event_decode", data, len(data))
check(k == "ret" and v == 0 and out[256:256 + 57] == u64(1, 1, 2, 3, 4, 5, 6) + bytes([7]), "Unstake event fields")
"""
