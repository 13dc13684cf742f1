PROPERTY = 'C10'
NEEDS = 'an xORCA mint whose supply was already non-zero when its mint authority was handed to the state'
BREAKS = 'initialize accepts an xORCA mint with a non-empty supply below one whole token'
ALSO = ['C06']
EDITS = [
    ('solana-program/src/instructions/initialize.rs',
     '    if xorca_mint_account_data.supply != 0 {',
     '    if xorca_mint_account_data.supply / 1_000_000 != 0 {'),
]
DEMO = """
r, a = run("initialize", S=0, cooldown=5)
check(r.kind == "ok", "initialize with an empty supply")
r, a = run("initialize", S=999999, cooldown=5)
check(r.kind == "err", "initialize with pre-minted xORCA is refused")
"""
