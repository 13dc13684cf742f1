PROPERTY = 'C02'
NEEDS = 'an attacker whose first stake finds a pool holding less than one whole supply of virtual units and who stakes and unstakes at once'
BREAKS = 'the conversion for stakes is 1:1 while the pool holds fewer than 100 base units, also when xORCA is worth more: a round trip profits'
ALSO = ['C01', 'C03']
EDITS = [
    ('solana-program/src/util/math.rs',
     '    if (xorca_supply == 0) || (non_escrowed_orca_amount == 0) {\n        return Ok(orca_amount_to_convert);\n    }\n',
     '    if (xorca_supply as u128) < VIRTUAL_XORCA_SUPPLY || (non_escrowed_orca_amount == 0) {\n        return Ok(orca_amount_to_convert);\n    }\n'),
]
DEMO = """
V, S, x = 10000000, 7, 1000000
r, a = run("stake", V=V, E=0, S=S, x=x)
check(r.kind == "ok", "stake of one ORCA into a pool with 7 units of xORCA")
minted = a.f("staker_xorca_ata", "token", "amount")
r2, a2 = run("unstake", V=V + x, E=0, S=S + minted, x=minted, balance=minted)
check(r2.kind == "ok", "unstaking what was minted")
check(a2.f("pending", "pending", "amount") <= x, "a round trip returns no more than was staked")
"""
