PROPERTY = 'C23'
NEEDS = 'unstaking the whole balance at once'
BREAKS = 'unstaking exactly the whole xORCA balance is refused'
ALSO = ['C24']
EDITS = [
    ('solana-program/src/instructions/unstake.rs',
     '    if unstaker_xorca_ata_data.amount < *xorca_unstake_amount {',
     '    if unstaker_xorca_ata_data.amount <= *xorca_unstake_amount {'),
]
DEMO = """
r, a = run("unstake", x=1999999, balance=2000000)
check(r.kind == "ok", "unstaking all but one unit")
r, a = run("unstake", x=2000000, balance=2000000)
check(r.kind == "ok", "unstaking everything")
"""
