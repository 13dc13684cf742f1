PROPERTY = 'C24'
NEEDS = 'withdrawing at exactly the maturity second'
BREAKS = 'a matured record is refused at its maturity second as if the cooldown were still active'
ALSO = ['C23']
EDITS = [
    ('solana-program/src/instructions/withdraw.rs',
     '    if current_unix_timestamp < withdrawable_timestamp {',
     '    if current_unix_timestamp <= withdrawable_timestamp {'),
]
DEMO = """
r, a = run("withdraw", ts=2000, now=2000)
check(r.kind == "ok", "at maturity it pays, and no CoolDownPeriodStillActive is reported")
"""
