PROPERTY = 'C05'
NEEDS = 'a withdrawal attempted in the very second before maturity'
BREAKS = 'a record can be withdrawn one second early'
ALSO = []
EDITS = [
    ('solana-program/src/instructions/withdraw.rs',
     '    if current_unix_timestamp < withdrawable_timestamp {',
     '    if current_unix_timestamp.saturating_add(1) < withdrawable_timestamp {'),
]
DEMO = """
r, a = run("withdraw", ts=2000, now=1999)
check(r.kind == "err" and r.code != 0, "one second early is refused")
r, a = run("withdraw", ts=2000, now=2000)
check(r.kind == "ok", "at maturity it pays")
"""
