PROPERTY = 'C11'
NEEDS = 'a record address that someone sent more than the rent to before the unstake'
BREAKS = 'a pre-funded address is charged by a plain subtraction: with more than the rent already there the payer is charged a huge wrapped amount and creation is blocked'
ALSO = ['C23']
EDITS = [
    ('solana-program/src/util/account.rs',
     '    let lamports_to_transfer = required_lamports.saturating_sub(current_lamports);',
     '    let lamports_to_transfer = required_lamports.wrapping_sub(current_lamports);'),
]
DEMO = """
r, a = run("unstake", over={"pending@lamports": 10})
check(r.kind == "ok", "a little pre-funding does not block an unstake")
r, a = run("unstake", over={"pending@lamports": 9 * 10**6})
check(r.kind == "ok", "generous pre-funding does not block an unstake")
check(a.lamports("pending") == 9 * 10**6, "and the record keeps the balance")
"""
