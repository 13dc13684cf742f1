PROPERTY = 'C01'
NEEDS = 'an unstake whose exact proceeds have a fraction of one half or more'
BREAKS = 'unstake rounds to the nearest unit instead of down, so remaining holders pay for it'
ALSO = ['C04']
EDITS = [
    ('solana-program/src/util/math.rs',
     '        .checked_mul(non_escrowed_orca_amount_with_virtual_amount_u128)\n        .ok_or(ErrorCode::ArithmeticError)?\n',
     '        .checked_mul(non_escrowed_orca_amount_with_virtual_amount_u128)\n        .ok_or(ErrorCode::ArithmeticError)?\n        .checked_add(xorca_supply_with_virtual_amount_u128 / 2)\n        .ok_or(ErrorCode::ArithmeticError)?\n'),
]
DEMO = """
V, E, S, x = 5000000, 700000, 3100000, 1002
r, a = run("unstake", V=V, E=E, S=S, x=x)
check(r.kind == "ok", "a plain unstake succeeds")
out = a.f("pending", "pending", "amount")
n, s = V - E, S
check((n - out + 100) * (s + 100) >= (n + 100) * (s - x + 100), "the price does not fall for the holders who stay")
"""
