PROPERTY = 'C03'
NEEDS = 'a stake so large that amount times supply exceeds 100 bits'
BREAKS = 'for very large products both sides are scaled down before dividing: the minted amount is no longer the documented floor'
ALSO = ['C01']
EDITS = [
    ('solana-program/src/util/math.rs',
     '    let out_xorca_amount_u128 = orca_amount_to_convert_u128\n        .checked_mul(xorca_supply_with_virtual_amount_u128)\n        .ok_or(ErrorCode::ArithmeticError)?\n        .checked_div(non_escrowed_orca_amount_with_virtual_amount_u128)\n        .ok_or(ErrorCode::ArithmeticError)?;\n',
     '    let product_u128 = orca_amount_to_convert_u128\n        .checked_mul(xorca_supply_with_virtual_amount_u128)\n        .ok_or(ErrorCode::ArithmeticError)?;\n    let out_xorca_amount_u128 = if product_u128 >> 100 == 0 {\n        product_u128\n            .checked_div(non_escrowed_orca_amount_with_virtual_amount_u128)\n            .ok_or(ErrorCode::ArithmeticError)?\n    } else {\n        // very large products: scale both sides down\n        (product_u128 >> 32)\n            .checked_div(non_escrowed_orca_amount_with_virtual_amount_u128 >> 32)\n            .ok_or(ErrorCode::ArithmeticError)?\n    };\n'),
]
DEMO = """
V, E, S, x = 9 * 10**18, 10**18, 5 * 10**18, 2 * 10**18 + 1
r, a = run("stake", V=V, E=E, S=S, x=x, balance=x + 5)
check(r.kind == "ok", "a very large stake succeeds")
check(a.f("staker_xorca_ata", "token", "amount") == x * (S + 100) // (V - E + 100), "the documented amount is minted")
"""
