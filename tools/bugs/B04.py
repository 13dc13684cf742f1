PROPERTY = 'C03'
NEEDS = 'a stake whose minted amount does not fit 64 bits (a pool whose xORCA supply is far above its unescrowed ORCA)'
BREAKS = 'the minted amount is truncated to 64 bits instead of the stake being refused: the staker pays in full and receives a fraction'
ALSO = ['C24']
EDITS = [
    ('solana-program/src/util/math.rs',
     """    let out_xorca_amount: u64 = out_xorca_amount_u128
        .try_into()
        .map_err(|_| ErrorCode::ArithmeticError)?; // Return an error if the value is too large for u64

    Ok(out_xorca_amount)
""",
     """    let out_xorca_amount = out_xorca_amount_u128 as u64;

    Ok(out_xorca_amount)
"""),
]
DEMO = """
V, S, x = 1, 2**60, 101 * 7
r, a = run("stake", V=V, E=0, S=S, x=x)
check(r.kind == "ok" and a.f("staker_xorca_ata", "token", "amount") == x * (S + 100) // (V + 100), "a large mint is exact")
V, S, x = 1, 2**60, 101 * 17
r, a = run("stake", V=V, E=0, S=S, x=x)
check(r.kind == "err" and r.code == 6008, "a mint above 64 bits is refused")
"""
