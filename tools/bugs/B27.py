KIND = "client"
PROPERTY = 'C19'
NEEDS = 'a vault holding less ORCA than is escrowed'
BREAKS = 'the exchange rate is reported as zero ORCA per xORCA instead of an error'
EDITS = [
    ('rust-client/src/utils/mod.rs',
     '''        .checked_sub(state.escrowed_orca_amount)
        .with_context(|| "Vault amount is less than escrowed amount")?;''',
     '''        .checked_sub(state.escrowed_orca_amount)
        .or_else(|| vault.amount.checked_sub(vault.amount))
        .with_context(|| "Vault amount is less than escrowed amount")?;'''),
]
DEMO = """
st = bytes([1, 0, 0, 0, 0, 0, 255, 255]) + u64(1000) + bytes(2032)
def vault(n):
    return sol.ORCA + sol.STATE + u64(n) + bytes(36) + bytes([1]) + bytes(56)
mint = bytes(36) + u64(77) + bytes([6, 1]) + bytes(36)
def led(n):
    return ledger([entry(sol.STATE, 1, st), entry(sol.VAULT, 1, vault(n), sol.TOKEN), entry(sol.XORCA, 1, mint, sol.TOKEN)])
k, v, out = call("fetch", led(5000), 5)
check(k == "ret" and v == 0 and out[1024:1040] == u64(4000, 77), "rate of a covered pool")
k, v, out = call("fetch", led(999), 5)
check(k == "ret" and v == 1, "an uncovered escrow is an error")
"""
