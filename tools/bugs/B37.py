KIND = "js"
PROPERTY = 'C27'
NEEDS = 'a pool whose xORCA was all burned, after a stake'
BREAKS = 'the exchange rate of a pool without xORCA has denominator 1'
EDITS = [
    ('js-client/src/utils/index.ts',
     "  const denominator = await fetchXorcaMintSupply(rpc);",
     "  const denominator = (await fetchXorcaMintSupply(rpc)) || 1n;"),
]
DEMO = """
ORCA = call("fetched", b"", 99)
import json
st = bytes([1, 0, 0, 0, 0, 0, 255, 255]) + u64(1000) + bytes(2032)
B = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
def b58(s):
    n = 0
    for c in s:
        n = n * 58 + B.index(c)
    return n.to_bytes(32, "big")
TOKEN, ORCA, XORCA = map(b58, ("TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA", "orcaEKTdK7LKz57vaAYr9QeNsVEPfiu6QeMU1kektZE", "xorcaYqbXUNz3474ubUMJAdu2xgPsew3rUCe5ughT3N"))
VAULT = call("pda", STATE + TOKEN + ORCA, 1)[1][:32]
vault = ORCA + STATE + u64(5000) + bytes(36) + bytes([1]) + bytes(56)
def run(s):
    mint = bytes(36) + u64(s) + bytes([6, 1]) + bytes(36)
    k, out = call("fetched", ledger([entry(STATE, 1, st), entry(VAULT, 1, vault, TOKEN), entry(XORCA, 1, mint, TOKEN)]), 5)
    check(k == 0 and out == u64(4000, s), "supply %d" % s)
run(77)
run(0)
"""
