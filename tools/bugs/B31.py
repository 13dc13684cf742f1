KIND = "js"
PROPERTY = 'C22'
NEEDS = 'a cooldown or timestamp with the top bit set, as in a state whose bytes hold a negative cooldown'
BREAKS = 'the State decoder reads the cooldown as unsigned'
EDITS = [
    ('js-client/src/generated/accounts/state.ts', "    ['coolDownPeriodS', getI64Decoder()],", "    ['coolDownPeriodS', getU64Decoder()],"),
]
DEMO = """
def state(cd):
    return bytes([1, 0, 0, 0, 0, 0, 250, 251]) + u64(77, cd) + key(1) + bytes(2048 - 56)
for cd in (0, 86400):
    k, out = call("account", state(cd), 0)
    check(k == 0 and out[:2048] == state(cd), "cooldown %d" % cd)
k, out = call("account", state(-1), 0)
check(k == 0 and out[2056:4104] == state(-1), "a negative cooldown decodes and re-encodes")
"""
