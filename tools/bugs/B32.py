KIND = "js"
PROPERTY = 'C22'
NEEDS = 'a Withdraw event (encoder and decoder agree with each other)'
BREAKS = 'two fields of the Withdraw event are exchanged in both encoder and decoder'
EDITS = [
    ('js-client/src/generated/types/event.ts',
     """        ['vaultEscrowedOrcaAmount', getU64Encoder()],
        ['withdrawableOrcaAmount', getU64Encoder()],
        ['coolDownPeriodS', getI64Encoder()],""",
     """        ['withdrawableOrcaAmount', getU64Encoder()],
        ['vaultEscrowedOrcaAmount', getU64Encoder()],
        ['coolDownPeriodS', getI64Encoder()],"""),
    ('js-client/src/generated/types/event.ts',
     """        ['vaultEscrowedOrcaAmount', getU64Decoder()],
        ['withdrawableOrcaAmount', getU64Decoder()],
        ['coolDownPeriodS', getI64Decoder()],""",
     """        ['withdrawableOrcaAmount', getU64Decoder()],
        ['vaultEscrowedOrcaAmount', getU64Decoder()],
        ['coolDownPeriodS', getI64Decoder()],"""),
]
DEMO = """
ev = bytes([2]) + u64(10, 20, 30) + bytes([4])
k, out = call("event", ev, 0)
check(k == 0 and out[8:33] == u64(10, 20, 30) + bytes([4]), "a Withdraw event")
"""
