KIND = "client"
PROPERTY = 'C18'
NEEDS = 'the program failing with code 6016 or 6018'
BREAKS = 'the client swaps the codes of InsufficientEscrow and InsufficientVaultBacking'
EDITS = [
    ('rust-client/src/generated/errors/xorca_staking_program.rs', '    InsufficientEscrow = 0x1780,', '    InsufficientEscrow = 0x1782,'),
    ('rust-client/src/generated/errors/xorca_staking_program.rs', '    InsufficientVaultBacking = 0x1782,', '    InsufficientVaultBacking = 0x1780,'),
]
DEMO = """
k, v, out = call("err_client", u64(6016), 0)
n = out[16]
check(k == "ret" and v == 0 and out[24:24 + n].startswith(b"Insufficient escrow"), "6016 is the escrow error: %r" % out[24:24 + n])
"""
