KIND = "client"
PROPERTY = 'C15'
NEEDS = 'a State whose bump differs from its vault bump'
BREAKS = 'the client swaps the two bump fields of State'
EDITS = [
    ('rust-client/src/generated/accounts/state.rs',
     '    pub bump: u8,\n    pub vault_bump: u8,\n',
     '    pub vault_bump: u8,\n    pub bump: u8,\n'),
]
DEMO = """
data = bytes([1, 0, 0, 0, 0, 0, 255, 254]) + bytes(2040)
k, v, out = call("state_bytes", data, 2048)
check(k == "ret" and v == 0 and out[6] == 255 and out[7] == 254, "bump and vault bump are read from their places")
"""
