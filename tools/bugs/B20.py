KIND = "client"
PROPERTY = 'C14'
NEEDS = 'a pool with xORCA supply but no unescrowed ORCA'
BREAKS = 'the client uses the virtual offsets where the program converts one to one'
EDITS = [
    ('rust-client/src/conversion.rs',
     '''    if xorca_supply == 0 || non_escrowed_orca_amount == 0 {
        return Ok(orca_amount_to_convert);''',
     '''    if xorca_supply == 0 || (non_escrowed_orca_amount == 0 && xorca_supply < 1000) {
        return Ok(orca_amount_to_convert);'''),
]
DEMO = """
k, v, out = call("conv_client", u64(1000, 0, 5000), 0)
check(k == "ret" and v == 0 and out[:8] == u64(1000), "an empty vault converts one to one")
"""
