KIND = "client"
PROPERTY = 'C17'
NEEDS = 'a withdrawal index of 128 or more'
BREAKS = 'the client derives the record address from the index modulo 128'
EDITS = [
    ('rust-client/src/pda/mod.rs',
     '''    let seeds: &[&[u8]] = &[b"pending_withdraw", unstaker.as_ref(), &[*withdraw_index]];''',
     '''    let index = *withdraw_index & i8::MAX as u8;
    let seeds: &[&[u8]] = &[b"pending_withdraw", unstaker.as_ref(), &[index]];'''),
]
DEMO = """
for i in (0, 127, 128, 255):
    k, v, out = call("pda", key(7) + bytes([i]) + bytes(63), 2)
    check(k == "ret" and v == 0 and (out[:32], out[32]) == sol.pending_pda(key(7), i), "record address of index %d" % i)
"""
