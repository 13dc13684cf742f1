KIND = "client"
PROPERTY = 'C14'
NEEDS = 'a conversion whose 128-bit product fits but whose quotient exceeds 64 bits'
BREAKS = 'the client returns a truncated amount where the program fails with an arithmetic error'
EDITS = [
    ('rust-client/src/conversion.rs',
     '    out_orca.try_into().map_err(|_| ConversionError::Arithmetic)\n',
     '    let out = out_orca & u64::MAX as u128;\n    out.try_into().map_err(|_| ConversionError::Arithmetic)\n'),
]
DEMO = """
k, v, out = call("conv_client", u64(1 << 40, 1 << 60, 1 << 10), 1)
check(k == "ret" and v == 1, "an ORCA amount above 64 bits is an error")
k, v, out = call("conv_client", u64(1000, 5000, 4000), 1)
check(v == 0 and out[:8] == u64(1000 * 5100 // 4100), "ordinary conversion")
"""
