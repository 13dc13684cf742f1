KIND = "js"
PROPERTY = 'C25'
NEEDS = 'an amount above 2^53 that is not a multiple of a power of two'
BREAKS = 'the unstake instruction carries a rounded amount'
EDITS = [
    ('js-client/src/generated/instructions/unstake.ts',
     "    (value) => ({ ...value, discriminator: UNSTAKE_DISCRIMINATOR })",
     """    (value) => ({
      ...value,
      xorcaUnstakeAmount: Number(value.xorcaUnstakeAmount),
      discriminator: UNSTAKE_DISCRIMINATOR,
    })"""),
]
DEMO = """
def unstake(x):
    args = u64(x, 3) + bytes(32)
    k, out = call("ix", args + key(99) + b"".join(key(i) for i in range(9)), 1)
    return k == 0 and out[40 + 34 * 9 + 8:] == bytes([1]) + u64(x) + bytes([3])
check(unstake(1000), "a small amount")
check(unstake(2 ** 53 + 1), "an amount above 2^53")
"""
