KIND = "js"
PROPERTY = 'C20'
NEEDS = 'an unstake conversion of a small amount whose product with the pool exceeds 2^53'
BREAKS = 'convertXorcaToOrca loses precision: a fast path multiplies in floating point'
EDITS = [
    ('js-client/src/utils/conversion.ts',
     '''  return (xorcaAmountToConvert * nonEscrowedWithVirtual) / xorcaSupplyWithVirtual;
''',
     '''  if (
    xorcaAmountToConvert <= BigInt(Number.MAX_SAFE_INTEGER) &&
    nonEscrowedWithVirtual <= BigInt(Number.MAX_SAFE_INTEGER) &&
    xorcaSupplyWithVirtual <= BigInt(Number.MAX_SAFE_INTEGER)
  ) {
    // everything fits a number
    const product = Number(xorcaAmountToConvert) * Number(nonEscrowedWithVirtual);
    return BigInt(Math.floor(product / Number(xorcaSupplyWithVirtual)));
  }
  return (xorcaAmountToConvert * nonEscrowedWithVirtual) / xorcaSupplyWithVirtual;
'''),
]
DEMO = """
def rate(a, n, s):
    k, out = call("conv", u64(a, n, s), 1)
    return k, int.from_bytes(out, "little")
check(rate(1000, 2000, 1000) == (0, 1000 * 2100 // 1100), "a small conversion")
a, n, s = 9007199254740881, 9007199254740007, 3000000000000001
check(rate(a, n, s) == (0, a * (n + 100) // (s + 100)), "a conversion whose product exceeds 2^53")
"""
