KIND = "js"
PROPERTY = 'C20'
NEEDS = 'a pool with xORCA in circulation and no unescrowed ORCA, or the reverse'
BREAKS = 'convertOrcaToXorca applies the virtual offsets where the program converts one to one'
EDITS = [
    ('js-client/src/utils/conversion.ts',
     '''  if (xorcaSupply === 0n || nonEscrowedOrcaAmount === 0n) {
    return orcaAmountToConvert;
  }
''',
     '''  const emptyPool = !(xorcaSupply || nonEscrowedOrcaAmount);
  if (emptyPool) {
    return orcaAmountToConvert;
  }
'''),
]
DEMO = """
def mint(a, n, s):
    k, out = call("conv", u64(a, n, s), 0)
    return k, int.from_bytes(out, "little")
check(mint(5000, 0, 0) == (0, 5000), "first stake")
check(mint(5000, 2000, 1000) == (0, 5000 * 1100 // 2100), "later stake")
check(mint(5000, 700, 0) == (0, 5000), "ORCA sent to the vault before the first stake")
check(mint(5000, 0, 700) == (0, 5000), "no unescrowed ORCA")
"""
