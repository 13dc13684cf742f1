KIND = "js"
PROPERTY = 'C26'
NEEDS = 'a failed transaction whose failing instruction is not one of this program'
BREAKS = 'errors of other programs with the same number are taken for this program errors, if any instruction of the transaction is of this program'
EDITS = [
    ('js-client/src/generated/errors/xorcaStakingProgram.ts',
     """  return isProgramError<TProgramErrorCode>(
    error,
    transactionMessage,
    XORCA_STAKING_PROGRAM_PROGRAM_ADDRESS,
    code
  );""",
     """  return Object.values(transactionMessage.instructions).some(
    (instruction) =>
      instruction.programAddress === XORCA_STAKING_PROGRAM_PROGRAM_ADDRESS &&
      isProgramError<TProgramErrorCode>(
        error,
        { instructions: transactionMessage.instructions },
        transactionMessage.instructions[0].programAddress,
        code
      )
  );"""),
]
DEMO = """
PID = call("constants", b"")[1][79:111]
def run(code, index, a, b, want):
    k, out = call("isError", code.to_bytes(4, "little") + bytes([index]) + bytes(11) + a + b, 0)
    check(k == 0 and out == bytes([want]), "error of instruction %d" % index)
run(6000, 0, PID, PID, 1)
run(6000, 0, key(1), key(2), 0)
run(6000, 0, PID, key(2), 1)
run(6000, 1, key(1), PID, 1)
run(6000, 0, key(1), PID, 0)
"""
