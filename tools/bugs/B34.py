KIND = "js"
PROPERTY = 'C26'
NEEDS = 'a withdrawal index of 128 or more'
BREAKS = 'findPendingWithdrawAddress finds another address than the program for indices above 127'
EDITS = [
    ('js-client/src/utils/index.ts',
     "      new Uint8Array([withdrawIndex]),",
     "      new TextEncoder().encode(String.fromCharCode(withdrawIndex)),"),
]
DEMO = """
import hashlib
def derive(*seeds):
    P = 2 ** 255 - 19
    D = -121665 * pow(121666, P - 2, P) % P
    for bump in range(255, -1, -1):
        h = hashlib.sha256(b"".join(seeds) + bytes([bump]) + PID + b"ProgramDerivedAddress").digest()
        y = int.from_bytes(h, "little") & (2 ** 255 - 1)
        x2 = (y * y - 1) * pow(D * y * y + 1, P - 2, P) % P
        if x2 and pow(x2, (P - 1) // 2, P) != 1:
            return h
PID = call("constants", b"")[1][79:111]
for i in (0, 1, 127, 128, 255):
    check(recaddr(key(1), i) == derive(b"pending_withdraw", key(1), bytes([i])), "index %d" % i)
"""
