"""Solana constants, program-derived addresses and account layouts."""
import hashlib
import term as T
from term import isint

B58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"


def b58(s):
    n = 0
    for c in s:
        n = n * 58 + B58.index(c)
    return n.to_bytes(32, "big")


def b58enc(b):
    n = int.from_bytes(b, "big")
    out = ""
    while n:
        n, r = divmod(n, 58)
        out = B58[r] + out
    for c in b:
        if c:
            break
        out = "1" + out
    return out


def le(b):
    return int.from_bytes(b, "little")


SYSTEM = bytes(32)
TOKEN = b58("TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA")
ATA = b58("ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL")
PID = b58("StaKE6XNKVVhG8Qu9hDJBqCW3eRe7MDGLz17nJZetLT")
ORCA = b58("orcaEKTdK7LKz57vaAYr9QeNsVEPfiu6QeMU1kektZE")
XORCA = b58("xorcaYqbXUNz3474ubUMJAdu2xgPsew3rUCe5ughT3N")
DEPLOYER = b58("94kZD71sbTKhqhcvY9D9Ra5BsLzKRZgznbBbQpBWmKrT")
INCINERATOR = b58("1nc1nerator11111111111111111111111111111111")
MARK = b"ProgramDerivedAddress"

# ---------------------------------------------------------------- ed25519 curve membership
_P = 2 ** 255 - 19
_D = (-121665 * pow(121666, _P - 2, _P)) % _P


def on_curve(b):
    y = int.from_bytes(b, "little") & ((1 << 255) - 1)
    y2 = y * y % _P
    u = (y2 - 1) % _P
    v = (_D * y2 + 1) % _P
    # x^2 = u/v must be a square
    x2 = u * pow(v, _P - 2, _P) % _P
    if x2 == 0:
        # curve25519-dalek decompress: x = 0 is accepted for either sign
        return True
    return pow(x2, (_P - 1) // 2, _P) == 1


def pda_msg(seeds, bump, program):
    return b"".join(seeds) + bytes([bump]) + program + MARK


_fpa = {}


def find_pda(seeds, program):
    k = (tuple(seeds), program)
    r = _fpa.get(k)
    if r is None:
        for bump in range(255, -1, -1):
            h = hashlib.sha256(pda_msg(seeds, bump, program)).digest()
            if not on_curve(h):
                r = (h, bump)
                break
        _fpa[k] = r
    return r


STATE, STATE_BUMP = find_pda([b"state"], PID)
VAULT, VAULT_BUMP = find_pda([STATE, TOKEN, ORCA], ATA)


def pending_pda(unstaker, idx):
    return find_pda([b"pending_withdraw", unstaker, bytes([idx])], PID)


# ---------------------------------------------------------------- layouts: name -> (offset, bytes)
L_STATE = {"disc": (0, 1), "pad1": (1, 5), "bump": (6, 1), "vault_bump": (7, 1), "escrow": (8, 8), "cooldown": (16, 8),
           "authority": (24, 32), "pad2": (56, 1992)}
L_PENDING = {"disc": (0, 1), "pad1": (1, 5), "bump": (6, 1), "index": (7, 1), "unstaker": (8, 32), "amount": (40, 8),
             "ts": (48, 8), "pad2": (56, 968)}
L_MINT = {"auth_flag": (0, 4), "authority": (4, 32), "supply": (36, 8), "decimals": (44, 1), "init": (45, 1),
          "freeze_flag": (46, 4), "freeze": (50, 32)}
L_TOKEN = {"mint": (0, 32), "owner": (32, 32), "amount": (64, 8), "delegate_flag": (72, 4), "delegate": (76, 32),
           "state": (108, 1), "native_flag": (109, 4), "native_amount": (113, 8), "delegated_amount": (121, 8),
           "close_flag": (129, 4), "close": (133, 32)}
LEN = {"state": 2048, "pending": 1024, "mint": 82, "token": 165}
LAYOUT = {"state": L_STATE, "pending": L_PENDING, "mint": L_MINT, "token": L_TOKEN, "raw": {}}

# account roles per instruction, in order: (name, layout)
ROLES = {
    "stake": [("staker", "raw"), ("vault", "token"), ("staker_orca_ata", "token"), ("staker_xorca_ata", "token"),
              ("xorca_mint", "mint"), ("state", "state"), ("orca_mint", "mint"), ("token_program", "raw")],
    "unstake": [("unstaker", "raw"), ("state", "state"), ("pending", "pending"), ("unstaker_xorca_ata", "token"),
                ("xorca_mint", "mint"), ("orca_mint", "mint"), ("vault", "token"), ("system_program", "raw"),
                ("token_program", "raw")],
    "withdraw": [("unstaker", "raw"), ("state", "state"), ("pending", "pending"), ("unstaker_orca_ata", "token"),
                 ("vault", "token"), ("orca_mint", "mint"), ("system_program", "raw"), ("token_program", "raw")],
    "initialize": [("payer", "raw"), ("update_authority", "raw"), ("state", "state"), ("vault", "token"),
                   ("xorca_mint", "mint"), ("orca_mint", "mint"), ("system_program", "raw"), ("token_program", "raw"),
                   ("ata_program", "raw")],
    "set": [("update_authority", "raw"), ("state", "state")],
}
TAG = {"stake": 0, "unstake": 1, "withdraw": 2, "initialize": 3, "set": 4}

ERR = {6000: "UnknownInstructionDiscriminator"}
