"""Runs the compiled Rust client from /repo natively on concrete inputs (no symbolic execution)."""
import os
import shutil
import sys
import tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.setrecursionlimit(100000)
import atexit
import client
import native
import prog
import sol

d = tempfile.mkdtemp(prefix="demo_")
atexit.register(lambda: shutil.rmtree(d, ignore_errors=True))
shutil.copytree(os.path.join(HERE, "harness"), os.path.join(d, "harness"))
prog.VERIF = d
prog.BUILD = os.path.join(d, "build")
os.makedirs(prog.BUILD)
_, SO, _ = prog.build_crate("client")
SHIM = native.build_shim(prog.BUILD)


def call(fn, data, param):
    """-> (how it ended, code, output bytes)"""
    r = client.run_native(SHIM, SO, fn, bytes(data), param)
    return r[0], r[1], r[2]


def u64(*xs):
    return b"".join((x & (2 ** 64 - 1)).to_bytes(8, "little") for x in xs)


def key(n):
    import hashlib
    return hashlib.sha256(b"demo key %d" % n).digest()


def entry(address, exists, data=b"", owner=sol.PID, lamports=1):
    return u64(exists, lamports, len(data)) + owner + address + data + bytes(2048 - len(data))


def ledger(entries, staker=bytes(32), limit=256):
    return u64(len(entries)) + staker + u64(limit) + bytes(16) + b"".join(entries)


def ix(args, n, flags=lambda k: (0, 0)):
    """input of an instruction constructor: args, then n accounts + program + 2 remaining"""
    args = args + bytes(48 - len(args))
    return args + b"".join(key(k) + bytes(flags(k)) + bytes(6) for k in range(n + 3))


def check(ok, what):
    if not ok:
        print("FAILED:", what)
        sys.exit(1)
    print("ok:", what)
