"""Runs the JS client from /repo in node on concrete inputs (no symbolic execution)."""
import atexit
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
d = tempfile.mkdtemp(prefix="demo_")
atexit.register(lambda: shutil.rmtree(d, ignore_errors=True))
subprocess.check_call(["node", os.path.join(HERE, "js", "build.cjs"), "/repo", os.path.join(d, "out")])
MAIN = str(json.load(open(os.path.join(d, "out", "ast.json")))["main"])
node = subprocess.Popen(["node", "native.mjs", MAIN], cwd=os.path.join(d, "out"), stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                        stderr=subprocess.DEVNULL)
atexit.register(node.kill)


def call(fn, data, param=0):
    """-> (code, output bytes); code 1: the client threw"""
    node.stdin.write((json.dumps({"fn": fn, "input": bytes(data).hex(), "param": param}) + "\n").encode())
    node.stdin.flush()
    r = json.loads(node.stdout.readline())
    return ("outside", b"") if "thrown" in r else (r["ret"], bytes.fromhex(r["out"]))


def u64(*xs):
    return b"".join((x & (2 ** 64 - 1)).to_bytes(8, "little") for x in xs)


def key(n):
    return hashlib.sha256(b"demo key %d" % n).digest()


STATE, VAULT = call("pda", bytes(96), 0)[1][:32], None


def entry(address, status, data=b"", owner=bytes(32), lamports=1):
    return address + bytes([status]) + len(data).to_bytes(2, "little") + owner + u64(lamports) + data


def ledger(entries, staker=bytes(32)):
    return staker + bytes([len(entries)]) + b"".join(entries)


def record(index, owner=bytes(32), amount=5, when=9):
    return bytes([2, 0, 0, 0, 0, 0, 254, index]) + owner + u64(amount, when) + bytes(968)


def recaddr(staker, index):
    return call("pda", staker + bytes([index]) + bytes(63), 2)[1][:32]


def check(ok, what):
    if not ok:
        print("FAILED:", what)
        sys.exit(1)
    print("ok:", what)
