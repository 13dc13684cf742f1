"""Runs the compiled program from /repo natively on concrete accounts (no symbolic execution).

run(instr, **values): a well-formed request with the given overrides -> (result, accounts after)"""
import os
import shutil
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.setrecursionlimit(100000)
import native
import prog
import sol
import svm
import term as T

BUILT = None


def build():
    global BUILT
    if BUILT is None:
        d = tempfile.mkdtemp(prefix="demo_")
        shutil.copytree(os.path.join(HERE, "harness"), os.path.join(d, "harness"))
        prog.VERIF = d
        prog.BUILD = os.path.join(d, "build")
        os.makedirs(prog.BUILD)
        _, so, _ = prog.build_program()
        shim = native.build_shim(prog.BUILD)
        BUILT = (shim, so, d)
        import atexit
        atexit.register(lambda: shutil.rmtree(d, ignore_errors=True))
    return BUILT


def key(n):
    """an address off the curve is not needed: any 32 bytes that collide with nothing"""
    import hashlib
    return hashlib.sha256(b"demo key %d" % n).digest()


le = sol.le


def token(env, name, mint, owner, amount):
    env.update({name + "@owner": le(sol.TOKEN), name + "@len": 165, name + ".mint": le(mint), name + ".owner": le(owner),
                name + ".amount": amount, name + ".state": 1, name + "@lamports": 2039280, name + "@writable": 1})


def mint(env, name, k, supply, authority=None):
    env.update({name + "@key": le(k), name + "@owner": le(sol.TOKEN), name + "@len": 82, name + ".init": 1,
                name + ".decimals": 6, name + ".supply": supply, name + "@lamports": 1461600, name + "@writable": 1,
                name + ".auth_flag": 1, name + ".authority": le(authority or key(99))})


def healthy(instr, ctx, V, E, S, x, idx, user, balance, amount, ts, now, cooldown, authority):
    env = {"rent.rate": 3480, "clock.unix_timestamp": now, "clock.slot": 1, "arg.amount": x, "arg.index": idx,
           "arg.cooldown": cooldown & (2 ** 64 - 1)}
    for i, a in enumerate(ctx.accts):
        env[a.name + "@key"] = le(key(i + 1))
        env[a.name + "@owner"] = 0
        env[a.name + "@len"] = 0
        env[a.name + "@lamports"] = 10 ** 10
        env[a.name + "@writable"] = 1
        env[a.name + "@signer"] = 0
    for r, k in (("token_program", sol.TOKEN), ("system_program", sol.SYSTEM), ("ata_program", sol.ATA)):
        if r in ctx.role:
            env[r + "@key"] = le(k)
            env[r + "@owner"] = 1
    who = {"stake": "staker", "unstake": "unstaker", "withdraw": "unstaker", "initialize": "payer",
           "set": "update_authority"}[instr]
    env[who + "@signer"] = 1
    env[who + "@key"] = le(authority if instr == "set" else user)
    env["state@key"] = le(sol.STATE)
    if instr != "initialize":
        env.update({"state@owner": le(sol.PID), "state@len": 2048, "state.disc": 1, "state.bump": sol.STATE_BUMP,
                    "state.vault_bump": sol.VAULT_BUMP, "state.escrow": E, "state.cooldown": 604800 if instr == "set" else cooldown,
                    "state.authority": le(authority), "state@lamports": 15144960})
    if "vault" in ctx.role:
        env["vault@key"] = le(sol.VAULT)
        if instr != "initialize":
            token(env, "vault", sol.ORCA, sol.STATE, V)
        else:
            env["vault@lamports"] = env["state@lamports"] = 0
    if "orca_mint" in ctx.role:
        mint(env, "orca_mint", sol.ORCA, 75 * 10 ** 12)
    if "xorca_mint" in ctx.role:
        mint(env, "xorca_mint", sol.XORCA, S, sol.STATE)
    if instr == "stake":
        token(env, "staker_orca_ata", sol.ORCA, user, balance)
        token(env, "staker_xorca_ata", sol.XORCA, user, 0)
    if instr == "unstake":
        token(env, "unstaker_xorca_ata", sol.XORCA, user, balance)
    if instr == "withdraw":
        token(env, "unstaker_orca_ata", sol.ORCA, user, balance)
    if "pending" in ctx.role:
        a, b = sol.pending_pda(user, idx)
        env.update({"pending@key": le(a), "pending@lamports": 0})
        if instr == "withdraw":
            env.update({"pending@owner": le(sol.PID), "pending@len": 1024, "pending@lamports": 8017920, "pending.disc": 2,
                        "pending.bump": b, "pending.index": idx, "pending.unstaker": le(user), "pending.amount": amount,
                        "pending.ts": ts})
    if instr == "initialize":
        env["update_authority@signer"] = 1
        env["update_authority@key"] = le(authority)
        env["payer@key"] = le(sol.DEPLOYER)
    return env


class After:
    """field access on the accounts after the run"""

    def __init__(self, ctx, res, env):
        self.ctx, self.res, self.env = ctx, res, env

    def raw(self, role):
        return self.res.final[self.ctx[role].i]

    def f(self, role, layout, field):
        o, n = sol.LAYOUT[layout][field]
        return int.from_bytes(self.raw(role)[3][o:o + n], "little")

    def owner(self, role):
        return self.raw(role)[0]

    def lamports(self, role):
        return self.raw(role)[1]

    def length(self, role):
        return self.raw(role)[2]


def run(instr, variant=None, classes=None, over=None, data=None, nacc=None, V=5000000, E=700000, S=3100000, x=1000, idx=3,
        user=None, balance=2000000, amount=50000, ts=1000, now=2000, cooldown=604800, authority=None):
    shim, so, _ = build()
    ctx = prog.Ctx(instr, classes, nacc=nacc)
    cells = prog.data_cells(instr, ctx, variant) if data is None else list(data)
    env = healthy(instr, ctx, V, E, S, x, idx, user or key(50), balance, amount, ts, now, cooldown, authority or key(60))
    env.update(over or {})
    res = native.run(shim, so, ctx, env, cells)
    return res, After(ctx, res, env)


def events(res):
    return [bytes(b for b in e[1][0]) for e in res.trace or [] if e[0] == "event"]


def check(c, what):
    if not c:
        print("FAILED:", what)
        sys.exit(1)
    print("ok:", what)
