"""The properties and how each is run."""
import os
import sys
import time
import term as T
import harn
import props_chain as P
import props_pool as Q
import props_client as R
import props_js as S
import prog
import sol

ASSUME = [
    "runtime model: Solana account rules, SPL Token / System / Associated-Token programs as in engine/svm.py; SHA-256 "
    "is injective, and no private key's address is a SHA-256 output or a program address",
    "accounts owned by the program with a State or PendingWithdraw discriminator satisfy the data invariant "
    "(established by Initialize/Unstake and preserved by every instruction: C08)",
    "lamports of one account < 2^60, rent rate < 2^32 lamports per byte-year; account data of at most 2048 bytes",
    "logging text and base58 rendering are stubbed out; compute-unit and heap-size limits are not modelled",
]


def chain_cfg(instrs, tier, alias=True):
    out = []
    for instr, var in P.INSTRS:
        if instr not in instrs:
            continue
        for cl in (P.alias_configs(instr, tier) if alias else [None]):
            out.append((instr, var, cl))
    # long ones first
    return sorted(out, key=lambda x: (x[2] is not None, {"unstake": 0, "initialize": 1, "stake": 2}.get(x[0], 3)))


def t_chain(rec, chain, ob, instr, var, cl, kw):
    harn.run_chain(chain, rec, instr, cl, var, obligations=ob, validate=0 if cl else 2, **kw)


def chain_prop(ob, instrs, alias=True, witness=None, bounds=None, more=(), **kw):
    def run(prop, tier):
        t0 = time.time()
        chain = harn.Chain()
        tasks = [(t_chain, (chain, ob, i, v, c, kw), {}) for i, v, c in chain_cfg(instrs, tier, alias)]
        for ob2, instrs2, kw2 in more:
            tasks += [(t_chain, (chain, ob2, i, v, c, kw2), {}) for i, v, c in chain_cfg(instrs2, tier, False)]
        tasks.sort(key=lambda t: t[1][1] is not P.ob_live)
        rec = harn.run_tasks(tasks, 820 if tier != "thorough" else 7000)
        b = {"instructions": list(instrs),
             "accounts": ("all distinct" + (", and every pair of account slots holding the same account" if alias else "")
                          + (", and every two such merges" if alias and tier == "thorough" else "")),
             "configurations": len(tasks), "build_s": round(chain.build_s, 1),
             "inputs": "all instruction arguments, account addresses, owners, lamports, sizes, contents, flags, clock and rent symbolic"}
        if bounds:
            b.update(bounds)
        return harn.conclude(prop, rec, t0, b, ASSUME, need_witness=instrs if witness is None else witness)
    return run


LIVE = {"setup": lambda c: c.assume.extend(P.live_assumptions(c))}
ALL = ("stake", "unstake", "withdraw", "initialize", "set")
REG = {
    "C01": chain_prop(P.ob_price, ALL),
    "C02": Q.c02,
    "C12": Q.c12,
    "C03": chain_prop(P.ob_stake, ("stake",)),
    "C04": chain_prop(P.ob_unstake, ("unstake",)),
    "C05": chain_prop(P.ob_withdraw, ("withdraw",)),
    "C06": chain_prop(P.ob_solvency, ALL),
    "C07": chain_prop(P.ob_auth, ALL),
    "C08": chain_prop(P.ob_canon, ALL),
    "C09": chain_prop(P.ob_set, ("set",)),
    "C10": chain_prop(P.ob_initialize, ("initialize",)),
    "C11": chain_prop(P.ob_rent, ("unstake", "initialize"), more=[(P.ob_live, ("unstake", "initialize"), LIVE)]),
    "C13": chain_prop(P.ob_events, ALL),
    "C21": chain_prop(P.ob_records, ALL),
    "C23": chain_prop(P.ob_live, ALL, alias=False, **LIVE),
    "C24": chain_prop(P.ob_errors, ALL, alias=False),
}


REG.update(R.REG)
REG.update(S.REG)


def main(prop):
    return REG[prop](prop, harn.TIER)
