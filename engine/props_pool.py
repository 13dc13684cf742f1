"""Properties over several instructions, and over malformed requests."""
import itertools
import random
import time
import term as T
from term import isint
import harn
import native
import prog
import props_chain as P
import sol
import svm
from props_chain import W, z, a_, m_, le, lt


# ---------------------------------------------------------------- C12 malformed requests
def bytes_cells(ctx, n):
    ctx.args = {}
    b = [T.var("data.%d" % i, 8) for i in range(n)]
    ctx.args["bytes"] = b
    return [(x, 0) for x in b]


def well_formed(b):
    """the documented wire format: tag byte and a complete payload (little-endian fields)"""
    n = len(b)
    if n == 0:
        return 0
    need = {0: 8, 1: 9, 2: 1, 3: 8}
    cs = [T.eq(b[0], t, 8) for t, k in need.items() if n - 1 >= k]
    if n >= 2:
        cs += [T.And(T.eq(b[0], 4, 8), T.eq(b[1], t, 8)) for t, k in ((0, 8), (1, 32)) if n - 2 >= k]
    return T.Or(0, *cs)


def ob_data(v):
    """no accounts are passed: decoding fails with 6000, or the missing accounts are reported with 6003"""
    wf = well_formed(v.c.args["bytes"])
    if v.o.kind != "err":
        yield "arbitrary instruction data never faults (%s)" % v.o.kind, 0
    elif v.o.info["code"] == 6000:
        yield "complete instructions are not rejected as unknown", T.Not(wf)
    else:
        yield "data without a valid tag and a complete payload is rejected as unknown", wf
        yield "missing accounts are reported", int(v.o.info["code"] == 6003)


def ob_short(v):
    yield "a request with missing accounts fails with 6003 and no fault (%s %s)" % (v.o.kind, v.o.info.get("code")), int(
        v.o.kind == "err" and (v.o.info["code"] == 6003 or v.o.info["code"] in EARLY))


EARLY = ()


def ob_pid(v):
    same = T.eq(svm.cat([(c[0] if type(c) is tuple else c, 1) for c in v.c.pid]), svm.K_PID, 256)
    if v.o.kind == "err" and v.o.info["code"] == 6001:
        yield "only a foreign program id is rejected as such", T.Not(same)
    else:
        yield "a foreign program id is rejected", same


def t_data(rec, chain, n):
    harn.run_chain(chain, rec, "set", None, 0, inv=False, obligations=ob_data, validate=3,
                   cells=lambda c: bytes_cells(c, n), nacc=0, label=" %d data bytes" % n, witness_any=True)


def t_short(rec, chain, instr, var, k):
    harn.run_chain(chain, rec, instr, None, var, obligations=ob_short, validate=1, nacc=k, inv=False,
                   label=" %d accounts" % k, witness_any=True)


def t_pid(rec, chain):
    def setup(c):
        c.pid = [(T.var("pid.%d" % i, 8), 0) for i in range(32)]
    harn.run_chain(chain, rec, "set", None, 0, obligations=ob_pid, validate=2, setup=setup, nacc=0,
                   label=" any program id", witness_any=True)


def t_nofault(rec, chain, instr, var, cl):
    harn.run_chain(chain, rec, instr, cl, var, inv=False, obligations=P.ob_nofault, validate=0)


def c12(prop, tier):
    import props
    t0 = time.time()
    chain = harn.Chain()
    top = 48 if tier != "thorough" else 200
    tasks = [(t_nofault, (chain, i, v, cl), {}) for i, v, cl in props.chain_cfg(props.ALL, tier)]
    tasks += [(t_data, (chain, n), {}) for n in range(top + 1)]
    tasks += [(t_short, (chain, i, v, k), {}) for i, v in P.INSTRS for k in range(len(sol.ROLES[i]))]
    tasks.append((t_pid, (chain,), {}))
    rec = harn.run_tasks(tasks, 820 if tier != "thorough" else 7000)
    b = {"data": "every byte string of 0..%d bytes with no accounts" % top,
         "accounts": "every shorter account list; every full list with arbitrary contents (program accounts unrestricted), "
                     "all distinct and every pair of slots aliased", "program_id": "any 32 bytes", "configurations": len(tasks)}
    return harn.conclude(prop, rec, t0, b, props.ASSUME[:1] + props.ASSUME[2:], need_witness=props.ALL)


# ---------------------------------------------------------------- C02 round trips and splitting
POOLVARS = ("vault.amount", "state.escrow", "xorca_mint.supply", "arg.amount")


class Leg:
    """the effect of one successful path on the pool"""

    def __init__(self, v, cells):
        self.v, self.cells = v, cells
        self.instr = v.c.instr
        self.V, self.E, self.S = (v.post("vault", "token", "amount"), v.post("state", "state", "escrow"),
                                  v.post("xorca_mint", "mint", "supply"))
        self.pre = [v.pre("vault", "token", "amount"), v.pre("state", "state", "escrow"), v.pre("xorca_mint", "mint", "supply")]
        self.x = v.c.args["amount"]
        pool = set(self.pre + [self.x])
        self.pool = pool
        self.conds = [c for c in conjuncts(v.o.pc) if set(T.vars_of(c)) <= pool]
        self.out = (T.sub(self.S, self.pre[2], 64) if self.instr == "stake" else
                    v.post("pending", "pending", "amount"))

    def key(self):
        return (self.V, self.E, self.S, self.out, tuple(sorted(c.id for c in self.conds)))


def conjuncts(pc):
    out, stack, seen = [], list(pc), set()
    while stack:
        c = stack.pop()
        if isint(c) or c.id in seen:
            continue
        seen.add(c.id)
        if c.op == "and" and c.w == 1:
            stack += c.args
        elif c.op == "not" and not isint(c.args[0]) and c.args[0].op == "or":
            stack += [T.bnot(x) for x in c.args[0].args]
        else:
            out.append(c)
    return out


def legs(chain, rec, instr):
    ctx = prog.Ctx(instr)
    ctx.prog_inv()
    cells = prog.data_cells(instr, ctx)
    out = {}
    for o in prog.explore(chain.mod, ctx, cells):
        k = o.kind if o.kind != "err" else "err %s" % o.info["code"]
        rec.paths[k] = rec.paths.get(k, 0) + 1
        if o.kind == "ok":
            l = Leg(harn.View(ctx, o), cells)
            out.setdefault(l.key(), l)
            rec.witness[instr] = rec.witness.get(instr, 0) + 1
    rec.transitions += ctx.m.n_forks
    rec.instructions += ctx.m.n_ins
    for k, n in ctx.m.funcs_run.items():
        rec.funcs[k] = rec.funcs.get(k, 0) + n
    return list(out.values())


def allvars(pc):
    return {v for c in pc if not isint(c) for v in T.vars_of(c)}


def rename(l, tag, pre, x):
    """substitution putting leg l into a pool state pre with amount x; its other inputs are renamed apart"""
    m = {a: b for a, b in zip(l.pre, pre)}
    m[l.x] = x
    for v in allvars(l.v.o.pc):
        if v not in m:
            m[v] = T.var("%s:%s" % (tag, v.args[0]), v.w)
    return m


def put(l, m):
    memo = {}
    g = lambda t: T.subst(t, m, memo)
    return [g(c) for c in l.conds], g(l.V), g(l.E), g(l.S), g(l.out)


def replay(rec, chain, runs, env):
    """run the legs one after another on the compiled program -> (all agreed, transcript)"""
    tr = []
    for l, m in runs:
        ctx = l.v.c
        e = {}
        memo = {}
        for v in allvars(l.v.o.pc) | set(m):
            e[v.args[0]] = T.evaluate(m.get(v, v), env, memo)
        res = native.run(chain.shim, chain.so, ctx, e, l.cells)
        bad = native.agree(ctx, l.v.o, e, res)
        tr.append({"instruction": l.instr, "inputs": harn.describe(e), "native": repr(res), "agrees": bad is None})
        if bad is not None:
            return False, tr
    return True, tr


def scenario(rec, chain, what, cfg, pv, hyp, runs, goal, ms, fs):
    """runs: [(leg, substitution)]"""
    conds = list(hyp)
    for l, m in runs:
        conds += put(l, m)[0]
    conds = [c for c in conds if not (isint(c) and c)]
    try:
        r = pv.decide(conds, goal, ms, fs)
    except harn.Inconclusive as e:
        rec.inconclusive.append("%s: %s: %s" % (cfg, what, e))
        return
    if r == "proved":
        if rec.validated < 1 and cfg != "unstake+unstake":       # replay one such history
            full = list(hyp)
            for l, m in runs:
                full += [T.subst(c, m) for c in l.v.o.pc if not isint(c)]
            hint = (("vault.amount", 5000), ("state.escrow", 700), ("xorca_mint.supply", 3100), ("amount1", 90), ("amount2", 70))
            env = pv.models.get(full + [T.eq(T.var(n, 64), k, 64) for n, k in hint], budget=10)
            if isinstance(env, dict):
                good, tr = replay(rec, chain, runs, env)
                if good:
                    rec.validated += 1
                    rec.samples.append({"config": cfg, "history": tr})
                else:
                    rec.mismatch.append({"cfg": cfg, "diff": tr})
        return
    # complete inputs for every leg, then run them for real
    full = list(hyp)
    for l, m in runs:
        full += [T.subst(c, m) for c in l.v.o.pc if not isint(c)]
    fix = [T.eq(v, r.get(v.args[0], 0), v.w) for v in sorted({v for c in conds + [goal] for v in T.vars_of(c)}, key=str)]
    env = pv.models.get(full + fix, budget=60)
    if not isinstance(env, dict):
        env = pv.models.get(full + [T.bnot(goal)], budget=60)
    if not isinstance(env, dict):
        rec.inconclusive.append("%s: %s: candidate could not be completed" % (cfg, what))
        return
    good, tr = replay(rec, chain, runs, env)
    if good:
        rec.validated += 1
        rec.violations.append({"what": what, "config": cfg, "inputs": harn.describe(env), "history": tr, "reproduced": True})
    else:
        rec.mismatch.append({"cfg": cfg, "title": what, "diff": tr})


def t_c02(rec, chain, which, part, parts):
    pv = harn.Prover(rec)
    V, E, S = T.var("vault.amount", 64), T.var("state.escrow", 64), T.var("xorca_mint.supply", 64)
    x, y = T.var("amount1", 64), T.var("amount2", 64)
    pre = (V, E, S)
    N = T.sub(z(V), z(E), W)
    hyp = [T.ule(E, V, 64), T.ult(0, S, 64), le(z(S), N)]
    s, d = a_(z(S), 100), a_(N, 100)
    st = legs(chain, rec, "stake") if which != "unstake+unstake" else []
    un = legs(chain, rec, "unstake") if which != "stake+stake" else []
    rec.extra["distinct pool effects"] = {"stake": len(st), "unstake": len(un)}
    k = 0
    if which == "stake-unstake":
        for a, b in itertools.product(st, un):
            k += 1
            if k % parts != part:
                continue
            ma = rename(a, "1", pre, x)
            _, V1, E1, S1, m = put(a, ma)
            mb = rename(b, "2", (V1, E1, S1), m)
            _, V2, E2, S2, w = put(b, mb)
            s1 = a_(z(S1), 100)
            scenario(rec, chain, "staking and at once unstaking the minted xORCA returns no more ORCA than was staked",
                     which, pv, hyp, [(a, ma), (b, mb)], T.ule(w, x, 64), (d, s1), (le(z(w), z(x)),))
    elif which == "unstake-stake":
        for a, b in itertools.product(un, st):
            k += 1
            if k % parts != part:
                continue
            ma = rename(a, "1", pre, x)
            _, V1, E1, S1, w = put(a, ma)
            mb = rename(b, "2", (V1, E1, S1), w)
            _, V2, E2, S2, m = put(b, mb)
            d1 = a_(T.sub(z(V1), z(E1), W), 100)
            # the pool that is left keeps some xORCA: otherwise the next stake starts a new pool
            scenario(rec, chain, "unstaking and staking the proceeds returns no more xORCA than was unstaked",
                     which, pv, hyp + [T.ult(0, S1, 64)], [(a, ma), (b, mb)], T.ule(m, x, 64), (s, d, d1), (le(z(m), z(x)),))
    else:
        ls = st if which == "stake+stake" else un
        for a, b, c in itertools.product(ls, ls, ls):
            k += 1
            if k % parts != part:
                continue
            ma = rename(a, "1", pre, x)
            _, V1, E1, S1, p = put(a, ma)
            mb = rename(b, "2", (V1, E1, S1), y)
            _, V2, E2, S2, q = put(b, mb)
            mc = rename(c, "3", pre, T.add(x, y, 64))
            _, V3, E3, S3, r = put(c, mc)
            big = T.Not(T.uaddo(x, y, 64))
            s1, d1 = a_(z(S1), 100), a_(T.sub(z(V1), z(E1), W), 100)
            if which == "stake+stake":
                ms, f = (d, d1, z(y), a_(d, z(x))), (le(m_(z(q), d), m_(z(y), s)),)
            else:
                ms, f = (s, s1, z(y), T.sub(s, z(x), W)), (le(z(y), z(S1)),)
            scenario(rec, chain, "splitting one %s in two never yields more" % which.split("+")[0], which, pv,
                     hyp + [big] + ([T.ult(0, S1, 64)] if which == "unstake+unstake" else []),
                     [(a, ma), (b, mb), (c, mc)], le(a_(z(p), z(q)), z(r)), ms, f)


def c02(prop, tier):
    import props
    t0 = time.time()
    chain = harn.Chain()
    tasks = [(t_c02, (chain, w, 0, 1), {}) for w in ("stake-unstake", "unstake-stake", "stake+stake", "unstake+unstake")]
    rec = harn.run_tasks(tasks, 820 if tier != "thorough" else 7000)
    b = {"histories": "two successive successful instructions by anyone, from any pool with 0 < supply <= vault - escrow",
         "accounts": "all distinct", "inputs": "all amounts and pool balances: any 64-bit values"}
    return harn.conclude(prop, rec, t0, b, props.ASSUME, need_witness=("stake", "unstake"),
                         extra={"pool_effects": rec.extra})
