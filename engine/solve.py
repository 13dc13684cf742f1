"""Concrete models of path conditions: a BV model whose hash terms are real hash values."""
import random
import time
import z3
import term as T
from term import isint, M
import smt

# the nonhash predicate is an assumption about the environment: true of any concrete model
T.UF_EVAL["nonhash"] = lambda args: 1


def nonlinear(conds):
    def p(x):
        return x.op in ("mul", "udiv", "urem", "sdiv", "srem", "umulo") and not (
            isint(x.args[1]) or (x.op == "mul" and isint(x.args[0])))
    return T.subterms([c for c in conds if not isint(c)], p)


def hashterms(conds):
    """sha256 / fpa terms, inner first"""
    ts = T.subterms([c for c in conds if not isint(c)],
                    lambda x: x.op == "sha256" or (x.op == "uf" and x.args[0].startswith("fpa")))
    return sorted(ts, key=lambda x: x.id)


def check_env(conds, env):
    memo = {}
    for c in conds:
        v = T.evaluate(c, env, memo)
        if not isint(v) or v != 1:
            return c
    return None


_feas = {}


class Models:
    def __init__(self, timeout_ms=15000):
        self.timeout = timeout_ms

    def _solve(self, conds, exact):
        f = _feas.get(exact)
        if f is None:
            f = _feas[exact] = smt.Feas(exact=exact, timeout_ms=self.timeout)
        r = f.check(conds)
        if exact:
            smt.stats["bv_exact_queries"] += 1
        return f if r == "sat" else None if r == "unsat" else "unknown"

    def _env(self, f, conds):
        vs = set()
        for c in conds:
            if not isint(c):
                vs |= T.vars_of(c)
        return f.model(vs)

    def get(self, conds, prefer=(), budget=60):
        """-> env dict (verified) | 'unsat' | None.  prefer: soft conditions tried first"""
        t0 = time.time()
        conds = [c for c in conds if not (isint(c) and c)]
        if any(isint(c) for c in conds):
            return "unsat"
        nl = nonlinear(conds)
        base = self._solve(conds, False)
        if base is None:
            return "unsat"
        soft = []
        for p in prefer:
            f = self._solve(conds + soft + [p], False)
            if f is not None and f != "unknown":
                soft.append(p)
        if not nl:
            r = self._refine(conds + soft, False)
            return r if r is not None or not soft else self._refine(conds, False)
        # non-linear: bounded ranges first, then candidate values for one operand
        nv = self._operands(nl)
        r = self._corners(conds, soft, nv, min(25, budget / 2))
        if r is not None:
            return r
        # fix all but one operand at the values of a model of the abstraction
        for bits in (10, 20, 64):
            cs = conds + soft + [T.ult(v, 1 << bits, v.w) for v in nv if v.w > bits]
            f = self._solve(cs, False)
            if f is None or f == "unknown":
                continue
            vals = {v: f.eval(v) for v in nv}
            for free in [None] + nv:
                sub = {v: k for v, k in vals.items() if v is not free}
                memo = {}
                c2 = [T.subst(c, sub, memo) for c in conds + soft]
                if any(isint(c) and not c for c in c2):
                    continue
                c2 = [c for c in c2 if not isint(c)] + [T.eq(v, k, v.w) for v, k in sub.items()]
                r = self._refine(c2, True, conds)
                if r is not None:
                    return r
                if time.time() - t0 > budget:
                    return None
        for bits in (6, 10, 16):
            cs = conds + soft + [T.ult(v, 1 << bits, v.w) for v in nv]
            f = self._solve(cs, False)
            if f is None or f == "unknown":
                continue
            r = self._refine(cs, True)
            if r is not None:
                return r
            if time.time() - t0 > budget:
                return None
        rng = random.Random(1)
        # fix the operands of the non-linear terms one after the other
        for attempt in range(12):
            cs = list(conds + soft)
            order = list(nv)
            rng.shuffle(order)
            ok = True
            for v in order:
                if not nonlinear([T.subst(c, {x: 0 for x in ()}) for c in cs]):
                    break
                cand = []
                f = self._solve(cs, False)
                if f is None or f == "unknown":
                    ok = False
                    break
                cand.append(f.eval(v))
                cand += [rng.getrandbits(rng.choice((8, 20, 40, 60, 63))) & M(v.w), M(v.w), M(v.w - 1)]
                if attempt % 2:
                    rng.shuffle(cand)
                done = False
                for k in cand:
                    c2 = [T.subst(c, {v: k}) for c in cs]
                    if any(isint(c) and not c for c in c2):
                        continue
                    c2 = [c for c in c2 if not isint(c)] + [T.eq(v, k, v.w)]
                    f = self._solve(c2, False)
                    if f is not None and f != "unknown":
                        cs = c2
                        done = True
                        break
                if not done:
                    ok = False
                    break
            if ok:
                r = self._refine(cs, True, conds)
                if r is not None:
                    return r
            if time.time() - t0 > budget:
                break
        r = self._refine(conds, True)
        return r

    def _operands(self, nl):
        nv = set()
        for x in nl:
            for v in T.vars_of(x):
                if v.w in (64, 128, 32):
                    nv.add(v)
        return sorted(nv, key=lambda v: v.args[0])

    def spread(self, conds, tries=400, budget=6):
        """a model of the abstraction, with the operands of the non-linear terms moved to values spread over their widths"""
        if hashterms(conds):
            return None
        nv = self._operands(nonlinear(conds))
        f = self._solve(conds, False)
        if f is None or f == "unknown":
            return None
        t0 = time.time()
        rng = random.Random(11)
        base = self._env(f, conds)
        name = [v.args[0] for v in nv]
        for k in range(tries):
            env = dict(base)
            for v, n in zip(nv, name):
                if rng.random() < .85:
                    w = rng.randint(1, v.w)
                    env[n] = min(M(v.w), (1 << (w - 1)) + rng.getrandbits(w - 1) if w > 1 else rng.getrandbits(1))
            if check_env(conds, env) is None:
                return env
            if time.time() - t0 > budget:
                return None
        return None

    def _corners(self, conds, soft, nv, budget):
        """operands of the non-linear terms pinned one after the other at extreme values"""
        t0 = time.time()
        rng = random.Random(7)
        if not 1 < len(nv) <= 8:
            return None
        for attempt in range(40):
            cs = list(conds + soft)
            order = list(nv)
            rng.shuffle(order)
            for v in order:
                top = [M(v.w) - k for k in (0, 1, 2, 99, 100, 101)] + [M(v.w - 1), M(v.w) - rng.getrandbits(v.w // 2)]
                low = [0, 1, 2, 3, 99, 100, 101, rng.getrandbits(v.w // 2)]
                cand = [] if not attempt % 5 and attempt else rng.choice((top, low, low[3:] + top))
                if attempt > 4:
                    k = rng.randrange(len(cand)) if cand else 0
                    cand = cand[k:] + cand[:k]
                done = False
                for k in cand + [None]:
                    if time.time() - t0 > budget:
                        return None
                    if k is None:
                        f = self._solve(cs, False)
                        if f is None or f == "unknown":
                            break
                        k = f.eval(v)
                    c2 = [T.subst(c, {v: k}) for c in cs]
                    if any(isint(c) and not c for c in c2):
                        continue
                    c2 = [c for c in c2 if not isint(c)] + [T.eq(v, k, v.w)]
                    f = self._solve(c2, False)
                    if f is not None and f != "unknown":
                        cs, done = c2, True
                        break
                if not done:
                    break
            else:
                r = self._refine(cs, True, conds)
                if r is not None:
                    return r
        return None

    def _refine(self, conds, exact, orig=None):
        cs = list(conds)
        for it in range(60):
            f = self._solve(cs, exact)
            if f is None or f == "unknown":
                return None
            pend = None
            for h in hashterms(cs):
                if h.op == "sha256":
                    msg, n = h.args
                    mv = f.eval(msg)
                    real = T.sha_concrete(mv, n)
                    if real not in smt.KNOWN_HASH:
                        smt.KNOWN_HASH[real] = (mv, n)
                else:
                    vals = [(f.eval(v), w) for v, w in h.args[1:]]
                    real = T.UF_EVAL[h.args[0]](vals)
                    msg, n, mv = h.args[1][0], h.args[1][1], vals[0][0]
                pend = (h, msg, n, mv, real)
                break
            if pend is None:
                env = self._env(f, list(orig or conds) + list(cs))
                bad = check_env(orig or conds, env)
                return env if bad is None else None
            h, msg, n, mv, real = pend
            # fix the message, replace the term by its value everywhere
            vs = sorted(T.vars_of(msg), key=lambda v: v.id)
            sub = {}
            for v in vs:
                sub[v] = f.eval(v)
            c2 = []
            for c in cs:
                d = T.subst(c, sub)
                if isint(d):
                    if not d:
                        # the real hash contradicts this choice: block it
                        c2 = None
                        break
                else:
                    c2.append(d)
            if c2 is None:
                cs = cs + [T.ne(msg, mv, n)]
                continue
            cs = c2 + [T.eq(v, k, v.w) for v, k in sub.items()]
        return None
