"""z3 back end (bit-vector mode).  Symbolic*symbolic multiplications and divisions are
uninterpreted unless exact=True, which over-approximates: 'unsat' answers are sound."""
import time
import z3
from term import *

stats = {"queries": 0, "time": 0.0, "unsat": 0, "sat": 0, "unknown": 0, "int_queries": 0, "int_time": 0.0,
         "bv_exact_queries": 0}

_uf = {}


def _func(name, *sorts):
    k = (name,) + tuple(str(s) for s in sorts)
    f = _uf.get(k)
    if f is None:
        f = z3.Function("%s!%d" % (name, len(_uf)), *sorts)
        _uf[k] = f
    return f


def bvs(w):
    return z3.BoolSort() if w == 1 else z3.BitVecSort(w)


NONHASH = set()      # 256-bit constants assumed not to be the sha256 of anything


class Enc:
    """term -> z3 translator; side conditions of a condition's subterms come from axioms_for()"""

    def __init__(self, exact=False):
        self.exact = exact
        self.cache = {}
        self.ax = {}        # term id -> [axioms]
        self._axc = {}

    def axioms_for(self, c):
        """axioms (keyed) of every subterm of the width-1 term c"""
        r = self._axc.get(c.id)
        if r is None:
            self.t(c)
            r = {}
            for x in subterms([c], lambda x: x.id in self.ax or (x.op == "eq" and x.args[2] == 256)):
                if x.id in self.ax:
                    for k, e in enumerate(self.ax[x.id]):
                        r[(x.id, k)] = e
                if x.op == "eq":
                    for v in x.args[:2]:
                        if isint(v):
                            for k, e in enumerate(self._const_ax(v)):
                                r[("c", v, k)] = e
            self._axc[c.id] = r
        return r

    def _const_ax(self, v):
        s256 = z3.BitVecSort(256)
        tag = _func("shalen", s256, z3.IntSort())
        c = z3.BitVecVal(v, 256)
        if v in KNOWN_HASH:
            m, n = KNOWN_HASH[v]
            mv = z3.BitVecVal(m, n)
            return [tag(c) == n, _func("shainv%d" % n, s256, z3.BitVecSort(n))(c) == mv,
                    _func("sha%d" % n, mv.sort(), s256)(mv) == c]
        if v in NONHASH:
            return [tag(c) == -1]
        return []

    def _b2v(self, e, w):
        return z3.If(e, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) if w == 1 else e

    def val(self, v, w):
        if isint(v):
            return z3.BoolVal(bool(v)) if w == 1 else z3.BitVecVal(v, w)
        return self.t(v)

    def bv(self, v, w):
        """as a bit-vector sort even if width 1"""
        return self._b2v(self.val(v, w), w)

    def t(self, t):
        r = self.cache.get(t.id)
        if r is not None:
            return r
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in self.cache:
                stack.pop()
                continue
            pend = [c for c in children(x) if c.id not in self.cache]
            if pend:
                stack.extend(pend)
                continue
            self.cache[x.id] = self._mk(x)
            stack.pop()
        return self.cache[t.id]

    def _mk(self, x):
        op, a, w = x.op, x.args, x.w
        V = self.val
        if op == "var":
            return z3.Bool(a[0]) if w == 1 else z3.BitVec(a[0], w)
        if op == "concat":
            return z3.Concat(*[self.bv(v, vw) for v, vw in a])
        if op == "extract":
            e = z3.Extract(a[1], a[2], V(a[0], a[0].w))
            return e == z3.BitVecVal(1, 1) if w == 1 else e
        if op == "sext":
            return z3.SignExt(w - a[1], self.bv(a[0], a[1]))
        if op == "not":
            return z3.Not(V(a[0], 1))
        if op in ("and", "or", "xor") and w == 1:
            f = {"and": z3.And, "or": z3.Or, "xor": z3.Xor}[op]
            return f(V(a[0], 1), V(a[1], 1))
        if op in BIN:
            l, r = V(a[0], w), V(a[1], w)
            if op in ("mul", "udiv", "urem", "sdiv", "srem") and not self.exact and not (
                    isint(a[1]) or (op == "mul" and isint(a[0]))):
                f = _func(op + str(w), l.sort(), r.sort(), l.sort())
                e = f(l, r)
                if op == "udiv":
                    self.ax.setdefault(x.id, []).append(z3.ULE(e, l))
                if op == "urem":
                    self.ax.setdefault(x.id, []).append(z3.Implies(r != 0, z3.ULT(e, r)))
                return e
            return {"add": lambda: l + r, "sub": lambda: l - r, "mul": lambda: l * r, "udiv": lambda: z3.UDiv(l, r),
                    "urem": lambda: z3.URem(l, r), "sdiv": lambda: l / r, "srem": lambda: z3.SRem(l, r),
                    "and": lambda: l & r, "or": lambda: l | r, "xor": lambda: l ^ r, "shl": lambda: l << r,
                    "lshr": lambda: z3.LShR(l, r), "ashr": lambda: l >> r}[op]()
        if op == "eq":
            return V(a[0], a[2]) == V(a[1], a[2])
        if op in ("ult", "ule", "slt", "sle"):
            l, r = self.bv(a[0], a[2]), self.bv(a[1], a[2])
            return {"ult": z3.ULT, "ule": z3.ULE, "slt": lambda p, q: p < q, "sle": lambda p, q: p <= q}[op](l, r)
        if op == "ite":
            return z3.If(V(a[0], 1), V(a[1], w), V(a[2], w))
        if op == "umulo":
            l, r = V(a[0], a[2]), V(a[1], a[2])
            if self.exact:
                return z3.Not(z3.BVMulNoOverflow(l, r, False))
            return _func("umulo%d" % a[2], l.sort(), r.sort(), z3.BoolSort())(l, r)
        if op == "sha256":
            n = a[1]
            m = V(a[0], n)
            s256 = z3.BitVecSort(256)
            h = _func("sha%d" % n, m.sort(), s256)(m)
            tag = _func("shalen", s256, z3.IntSort())
            self.ax.setdefault(x.id, []).append(tag(h) == n)
            self.ax.setdefault(x.id, []).append(_func("shainv%d" % n, s256, m.sort())(h) == m)
            return h
        if op == "uf" and a[0] == "nonhash":
            e = self.val(a[1][0], 256)
            return _func("shalen", z3.BitVecSort(256), z3.IntSort())(e) == -1
        if op == "uf":
            args = [self.val(v, vw) for v, vw in a[1:]]
            return _func("uf_" + a[0], *([e.sort() for e in args] + [bvs(w)]))(*args)
        raise NotImplementedError(op)


class Feas:
    """incremental satisfiability of path conditions"""

    def __init__(self, exact=False, timeout_ms=20000):
        self.enc = Enc(exact)
        self.s = z3.Solver()
        self.s.set("timeout", timeout_ms)
        self.stack = []
        self.have = [set()]

    def _push(self, c):
        self.s.push()
        self.s.add(self.enc.val(c, 1))
        mine = set()
        for k, e in self.enc.axioms_for(c).items():
            if not any(k in h for h in self.have):
                self.s.add(e)
                mine.add(k)
        self.have.append(mine)
        self.stack.append(c)

    def _sync(self, conds):
        n = 0
        while n < len(self.stack) and n < len(conds) and self.stack[n] is conds[n]:
            n += 1
        k = len(self.stack) - n
        if k:
            self.s.pop(k)
            del self.stack[n:]
            del self.have[n + 1:]
        for c in conds[n:]:
            self._push(c)

    def check(self, conds):
        """conds: width-1 values -> 'sat' | 'unsat' | 'unknown'"""
        cs = []
        seen = set()
        for c in conds:
            if isint(c):
                if not c:
                    return "unsat"
            elif c.id not in seen:
                seen.add(c.id)
                cs.append(c)
        t0 = time.time()
        self._sync(cs)
        r = str(self.s.check())
        stats["queries"] += 1
        stats["time"] += time.time() - t0
        stats[r] += 1
        return r

    def model(self, variables):
        m = self.s.model()
        env = {}
        for v in variables:
            r = m.eval(self.enc.t(v), model_completion=True)
            env[v.args[0]] = (1 if z3.is_true(r) else 0) if v.w == 1 else r.as_long()
        return env

    def eval(self, t):
        if isint(t):
            return t
        r = self.s.model().eval(self.enc.t(t), model_completion=True)
        return (1 if z3.is_true(r) else 0) if t.w == 1 else r.as_long()
