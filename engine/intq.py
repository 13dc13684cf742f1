"""Integer encoding of bit-vector terms for non-linear queries.

Every bit-vector value is represented by its unsigned integer value, as a polynomial over
Int atoms.  Wrap-around is kept exactly: where an operation can overflow its width a fresh
quotient is introduced.  Monomials of degree >= 2 are treated as fresh atoms (linear
abstraction) in mode 'lin'; in mode 'nia' they are real products.  Both are sound for
'unsat'; a 'sat' answer is only a candidate.
"""
import time
import z3
import term as T
from term import isint, hi, lo, M
import smt

SMALLW = 128


class Poly:
    """dict: sorted tuple of atom ids -> int coefficient"""
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = {k: v for k, v in d.items() if v}

    def __add__(self, o):
        d = dict(self.d)
        for k, v in o.d.items():
            d[k] = d.get(k, 0) + v
        return Poly(d)

    def scale(self, c):
        return Poly({k: v * c for k, v in self.d.items()})

    def __sub__(self, o):
        return self + o.scale(-1)

    def __mul__(self, o):
        d = {}
        for a, x in self.d.items():
            for b, y in o.d.items():
                k = tuple(sorted(a + b))
                d[k] = d.get(k, 0) + x * y
        return Poly(d)

    def const(self):
        if not self.d:
            return 0
        if len(self.d) == 1 and () in self.d:
            return self.d[()]
        return None


def C(n):
    return Poly({(): n})


class IntEnc:
    def __init__(self, lemmas=True):
        self.atoms = []          # (name, hi) ; index = id
        self.cons = []           # list of z3 constraints builder: ("ge0", Poly) | z3 bool
        self.memo = {}
        self.bmemo = {}
        self.z = []
        self.mono = {}
        self.divs = []           # (q, r, n, d) polys
        self.opaque = {}
        self.var = {}            # term id -> atom id for variables
        self.never = lambda c: isint(c) and not c    # is the condition c impossible here?

    # ------------------------------------------------------------ atoms
    def atom(self, name, h):
        i = len(self.atoms)
        self.atoms.append((name, h))
        z = z3.Int("a%d_%s" % (i, name))
        self.z.append(z)
        self.cons.append(z >= 0)
        if h is not None:
            self.cons.append(z <= h)
        return Poly({(i,): 1})

    def zp(self, p):
        """polynomial -> z3 Int expression"""
        out = []
        for k, c in p.d.items():
            if not k:
                out.append(z3.IntVal(c))
            else:
                out.append(c * self.zm(k))
        return z3.Sum(out) if len(out) > 1 else out[0] if out else z3.IntVal(0)

    def zm(self, k):
        if len(k) == 1:
            return self.z[k[0]]
        if self.nia:
            e = self.z[k[0]]
            for i in k[1:]:
                e = e * self.z[i]
            return e
        v = self.mono.get(k)
        if v is None:
            v = z3.Int("m_" + "_".join(map(str, k)))
            self.mono[k] = v
            self.cons.append(v >= 0)
            hs = [self.atoms[i][1] for i in k]
            if all(h is not None for h in hs):
                p = 1
                for h in hs:
                    p *= h
                self.cons.append(v <= p)
        return v

    def ge0(self, p):
        """p >= 0 as z3"""
        c = p.const()
        if c is not None:
            return z3.BoolVal(c >= 0)
        return self.zp(p) >= 0

    def eq0(self, p):
        c = p.const()
        if c is not None:
            return z3.BoolVal(c == 0)
        return self.zp(p) == 0

    # ------------------------------------------------------------ values
    def val(self, t):
        if isint(t):
            return C(t)
        r = self.memo.get(t.id)
        if r is None:
            r = self._val(t)
            self.memo[t.id] = r
        return r

    def fresh_for(self, t):
        return self.atom("t%d" % t.id, hi(t))

    def _val(self, t):
        op, a, w = t.op, t.args, t.w
        if w == 1:
            p = self.atom("b%d" % t.id, 1)
            self.cons.append(self.eq0(p - C(1)) == self.bool(t))
            return p
        if w > 256:
            return self.fresh_for(t)
        if op == "var":
            p = self.atom(a[0].replace(" ", "_"), M(w))
            self.var[t.id] = (t, p)
            return p
        if op == "concat":
            r = C(0)
            for v, vw in a:
                r = r.scale(1 << vw) + self.val(v)
            return r
        if op == "add":
            r = self.val(a[0]) + self.val(a[1])
            if hi(a[0]) + hi(a[1]) > M(w) and self.never(T.uaddo(a[0], a[1], w)):
                return r
            return self.wrap(r, hi(a[0]) + hi(a[1]), w)
        if op == "sub":
            x, y = self.val(a[0]), self.val(a[1])
            if self.never(T.ult(a[0], a[1], w)):
                return x - y
            p = self.atom("s%d" % t.id, M(w))
            u = self.ge0(x - y)
            self.cons.append(z3.If(u, self.eq0(p - (x - y)), self.eq0(p - (x - y) - C(1 << w))))
            return p
        if op == "mul":
            r = self.val(a[0]) * self.val(a[1])
            if hi(a[0]) * hi(a[1]) > M(w) and (
                    self.bound(a[0], w) * self.bound(a[1], w) <= M(w) or self.never(T.umulo(a[0], a[1], w))):
                return r
            return self.wrap(r, hi(a[0]) * hi(a[1]), w)
        if op in ("udiv", "urem"):
            n, d = self.val(a[0]), self.val(a[1])
            dk = ("div", a[0].id if not isint(a[0]) else a[0], a[1].id if not isint(a[1]) else a[1])
            q = self.opaque.get(dk)
            if q is None:
                qh = hi(a[0]) // max(1, lo(a[1])) if lo(a[1]) > 0 else M(w)
                qq = self.atom("q%d" % t.id, min(qh, M(w)))
                rr = self.atom("r%d" % t.id, max(hi(a[1]) - 1, 0) if lo(a[1]) > 0 else M(w))
                c = [self.eq0(n - qq * d - rr), self.ge0(d - rr - C(1))]
                if lo(a[1]) > 0:
                    self.cons += c
                else:
                    z = self.eq0(d)
                    self.cons.append(z3.Or(z, z3.And(*c)))
                    self.cons.append(z3.Or(z3.Not(z), z3.And(self.eq0(qq - C(M(w))), self.eq0(rr - n))))
                q = (qq, rr)
                self.opaque[dk] = q
                self.divs.append((qq, rr, n, d))
            return q[0] if op == "udiv" else q[1]
        if op == "extract":
            b, h_, l_ = a
            if b.w > 256:
                return self.fresh_for(t)
            x = self.val(b)
            if l_ == 0 and self.never(T.ult(M(h_ + 1), b, b.w)):
                return x
            p = self.atom("e%d" % t.id, M(w))
            low = self.atom("l%d" % t.id, M(l_)) if l_ else C(0)
            if hi(b) > M(h_ + 1):
                top = self.atom("h%d" % t.id, hi(b) >> (h_ + 1))
            else:
                top = C(0)
            self.cons.append(self.eq0(x - top.scale(1 << (h_ + 1)) - p.scale(1 << l_) - low))
            return p
        if op == "ite":
            x, y = self.val(a[1]), self.val(a[2])
            p = self.atom("i%d" % t.id, hi(t))
            self.cons.append(z3.If(self.bool(a[0]), self.eq0(p - x), self.eq0(p - y)))
            return p
        if op == "sext":
            x = self.val(a[0])
            p = self.atom("x%d" % t.id, M(w))
            neg = self.ge0(x - C(1 << (a[1] - 1)))
            self.cons.append(z3.If(neg, self.eq0(p - x - C(M(w) - M(a[1]))), self.eq0(p - x)))
            return p
        return self.fresh_for(t)

    def bound(self, t, w):
        """an upper bound that the conditions imply"""
        h = hi(t)
        for k in (64, 66, 128):
            if h <= M(k):
                return h
            if self.never(T.ult(M(k), t, w)):
                return M(k)
        return h

    def wrap(self, r, h, w):
        if h <= M(w):
            return r
        p = self.atom("w", M(w))
        k = self.atom("k", h >> w)
        self.cons.append(self.eq0(r - p - k.scale(1 << w)))
        return p

    # ------------------------------------------------------------ booleans
    def bool(self, t):
        if isint(t):
            return z3.BoolVal(bool(t))
        r = self.bmemo.get(t.id)
        if r is None:
            r = self._bool(t)
            self.bmemo[t.id] = r
        return r

    def _bool(self, t):
        op, a = t.op, t.args
        if op == "not":
            return z3.Not(self.bool(a[0]))
        if op in ("and", "or", "xor") and t.w == 1:
            f = {"and": z3.And, "or": z3.Or, "xor": z3.Xor}[op]
            return f(self.bool(a[0]), self.bool(a[1]))
        if op == "ite":
            return z3.If(self.bool(a[0]), self.bool(a[1]), self.bool(a[2]))
        if op == "eq" and a[2] <= 256:
            return self.eq0(self.val(a[0]) - self.val(a[1]))
        if op == "ult":
            return self.ge0(self.val(a[1]) - self.val(a[0]) - C(1))
        if op == "ule":
            return self.ge0(self.val(a[1]) - self.val(a[0]))
        if op in ("slt", "sle"):
            w = a[2]

            def s(v):
                x = self.val(v)
                if hi(v) < 1 << (w - 1):
                    return x
                p = self.atom("sg", None)
                # p = x - 2^w * (x >= 2^(w-1)), kept non-negative by an offset of 2^(w-1)
                self.cons.append(z3.If(self.ge0(x - C(1 << (w - 1))), self.eq0(p - (x - C(1 << (w - 1)))),
                                       self.eq0(p - (x + C(1 << (w - 1))))))
                return p - C(1 << (w - 1))
            x, y = s(a[0]), s(a[1])
            return self.ge0(y - x - C(1 if op == "slt" else 0))
        if op == "umulo":
            p = self.val(a[0]) * self.val(a[1])
            return self.ge0(p - C(1 << a[2]))
        if op == "var":
            return z3.Bool("v_" + a[0])
        if op == "extract" and a[0].w <= 256:
            b, h_, l_ = a
            if h_ == b.w - 1:
                return self.ge0(self.val(b) - C(1 << h_))
        return z3.Bool("o%d" % t.id)


def relevant(conds, goal):
    """conditions that share (transitively) variables with the goal, through small-width terms"""
    gv = set(v.id for v in T.vars_of(goal)) if not isint(goal) else set()
    items = [(c, frozenset(v.id for v in T.vars_of(c))) for c in conds if not isint(c)]
    keep = []
    changed = True
    rest = items
    while changed:
        changed = False
        nxt = []
        for c, vs in rest:
            if vs & gv:
                keep.append(c)
                gv |= vs
                changed = True
            else:
                nxt.append((c, vs))
        rest = nxt
    return keep


def prove(conds, goal, mults=(), timeout_ms=20000, mode="lin", refute=None, facts=()):
    """'unsat' iff conds |= goal was proved; 'sat'/'unknown' otherwise.
    facts: comparisons whose products with the multipliers matter (they are not assumed).
    mults: width>1 terms; valid product lemmas (p>=q -> p*c>=q*c) are added for the negated goal."""
    t0 = time.time()
    e = IntEnc()
    e.nia = mode == "nia"
    s = z3.Solver() if mode == "lin" else z3.SolverFor("QF_NIA")
    s.set("timeout", timeout_ms)
    cs = [c for c in conds if not isint(c) and all(v.w <= 128 for v in T.vars_of(c))]
    ng = T.bnot(goal)
    if isint(ng) and not ng:
        return "unsat"
    memo = {}
    # the linear conjuncts suffice for overflow questions
    lin, stack = [], list(reversed(cs)) + [ng]
    stack.reverse()
    while stack:
        c = stack.pop(0)
        if isint(c):
            continue
        if c.op == "and" and c.w == 1:
            stack += c.args
        elif c.op == "not" and not isint(c.args[0]) and c.args[0].op == "or":
            stack += [T.bnot(x) for x in c.args[0].args]
        elif not T.subterms([c], lambda x: x.op == "mul" and x.w > 128):
            lin.append(c)

    def never(c):
        if isint(c):
            return not c
        r = memo.get(c.id)
        if r is None:
            r = memo[c.id] = refute.check(lin + [c]) == "unsat"
        return r
    if refute is not None:
        e.never = never
    for c in cs:
        e.cons.append(e.bool(c))
    e.cons.append(e.bool(ng))
    tng = [] if isint(ng) else [ng]
    # product lemmas
    if mults is not None:
        fs = [e.val(m) for m in mults] + [d for _, _, _, d in list(e.divs)] + [q for q, _, _, _ in list(e.divs)]
        atoms = []
        hasdiv = lambda c: T.subterms([c], lambda x: x.op in ("udiv", "urem"))
        near = [c for c in cs if hasdiv(c)]
        for x in T.subterms(tng + list(facts) + near, lambda x: x.op in ("ult", "ule") or (
                x.op == "eq" and 1 < x.args[2] <= 256 and hasdiv(x))):
            if x.args[2] <= 256:
                atoms.append((x.op, e.val(x.args[0]), e.val(x.args[1])))
        for q, _, _, d in list(e.divs):        # quotient against each multiplier, times the divisor
            for m in [e.val(m) for m in mults]:
                e.cons.append(z3.Implies(e.ge0(q - m - C(1)), e.ge0((q - m - C(1)) * d)))
                e.cons.append(z3.Implies(e.ge0(q - m), e.ge0((q - m) * d)))
                e.cons.append(z3.Implies(e.ge0(m - q), e.ge0((m - q) * d)))
        for op, p, q in atoms:
            for f in fs:
                if op == "eq":
                    e.cons.append(z3.Implies(e.eq0(p - q), e.eq0((p - q) * f)))
                    continue
                k = 1 if op == "ult" else 0
                # (p + k <= q) -> (p + k) * f <= q * f ; and the negation
                e.cons.append(z3.Implies(e.ge0(q - p - C(k)), e.ge0((q - p - C(k)) * f)))
                e.cons.append(z3.Implies(e.ge0(p + C(k - 1) - q), e.ge0((p + C(k - 1) - q) * f)))
    n = 0
    while n < len(e.cons):        # zp may append bounds of new monomials
        s.add(e.cons[n])
        n += 1
    r = str(s.check())
    smt.stats["int_queries"] += 1
    smt.stats["int_time"] += time.time() - t0
    return r
