"""Hash-consed bit-vector terms.

A value is a Python int (concrete, unsigned, already reduced mod 2^w) or a Term.
Booleans are width-1 bit-vectors.  Constructors simplify eagerly; every
simplification is a sound equivalence on bit-vectors.
"""

class Term:
    __slots__ = ("op", "args", "w", "id", "_hi", "_z3", "_ie", "_vars", "__weakref__")

    def __repr__(self):
        return pretty(self, 6)


_tab = {}
_n = [0]


def _key(op, args, w):
    return (op, w) + tuple((a if not isinstance(a, Term) else ("t", a.id)) if not isinstance(a, tuple)
                           else tuple(("t", x.id) if isinstance(x, Term) else x for x in a) for a in args)


def mk(op, args, w):
    k = _key(op, args, w)
    t = _tab.get(k)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.w = w
        t._hi = None
        t._z3 = None
        t._ie = None
        t._vars = None
        _n[0] += 1
        t.id = _n[0]
        _tab[k] = t
    return t


def M(w):
    return (1 << w) - 1


def var(name, w):
    return mk("var", (name,), w)


def isint(x):
    return type(x) is int


def hi(t):
    """An upper bound (unsigned) of t."""
    if isint(t):
        return t
    h = t._hi
    if h is not None:
        return h
    op = t.op
    m = M(t.w)
    if op == "concat":
        h = 0
        for (v, w) in t.args:
            h = (h << w) | hi(v)
    elif op == "add":
        h = hi(t.args[0]) + hi(t.args[1])
    elif op == "mul":
        h = hi(t.args[0]) * hi(t.args[1])
    elif op == "udiv":
        d = t.args[1]
        h = hi(t.args[0]) // max(1, lo(d)) if lo(d) > 0 else m
    elif op == "urem":
        h = min(hi(t.args[0]), hi(t.args[1]) - 1) if lo(t.args[1]) > 0 else m
    elif op == "ite":
        h = max(hi(t.args[1]), hi(t.args[2]))
    elif op == "and":
        h = min(hi(t.args[0]), hi(t.args[1]))
    else:
        h = m
    if h > m:
        h = m
    t._hi = h
    return h


def lo(t):
    if isint(t):
        return t
    op = t.op
    if op == "add":
        if hi(t.args[0]) + hi(t.args[1]) <= M(t.w):
            return lo(t.args[0]) + lo(t.args[1])
        return 0
    if op == "concat":
        l = 0
        for (v, w) in t.args:
            l = (l << w) | lo(v)
        return l
    if op == "ite":
        return min(lo(t.args[1]), lo(t.args[2]))
    return 0


# ---------------------------------------------------------------- structure
def pieces(t, w):
    if isint(t):
        return ((t, w),)
    if t.op == "concat":
        return t.args
    return ((t, w),)


def concat(ps):
    """ps: iterable of (value,width), most significant first."""
    out = []
    for (v, w) in ps:
        if w == 0:
            continue
        if not isint(v) and v.op == "concat":
            sub = v.args
        else:
            sub = ((v, w),)
        for (v2, w2) in sub:
            if out:
                (pv, pw) = out[-1]
                if isint(v2) and isint(pv):
                    out[-1] = ((pv << w2) | v2, pw + w2)
                    continue
                if not isint(v2) and not isint(pv):
                    # merge adjacent extracts of the same base
                    b1, h1, l1 = _ext(pv)
                    b2, h2, l2 = _ext(v2)
                    if b1 is b2 and l1 == h2 + 1:
                        out[-1] = (extract(b1, h1, l2), pw + w2)
                        continue
            out.append((v2, w2))
    if len(out) == 1:
        return out[0][0]
    W = sum(w for _, w in out)
    return mk("concat", tuple(out), W)


def _ext(t):
    if t.op == "extract":
        return t.args[0], t.args[1], t.args[2]
    return t, t.w - 1, 0


def extract(t, h, l):
    if isint(t):
        return (t >> l) & M(h - l + 1)
    if l == 0 and h == t.w - 1:
        return t
    op = t.op
    if op == "extract":
        return extract(t.args[0], t.args[2] + h, t.args[2] + l)
    if op == "concat":
        out = []
        pos = t.w
        for (v, w) in t.args:
            phi, plo = pos - 1, pos - w
            pos = plo
            a, b = min(phi, h), max(plo, l)
            if a < b:
                continue
            out.append((extract(v, a - plo, b - plo) if (a - plo, b - plo) != (w - 1, 0) else v, a - b + 1))
        return concat(out)
    if l == 0 and op in ("add", "mul", "sub", "and", "or", "xor"):
        if op in ("and", "or", "xor"):
            return BIN[op](extract(t.args[0], h, 0), extract(t.args[1], h, 0), h + 1)
        if op == "add" or op == "sub":
            return BIN[op](extract(t.args[0], h, 0), extract(t.args[1], h, 0), h + 1)
    if op == "ite" and isint(t.args[1]) and isint(t.args[2]):
        return ite(t.args[0], extract(t.args[1], h, l), extract(t.args[2], h, l), h - l + 1)
    if hi(t) < (1 << l):
        return 0
    return mk("extract", (t, h, l), h - l + 1)


def zext(t, w, W):
    if isint(t) or w == W:
        return t
    return concat(((0, W - w), (t, w)))


def sext(t, w, W):
    if isint(t):
        return (t | (M(W) ^ M(w))) if (t >> (w - 1)) & 1 else t
    if w == W:
        return t
    if hi(t) < (1 << (w - 1)):
        return zext(t, w, W)
    if w == 1:
        return ite(t, M(W), 0, W)
    return mk("sext", (t, w), W)


def trunc(t, w, W):
    return extract(t, W - 1, 0)


# ---------------------------------------------------------------- bitwise
def _align(a, b, w):
    pa = list(pieces(a, w))
    pb = list(pieces(b, w))
    out = []
    i = j = 0
    while i < len(pa):
        (x, xw), (y, yw) = pa[i], pb[j]
        n = min(xw, yw)
        xs = x if n == xw else extract(x, xw - 1, xw - n)
        ys = y if n == yw else extract(y, yw - 1, yw - n)
        out.append((xs, ys, n))
        if n == xw:
            i += 1
        else:
            pa[i] = (extract(x, xw - n - 1, 0), xw - n)
        if n == yw:
            j += 1
        else:
            pb[j] = (extract(y, yw - n - 1, 0), yw - n)
    return out


def _mask_runs(c, w):
    """constant split into runs of equal bits, msb first: [(bit,len)]"""
    runs = []
    for i in range(w - 1, -1, -1):
        b = (c >> i) & 1
        if runs and runs[-1][0] == b:
            runs[-1][1] += 1
        else:
            runs.append([b, 1])
    return runs


def _bit(op, a, b, w):
    if isint(a) and isint(b):
        return (a & b) if op == "and" else (a | b) if op == "or" else (a ^ b)
    if isint(a):
        a, b = b, a
    m = M(w)
    if isint(b):
        if op == "and":
            if b == 0:
                return 0
            if b == m:
                return a
        elif op == "or":
            if b == 0:
                return a
            if b == m:
                return m
        else:
            if b == 0:
                return a
            if w == 1:
                return bnot(a)
        if op in ("and", "or") and w > 1:
            out = []
            pos = w
            runs = _mask_runs(b, w)
            if len(runs) <= 9:
                for bit, n in runs:
                    h_, l_ = pos - 1, pos - n
                    pos = l_
                    if op == "and":
                        out.append((extract(a, h_, l_) if bit else 0, n))
                    else:
                        out.append((M(n) if bit else extract(a, h_, l_), n))
                return concat(out)
    else:
        if a is b:
            return 0 if op == "xor" else a
        if w == 1:
            na, nb = bnot(a), b
            if na is nb:
                return 0 if op == "and" else 1
        if (a.op == "concat" or b.op == "concat"):
            al = _align(a, b, w)
            if len(al) > 1:
                return concat([(_bit(op, x, y, n), n) for x, y, n in al])
    if w == 1 and not isint(b) and not isint(a):
        # absorption
        pass
    if not isint(b) and a.id > b.id:
        a, b = b, a
    return mk(op, (a, b), w)


def band(a, b, w):
    return _bit("and", a, b, w)


def bor(a, b, w):
    return _bit("or", a, b, w)


def bxor(a, b, w):
    return _bit("xor", a, b, w)


def bnot(a):
    """logical not of a width-1 value"""
    if isint(a):
        return a ^ 1
    if a.op == "not":
        return a.args[0]
    if a.op == "ult":
        return mk("ule", (a.args[1], a.args[0], a.args[2]), 1)
    if a.op == "ule":
        return mk("ult", (a.args[1], a.args[0], a.args[2]), 1)
    if a.op == "slt":
        return mk("sle", (a.args[1], a.args[0], a.args[2]), 1)
    if a.op == "sle":
        return mk("slt", (a.args[1], a.args[0], a.args[2]), 1)
    return mk("not", (a,), 1)


def And(*cs):
    r = 1
    for c in cs:
        r = band(r, c, 1)
    return r


def Or(*cs):
    r = 0
    for c in cs:
        r = bor(r, c, 1)
    return r


def Not(c):
    return bnot(c)


def Implies(a, b):
    return Or(bnot(a), b)


# ---------------------------------------------------------------- arithmetic
def add(a, b, w):
    if isint(a) and isint(b):
        return (a + b) & M(w)
    if isint(a):
        a, b = b, a
    if isint(b):
        if b == 0:
            return a
        if a.op == "add" and isint(a.args[1]):
            return add(a.args[0], (a.args[1] + b) & M(w), w)
        if a.op == "sub" and isint(a.args[0]):
            return sub((a.args[0] + b) & M(w), a.args[1], w)
        if a.op == "concat":
            # disjoint low/hi parts -> or
            if _disjoint(a, b, w):
                return bor(a, b, w)
        return mk("add", (a, b), w)
    if a.op == "sub" and a.args[1] is b:
        return a.args[0]
    if b.op == "sub" and b.args[1] is a:
        return b.args[0]
    if (a.op == "concat" and b.op == "concat") and _disjoint(a, b, w):
        return bor(a, b, w)
    if w == 1:
        return bxor(a, b, 1)
    # hoist constants
    if a.op == "add" and isint(a.args[1]):
        return add(add(a.args[0], b, w), a.args[1], w)
    if b.op == "add" and isint(b.args[1]):
        return add(add(a, b.args[0], w), b.args[1], w)
    if a.id > b.id:
        a, b = b, a
    return mk("add", (a, b), w)


def _disjoint(a, b, w):
    for x, y, n in _align(a, b, w):
        if not ((isint(x) and x == 0) or (isint(y) and y == 0)):
            return False
    return True


def sub(a, b, w):
    if isint(a) and isint(b):
        return (a - b) & M(w)
    if isint(b):
        return add(a, (-b) & M(w), w)
    if a is b:
        return 0
    if w == 1:
        return bxor(a, b, 1)
    if not isint(a):
        if a.op == "add":
            if a.args[0] is b:
                return a.args[1]
            if a.args[1] is b:
                return a.args[0]
            if isint(a.args[1]):
                return add(sub(a.args[0], b, w), a.args[1], w)
    if b.op == "add" and isint(b.args[1]):
        return add(sub(a, b.args[0], w), (-b.args[1]) & M(w), w)
    return mk("sub", (a, b), w)


def mul(a, b, w):
    if isint(a) and isint(b):
        return (a * b) & M(w)
    if isint(a):
        a, b = b, a
    if isint(b):
        if b == 0:
            return 0
        if b == 1:
            return a
        if b & (b - 1) == 0:
            return shl(a, b.bit_length() - 1, w)
        return mk("mul", (a, b), w)
    if a.id > b.id:
        a, b = b, a
    return mk("mul", (a, b), w)


def udiv(a, b, w):
    if isint(b):
        if b == 0:
            return mk("udiv", (a, b), w) if not isint(a) else M(w)
        if isint(a):
            return a // b
        if b == 1:
            return a
        if b & (b - 1) == 0:
            return lshr(a, b.bit_length() - 1, w)
    if hi(a) < lo(b):
        return 0
    return mk("udiv", (a, b), w)


def urem(a, b, w):
    if isint(b):
        if b == 0:
            return a
        if isint(a):
            return a % b
        if b & (b - 1) == 0:
            return band(a, b - 1, w)
    if hi(a) < lo(b):
        return a
    return mk("urem", (a, b), w)


def tosigned(a, w):
    return a - (1 << w) if (a >> (w - 1)) & 1 else a


def sdiv(a, b, w):
    if isint(a) and isint(b) and b:
        x, y = tosigned(a, w), tosigned(b, w)
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        return q & M(w)
    return mk("sdiv", (a, b), w)


def srem(a, b, w):
    if isint(a) and isint(b) and b:
        x, y = tosigned(a, w), tosigned(b, w)
        r = abs(x) % abs(y)
        if x < 0:
            r = -r
        return r & M(w)
    return mk("srem", (a, b), w)


def shl(a, b, w):
    if isint(b):
        if b >= w:
            return 0
        if isint(a):
            return (a << b) & M(w)
        if b == 0:
            return a
        return concat(((extract(a, w - b - 1, 0), w - b), (0, b)))
    return mk("shl", (a, b), w)


def lshr(a, b, w):
    if isint(b):
        if b >= w:
            return 0
        if isint(a):
            return a >> b
        if b == 0:
            return a
        return concat(((0, b), (extract(a, w - 1, b), w - b)))
    return mk("lshr", (a, b), w)


def ashr(a, b, w):
    if isint(b):
        if isint(a):
            return (tosigned(a, w) >> min(b, w - 1)) & M(w)
        if b == 0:
            return a
        b = min(b, w - 1)
        return sext(extract(a, w - 1, b), w - b, w)
    return mk("ashr", (a, b), w)


def umulo(a, b, w):
    """unsigned multiplication overflows"""
    if isint(a) and isint(b):
        return int(a * b > M(w))
    if hi(a) * hi(b) <= M(w):
        return 0
    if isint(a):
        a, b = b, a
    if isint(b):
        return bnot(ule(a, M(w) // b, w))
    if a.id > b.id:
        a, b = b, a
    return mk("umulo", (a, b, w), 1)


def uaddo(a, b, w):
    if isint(a) and isint(b):
        return int(a + b > M(w))
    if hi(a) + hi(b) <= M(w):
        return 0
    if isint(a):
        a, b = b, a
    if isint(b):
        return ult(M(w) - b, a, w)
    return extract(add(zext(a, w, w + 1), zext(b, w, w + 1), w + 1), w, w)


def usubo(a, b, w):
    return ult(a, b, w)


def saddo(a, b, w):
    a1, b1 = sext(a, w, w + 1), sext(b, w, w + 1)
    s = add(a1, b1, w + 1)
    return bxor(extract(s, w, w), extract(s, w - 1, w - 1), 1)


def ssubo(a, b, w):
    a1, b1 = sext(a, w, w + 1), sext(b, w, w + 1)
    s = sub(a1, b1, w + 1)
    return bxor(extract(s, w, w), extract(s, w - 1, w - 1), 1)


# ---------------------------------------------------------------- predicates
HASHES = ("sha256",)


def eq(a, b, w):
    if isint(a) and isint(b):
        return int(a == b)
    if a is b:
        return 1
    if isint(a):
        a, b = b, a
    if w == 1:
        if isint(b):
            return a if b else bnot(a)
        return bnot(bxor(a, b, 1))
    if isint(b):
        if b > hi(a) or b < lo(a):
            return 0
        op = a.op
        if op == "concat":
            r = 1
            pos = w
            for (v, vw) in a.args:
                pos -= vw
                r = band(r, eq(v, (b >> pos) & M(vw), vw), 1)
                if isint(r) and r == 0:
                    return 0
            return r
        if op == "add" and isint(a.args[1]):
            return eq(a.args[0], (b - a.args[1]) & M(w), w)
        if op == "ite":
            x, y = a.args[1], a.args[2]
            if isint(x) and isint(y):
                if x == b:
                    return a.args[0] if y != b else 1
                return bnot(a.args[0]) if y == b else 0
            if isint(x) or isint(y):
                return ite(a.args[0], eq(x, b, w), eq(y, b, w), 1)
        if op == "sub" and b == 0:
            return eq(a.args[0], a.args[1], w)
        if op == "xor" and b == 0:
            return eq(a.args[0], a.args[1], w)
        if op == "sext":
            return eq(a.args[0], b & M(a.args[1]), a.args[1]) if sext(b & M(a.args[1]), a.args[1], w) == b else 0
        return mk("eq", (a, b, w), 1)
    if a.op == "sha256" and b.op == "sha256":
        if a.args[1] != b.args[1]:
            return 0
        return eq(a.args[0], b.args[0], a.args[1])
    if a.op == "concat" or b.op == "concat":
        al = _align(a, b, w)
        if len(al) > 1:
            r = 1
            for x, y, n in al:
                r = band(r, eq(x, y, n), 1)
                if isint(r) and r == 0:
                    return 0
            return r
    if a.id > b.id:
        a, b = b, a
    return mk("eq", (a, b, w), 1)


def ne(a, b, w):
    return bnot(eq(a, b, w))


def _lowpart(a, w):
    """(value,width) of a without its leading zero piece"""
    if isint(a):
        return a, max(1, a.bit_length())
    if a.op == "concat" and a.args[0] == (0, a.args[0][1]) and isint(a.args[0][0]):
        rest = a.args[1:]
        rw = w - a.args[0][1]
        return concat(rest), rw
    return a, w


def ult(a, b, w):
    if isint(a) and isint(b):
        return int(a < b)
    if a is b:
        return 0
    if hi(a) < lo(b):
        return 1
    if lo(a) >= hi(b):
        return 0
    if isint(b) and b == 1:
        return eq(a, 0, w)
    if isint(a) and a == 0:
        return bnot(eq(b, 0, w))
    # strip common leading zeros
    x, xw = _lowpart(a, w)
    y, yw = _lowpart(b, w)
    n = max(xw, yw)
    if n < w:
        return ult(zext(x, xw, n) if not isint(x) else x, zext(y, yw, n) if not isint(y) else y, n)
    # common trailing pieces of concat with const: leave
    return mk("ult", (a, b, w), 1)


def ule(a, b, w):
    return bnot(ult(b, a, w))


def slt(a, b, w):
    if isint(a) and isint(b):
        return int(tosigned(a, w) < tosigned(b, w))
    if a is b:
        return 0
    half = 1 << (w - 1)
    if hi(a) < half and hi(b) < half:
        return ult(a, b, w)
    if isint(b) and b == 0:
        return extract(a, w - 1, w - 1)
    if isint(a) and a == M(w):
        return bnot(extract(b, w - 1, w - 1))
    return mk("slt", (a, b, w), 1)


def sle(a, b, w):
    return bnot(slt(b, a, w))


def ite(c, a, b, w):
    if isint(c):
        return a if c else b
    if a is b or (isint(a) and isint(b) and a == b):
        return a
    if c.op == "not":
        return ite(c.args[0], b, a, w)
    if w == 1:
        if isint(a) and isint(b):
            return c if a else bnot(c)
        if isint(a):
            return bor(c, b, 1) if a else band(bnot(c), b, 1)
        if isint(b):
            return bor(bnot(c), a, 1) if b else band(c, a, 1)
    return mk("ite", (c, a, b), w)


def sha256(msg, nbits):
    """uninterpreted, injective; concrete arguments must be evaluated by the caller"""
    return mk("sha256", (msg, nbits), 256)


def uf(name, args, w):
    """args: tuple of (value,width)"""
    return mk("uf", (name,) + tuple(args), w)


BIN = {"add": add, "sub": sub, "mul": mul, "udiv": udiv, "urem": urem, "sdiv": sdiv, "srem": srem,
       "and": band, "or": bor, "xor": bxor, "shl": shl, "lshr": lshr, "ashr": ashr}


# ---------------------------------------------------------------- traversal
def children(t):
    op = t.op
    if op == "var":
        return ()
    if op == "concat":
        return tuple(v for v, _ in t.args if not isint(v))
    if op == "uf":
        return tuple(v for v, _ in t.args[1:] if not isint(v))
    return tuple(a for a in t.args if isinstance(a, Term))


def vars_of(t):
    """frozenset of variable terms of t"""
    if isint(t):
        return frozenset()
    if t._vars is not None:
        return t._vars
    stack = [t]
    while stack:
        x = stack[-1]
        if x._vars is not None:
            stack.pop()
            continue
        pend = [c for c in children(x) if c._vars is None]
        if pend:
            stack.extend(pend)
            continue
        if x.op == "var":
            x._vars = frozenset((x,))
        else:
            s = frozenset()
            for c in children(x):
                s = s | c._vars
            x._vars = s
        stack.pop()
    return t._vars


def subterms(ts, pred):
    seen = set()
    out = []
    stack = [t for t in ts if not isint(t)]
    while stack:
        t = stack.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if pred(t):
            out.append(t)
        stack.extend(children(t))
    return out


def rebuild(t, f, memo):
    """bottom-up rebuild; f(term, newargs) may return a replacement for leaves."""
    if isint(t):
        return t
    r = memo.get(t.id)
    if r is not None:
        return r
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in memo:
            stack.pop()
            continue
        pend = [c for c in children(x) if c.id not in memo]
        if pend:
            stack.extend(pend)
            continue
        g = lambda c: c if isint(c) else memo[c.id]
        memo[x.id] = _apply(x, g, f)
        stack.pop()
    return memo[t.id]


def _apply(x, g, f):
    op, a, w = x.op, x.args, x.w
    if op == "var":
        r = f(x)
        return x if r is None else r
    if op == "concat":
        return concat([(g(v), vw) for v, vw in a])
    if op == "extract":
        return extract(g(a[0]), a[1], a[2])
    if op == "sext":
        return sext(g(a[0]), a[1], w)
    if op in BIN:
        return BIN[op](g(a[0]), g(a[1]), w)
    if op == "not":
        return bnot(g(a[0]))
    if op == "eq":
        return eq(g(a[0]), g(a[1]), a[2])
    if op == "ult":
        return ult(g(a[0]), g(a[1]), a[2])
    if op == "ule":
        return ule(g(a[0]), g(a[1]), a[2])
    if op == "slt":
        return slt(g(a[0]), g(a[1]), a[2])
    if op == "sle":
        return sle(g(a[0]), g(a[1]), a[2])
    if op == "ite":
        return ite(g(a[0]), g(a[1]), g(a[2]), w)
    if op == "umulo":
        return umulo(g(a[0]), g(a[1]), a[2])
    if op == "sha256":
        m = g(a[0])
        if isint(m):
            return sha_concrete(m, a[1])
        return sha256(m, a[1])
    if op == "uf":
        args = tuple((g(v), vw) for v, vw in a[1:])
        if a[0] in UF_EVAL and all(isint(v) for v, _ in args):
            return UF_EVAL[a[0]](args)
        return mk("uf", (a[0],) + args, w)
    raise NotImplementedError(op)


UF_EVAL = {}


def sha_concrete(m, nbits):
    import hashlib
    # msg is little-endian byte string packed as an integer (byte 0 = least significant)
    bs = m.to_bytes(nbits // 8, "little")
    h = int.from_bytes(hashlib.sha256(bs).digest(), "little")
    KNOWN_HASH[h] = (m, nbits)
    return h


KNOWN_HASH = {}      # 256-bit value -> (message int, nbits): concrete sha256 evaluations


def subst(t, env, memo=None):
    """env: {var Term: value}"""
    return rebuild(t, lambda v: env.get(v), {} if memo is None else memo)


def evaluate(t, env, memo=None, default=0):
    """env: {var name: int}; unassigned variables take `default`."""
    return rebuild(t, lambda v: env.get(v.args[0], default), {} if memo is None else memo)


def pretty(t, depth=4):
    if isint(t):
        return hex(t) if t > 9999 else str(t)
    if t.op == "var":
        return t.args[0]
    if depth == 0:
        return "#%d" % t.id
    if t.op == "concat":
        return "(concat %s)" % " ".join("%s:%d" % (pretty(v, depth - 1), w) for v, w in t.args)
    if t.op == "uf":
        return "(%s %s)" % (t.args[0], " ".join(pretty(v, depth - 1) for v, w in t.args[1:]))
    return "(%s %s)" % (t.op, " ".join(pretty(a, depth - 1) if isinstance(a, (Term, int)) else str(a) for a in t.args))
