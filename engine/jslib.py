"""Built-in objects of the symbolic JS interpreter (jsx.py) and the primitives __v of the harness."""
import base64
import math
import machine as MC
import sol
import svm
import term as T
from term import isint
import jsx
from jsx import (UNDEF, NULL, Big, Sym, SBool, SStr, Obj, Arr, U8, MapObj, Promise, Func, NF, Scope, Unsupported, JSThrow, W,
                 mksym, isbig, isnum, isbool, isstr, typeof, norm)


def arg(a, k, d=UNDEF):
    return a[k] if k < len(a) else d


def intarg(I, a, k, d):
    v = arg(a, k)
    if v is UNDEF:
        return d
    v = I.tonum(v)
    v = I.concretise(v)
    if type(v) is float:
        return d if math.isnan(v) else int(max(-1 << 40, min(1 << 40, v)))
    return v


def rel(i, n):
    return max(0, n + i) if i < 0 else min(i, n)


def make(I):
    P = {}
    P["Object"] = Obj()
    for n in ("Array", "Uint8Array", "Function", "Promise", "Error", "Map", "Set", "String", "Number", "BigInt", "Boolean", "Generator",
              "ArrayBuffer", "DataView", "TextDecoder"):
        P[n] = Obj(P["Object"])
        P[n].cls = "Object"
    P["Object"].proto = None
    G = Scope(None)

    def native(o, name, f, ctor=None):
        nf = NF(f, name, ctor)
        o.props[name] = nf
        return nf

    def glob(name, f, ctor=None, proto=None):
        nf = NF(f, name, ctor)
        if proto is not None:
            nf.props["prototype"] = proto
            proto.props["constructor"] = nf
        G.v[name] = nf
        return nf

    def call(f, *a):
        return I.call(f, UNDEF, list(a))

    # ---------------------------------------------------------------- errors
    def mkerr(name):
        proto = P.get(name) if name == "Error" else Obj(P["Error"])
        P[name] = proto
        proto.props["name"] = name
        proto.props["message"] = ""

        def ctor(I, a):
            e = Obj(proto)
            e.cls = "Error"
            if arg(a, 0) is not UNDEF:
                e.props["message"] = I.tostr(a[0])
            e.props["stack"] = "stack"
            o = arg(a, 1)
            if isinstance(o, Obj) and "cause" in o.props:
                e.props["cause"] = o.props["cause"]
            return e
        c = glob(name, lambda I, t, a: ctor(I, a), ctor, proto)
        c.props["captureStackTrace"] = NF(lambda I, t, a: UNDEF)
    for n in ("Error", "TypeError", "RangeError", "ReferenceError", "SyntaxError", "EvalError"):
        mkerr(n)

    # ---------------------------------------------------------------- Object
    def newobj():
        return Obj(P["Object"])
    OC = glob("Object", lambda I, t, a: arg(a, 0) if isinstance(arg(a, 0), Obj) else newobj(), lambda I, a: newobj(), P["Object"])

    def freeze(I, t, a):
        if isinstance(arg(a, 0), Obj):
            a[0].frozen = True
        return arg(a, 0)

    def assign(I, t, a):
        for s in a[1:]:
            if s in (UNDEF, NULL):
                continue
            for k in I.keys(s):
                I.put(a[0], k, I.get(s, k))
        return a[0]

    def from_entries(I, t, a):
        o = newobj()
        for e in I.iterate(a[0]):
            k, v = I.iterate(e)[:2]
            o.props[I.conckey(I.key(k))] = v
        return o

    def keysof(I, v):
        if v in (UNDEF, NULL):
            I.throw("TypeError", "keys of nothing")
        return I.keys(v)

    def defprop(I, t, a):
        d = a[2]
        k = I.conckey(I.key(a[1]))
        if I.has(d, "get") or I.has(d, "set"):
            g, s = I.get(d, "get"), I.get(d, "set")
            a[0].props[k] = jsx.Accessor(g if g is not UNDEF else None, s if s is not UNDEF else None)
        else:
            if not I.truth(I.get(d, "enumerable")):
                raise Unsupported("non-enumerable property")
            a[0].props[k] = I.get(d, "value")
        return a[0]
    for n, f in dict(
            freeze=freeze, seal=freeze, preventExtensions=freeze, assign=assign, fromEntries=from_entries,
            isFrozen=lambda I, t, a: not isinstance(a[0], Obj) or a[0].frozen,
            keys=lambda I, t, a: Arr(list(keysof(I, arg(a, 0)))),
            values=lambda I, t, a: Arr([I.get(a[0], k) for k in keysof(I, arg(a, 0))]),
            entries=lambda I, t, a: Arr([Arr([k, I.get(a[0], k)]) for k in keysof(I, arg(a, 0))]),
            getPrototypeOf=lambda I, t, a: I.protoof(a[0]) or NULL,
            hasOwn=lambda I, t, a: I.conckey(I.key(a[1])) in I.keys(a[0]),
            create=lambda I, t, a: Obj(a[0] if isinstance(a[0], Obj) else None),
            defineProperty=defprop,
            **{"is": lambda I, t, a: I.seq(a[0], a[1])}).items():
        native(OC, n, f)
    native(P["Object"], "hasOwnProperty", lambda I, t, a: I.conckey(I.key(a[0])) in I.keys(t))

    # ---------------------------------------------------------------- functions
    FP = P["Function"]
    native(FP, "call", lambda I, t, a: I.call(t, arg(a, 0), list(a[1:])))
    native(FP, "apply", lambda I, t, a: I.call(t, arg(a, 0), I.iterate(a[1]) if len(a) > 1 and a[1] is not UNDEF else []))
    native(FP, "bind", lambda I, t, a: NF(lambda I, t2, b: I.call(t, arg(a, 0), list(a[1:]) + list(b)), "bound"))
    glob("Function", lambda I, t, a: (_ for _ in ()).throw(Unsupported("Function()")), None, FP)

    # ---------------------------------------------------------------- Array
    AP = P["Array"]

    def arr_ctor(I, a):
        if len(a) == 1 and isnum(a[0]):
            return Arr([UNDEF] * int(I.concretise(a[0])))
        return Arr(list(a))
    AC = glob("Array", lambda I, t, a: arr_ctor(I, a), arr_ctor, AP)

    def arr_from(I, t, a):
        s = arg(a, 0)
        f = arg(a, 1)
        if isinstance(s, Obj) and not isinstance(s, (Arr, U8, MapObj)):
            n = I.get(s, "length")
            n = 0 if n is UNDEF else I.concretise(I.tonum(n))
            n = 0 if type(n) is float and math.isnan(n) else int(max(0, n))
            if n > 100000:
                raise Unsupported("array length")
            vs = [I.get(s, str(i)) for i in range(n)]
        else:
            vs = I.iterate(s)
        return Arr([call(f, v, i) for i, v in enumerate(vs)] if f is not UNDEF else vs)
    native(AC, "from", arr_from)
    native(AC, "of", lambda I, t, a: Arr(list(a)))
    native(AC, "isArray", lambda I, t, a: isinstance(arg(a, 0), Arr))

    def items(I, t):
        return t.items if isinstance(t, Arr) else I.iterate(t)

    def common(proto):
        """methods arrays and typed arrays share"""
        def it(f):
            return lambda I, t, a: f(I, t, items(I, t), arg(a, 0), a)

        def truthy(I, f, v, i, t):
            return call(f, v, i, t)

        def b_every(I, t, xs, f, a):
            r = True
            for i, v in enumerate(xs):
                x = call(f, v, i, t)
                if isinstance(x, SBool):
                    r = I.bool2("&&", r, x)
                elif not I.truth(x):
                    return False
            return r

        def b_some(I, t, xs, f, a):
            r = False
            for i, v in enumerate(xs):
                x = call(f, v, i, t)
                if isinstance(x, SBool):
                    r = I.bool2("||", r, x)
                elif I.truth(x):
                    return True
            return r

        def find(I, t, xs, f, a, idx=False, rev=False):
            es = list(enumerate(xs))
            for i, v in (es[::-1] if rev else es):
                if I.truth(call(f, v, i, t)):
                    return i if idx else v
            return -1 if idx else UNDEF

        def reduce(I, t, xs, f, a, rev=False):
            es = list(enumerate(xs))
            es = es[::-1] if rev else es
            if len(a) > 1:
                acc = a[1]
            else:
                if not es:
                    I.throw("TypeError", "reduce of empty array")
                acc, es = es[0][1], es[1:]
            for i, v in es:
                acc = call(f, acc, v, i, t)
            return acc

        def foreach(I, t, xs, f, a):
            for i, v in enumerate(xs):
                call(f, v, i, t)
            return UNDEF

        def index(I, t, xs, f, a, idx=True):
            for i, v in enumerate(xs):
                if I.decide(I.seq(v, f)):
                    return i if idx else True
            return -1 if idx else False

        def at(I, t, xs, f, a):
            k = intarg(I, a, 0, 0)
            k = k + len(xs) if k < 0 else k
            return xs[k] if 0 <= k < len(xs) else UNDEF

        def join(I, t, xs, f, a):
            sep = "," if arg(a, 0) is UNDEF else I.tostr(a[0])
            ss = ["" if x in (UNDEF, NULL) else I.tostr(x) for x in xs]
            return SStr("text", None) if any(isinstance(x, SStr) for x in ss + [sep]) else sep.join(ss)
        for n, f in dict(every=b_every, some=b_some, find=find, reduce=reduce, forEach=foreach, indexOf=index, at=at, join=join,
                         findIndex=lambda *x: find(*x, idx=True), findLast=lambda *x: find(*x, rev=True),
                         findLastIndex=lambda *x: find(*x, idx=True, rev=True),
                         reduceRight=lambda *x: reduce(*x, rev=True), includes=lambda *x: index(*x, idx=False),
                         keys=lambda I, t, xs, f, a: Arr(list(range(len(xs)))), values=lambda I, t, xs, f, a: Arr(list(xs)),
                         entries=lambda I, t, xs, f, a: Arr([Arr([i, v]) for i, v in enumerate(xs)])).items():
            native(proto, n, it(f))
    common(AP)

    def amap(I, t, a):
        return Arr([call(arg(a, 0), v, i, t) for i, v in enumerate(list(t.items))])

    def afilter(I, t, a):
        return Arr([v for i, v in enumerate(list(t.items)) if I.truth(call(arg(a, 0), v, i, t))])

    def mut(I, t):
        if t.frozen:
            I.throw("TypeError", "frozen")

    def push(I, t, a):
        mut(I, t)
        t.items.extend(a)
        return len(t.items)

    def pop(I, t, a):
        mut(I, t)
        return t.items.pop() if t.items else UNDEF

    def shift(I, t, a):
        mut(I, t)
        return t.items.pop(0) if t.items else UNDEF

    def unshift(I, t, a):
        mut(I, t)
        t.items[:0] = list(a)
        return len(t.items)

    def aslice(I, t, a):
        n = len(t.items)
        return Arr(t.items[rel(intarg(I, a, 0, 0), n):rel(intarg(I, a, 1, n), n)])

    def splice(I, t, a):
        mut(I, t)
        n = len(t.items)
        s = rel(intarg(I, a, 0, 0), n)
        k = max(0, min(n - s, intarg(I, a, 1, n - s))) if a else 0
        out = t.items[s:s + k]
        t.items[s:s + k] = list(a[2:])
        return Arr(out)

    def concat(I, t, a):
        out = list(t.items)
        for x in a:
            out += x.items if isinstance(x, Arr) else [x]
        return Arr(out)

    def flat(I, xs, d):
        out = []
        for x in xs:
            if isinstance(x, Arr) and d > 0:
                out += flat(I, x.items, d - 1)
            else:
                out.append(x)
        return out

    def reverse(I, t, a):
        mut(I, t)
        t.items.reverse()
        return t

    def sort(I, t, a, copy=False):
        import functools
        f = arg(a, 0)
        xs = list(t.items)
        if f is UNDEF:
            if not all(type(x) is str for x in xs):
                raise Unsupported("default sort")
            xs.sort(key=lambda s: s.encode("utf-16-be"))
        else:
            def cmp(p, q):
                r = I.tonum(call(f, p, q))
                return -1 if I.truth(I.compare("<", r, 0)) else 1 if I.truth(I.compare(">", r, 0)) else 0
            xs.sort(key=functools.cmp_to_key(cmp))
        if copy:
            return Arr(xs)
        mut(I, t)
        t.items[:] = xs
        return t

    def afill(I, t, a):
        mut(I, t)
        n = len(t.items)
        for i in range(rel(intarg(I, a, 1, 0), n), rel(intarg(I, a, 2, n), n)):
            t.items[i] = arg(a, 0)
        return t
    for n, f in dict(map=amap, filter=afilter, push=push, pop=pop, shift=shift, unshift=unshift, slice=aslice, splice=splice,
                     concat=concat, flat=lambda I, t, a: Arr(flat(I, t.items, intarg(I, a, 0, 1))),
                     flatMap=lambda I, t, a: Arr(flat(I, amap(I, t, a).items, 1)), reverse=reverse,
                     toReversed=lambda I, t, a: Arr(t.items[::-1]), sort=sort,
                     toSorted=lambda I, t, a: sort(I, t, a, True), fill=afill).items():
        native(AP, n, f)

    # ---------------------------------------------------------------- Uint8Array
    UP = P["Uint8Array"]

    def u8_ctor(I, a):
        v = arg(a, 0)
        if v is UNDEF:
            return U8([])
        if isnum(v):
            n = I.concretise(v)
            if type(n) is float or n < 0:
                I.throw("RangeError", "invalid length")
            return U8([0] * n)
        if isinstance(v, U8):
            return U8(list(v.cells))
        if isinstance(v, jsx.ABuf):
            o = intarg(I, a, 1, 0)
            n = intarg(I, a, 2, len(v.cells) - o)
            if o == 0 and n == len(v.cells):
                return U8(v.cells)
            r = U8(v.cells[o:o + n])
            r.frozen = True             # a shared view: writes are not modelled
            return r
        if isinstance(v, Arr):
            return U8([I.tocell(x) for x in v.items])
        if isinstance(v, MapObj) and v.cls == "Set" or isinstance(v, jsx.Gen):
            return U8([I.tocell(x) for x in I.iterate(v)])
        if isinstance(v, Obj) and v.cls == "Object":
            return U8([I.tocell(x) for x in arr_from(I, None, [v]).items])
        raise Unsupported("new Uint8Array")
    UC = glob("Uint8Array", lambda I, t, a: I.throw("TypeError", "needs new"), u8_ctor, UP)
    native(UC, "from", lambda I, t, a: U8([I.tocell(x) for x in arr_from(I, t, a).items]) if not (
        isinstance(arg(a, 0), U8) and len(a) == 1) else U8(list(a[0].cells)))
    native(UC, "of", lambda I, t, a: U8([I.tocell(x) for x in a]))
    common(UP)

    def uslice(I, t, a):
        n = len(t.cells)
        return U8(t.cells[rel(intarg(I, a, 0, 0), n):rel(intarg(I, a, 1, n), n)])

    def usub(I, t, a):
        r = uslice(I, t, a)
        r.frozen = t.frozen = True      # a shared view: writes are not modelled
        return r

    def uset(I, t, a):
        if t.frozen:
            raise Unsupported("write to a shared view")
        src = a[0].cells if isinstance(a[0], U8) else [I.tocell(x) for x in I.iterate(a[0])]
        o = intarg(I, a, 1, 0)
        if o < 0 or o + len(src) > len(t.cells):
            I.throw("RangeError", "offset is out of bounds")
        t.cells[o:o + len(src)] = src
        return UNDEF

    def ufill(I, t, a):
        if t.frozen:
            raise Unsupported("write to a shared view")
        n = len(t.cells)
        c = I.tocell(arg(a, 0))
        for i in range(rel(intarg(I, a, 1, 0), n), rel(intarg(I, a, 2, n), n)):
            t.cells[i] = c
        return t

    def ureverse(I, t, a):
        if t.frozen:
            raise Unsupported("write to a shared view")
        t.cells.reverse()
        return t
    for n, f in dict(slice=uslice, subarray=usub, set=uset, fill=ufill, reverse=ureverse,
                     map=lambda I, t, a: U8([I.tocell(call(arg(a, 0), v, i, t)) for i, v in enumerate(I.iterate(t))]),
                     filter=lambda I, t, a: U8([I.tocell(v) for i, v in enumerate(I.iterate(t)) if I.truth(call(arg(a, 0), v, i, t))])
                     ).items():
        native(UP, n, f)

    # ---------------------------------------------------------------- Map and Set
    def mkey(v):
        if isinstance(v, (Sym, SBool, SStr)):
            raise Unsupported("a symbolic key of a Map or Set")
        if isinstance(v, Obj):
            return ("o", id(v))
        return (typeof(v), "NaN" if v != v else v)
    for name in ("Map", "Set"):
        def ctor(I, a, name=name):
            m = MapObj(name)
            if arg(a, 0) not in (UNDEF, NULL):
                for e in I.iterate(a[0]):
                    if name == "Map":
                        k, v = I.iterate(e)[:2]
                        m.d[mkey(k)] = (k, v)
                    else:
                        m.d[mkey(e)] = (e, e)
            return m
        glob(name, lambda I, t, a: I.throw("TypeError", "needs new"), ctor, P[name])

    def mset(I, t, a):
        k = mkey(arg(a, 0))
        t.d[k] = (t.d[k][0] if k in t.d else arg(a, 0), arg(a, 1))
        return t

    def sadd(I, t, a):
        t.d.setdefault(mkey(arg(a, 0)), (arg(a, 0), arg(a, 0)))
        return t

    def mfor(I, t, a):
        for k, v in list(t.d.values()):
            call(a[0], v, k, t)
        return UNDEF

    def mdel(I, t, a):
        return t.d.pop(mkey(arg(a, 0)), None) is not None
    native(P["Map"], "set", mset)
    native(P["Map"], "get", lambda I, t, a: t.d.get(mkey(arg(a, 0)), (UNDEF, UNDEF))[1])
    native(P["Set"], "add", sadd)
    for n in ("Map", "Set"):
        native(P[n], "has", lambda I, t, a: mkey(arg(a, 0)) in t.d)
        native(P[n], "delete", mdel)
        native(P[n], "clear", lambda I, t, a: t.d.clear() or UNDEF)
        native(P[n], "forEach", mfor)
        native(P[n], "keys", lambda I, t, a: Arr([k for k, _ in t.d.values()]))
        native(P[n], "values", lambda I, t, a: Arr([v for _, v in t.d.values()]))
        native(P[n], "entries", lambda I, t, a: Arr([Arr([k, v]) for k, v in t.d.values()]))

    # ---------------------------------------------------------------- Promise
    def resolved(v):
        return v if isinstance(v, Promise) else Promise("fulfilled", v)

    def pthen(I, t, a, ok=None, bad=None):
        ok, bad = arg(a, 0) if ok is None else ok, arg(a, 1) if bad is None else bad
        f = ok if t.state == "fulfilled" else bad
        if not isinstance(f, (Func, NF)):
            return t
        try:
            return resolved(call(f, t.value))
        except JSThrow as e:
            return Promise("rejected", e.value)

    def pfinally(I, t, a):
        try:
            r = resolved(call(a[0]))
            return r if r.state == "rejected" else t
        except JSThrow as e:
            return Promise("rejected", e.value)
    native(P["Promise"], "then", pthen)
    native(P["Promise"], "catch", lambda I, t, a: pthen(I, t, [UNDEF, arg(a, 0)]))
    native(P["Promise"], "finally", pfinally)

    def pctor(I, a):
        p = Promise("pending", UNDEF)

        def settle(state):
            def f(I, t, b):
                if p.state == "pending":
                    v = arg(b, 0)
                    if state == "fulfilled" and isinstance(v, Promise):
                        p.state, p.value = v.state, v.value
                    else:
                        p.state, p.value = state, v
                return UNDEF
            return NF(f)
        try:
            call(a[0], settle("fulfilled"), settle("rejected"))
        except JSThrow as e:
            if p.state == "pending":
                p.state, p.value = "rejected", e.value
        return p
    PC = glob("Promise", lambda I, t, a: I.throw("TypeError", "needs new"), pctor, P["Promise"])

    def pall(I, t, a):
        out = []
        try:
            for v in I.iterate(arg(a, 0)):
                out.append(I.settled(v))
        except JSThrow as e:
            return Promise("rejected", e.value)
        return Promise("fulfilled", Arr(out))

    def pallset(I, t, a):
        out = []
        for v in I.iterate(arg(a, 0)):
            o = newobj()
            v = resolved(v)
            o.props["status"] = v.state
            o.props["value" if v.state == "fulfilled" else "reason"] = v.value
            out.append(o)
        return Promise("fulfilled", Arr(out))
    native(PC, "all", pall)
    native(PC, "allSettled", pallset)
    native(PC, "resolve", lambda I, t, a: resolved(arg(a, 0)))
    native(PC, "reject", lambda I, t, a: Promise("rejected", arg(a, 0)))

    # ---------------------------------------------------------------- primitives
    glob("Boolean", lambda I, t, a: arg(a, 0) if isbool(arg(a, 0)) else I.truth(arg(a, 0)), None, P["Boolean"])

    def number(I, t, a):
        v = arg(a, 0, 0)
        if isinstance(v, Sym) and v.kind == "big":
            return I.rounded(v)
        if isinstance(v, Big):
            return norm(int(v))
        return I.tonum(v)
    NC = glob("Number", number, None, P["Number"])

    def is_int(I, t, a):
        v = arg(a, 0)
        return isnum(v) and (type(v) is not float or v.is_integer())
    for n, v in dict(MAX_SAFE_INTEGER=jsx.SAFE - 1, MIN_SAFE_INTEGER=1 - jsx.SAFE, NaN=math.nan, POSITIVE_INFINITY=math.inf,
                     NEGATIVE_INFINITY=-math.inf).items():
        NC.props[n] = v
    isnan = lambda I, t, a: type(arg(a, 0)) is float and math.isnan(a[0])
    isfin = lambda I, t, a: isnum(arg(a, 0)) and not (type(a[0]) is float and not math.isfinite(a[0]))
    for n, f in dict(isInteger=is_int, isNaN=isnan, isFinite=isfin,
                     isSafeInteger=lambda I, t, a: is_int(I, t, a) and (isinstance(a[0], Sym) or abs(a[0]) < jsx.SAFE)).items():
        native(NC, n, f)
    G.v["isNaN"] = NF(lambda I, t, a: isnan(I, t, [I.tonum(arg(a, 0))]))
    G.v["isFinite"] = NF(lambda I, t, a: isfin(I, t, [I.tonum(arg(a, 0))]))
    G.v["NaN"], G.v["Infinity"] = math.nan, math.inf
    G.v["undefined"] = UNDEF

    def bigint(I, t, a):
        v = arg(a, 0)
        if isbig(v):
            return v
        if isinstance(v, Sym):
            return mksym("big", v.t, v.lo, v.hi)
        if isinstance(v, SBool):
            return mksym("big", T.zext(v.t, 1, W), 0, 1)
        if type(v) is bool:
            return Big(int(v))
        if type(v) is int:
            return Big(v)
        if type(v) is float:
            if v.is_integer():
                return Big(int(v))
            I.throw("RangeError", "not an integer")
        if type(v) is str:
            try:
                return Big(int(v.strip() or "0", 0))
            except ValueError:
                I.throw("SyntaxError", "bigint")
        I.throw("TypeError", "bigint")
    BC = glob("BigInt", bigint, None, P["BigInt"])

    def asuint(I, t, a):
        n, v = int(a[0]), a[1]
        if not isinstance(v, Sym):
            return Big(int(v) & ((1 << n) - 1))
        if 0 <= v.lo and v.hi < 1 << n:
            return v
        return mksym("big", T.zext(T.trunc(v.t, W, n), n, W), 0, (1 << n) - 1)

    def asint(I, t, a):
        n, v = int(a[0]), a[1]
        if not isinstance(v, Sym):
            x = int(v) & ((1 << n) - 1)
            return Big(x - (1 << n) if x >> (n - 1) else x)
        return mksym("big", T.sext(T.trunc(v.t, W, n), n, W), -(1 << (n - 1)), (1 << (n - 1)) - 1)
    native(BC, "asUintN", asuint)
    native(BC, "asIntN", asint)

    def num_tostring(I, t, a):
        if isinstance(t, Sym):
            return SStr("text", None)
        r = arg(a, 0, 10)
        if r not in (10, UNDEF):
            d, n, s = "0123456789abcdefghijklmnopqrstuvwxyz", abs(int(t)), ""
            while n:
                s, n = d[n % r] + s, n // r
            return ("-" if t < 0 else "") + (s or "0")
        return I.tostr(t)
    for n in ("Number", "BigInt", "Boolean", "String"):
        native(P[n], "toString", num_tostring if n in ("Number", "BigInt") else lambda I, t, a: I.tostr(t))
        native(P[n], "valueOf", lambda I, t, a: t)
    SC = glob("String", lambda I, t, a: I.tostr(arg(a, 0, "")), None, P["String"])
    SP = P["String"]
    native(SC, "fromCharCode", lambda I, t, a: "".join(chr(int(I.concretise(x)) & 65535) for x in a))

    def sm(f):
        def g(I, t, a):
            if type(t) is not str or any(isinstance(x, SStr) for x in a):
                raise Unsupported("method of an opaque text")
            return f(I, t, [I.concretise(x) for x in a])
        return g
    for n, f in dict(
            slice=lambda I, t, a: t[rel(intarg(I, a, 0, 0), len(t)):rel(intarg(I, a, 1, len(t)), len(t))],
            substring=lambda I, t, a: t[min(max(0, intarg(I, a, 0, 0)), len(t)):max(0, intarg(I, a, 1, len(t)))],
            toLowerCase=lambda I, t, a: t.lower(), toUpperCase=lambda I, t, a: t.upper(), trim=lambda I, t, a: t.strip(),
            includes=lambda I, t, a: a[0] in t, startsWith=lambda I, t, a: t.startswith(a[0]),
            endsWith=lambda I, t, a: t.endswith(a[0]), indexOf=lambda I, t, a: t.find(a[0]),
            split=lambda I, t, a: Arr(t.split(a[0]) if a[0] else list(t)), concat=lambda I, t, a: t + "".join(I.tostr(x) for x in a),
            charCodeAt=lambda I, t, a: ord(t[intarg(I, a, 0, 0)]), charAt=lambda I, t, a: t[intarg(I, a, 0, 0):][:1],
            at=lambda I, t, a: t[intarg(I, a, 0, 0)], repeat=lambda I, t, a: t * intarg(I, a, 0, 0),
            padStart=lambda I, t, a: t.rjust(int(a[0]), arg(a, 1, " ")), padEnd=lambda I, t, a: t.ljust(int(a[0]), arg(a, 1, " ")),
            replaceAll=lambda I, t, a: t.replace(a[0], a[1])).items():
        native(SP, n, sm(f))

    M = newobj()
    G.v["Math"] = M

    def minmax(op):
        def f(I, t, a):
            r = a[0]
            for x in a[1:]:
                if I.truth(I.compare(op, x, r)):
                    r = x
            return r
        return f
    ident = lambda I, v: v if isinstance(v, Sym) else None

    def rnd(g):
        def f(I, t, a):
            v = I.tonum(arg(a, 0))
            if isinstance(v, jsx.Frac):
                if g is math.ceil:
                    raise Unsupported("the ceiling of a symbolic fraction")
                return v.floor()
            return v if isinstance(v, Sym) or type(v) is int or not math.isfinite(v) else norm(float(g(v)))
        return f
    for n, f in dict(min=minmax("<"), max=minmax(">"), floor=rnd(math.floor), ceil=rnd(math.ceil), trunc=rnd(math.trunc)).items():
        native(M, n, f)

    def toint(I, t, a):
        v = arg(a, 0)
        if isinstance(v, Sym) and arg(a, 1, 10) in (10, UNDEF):
            return v if v.kind != "big" else I.rounded(v)
        s = I.tostr(v)
        if type(s) is not str:
            raise Unsupported("parseInt of an opaque text")
        r = I.concretise(arg(a, 1, 0))
        r = 0 if r is UNDEF else int(r)
        s = s.strip()
        sign = -1 if s[:1] == "-" else 1
        s = s.lstrip("+-") if s[:1] in "+-" else s
        if r in (0, 16) and s[:2].lower() == "0x":
            s, r = s[2:], 16
        r = r or 10
        n = 0
        while n < len(s) and s[n].lower() in "0123456789abcdefghijklmnopqrstuvwxyz"[:r]:
            n += 1
        return norm(sign * int(s[:n], r)) if n else math.nan

    def tofloat(I, t, a):
        import re
        s = I.tostr(arg(a, 0))
        if type(s) is not str:
            raise Unsupported("parseFloat of an opaque text")
        m = re.match(r"\s*([+-]?(Infinity|\d+\.?\d*([eE][+-]?\d+)?|\.\d+([eE][+-]?\d+)?))", s)
        return norm(float(m.group(1).replace("Infinity", "inf"))) if m else math.nan
    for n, f in dict(parseInt=toint, parseFloat=tofloat).items():
        G.v[n] = native(NC, n, f)

    def mabs(I, t, a):
        v = I.tonum(arg(a, 0))
        return v if not I.truth(I.compare("<", v, 0)) else I.arith("-", 0, v)

    def msign(I, t, a):
        v = I.tonum(arg(a, 0))
        return 1 if I.truth(I.compare(">", v, 0)) else -1 if I.truth(I.compare("<", v, 0)) else 0

    def mconc(g):
        def f(I, t, a):
            xs = [I.tonum(x) for x in a]
            if any(isinstance(x, Sym) for x in xs):
                raise Unsupported("Math of a symbolic number")
            return norm(float(g(*xs)))
        return f
    for n, f in dict(abs=mabs, sign=msign, pow=mconc(lambda x, y: x ** y), round=rnd(lambda v: math.floor(v + 0.5)),
                     sqrt=mconc(lambda x: math.sqrt(x) if x >= 0 else math.nan), log2=mconc(lambda x: math.log2(x) if x > 0 else math.nan)).items():
        native(M, n, f)

    # ---------------------------------------------------------------- symbols, generators, buffers
    SY = newobj()
    G.v["Symbol"] = SY
    SY.props["iterator"], SY.props["asyncIterator"] = "@@iterator", "@@asyncIterator"
    GP = P["Generator"]

    def step(kind):
        def f(I, t, a):
            v, done = t.resume((kind, arg(a, 0)))
            r = newobj()
            r.props["value"], r.props["done"] = v, done
            return jsx.Promise("fulfilled", r) if t.isasync else r
        return f
    for n in ("next", "return", "throw"):
        native(GP, n, step(n))
    native(GP, "@@iterator", lambda I, t, a: t)
    native(GP, "@@asyncIterator", lambda I, t, a: t)

    def self_iter(o, names):
        for n in names:
            native(o, n, lambda I, t, a: Arr(I.iterate(t)))
    for k in ("Array", "Uint8Array", "Map", "Set", "String"):
        self_iter(P[k], ["@@iterator"])

    def abuf(I, a):
        n = I.concretise(arg(a, 0, 0))
        r = jsx.ABuf([0] * int(n))
        r.proto = P["ArrayBuffer"]
        return r
    glob("ArrayBuffer", lambda I, t, a: I.throw("TypeError", "needs new"), abuf, P["ArrayBuffer"])

    def dview(I, a):
        b = arg(a, 0)
        if not isinstance(b, jsx.ABuf):
            I.throw("TypeError", "not an ArrayBuffer")
        o = intarg(I, a, 1, 0)
        n = intarg(I, a, 2, len(b.cells) - o)
        if o < 0 or n < 0 or o + n > len(b.cells):
            I.throw("RangeError", "offset is out of bounds")
        r = jsx.View(b.cells, o, n)
        r.proto = P["DataView"]
        return r
    DV = P["DataView"]
    glob("DataView", lambda I, t, a: I.throw("TypeError", "needs new"), dview, DV)

    def dv_at(I, t, a, n):
        o = intarg(I, a, 0, 0)
        if o < 0 or o + n > t.n:
            I.throw("RangeError", "Offset is outside the bounds of the DataView")
        return t.lo + o

    def dv_get(n, signed, kind):
        def f(I, t, a):
            o = dv_at(I, t, a, n)
            c = t.cells[o:o + n]
            if not (n > 1 and I.truth(arg(a, 1, False))):
                c = c[::-1]
            return bytes_int(I, t, [U8(c), signed], kind)
        return f

    def dv_set(n, kind):
        def f(I, t, a):
            o = dv_at(I, t, a, n)
            v = arg(a, 1)
            if kind == "num":
                v = I.tonum(v)
                if type(v) is float:
                    v = int(v) if math.isfinite(v) else 0
            elif not isbig(v):
                I.throw("TypeError", "not a bigint")
            c = int_bytes(I, t, [v if isinstance(v, Sym) else Big(int(v)), n]).cells
            if not (n > 1 and I.truth(arg(a, 2, False))):
                c = c[::-1]
            t.cells[o:o + n] = c
            return UNDEF
        return f
    for n in (1, 2, 4, 8):
        for sg in (False, True):
            nm = ("Int" if sg else "Uint") + str(8 * n)
            kd = "num"
            if n == 8:
                nm, kd = "Big" + nm, "big"
            native(DV, "get" + nm, dv_get(n, sg, kd))
            native(DV, "set" + nm, dv_set(n, kd))

    def td_decode(I, t, a):
        c = a[0].cells
        if not all(isint(x) for x in c):
            raise Unsupported("text of symbolic bytes")
        return bytes(c).decode(errors="replace")
    native(P["TextDecoder"], "decode", td_decode)
    glob("TextDecoder", lambda I, t, a: I.throw("TypeError", "needs new"), lambda I, a: Obj(P["TextDecoder"]), P["TextDecoder"])

    def clone(I, t, a):
        def go(v):
            if isinstance(v, Arr):
                return Arr([go(x) for x in v.items])
            if isinstance(v, U8):
                return U8(list(v.cells))
            if isinstance(v, Obj):
                if v.cls != "Object":
                    raise Unsupported("structuredClone")
                r = newobj()
                for k in I.keys(v):
                    r.props[k] = go(I.get(v, k))
                return r
            return v
        return go(arg(a, 0))
    G.v["structuredClone"] = NF(clone)
    RF = newobj()
    G.v["Reflect"] = RF
    native(RF, "ownKeys", lambda I, t, a: Arr(I.keys(a[0])))
    native(RF, "get", lambda I, t, a: I.get(a[0], I.key(a[1])))
    native(RF, "has", lambda I, t, a: I.get(a[0], I.key(a[1])) is not UNDEF)

    C = newobj()
    G.v["console"] = C
    for n in ("log", "error", "warn", "info", "debug"):
        native(C, n, lambda I, t, a: UNDEF)
    pr = newobj()
    pr.props["env"] = newobj()
    G.v["process"] = pr

    te = Obj(P["Object"])

    def encode(I, t, a):
        s = arg(a, 0, "")
        if type(s) is not str:
            raise Unsupported("bytes of an opaque text")
        return U8(list(s.encode()))
    native(te, "encode", encode)
    glob("TextEncoder", lambda I, t, a: I.throw("TypeError", "needs new"), lambda I, a: Obj(te), te)

    # Buffer.from(text, 'base64') and of bytes: as a plain byte array
    B = newobj()
    G.v["Buffer"] = B

    def buf_from(I, t, a):
        if isstr(a[0]):
            enc = arg(a, 1, "utf8")
            if enc == "base64":
                return b64(I, t, a)
            if enc in ("utf8", "utf-8"):
                return encode(I, t, a)
            raise Unsupported("Buffer.from " + str(enc))
        return u8_ctor(I, [a[0]])
    native(B, "from", buf_from)
    native(B, "isBuffer", lambda I, t, a: isinstance(arg(a, 0), U8))
    native(B, "alloc", lambda I, t, a: U8([0] * int(a[0])))
    native(B, "concat", lambda I, t, a: U8([c for x in a[0].items for c in x.cells]))

    # ---------------------------------------------------------------- harness primitives
    V = newobj()
    G.v["__v"] = V

    def addr_val(I, s):
        if isinstance(s, SStr) and s.kind == "addr":
            return s.v
        if type(s) is str:
            v = jsx.addr_of_text(s)
            if v is not None:
                return v
        elif isinstance(s, SStr):
            raise Unsupported("address of an opaque text")
        I.throw("Error", "not an address")

    def cells_of(v, n):
        return list(v.to_bytes(n, "little")) if isint(v) else [(v, i) for i in range(n)]

    def is_addr(I, t, a):
        s = arg(a, 0)
        if isinstance(s, SStr):
            if s.kind == "addr":
                return True
            raise Unsupported("isAddress of an opaque text")
        return type(s) is str and jsx.addr_of_text(s) is not None

    def addr_of(I, t, a):
        c = a[0].cells
        if len(c) != 32:
            I.throw("Error", "not 32 bytes")
        v = MC.cells_value(None, None, c)
        return sol.b58enc(v.to_bytes(32, "little")) if isint(v) else SStr("addr", v)

    def b64(I, t, a):
        s = a[0]
        if isinstance(s, SStr):
            if s.kind != "b64":
                raise Unsupported("base64 of an opaque text")
            return U8(list(s.v))
        if type(s) is not str:
            I.throw("TypeError", "not a text")
        import re
        c = re.sub(r"[^A-Za-z0-9+/]", "", s.replace("-", "+").replace("_", "/").split("=")[0])
        return U8(list(base64.b64decode(c + "=" * (-len(c) % 4))))

    def to_b64(I, t, a):
        c = a[0].cells
        return base64.b64encode(bytes(c)).decode() if all(isint(x) for x in c) else SStr("b64", list(c))

    def int_bytes(I, t, a):
        v, n = a[0], int(a[1])
        if isinstance(v, Sym):
            x = T.trunc(v.t, W, 8 * n)
        else:
            x = int(bigint(I, t, [v])) & T.M(8 * n)
        return U8(cells_of(x, n))

    def bytes_int(I, t, a, kind="big"):
        c = a[0].cells
        n = 8 * len(c)
        v = MC.cells_value(None, None, c)
        signed = arg(a, 1) is True
        t_ = T.sext(v, n, W) if signed else T.zext(v, n, W)
        return mksym(kind, t_, -(1 << (n - 1)) if signed else 0, (1 << (n - 1)) - 1 if signed else (1 << n) - 1)

    def pda(I, t, a):
        seeds = [(MC.cells_value(None, None, s.cells), len(s.cells)) for s in I.iterate(a[0]) if s.cells]
        h, b = svm.fpa_parts(seeds, MC.cells_value(None, None, a[1].cells))
        return Arr([U8(cells_of(h, 32)), b if isint(b) else mksym("num", T.zext(b, 8, W), 0, 255)])
    for n, f in dict(addressBytes=lambda I, t, a: U8(cells_of(addr_val(I, arg(a, 0)), 32)), addressOf=addr_of, isAddress=is_addr,
                     base64Bytes=b64, bytesBase64=to_b64, intBytes=int_bytes, bytesBig=bytes_int,
                     bytesNum=lambda I, t, a: bytes_int(I, t, a, "num"),
                     concat=lambda I, t, a: U8([c for x in I.iterate(a[0]) for c in x.cells]), pda=pda).items():
        native(V, n, f)
    return P, G
