"""A symbolic interpreter for the JS client: it executes the ESTree of the transpiled TypeScript.

Numbers and bigints may be symbolic integers, booleans symbolic conditions, addresses and base64 texts opaque texts over
symbolic bytes; typed arrays are lists of byte cells (as in machine.py).  Control flow forks on symbolic conditions
(re-execution with a decision prefix, infeasible sides pruned by the solver).  Promises are settled eagerly: nothing in
the modelled environment is concurrent.  Whatever is not modelled raises Unsupported, never a guess."""
import base64
import itertools
import json
import math
import threading
import machine as MC
import smt
import sol
import svm
import term as T
from term import isint

W = 256         # width of symbolic bigints and numbers
BIG = 1 << (W - 2)
SAFE = 1 << 53


class Unsupported(Exception):
    pass


class Infeasible(Exception):
    pass


class TooDeep(Exception):
    pass


class JSThrow(Exception):
    def __init__(self, value):
        self.value = value


class Singleton:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


UNDEF, NULL, TDZ, SHORT = Singleton("undefined"), Singleton("null"), Singleton("<uninitialised>"), Singleton("<short circuit>")


class Big(int):
    """a concrete bigint (concrete numbers are Python int or float)"""


class Sym:
    """a symbolic integer: kind 'num' or 'big', two's complement of W bits, within [lo, hi]"""
    __slots__ = ("kind", "t", "lo", "hi")

    def __init__(self, kind, t, lo, hi):
        self.kind, self.t, self.lo, self.hi = kind, t, lo, hi


class Frac(Sym):
    """the double x / y of nonnegative doubles with integer values; only its integer part is encoded"""
    __slots__ = ("x", "y")

    def __init__(self, x, y):
        self.kind, self.x, self.y = "num", x, y

    def _no(self):
        raise Unsupported("a symbolic fraction")
    t = lo = hi = property(_no)

    def floor(self):
        (x, _, xh), (y, yl, _) = rng(self.x), rng(self.y)
        q, r = T.udiv(x, y, W), T.urem(x, y, W)
        hi = xh // max(1, yl)
        if xh <= SAFE:
            return mksym("num", q, 0, hi)      # a quotient just below an integer does not round up to it
        up = 0
        for n in range(1, 54):                  # n bits before the point, 53 - n after it
            f = 53 - n
            half = T.mul(T.sub(y, r, W), 1 << (f + 1), W)
            o = T.ult(half, y, W)
            tie = T.eq(half, y, W) if f else T.band(T.eq(half, y, W), T.eq(T.band(q, 1, W), 1, W), 1)
            here = T.band(T.ult(q, 1 << n, W), T.ule(1 << (n - 1), q, W), 1)
            up = T.bor(up, T.band(here, T.bor(o, tie, 1), 1), 1)
        v = T.add(q, T.zext(up, 1, W), W)
        if hi < SAFE:
            return mksym("num", v, 0, hi + 1)
        for k in range(1, hi.bit_length() - 52):
            m = T.band(q, M_(k), W)
            h = 1 << (k - 1)
            sticky = T.ne(r, 0, W)
            odd = T.eq(T.band(T.lshr(q, k, W), 1, W), 1, W)
            o = T.bor(T.ult(h, m, W), T.band(T.eq(m, h, W), T.bor(sticky, odd, 1), 1), 1)
            z = T.shl(T.add(T.lshr(q, k, W), T.zext(o, 1, W), W), k, W)
            v = T.ite(T.ult(q, 1 << (52 + k), W), v, z, W)
        return Sym("num", v, 0, int(float(hi)))


def M_(k):
    return (1 << k) - 1


def mksym(kind, t, lo, hi):
    if isint(t):
        v = t - (1 << W) if t >> (W - 1) else t
        return Big(v) if kind == "big" else v
    if lo < -BIG or hi > BIG:
        raise Unsupported("an integer of more than %d bits" % (W - 2))
    if kind == "num" and (lo < -SAFE or hi > SAFE):
        raise Unsupported("a number beyond the safe integers")
    return Sym(kind, t, lo, hi)


class SBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t


def mkbool(t):
    return bool(t) if isint(t) else SBool(t)


class SStr:
    """an opaque text: kind 'addr' (v: 256-bit value), 'b64' (v: byte cells) or 'text' (unknown)"""
    __slots__ = ("kind", "v")

    def __init__(self, kind, v):
        self.kind, self.v = kind, v


class Obj:
    cls = "Object"

    def __init__(self, proto=None, props=None):
        self.proto = proto
        self.props = props if props is not None else {}
        self.frozen = False


class Arr(Obj):
    cls = "Array"

    def __init__(self, items=None):
        Obj.__init__(self)
        self.items = items if items is not None else []


class U8(Obj):
    cls = "Uint8Array"

    def __init__(self, cells):
        Obj.__init__(self)
        self.cells = cells


class ABuf(Obj):
    """an array buffer: the list of cells it shares with its views"""
    cls = "ArrayBuffer"

    def __init__(self, cells):
        Obj.__init__(self)
        self.cells = cells


class View(Obj):
    cls = "DataView"

    def __init__(self, cells, lo, n):
        Obj.__init__(self)
        self.cells, self.lo, self.n = cells, lo, n


class MapObj(Obj):
    def __init__(self, cls):
        Obj.__init__(self)
        self.cls = cls
        self.d = {}         # key -> (original key, value)


class Promise(Obj):
    cls = "Promise"

    def __init__(self, state, value):
        Obj.__init__(self)
        self.state, self.value = state, value


class Accessor:
    def __init__(self, get=None, set=None):
        self.get, self.set = get, set


class Func(Obj):
    cls = "Function"

    def __init__(self, node, env, this=None, name="", home=None):
        Obj.__init__(self)
        self.node, self.env, self.this, self.name = node, env, this, name
        self.arrow = node["type"] == "ArrowFunctionExpression"
        self.isasync = node.get("async")
        self.isgen = node.get("generator")
        self.home = home
        self.isclass = False
        self.fields = []
        self.parent = None


class NF(Obj):
    """a native function f(interp, this, args)"""
    cls = "Function"

    def __init__(self, f, name="", ctor=None):
        Obj.__init__(self)
        self.f, self.name, self.ctor = f, name, ctor


class GenKill(BaseException):
    pass


class Gen(Obj):
    """a generator object: its body runs in a thread of its own, one of them at a time"""
    cls = "Generator"

    def __init__(self, interp, body):
        Obj.__init__(self)
        self.I, self.body, self.thread, self.done, self.killed = interp, body, None, False, False
        self.msg, self.result, self.isasync = None, None, False
        self.go, self.back = threading.Semaphore(0), threading.Semaphore(0)
        interp.gens.append(self)

    def main(self):
        self.go.acquire()
        try:
            if self.killed:
                raise GenKill()
            self.result = ("return", self.body())
        except BaseException as e:
            self.result = ("raise", e)
        self.done = True
        self.back.release()

    def resume(self, msg):
        """-> (value, done)"""
        if self.done:
            if msg[0] == "throw":
                raise JSThrow(msg[1])
            return (msg[1] if msg[0] == "return" else UNDEF), True
        if self.thread is None:
            if msg[0] != "next":
                self.done = True
                return self.resume(msg)
            old = threading.stack_size(1 << 27)
            try:
                self.thread = threading.Thread(target=self.main, daemon=True)
                self.thread.start()
            finally:
                threading.stack_size(old)
        prev, self.I.cur = self.I.cur, self
        self.msg = msg
        self.go.release()
        self.back.acquire()
        self.I.cur = prev
        k, v = self.result
        if k == "raise":
            if isinstance(v, GenReturn):
                return v.value, True
            raise v
        return v, k == "return"

    def yielded(self, v):
        """called in the generator's thread"""
        self.result = ("yield", v)
        self.back.release()
        self.go.acquire()
        if self.killed:
            raise GenKill()
        k, x = self.msg
        if k == "throw":
            raise JSThrow(x)
        if k == "return":
            raise GenReturn(x)
        return x

    def kill(self):
        if self.thread is not None and not self.done:
            self.killed = True
            self.go.release()
            self.thread.join(10)

    def values(self):
        """the values yielded, on demand; leaving early ends the generator"""
        for n in range(100000):
            v, done = self.resume(("next", UNDEF))
            if done:
                return
            try:
                yield v
            except GeneratorExit:
                self.resume(("return", UNDEF))
                raise
        raise Unsupported("loop bound")


class GenReturn(Exception):
    def __init__(self, value):
        self.value = value


class Scope:
    __slots__ = ("v", "up", "const")

    def __init__(self, up):
        self.v, self.up, self.const = {}, up, set()

    def find(self, n):
        s = self
        while s is not None:
            if n in s.v:
                return s
            s = s.up
        return None


class ImportRef:
    __slots__ = ("mod", "name")

    def __init__(self, mod, name):
        self.mod, self.name = mod, name


class Module:
    def __init__(self, mid, ast, file):
        self.id, self.ast, self.file = mid, ast, file
        self.scope = None
        self.exports = {}       # name -> local name | ImportRef
        self.stars = []
        self.done = False


def isnum(v):
    return (type(v) in (int, float)) or (isinstance(v, Sym) and v.kind == "num")


def isbig(v):
    return isinstance(v, Big) or (isinstance(v, Sym) and v.kind == "big")


def isbool(v):
    return type(v) is bool or isinstance(v, SBool)


def isstr(v):
    return type(v) is str or isinstance(v, SStr)


def typeof(v):
    if v is UNDEF:
        return "undefined"
    if isbool(v):
        return "boolean"
    if isbig(v):
        return "bigint"
    if isnum(v):
        return "number"
    if isstr(v):
        return "string"
    if isinstance(v, Obj) and v.cls == "Function":
        return "function"
    return "object"


def norm(x):
    """a Python number as a JS number: integral floats are ints"""
    if type(x) is float and x.is_integer() and abs(x) <= SAFE and not (x == 0 and math.copysign(1, x) < 0):
        return int(x)
    if type(x) is int and abs(x) > SAFE:
        return float(x)
    return x


def rng(v):
    """(term of W bits, lo, hi) of an integral number or bigint"""
    if isinstance(v, Sym):
        return v.t, v.lo, v.hi
    if type(v) is float:
        raise Unsupported("a fractional number meets a symbolic integer")
    v = int(v)
    return v & T.M(W), v, v


def numstr(v):
    if type(v) is float:
        if math.isnan(v):
            return "NaN"
        if math.isinf(v):
            return "Infinity" if v > 0 else "-Infinity"
        return repr(v)
    return str(int(v))


def isindex(k):
    return k.isdigit() and (k == "0" or k[0] != "0") and len(k) < 10


class Interp:
    def __init__(self, prog, stats=None):
        """prog: parsed ast.json"""
        self.prog = prog
        self.feas = smt.Feas(timeout_ms=10000)
        self.stats = stats if stats is not None else {}
        self.funcs = {}
        self.narrow = {}
        self.forks = 0
        self.steps = 0
        self.unknown = 0

    # ------------------------------------------------------------ exploration
    def explore(self, fn, args, conds=()):
        """all paths of the exported function fn -> (kind, value, pc); args: a function giving fresh JS arguments"""
        todo = [[]]
        while todo:
            pre = todo.pop()
            self.pre, self.pos, self.taken, self.todo = pre, 0, [], todo
            self.pc, self.known = [], {}
            dead = False
            for c in conds:
                if isint(c):
                    dead = dead or not c
                else:
                    self.assume(c)
            if dead:
                return
            self.gens, self.cur = [], None
            self.load()
            try:
                f = self.export(self.mods[self.prog["main"]], fn)
                r = self.call(f, UNDEF, args())
                if isinstance(r, Promise):
                    r = self.settled(r)
                yield ("ret", r, list(self.pc))
            except JSThrow as e:
                yield ("throw", e.value, list(self.pc))
            except Infeasible:
                pass
            except (Unsupported, RecursionError) as e:
                yield ("unsupported", str(e)[:200], list(self.pc))
            except (TypeError, ValueError, AttributeError, KeyError, IndexError, OverflowError, ZeroDivisionError, AssertionError) as e:
                # an operation the interpreter does not model for symbolic values
                yield ("unsupported", "%s: %s" % (type(e).__name__, str(e)[:160]), list(self.pc))
            finally:
                for g in self.gens:
                    g.kill()

    def assume(self, c):
        self.pc.append(c)
        self.known[c.id] = True
        n = T.bnot(c)
        if not isint(n):
            self.known[n.id] = False

    def decide(self, c):
        """a condition -> bool; forks if both values are possible"""
        if isinstance(c, SBool):
            c = c.t
        if type(c) is bool or isint(c):
            return bool(c)
        k = self.known.get(c.id)
        if k is not None:
            return k
        if self.pos < len(self.pre):
            r = self.pre[self.pos]
        else:
            a = self.feas.check(self.pc + [c])
            if a == "unsat":
                r = False
            else:
                b = self.feas.check(self.pc + [T.bnot(c)])
                self.unknown += (a == "unknown") + (b == "unknown")
                r = True
                if b != "unsat":
                    self.todo.append(self.taken + [False])
                    self.forks += 1
        self.pos += 1
        self.taken.append(r)
        self.assume(c if r else T.bnot(c))
        return r

    def concretise(self, v, limit=300):
        """a symbolic integer -> one of its possible values (forking)"""
        if not isinstance(v, Sym):
            return v
        if v.hi - v.lo > limit:
            raise Unsupported("a symbolic value is needed concretely")
        for k in range(v.lo, v.hi):
            if self.decide(T.eq(v.t, k & T.M(W), W)):
                return Big(k) if v.kind == "big" else k
        return Big(v.hi) if v.kind == "big" else v.hi

    # ------------------------------------------------------------ modules
    def load(self):
        self.protos()
        self.mods = {m["id"]: Module(m["id"], m["ast"], m["file"]) for m in self.prog["modules"]}
        for m in self.mods.values():
            self.link(m)
        self.evaluate(self.mods[self.prog["main"]])

    def link(self, m):
        m.scope = Scope(self.globals)
        for n in m.ast["body"]:
            t = n["type"]
            if t == "ImportDeclaration":
                for s in n["specifiers"]:
                    src = self.mods[n["module"]]
                    name = {"ImportSpecifier": lambda: self.name_of(s["imported"]), "ImportDefaultSpecifier": lambda: "default",
                            "ImportNamespaceSpecifier": lambda: "*"}[s["type"]]()
                    m.scope.v[s["local"]["name"]] = ImportRef(src, name)
            elif t == "ExportAllDeclaration":
                if n.get("exported"):
                    m.exports[self.name_of(n["exported"])] = ImportRef(self.mods[n["module"]], "*")
                else:
                    m.stars.append(self.mods[n["module"]])
            elif t == "ExportNamedDeclaration":
                d = n.get("declaration")
                if d:
                    if d["type"] == "VariableDeclaration":
                        for x in d["declarations"]:
                            for nm in self.bound(x["id"]):
                                m.exports[nm] = nm
                    else:
                        m.exports[d["id"]["name"]] = d["id"]["name"]
                for s in n["specifiers"]:
                    e, l = self.name_of(s["exported"]), self.name_of(s["local"])
                    m.exports[e] = ImportRef(self.mods[n["module"]], l) if n.get("source") else l
            elif t == "ExportDefaultDeclaration":
                m.exports["default"] = "*default*"
        self.hoist([n.get("declaration") or n if n["type"] == "ExportNamedDeclaration" else
                    n["declaration"] if n["type"] == "ExportDefaultDeclaration" else n for n in m.ast["body"]], m.scope, True)

    def name_of(self, n):
        return n["name"] if n["type"] == "Identifier" else n["value"]

    def evaluate(self, m):
        if m.done:
            return
        m.done = True
        for n in m.ast["body"]:
            if n.get("module") is not None:
                self.evaluate(self.mods[n["module"]])
        for n in m.ast["body"]:
            t = n["type"]
            if t in ("ImportDeclaration", "ExportAllDeclaration"):
                continue
            if t == "ExportNamedDeclaration":
                n = n.get("declaration")
                if not n:
                    continue
            elif t == "ExportDefaultDeclaration":
                d = n["declaration"]
                if d["type"].endswith("Declaration") and d.get("id"):
                    self.exec(d, m.scope)
                    m.exports["default"] = d["id"]["name"]
                else:
                    m.scope.v["*default*"] = self.ev(d, m.scope)
                continue
            self.exec(n, m.scope)

    def resolve_export(self, m, name, seen=()):
        if (m.id, name) in seen:
            return None
        e = m.exports.get(name)
        if e is not None:
            return (m, e)
        for s in m.stars:
            r = self.resolve_export(s, name, seen + ((m.id, name),))
            if r is not None:
                return r
        return None

    def export(self, m, name):
        if name == "*":
            o = Obj()
            names = set()
            todo = [m]
            while todo:
                x = todo.pop()
                names |= set(x.exports)
                todo += x.stars
            for k in sorted(names):
                o.props[k] = self.export(m, k)
            return o
        r = self.resolve_export(m, name)
        if r is None:
            raise Unsupported("%s has no export %s" % (m.file, name))
        m2, e = r
        if isinstance(e, ImportRef):
            return self.export(e.mod, e.name)
        v = m2.scope.v.get(e, TDZ)
        if isinstance(v, ImportRef):
            return self.export(v.mod, v.name)
        if v is TDZ:
            self.throw("ReferenceError", "%s before initialisation" % name)
        return v

    # ------------------------------------------------------------ declarations
    def bound(self, p):
        t = p["type"]
        if t == "Identifier":
            return [p["name"]]
        if t == "ObjectPattern":
            return [n for x in p["properties"] for n in self.bound(x["argument"] if x["type"] == "RestElement" else x["value"])]
        if t == "ArrayPattern":
            return [n for x in p["elements"] if x for n in self.bound(x)]
        if t == "AssignmentPattern":
            return self.bound(p["left"])
        if t == "RestElement":
            return self.bound(p["argument"])
        raise Unsupported(t)

    def vars_in(self, n, out):
        """names of var declarations, not inside nested functions"""
        if isinstance(n, list):
            for x in n:
                self.vars_in(x, out)
        elif isinstance(n, dict):
            t = n.get("type")
            if t in ("FunctionDeclaration", "FunctionExpression", "ArrowFunctionExpression", "ClassDeclaration", "ClassExpression"):
                return
            if t == "VariableDeclaration" and n["kind"] == "var":
                for d in n["declarations"]:
                    out += self.bound(d["id"])
            if t and (t.endswith("Statement") or t in ("VariableDeclaration", "SwitchCase", "CatchClause", "Program")):
                for k, v in n.items():
                    if isinstance(v, (dict, list)):
                        self.vars_in(v, out)

    def hoist(self, body, scope, function):
        if function:
            out = []
            self.vars_in(body, out)
            for n in out:
                scope.v.setdefault(n, UNDEF)
        for n in body:
            t = n["type"]
            if t == "FunctionDeclaration" and n.get("id"):
                scope.v[n["id"]["name"]] = self.mkfunc(n, scope)
            elif t == "VariableDeclaration" and n["kind"] != "var":
                for d in n["declarations"]:
                    for nm in self.bound(d["id"]):
                        scope.v[nm] = TDZ
                        if n["kind"] == "const":
                            scope.const.add(nm)
            elif t == "ClassDeclaration" and n.get("id"):
                scope.v[n["id"]["name"]] = TDZ

    def mkfunc(self, node, scope, name="", this=None, home=None):
        f = Func(node, scope, this, name or (node.get("id") or {}).get("name", ""), home)
        if not f.arrow:
            p = Obj(self.P["Object"])
            p.props["constructor"] = f
            f.props["prototype"] = p
        return f

    # ------------------------------------------------------------ errors
    def throw(self, cls, msg):
        e = Obj(self.P[cls])
        e.cls = "Error"
        e.props["message"] = msg
        raise JSThrow(e)

    # ------------------------------------------------------------ statements
    # exec returns None or ('ret', v) | ('break', label) | ('cont', label)
    def exec(self, n, sc):
        self.steps += 1
        return getattr(self, "s_" + n["type"], self.nostat)(n, sc)

    def nostat(self, n, sc):
        raise Unsupported("statement " + n["type"])

    def block(self, body, sc):
        for n in body:
            r = self.exec(n, sc)
            if r is not None:
                return r
        return None

    def s_BlockStatement(self, n, sc):
        s = Scope(sc)
        self.hoist(n["body"], s, False)
        return self.block(n["body"], s)

    def s_EmptyStatement(self, n, sc):
        return None

    s_DebuggerStatement = s_EmptyStatement

    def s_ExpressionStatement(self, n, sc):
        self.ev(n["expression"], sc)

    def s_FunctionDeclaration(self, n, sc):
        return None

    def s_ClassDeclaration(self, n, sc):
        sc.v[n["id"]["name"]] = self.mkclass(n, sc)

    def s_VariableDeclaration(self, n, sc):
        for d in n["declarations"]:
            if d["init"] is None:
                if n["kind"] != "var":
                    self.bind(d["id"], UNDEF, sc, n["kind"])
                continue
            self.bind(d["id"], self.named(d["init"], d["id"], sc), sc, n["kind"])

    def named(self, e, target, sc):
        v = self.ev(e, sc)
        if isinstance(v, Func) and not v.name and target["type"] == "Identifier":
            v.name = target["name"]
        return v

    def s_ReturnStatement(self, n, sc):
        return ("ret", self.ev(n["argument"], sc) if n["argument"] else UNDEF)

    def s_IfStatement(self, n, sc):
        if self.truth(self.ev(n["test"], sc)):
            return self.exec(n["consequent"], sc)
        if n["alternate"]:
            return self.exec(n["alternate"], sc)

    def s_ThrowStatement(self, n, sc):
        raise JSThrow(self.ev(n["argument"], sc))

    def s_TryStatement(self, n, sc):
        try:
            try:
                r = self.exec(n["block"], sc)
            except JSThrow as e:
                h = n["handler"]
                if not h:
                    raise
                s = Scope(sc)
                if h["param"]:
                    self.bind(h["param"], e.value, s, "let")
                r = self.exec(h["body"], s)
        except JSThrow:
            if n["finalizer"]:
                f = self.exec(n["finalizer"], sc)
                if f is not None:
                    return f
            raise
        if n["finalizer"]:
            f = self.exec(n["finalizer"], sc)
            if f is not None:
                return f
        return r

    def s_BreakStatement(self, n, sc):
        return ("break", n["label"]["name"] if n["label"] else None)

    def s_ContinueStatement(self, n, sc):
        return ("cont", n["label"]["name"] if n["label"] else None)

    def s_LabeledStatement(self, n, sc):
        lab = n["label"]["name"]
        b = n["body"]
        r = self.loop(b, sc, lab) if b["type"] in ("ForStatement", "WhileStatement", "DoWhileStatement", "ForOfStatement",
                                                   "ForInStatement") else self.exec(b, sc)
        return None if r == ("break", lab) else r

    def loop(self, n, sc, lab=None):
        return getattr(self, "s_" + n["type"])(n, sc, lab)

    def body(self, n, sc, lab):
        """-> (stop, completion)"""
        self.loops = getattr(self, "loops", 0) + 1
        if self.loops > 2000000:
            raise Unsupported("loop bound")
        r = self.exec(n, sc)
        if r is None:
            return False, None
        if r[0] == "break" and r[1] is None:
            return True, None
        if r[0] == "cont" and r[1] in (None, lab):
            return False, None
        return True, r

    def s_WhileStatement(self, n, sc, lab=None):
        while self.truth(self.ev(n["test"], sc)):
            stop, r = self.body(n["body"], sc, lab)
            if stop:
                return r

    def s_DoWhileStatement(self, n, sc, lab=None):
        while True:
            stop, r = self.body(n["body"], sc, lab)
            if stop:
                return r
            if not self.truth(self.ev(n["test"], sc)):
                return None

    def s_ForStatement(self, n, sc, lab=None):
        s = Scope(sc)
        i = n["init"]
        if i:
            if i["type"] == "VariableDeclaration":
                if i["kind"] != "var":
                    self.hoist([i], s, False)
                self.exec(i, s)
            else:
                self.ev(i, s)
        while n["test"] is None or self.truth(self.ev(n["test"], s)):
            stop, r = self.body(n["body"], s, lab)
            if stop:
                return r
            s2 = Scope(sc)
            s2.v, s2.const = dict(s.v), s.const
            s = s2
            if n["update"]:
                self.ev(n["update"], s)

    def each(self, n, sc, values, lab):
        l = n["left"]
        for v in values:
            s = Scope(sc)
            if l["type"] == "VariableDeclaration":
                self.bind(l["declarations"][0]["id"], v, s, l["kind"])
            else:
                self.assign(l, v, s)
            stop, r = self.body(n["body"], s, lab)
            if stop:
                return r

    def s_ForOfStatement(self, n, sc, lab=None):
        v = self.ev(n["right"], sc)
        if n.get("await") and isinstance(v, Obj):
            f = self.get(v, "@@asyncIterator")
            if isinstance(f, Obj):
                v = self.call(f, v, [])
        vs = self.lazily(v)
        if n.get("await"):
            vs = (self.settled(v) for v in vs)
        return self.each(n, sc, vs, lab)

    def s_ForInStatement(self, n, sc, lab=None):
        v = self.ev(n["right"], sc)
        return self.each(n, sc, [] if v in (UNDEF, NULL) else self.keys(v), lab)

    def s_SwitchStatement(self, n, sc):
        v = self.ev(n["discriminant"], sc)
        s = Scope(sc)
        self.hoist([x for c in n["cases"] for x in c["consequent"]], s, False)
        start = None
        for k, c in enumerate(n["cases"]):
            if c["test"] is not None and self.decide(self.seq(v, self.ev(c["test"], s))):
                start = k
                break
        if start is None:
            d = [k for k, c in enumerate(n["cases"]) if c["test"] is None]
            if not d:
                return None
            start = d[0]
        for c in n["cases"][start:]:
            r = self.block(c["consequent"], s)
            if r is not None:
                return None if r == ("break", None) else r

    # ------------------------------------------------------------ binding and assignment
    def bind(self, p, v, sc, kind):
        if p["type"] == "Identifier":
            n = p["name"]
            if kind == "var":
                s = sc.find(n) or sc
                s.v[n] = v
            else:
                sc.v[n] = v
                if kind == "const":
                    sc.const.add(n)
            return
        self.destructure(p, v, sc, lambda q, x: self.bind(q, x, sc, kind))

    def destructure(self, p, v, sc, put):
        t = p["type"]
        if t == "AssignmentPattern":
            put(p["left"], self.named(p["right"], p["left"], sc) if v is UNDEF else v)
        elif t == "ArrayPattern":
            if isinstance(v, Gen) and not any(q and q["type"] == "RestElement" for q in p["elements"]):
                g = v.values()
                vs = list(itertools.islice(g, len(p["elements"])))
                g.close()
            else:
                vs = self.iterate(v)
            for k, q in enumerate(p["elements"]):
                if q is None:
                    continue
                if q["type"] == "RestElement":
                    put(q["argument"], Arr(list(vs[k:])))
                else:
                    put(q, vs[k] if k < len(vs) else UNDEF)
        elif t == "ObjectPattern":
            if v in (UNDEF, NULL):
                self.throw("TypeError", "cannot destructure")
            used = []
            for q in p["properties"]:
                if q["type"] == "RestElement":
                    o = Obj(self.P["Object"])
                    for k in self.keys(v):
                        if k not in used:
                            o.props[k] = self.get(v, k)
                    put(q["argument"], o)
                else:
                    k = self.propkey(q, sc)
                    used.append(k)
                    put(q["value"], self.get(v, k))
        else:
            raise Unsupported("pattern " + t)

    def assign(self, p, v, sc):
        t = p["type"]
        if t == "Identifier":
            n = p["name"]
            s = sc.find(n)
            if s is None:
                self.throw("ReferenceError", n)
            if s.v[n] is TDZ:
                self.throw("ReferenceError", n)
            if n in s.const or isinstance(s.v[n], ImportRef):
                self.throw("TypeError", "assignment to constant")
            s.v[n] = v
        elif t == "MemberExpression":
            o = self.ev(p["object"], sc)
            self.put(o, self.memberkey(p, sc), v)
        else:
            self.destructure(p, v, sc, lambda q, x: self.assign(q, x, sc))

    # ------------------------------------------------------------ expressions
    def ev(self, n, sc):
        self.steps += 1
        return getattr(self, "e_" + n["type"], self.noexpr)(n, sc)

    def noexpr(self, n, sc):
        raise Unsupported("expression " + n["type"])

    def e_Literal(self, n, sc):
        if n.get("bigint") is not None:
            return Big(int(n["bigint"].replace("_", ""), 0))
        if n.get("regex"):
            raise Unsupported("regular expression")
        v = n["value"]
        return NULL if v is None else norm(v) if type(v) in (int, float) else v

    def e_Identifier(self, n, sc):
        s = sc.find(n["name"])
        if s is None:
            if n["name"] == "undefined":
                return UNDEF
            if n["name"] in NODE_GLOBALS:
                raise Unsupported("global " + n["name"])
            self.throw("ReferenceError", n["name"])
        v = s.v[n["name"]]
        if v is TDZ:
            self.throw("ReferenceError", n["name"])
        if isinstance(v, ImportRef):
            return self.export(v.mod, v.name)
        return v

    def e_ThisExpression(self, n, sc):
        s = sc.find("this")
        return s.v["this"] if s else UNDEF

    def e_TemplateLiteral(self, n, sc):
        out = []
        for k, q in enumerate(n["quasis"]):
            out.append(q["value"]["cooked"])
            if k < len(n["expressions"]):
                out.append(self.tostr(self.ev(n["expressions"][k], sc)))
        if any(isinstance(x, SStr) for x in out):
            ne = [x for x in out if x != ""]
            return ne[0] if len(ne) == 1 else SStr("text", None)
        return "".join(out)

    def e_ArrayExpression(self, n, sc):
        out = []
        for e in n["elements"]:
            if e is None:
                out.append(UNDEF)
            elif e["type"] == "SpreadElement":
                out += self.iterate(self.ev(e["argument"], sc))
            else:
                out.append(self.ev(e, sc))
        return Arr(out)

    def propkey(self, p, sc):
        if p["computed"]:
            return self.key(self.ev(p["key"], sc))
        k = p["key"]
        return k["name"] if k["type"] == "Identifier" else self.key(self.e_Literal(k, sc))

    def key(self, v):
        if isinstance(v, Sym):
            return v
        if isinstance(v, SStr):
            return v
        return self.tostr(v)

    def conckey(self, k):
        if isinstance(k, Sym):
            return str(self.concretise(k))
        if isinstance(k, SStr):
            raise Unsupported("an opaque text as a property name")
        return k

    def e_ObjectExpression(self, n, sc):
        o = Obj(self.P["Object"])
        for p in n["properties"]:
            if p["type"] == "SpreadElement":
                v = self.ev(p["argument"], sc)
                if v not in (UNDEF, NULL) and not isbool(v) and not isnum(v):
                    for k in self.keys(v):
                        o.props[k] = self.get(v, k)
                continue
            k = self.conckey(self.propkey(p, sc))
            if p["kind"] in ("get", "set"):
                a = o.props.get(k)
                if not isinstance(a, Accessor):
                    a = o.props[k] = Accessor()
                setattr(a, p["kind"], self.mkfunc(p["value"], sc, k))
                continue
            v = self.ev(p["value"], sc)
            if isinstance(v, Func) and not v.name:
                v.name = k
            o.props[k] = v
        return o

    def e_FunctionExpression(self, n, sc):
        if n.get("id"):
            sc = Scope(sc)
            f = self.mkfunc(n, sc)
            sc.v[n["id"]["name"]] = f
            return f
        return self.mkfunc(n, sc)

    def e_ArrowFunctionExpression(self, n, sc):
        return self.mkfunc(n, sc)

    def mkclass(self, n, sc):
        sc = Scope(sc)
        parent = self.ev(n["superClass"], sc) if n["superClass"] else None
        ctor = [m for m in n["body"]["body"] if m["type"] == "MethodDefinition" and m["kind"] == "constructor"]
        node = ctor[0]["value"] if ctor else {"type": "FunctionExpression", "params": [], "body": {"type": "BlockStatement", "body": []},
                                              "id": None, "default_ctor": True}
        f = Func(node, sc, None, (n.get("id") or {}).get("name", ""))
        f.isclass, f.parent = True, parent
        f.proto = parent if parent is not None else None
        p = Obj(self.get(parent, "prototype") if parent is not None else self.P["Object"])
        p.props["constructor"] = f
        f.props["prototype"] = p
        f.home = p
        if n.get("id"):
            sc.v[n["id"]["name"]] = f
        for m in n["body"]["body"]:
            if m["type"] == "StaticBlock":
                raise Unsupported("static block")
            if m["type"] == "MethodDefinition" and m["kind"] == "constructor":
                continue
            if m["key"]["type"] == "PrivateIdentifier":
                k = "#" + m["key"]["name"]
            else:
                k = self.conckey(self.propkey(m, sc))
            on = f if m["static"] else p
            if m["type"] == "PropertyDefinition":
                if m["static"]:
                    s = Scope(sc)
                    s.v["this"] = f
                    f.props[k] = self.ev(m["value"], s) if m["value"] else UNDEF
                else:
                    f.fields.append((k, m["value"], sc))
                continue
            fn = self.mkfunc(m["value"], sc, k, home=on)
            if m["kind"] in ("get", "set"):
                a = on.props.get(k)
                if not isinstance(a, Accessor):
                    a = on.props[k] = Accessor()
                setattr(a, m["kind"], fn)
            else:
                on.props[k] = fn
        return f

    e_ClassExpression = mkclass

    def e_ParenthesizedExpression(self, n, sc):
        return self.ev(n["expression"], sc)

    def e_SequenceExpression(self, n, sc):
        v = UNDEF
        for e in n["expressions"]:
            v = self.ev(e, sc)
        return v

    def e_ConditionalExpression(self, n, sc):
        return self.ev(n["consequent"] if self.truth(self.ev(n["test"], sc)) else n["alternate"], sc)

    def e_LogicalExpression(self, n, sc):
        a = self.ev(n["left"], sc)
        op = n["operator"]
        if op == "??":
            return self.ev(n["right"], sc) if a in (UNDEF, NULL) else a
        if isinstance(a, SBool) and self.pure(n["right"]):
            b = self.ev(n["right"], sc)
            if isbool(b):
                return self.bool2(op, a, b)
            return b if self.truth(a) == (op == "&&") else a
        if self.truth(a) == (op == "&&"):
            return self.ev(n["right"], sc)
        return a

    def pure(self, n):
        """evaluating n can neither fail nor have an effect"""
        t = n["type"]
        if t in ("Literal", "Identifier"):
            return True
        if t == "BinaryExpression":
            return n["operator"] in ("===", "!==", "<", ">", "<=", ">=") and self.pure(n["left"]) and self.pure(n["right"])
        if t == "LogicalExpression":
            return self.pure(n["left"]) and self.pure(n["right"])
        return t == "UnaryExpression" and n["operator"] == "!" and self.pure(n["argument"])

    def bool2(self, op, a, b):
        x = a.t if isinstance(a, SBool) else int(a)
        y = b.t if isinstance(b, SBool) else int(b)
        return mkbool(T.And(x, y) if op == "&&" else T.Or(x, y))

    def e_UnaryExpression(self, n, sc):
        op = n["operator"]
        if op == "typeof" and n["argument"]["type"] == "Identifier" and sc.find(n["argument"]["name"]) is None:
            return "undefined"
        if op == "delete":
            p = n["argument"]
            if p["type"] != "MemberExpression":
                raise Unsupported("delete")
            o, k = self.ev(p["object"], sc), self.conckey(self.memberkey(p, sc))
            if isinstance(o, (Arr, U8)) or o.frozen:
                raise Unsupported("delete")
            o.props.pop(k, None)
            return True
        v = self.ev(n["argument"], sc)
        if op == "typeof":
            return typeof(v)
        if op == "void":
            return UNDEF
        if op == "!":
            if isinstance(v, SBool):
                return mkbool(T.bnot(v.t))
            return not self.truth(v)
        if op == "-":
            if isbig(v):
                return self.arith("-", Big(0), v)
            v = self.tonum(v)
            if isinstance(v, Sym):
                return self.arith("-", 0, v)
            return norm(-float(v)) if v == 0 else norm(-v)
        if op == "+":
            if isbig(v):
                self.throw("TypeError", "bigint to number")
            return self.tonum(v)
        if op == "~":
            return self.arith("-", Big(-1) if isbig(v) else -1, v)
        raise Unsupported(op)

    def e_BinaryExpression(self, n, sc):
        op = n["operator"]
        if n["left"]["type"] == "PrivateIdentifier":
            raise Unsupported("#x in y")
        a = self.ev(n["left"], sc)
        b = self.ev(n["right"], sc)
        return self.binary(op, a, b)

    def binary(self, op, a, b):
        if op == "===":
            return self.seq(a, b)
        if op == "!==":
            return self.negate(self.seq(a, b))
        if op == "==":
            return self.leq(a, b)
        if op == "!=":
            return self.negate(self.leq(a, b))
        if op in ("<", ">", "<=", ">="):
            return self.compare(op, a, b)
        if op == "in":
            if not isinstance(b, Obj):
                self.throw("TypeError", "in")
            return self.has(b, self.conckey(self.key(a)))
        if op == "instanceof":
            if not isinstance(b, Obj) or b.cls != "Function":
                self.throw("TypeError", "instanceof")
            p = self.get(b, "prototype")
            o = self.protoof(a)
            while o is not None:
                if o is p:
                    return True
                o = o.proto
            return False
        if op == "+":
            if isstr(a) or isstr(b) or isinstance(a, Obj) or isinstance(b, Obj):
                x, y = self.tostr(a), self.tostr(b)
                if isinstance(x, SStr) or isinstance(y, SStr):
                    return x if y == "" else y if x == "" else SStr("text", None)
                return x + y
        if isbig(a) != isbig(b):
            if isbig(a) or isbig(b):
                self.throw("TypeError", "cannot mix bigint and other types")
        if not isbig(a):
            a, b = self.tonum(a), self.tonum(b)
        return self.arith(op, a, b)

    def negate(self, v):
        return mkbool(T.bnot(v.t)) if isinstance(v, SBool) else not v

    def arith(self, op, a, b):
        big = isbig(a)
        kind = "big" if big else "num"
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            return self.conc(op, a, b, big)
        (x, al, ah), (y, bl, bh) = rng(a), rng(b)
        if op == "+":
            return self.number(kind, T.add(x, y, W), al + bl, ah + bh)
        if op == "-":
            return self.number(kind, T.sub(x, y, W), al - bh, ah - bl)
        if op == "*":
            ps = [al * bl, al * bh, ah * bl, ah * bh]
            if max(ps) > BIG or min(ps) < -BIG:
                raise Unsupported("an integer of more than %d bits" % (W - 2))
            return self.number(kind, T.mul(x, y, W), min(ps), max(ps))
        if op in ("/", "%"):
            if not big and op == "/":
                if al < 0 or bl < 0 or ah >= 1 << 190 or bh >= 1 << 190:
                    raise Unsupported("division of a symbolic number")
                if bl == 0 and self.decide(T.eq(y, 0, W)):
                    raise Unsupported("a number divided by zero")
                return Frac(a, b)
            if bl <= 0 <= bh and self.decide(T.eq(y, 0, W)):
                if big:
                    self.throw("RangeError", "Division by zero")
                raise Unsupported("NaN")
            na = al < 0 and self.decide(T.slt(x, 0, W))
            nb = bl < 0 and self.decide(T.slt(y, 0, W))
            ax, ahh = (T.sub(0, x, W), -al) if na else (x, ah)
            by, bhh = (T.sub(0, y, W), -bl) if nb else (y, bh)
            bll = max(1, bl) if not nb else max(1, -bh)
            all_ = max(0, -ah if na else al)
            if op == "/":
                q = T.udiv(ax, by, W)
                lo, hi = all_ // max(1, bhh), max(0, ahh) // bll
                return mksym(kind, T.sub(0, q, W), -hi, -lo) if na != nb else mksym(kind, q, lo, hi)
            if kind == "num" and na:
                raise Unsupported("the sign of zero")
            r = T.urem(ax, by, W)
            hi = max(0, min(ahh, bhh - 1))
            return mksym(kind, T.sub(0, r, W), -hi, 0) if na else mksym(kind, r, 0, hi)
        if op in ("&", "|", "^"):
            lim = (1 << 31) if not big else BIG
            if al < 0 or bl < 0 or ah >= lim or bh >= lim:
                raise Unsupported("bitwise operation on a possibly negative value")
            t = {"&": T.band, "|": T.bor, "^": T.bxor}[op](x, y, W)
            n = (1 << max(ah, bh).bit_length()) - 1
            return mksym(kind, t, 0, min(ah, bh) if op == "&" else n)
        if op in ("<<", ">>", ">>>") and not isinstance(b, Sym):
            k = int(b)
            if al < 0 or k < 0 or (not big and (k > 31 or ah >= 1 << 31 or (op == "<<" and ah << k >= 1 << 31))):
                raise Unsupported("shift")
            if op == "<<":
                return mksym(kind, T.mul(x, (1 << k) & T.M(W), W), al << k, ah << k)
            return mksym(kind, T.lshr(x, k, W), al >> k, ah >> k)
        if op == "**" and not isinstance(b, Sym) and 0 <= int(b) <= 4:
            r = Big(1) if big else 1
            for _ in range(int(b)):
                r = self.arith("*", r, a)
            return r
        raise Unsupported("symbolic " + op)

    def conc(self, op, a, b, big):
        if big:
            a, b = int(a), int(b)
            if op in ("/", "%"):
                if b == 0:
                    self.throw("RangeError", "Division by zero")
                q = abs(a) // abs(b)
                q = -q if (a < 0) != (b < 0) else q
                return Big(q if op == "/" else a - q * b)
            if op == "**" and b < 0:
                self.throw("RangeError", "negative exponent")
            if op == ">>>":
                self.throw("TypeError", "bigint >>>")
            f = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "**": lambda: a ** b, "&": lambda: a & b,
                 "|": lambda: a | b, "^": lambda: a ^ b, "<<": lambda: a << b if b >= 0 else a >> -b,
                 ">>": lambda: a >> b if b >= 0 else a << -b}
            return Big(f[op]())
        if op in ("&", "|", "^", "<<", ">>", ">>>"):
            def i32(v):
                if type(v) is float and (math.isnan(v) or math.isinf(v)):
                    return 0
                v = int(v) & 0xFFFFFFFF
                return v - (1 << 32) if v >> 31 else v
            x, y = i32(a), i32(b)
            if op == ">>>":
                return (x & 0xFFFFFFFF) >> (y & 31)
            r = {"&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y, "<<": lambda: x << (y & 31),
                 ">>": lambda: x >> (y & 31)}[op]()
            return i32(r)
        try:
            if op == "/":
                if b == 0:
                    if a == 0 or (type(a) is float and math.isnan(a)):
                        return math.nan
                    return math.copysign(math.inf, a) * math.copysign(1, b)
                return norm(a / b)
            if op == "%":
                if b == 0 or (type(a) is float and not math.isfinite(a)) or (type(b) is float and math.isnan(b)):
                    return math.nan
                r = math.fmod(a, b)
                return norm(r)
            return norm({"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "**": lambda: a ** b}[op]())
        except OverflowError:
            return math.inf

    def compare(self, op, a, b):
        if type(a) is str and type(b) is str:
            return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]
        if isstr(a) and isstr(b):
            raise Unsupported("ordering of opaque texts")
        a = a if isbig(a) else self.tonum(a)
        b = b if isbig(b) else self.tonum(b)
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]
        for p, q, o in ((a, b, op), (b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op])):
            if type(q) is float:        # p symbolic integer
                if math.isnan(q):
                    return False
                if math.isinf(q):
                    return (q > 0) == (o in ("<", "<="))
                if not q.is_integer():
                    return self.compare("<=" if o in ("<", "<=") else ">=", p, math.floor(q) if o in ("<", "<=") else math.ceil(q))
                return self.compare(o, p, Big(int(q)))
        if op in (">", ">="):
            a, b, op = b, a, {">": "<", ">=": "<="}[op]
        (x, al, ah), (y, bl, bh) = rng(a), rng(b)
        if op == "<":
            if ah < bl:
                return True
            if al >= bh:
                return False
        else:
            if ah <= bl:
                return True
            if al > bh:
                return False
        un = al >= 0 and bl >= 0
        f = {("<", True): T.ult, ("<=", True): T.ule, ("<", False): T.slt, ("<=", False): T.sle}[op, un]
        return mkbool(f(x, y, W))

    def number(self, kind, t, lo, hi):
        """the result of an exact integer operation; a double rounds it"""
        if kind == "big" or (lo >= -SAFE and hi <= SAFE):
            return mksym(kind, t, lo, hi)
        return self.rounded(Sym("num", t, lo, hi))

    def rounded(self, v):
        """Number(symbolic bigint): exact up to 2^53, beyond rounded to nearest, ties to even"""
        if v.lo >= -SAFE and v.hi <= SAFE:
            return mksym("num", v.t, v.lo, v.hi)
        if isint(v.t):
            n = v.t - (1 << W) if v.t >> (W - 1) else v.t
            return n if abs(n) <= SAFE else int(float(n))
        out = T.bor(T.slt(v.t, -SAFE & T.M(W), W), T.slt(SAFE, v.t, W), 1)
        if not isint(out):
            k = (out.id,) + tuple(c if isint(c) else c.id for c in self.pc)
            if k not in self.narrow:            # asked again on every replay of the path: it must go the same way
                self.narrow[k] = self.feas.check(self.pc + [out]) == "unsat"
            out = int(not self.narrow[k])
        if not out:
            return mksym("num", v.t, max(v.lo, -SAFE), min(v.hi, SAFE))
        top = max(-v.lo, v.hi)
        neg = T.slt(v.t, 0, W) if v.lo < 0 < v.hi else int(v.hi <= 0)
        a = T.ite(neg, T.sub(0, v.t, W), v.t, W) if v.lo < 0 else v.t
        k = 0
        while 1 << (53 + k) <= top:
            k += 1
        r = a
        for k in range(1, k + 1):          # 2^(52+k) <= a < 2^(53+k): k bits too many
            h = T.add(a, T.add((1 << (k - 1)) - 1, T.band(T.lshr(a, k, W), 1, W), W), W)
            r = T.ite(T.ult(a, 1 << (52 + k), W), r, T.shl(T.lshr(h, k, W), k, W), W)
        r = T.ite(neg, T.sub(0, r, W), r, W) if v.lo < 0 else r
        up = lambda n: n if abs(n) <= SAFE else int(float(n))
        return Sym("num", r, up(v.lo), up(v.hi))

    def seq(self, a, b):
        """strict equality -> bool or SBool"""
        if a is b:
            return not (type(a) is float and math.isnan(a))
        if isbool(a) and isbool(b):
            x = a.t if isinstance(a, SBool) else int(a)
            y = b.t if isinstance(b, SBool) else int(b)
            return mkbool(T.eq(x, y, 1))
        if (isbig(a) and isbig(b)) or (isnum(a) and isnum(b)):
            if not isinstance(a, Sym) and not isinstance(b, Sym):
                return a == b
            for p, q in ((a, b), (b, a)):
                if type(q) is float:
                    return False if not q.is_integer() else self.seq(p, int(q))
            (x, al, ah), (y, bl, bh) = rng(a), rng(b)
            if ah < bl or bh < al:
                return False
            return mkbool(T.eq(x, y, W))
        if isstr(a) and isstr(b):
            if type(a) is str and type(b) is str:
                return a == b
            if type(a) is str:
                a, b = b, a
            if a.kind == "addr":
                if type(b) is str:
                    v = addr_of_text(b)
                    return False if v is None else mkbool(T.eq(a.v, v, 256))
                if b.kind == "addr":
                    return mkbool(T.eq(a.v, b.v, 256))
            raise Unsupported("comparison of opaque texts")
        return False

    def leq(self, a, b):
        if a in (UNDEF, NULL) or b in (UNDEF, NULL):
            return a in (UNDEF, NULL) and b in (UNDEF, NULL)
        if typeof(a) == typeof(b):
            return self.seq(a, b)
        if (isbig(a) or isnum(a)) and (isbig(b) or isnum(b)):
            if not isinstance(a, Sym) and not isinstance(b, Sym):
                return a == b
            for p, q in ((a, b), (b, a)):
                if type(q) is float and not q.is_integer():
                    return False
            (x, al, ah), (y, bl, bh) = rng(a), rng(b)
            return mkbool(T.eq(x, y, W)) if not (ah < bl or bh < al) else False
        raise Unsupported("loose equality")

    def truth(self, v):
        if type(v) is bool:
            return v
        if isinstance(v, SBool):
            return self.decide(v.t)
        if v is UNDEF or v is NULL:
            return False
        if isinstance(v, Sym):
            if v.lo > 0 or v.hi < 0:
                return True
            return not self.decide(T.eq(v.t, 0, W))
        if type(v) is float:
            return not (v == 0 or math.isnan(v))
        if isinstance(v, int):
            return v != 0
        if type(v) is str:
            return v != ""
        if isinstance(v, SStr):
            if v.kind == "text":
                raise Unsupported("truth of an unknown text")
            return True
        return True

    def tonum(self, v):
        if isnum(v):
            return v
        if type(v) is bool:
            return int(v)
        if isinstance(v, SBool):
            return mksym("num", T.zext(v.t, 1, W), 0, 1)
        if v is UNDEF:
            return math.nan
        if v is NULL:
            return 0
        if isbig(v):
            self.throw("TypeError", "bigint to number")
        if type(v) is str:
            s = v.strip()
            try:
                return norm(int(s, 0) if s[:2].lower() in ("0x", "0b", "0o") else float(s)) if s else 0
            except ValueError:
                return math.nan
        raise Unsupported("conversion to a number")

    def tostr(self, v):
        if isstr(v):
            return v
        if isinstance(v, (Sym, SBool)):
            return SStr("text", None)
        if type(v) is bool:
            return "true" if v else "false"
        if v is UNDEF or v is NULL:
            return v.n
        if isnum(v) or isbig(v):
            return numstr(v)
        if isinstance(v, Arr):
            xs = [self.tostr(x) if x not in (UNDEF, NULL) else "" for x in v.items]
            return SStr("text", None) if any(isinstance(x, SStr) for x in xs) else ",".join(xs)
        if isinstance(v, Obj):
            if v.cls == "Error":
                return SStr("text", None)
            f = self.get(v, "toString")
            if isinstance(f, Func):
                return self.tostr(self.call(f, v, []))
            return SStr("text", None) if v.cls != "Object" else "[object Object]"
        raise Unsupported("conversion to a string")

    def e_AssignmentExpression(self, n, sc):
        op = n["operator"]
        l = n["left"]
        if op == "=":
            if l["type"] == "MemberExpression":
                o = self.ev(l["object"], sc)
                k = self.memberkey(l, sc)
                v = self.ev(n["right"], sc)
                self.put(o, k, v)
                return v
            v = self.named(n["right"], l, sc)
            self.assign(l, v, sc)
            return v
        if l["type"] == "MemberExpression":
            o = self.ev(l["object"], sc)
            k = self.memberkey(l, sc)
            get, put = (lambda: self.get(o, k)), (lambda v: self.put(o, k, v))
        else:
            get, put = (lambda: self.ev(l, sc)), (lambda v: self.assign(l, v, sc))
        a = get()
        if op in ("??=", "||=", "&&="):
            if op == "??=":
                go = a in (UNDEF, NULL)
            else:
                go = self.truth(a) == (op == "&&=")
            if not go:
                return a
            v = self.ev(n["right"], sc)
        else:
            v = self.binary(op[:-1], a, self.ev(n["right"], sc))
        put(v)
        return v

    def e_UpdateExpression(self, n, sc):
        l = n["argument"]
        if l["type"] == "MemberExpression":
            o = self.ev(l["object"], sc)
            k = self.memberkey(l, sc)
            a = self.get(o, k)
        else:
            a = self.ev(l, sc)
        a = a if isbig(a) else self.tonum(a)
        v = self.arith(n["operator"][0], a, Big(1) if isbig(a) else 1)
        if l["type"] == "MemberExpression":
            self.put(o, k, v)
        else:
            self.assign(l, v, sc)
        return v if n["prefix"] else a

    def e_YieldExpression(self, n, sc):
        v = self.ev(n["argument"], sc) if n["argument"] else UNDEF
        g = self.cur
        if n["delegate"]:
            r = UNDEF
            if isinstance(v, Gen):
                while True:
                    x, done = v.resume(("next", UNDEF))
                    if done:
                        return x
                    g.yielded(x)
            for x in self.iterate(v):
                g.yielded(x)
            return r
        return g.yielded(self.settled(v) if g.isasync else v)

    def e_AwaitExpression(self, n, sc):
        return self.settled(self.ev(n["argument"], sc))

    def settled(self, v):
        if isinstance(v, Promise):
            if v.state == "pending":
                raise Unsupported("a pending promise")
            if v.state == "rejected":
                raise JSThrow(v.value)
            return v.value
        if isinstance(v, Obj) and v.cls == "Object" and isinstance(self.get(v, "then"), Obj):
            raise Unsupported("thenable")
        return v

    # ------------------------------------------------------------ members and calls
    def memberkey(self, n, sc):
        if n["computed"]:
            return self.key(self.ev(n["property"], sc))
        if n["property"]["type"] == "PrivateIdentifier":
            return "#" + n["property"]["name"]
        return n["property"]["name"]

    def e_ChainExpression(self, n, sc):
        v = self.ev(n["expression"], sc)
        return UNDEF if v is SHORT else v

    def e_MemberExpression(self, n, sc):
        return self.member(n, sc)[1]

    def member(self, n, sc):
        """-> (this, value)"""
        if n["object"]["type"] == "Super":
            this = self.e_ThisExpression(n, sc)
            home = sc.find("*home").v["*home"]
            return this, self.get(home.proto, self.memberkey(n, sc), this)
        o = self.ev(n["object"], sc)
        if o is SHORT:
            return UNDEF, SHORT
        if n.get("optional") and o in (UNDEF, NULL):
            return UNDEF, SHORT
        k = self.memberkey(n, sc)
        return o, self.get(o, k)

    def e_CallExpression(self, n, sc):
        c = n["callee"]
        this = UNDEF
        if c["type"] == "Super":
            return self.supercall(n, sc)
        if c["type"] == "MemberExpression":
            this, f = self.member(c, sc)
        elif c["type"] == "ChainExpression" and c["expression"]["type"] == "MemberExpression":
            this, f = self.member(c["expression"], sc)
        else:
            f = self.ev(c, sc)
        if f is SHORT:
            return SHORT
        if n.get("optional") and f in (UNDEF, NULL):
            return SHORT
        return self.call(f, this, self.args(n["arguments"], sc))

    def args(self, ns, sc):
        out = []
        for a in ns:
            if a["type"] == "SpreadElement":
                out += self.iterate(self.ev(a["argument"], sc))
            else:
                out.append(self.ev(a, sc))
        return out

    def call(self, f, this, args, newt=None):
        if isinstance(f, NF):
            return f.f(self, this, args)
        if not isinstance(f, Func):
            self.throw("TypeError", "not a function")
        if f.isclass and newt is None:
            self.throw("TypeError", "class without new")
        if f.isgen:
            g = Gen(self, lambda: self.run(f, this, args, newt))
            g.isasync = f.isasync
            g.proto = self.P["Generator"]
            return g
        if f.isasync:
            try:
                r = self.run(f, this, args, newt)
            except JSThrow as e:
                return Promise("rejected", e.value)
            if isinstance(r, Promise):
                return r
            return Promise("fulfilled", r)
        return self.run(f, this, args, newt)

    def run(self, f, this, args, newt):
        self.depth = getattr(self, "depth", 0) + 1
        if self.depth > 900:
            raise Unsupported("recursion depth")
        n = f.node
        if f.name:
            self.funcs[f.name] = self.funcs.get(f.name, 0) + 1
        sc = Scope(f.env)
        if not f.arrow:
            sc.v["this"] = this
            sc.v["*new"] = newt if newt is not None else UNDEF
            sc.v["*home"] = f.home
            sc.v["*func"] = f
            sc.v["arguments"] = TDZ
        try:
            for k, p in enumerate(n["params"]):
                if p["type"] == "RestElement":
                    self.bind(p["argument"], Arr(list(args[k:])), sc, "let")
                else:
                    self.bind(p, args[k] if k < len(args) else UNDEF, sc, "let")
            b = n["body"]
            if b["type"] != "BlockStatement":
                return self.ev(b, sc)
            self.hoist(b["body"], sc, True)
            r = self.block(b["body"], sc)
            return r[1] if r is not None and r[0] == "ret" else UNDEF
        finally:
            self.depth -= 1

    def e_MetaProperty(self, n, sc):
        raise Unsupported("meta property")

    def e_NewExpression(self, n, sc):
        f = self.ev(n["callee"], sc)
        return self.construct(f, self.args(n["arguments"], sc))

    def construct(self, f, args, target=None):
        target = target or f
        if isinstance(f, NF):
            if f.ctor is None:
                self.throw("TypeError", "not a constructor")
            o = f.ctor(self, args)
            if target is not f:
                o.proto = self.get(target, "prototype")
            return o
        if not isinstance(f, Func) or f.arrow:
            self.throw("TypeError", "not a constructor")
        if f.parent is not None:
            if f.node.get("default_ctor"):
                o = self.construct(f.parent, args, target)
                self.fieldinit(f, o)
                return o
            sc_this = [TDZ]
            r = self.run_ctor(f, sc_this, args, target)
            return r
        o = Obj(self.get(target, "prototype"))
        self.fieldinit(f, o)
        r = self.call(f, o, args, target)
        return r if isinstance(r, Obj) else o

    def run_ctor(self, f, box, args, target):
        n = f.node
        sc = Scope(f.env)
        sc.v.update({"this": TDZ, "*new": target, "*home": f.home, "*func": f})
        for k, p in enumerate(n["params"]):
            if p["type"] == "RestElement":
                self.bind(p["argument"], Arr(list(args[k:])), sc, "let")
            else:
                self.bind(p, args[k] if k < len(args) else UNDEF, sc, "let")
        self.hoist(n["body"]["body"], sc, True)
        r = self.block(n["body"]["body"], sc)
        if r is not None and r[0] == "ret" and isinstance(r[1], Obj):
            return r[1]
        if sc.v["this"] is TDZ:
            self.throw("ReferenceError", "super not called")
        return sc.v["this"]

    def supercall(self, n, sc):
        s = sc.find("*func")
        f = s.v["*func"]
        o = self.construct(f.parent, self.args(n["arguments"], sc), s.v["*new"])
        s.v["this"] = o
        self.fieldinit(f, o)
        return UNDEF

    def fieldinit(self, f, o):
        for k, e, fsc in f.fields:
            s = Scope(fsc)
            s.v["this"] = o
            s.v["*home"] = f.home
            o.props[k] = self.ev(e, s) if e else UNDEF

    # ------------------------------------------------------------ properties
    def protoof(self, o):
        if isinstance(o, Obj):
            if o.proto is not None:
                return o.proto
            return self.P.get(o.cls) if o is not self.P["Object"] and o is not self.P.get(o.cls) else None
        return None

    def has(self, o, k):
        if isinstance(o, Arr):
            return (isindex(k) and int(k) < len(o.items)) or k == "length" or k in self.P["Array"].props
        if isinstance(o, U8):
            return (isindex(k) and int(k) < len(o.cells)) or k in self.P["Uint8Array"].props or k in ("length", "buffer", "byteLength")
        p = o
        while p is not None:
            if k in p.props:
                return True
            p = self.protoof(p)
        return False

    def cell(self, c):
        if isint(c):
            return c
        if c is None:
            raise Unsupported("uninitialised byte")
        return mksym("num", T.zext(T.extract(c[0], 8 * c[1] + 7, 8 * c[1]), 8, W), 0, 255)

    def get(self, o, k, this=None):
        if o is UNDEF or o is NULL:
            self.throw("TypeError", "property of " + o.n)
        if isinstance(k, Sym):
            return self.symindex(o, k)
        if isinstance(k, SStr):
            raise Unsupported("an opaque text as a property name")
        if isinstance(o, Arr):
            if k == "length":
                return len(o.items)
            if isindex(k):
                return o.items[int(k)] if int(k) < len(o.items) else UNDEF
        elif isinstance(o, U8):
            if k in ("length", "byteLength"):
                return len(o.cells)
            if isindex(k):
                return self.cell(o.cells[int(k)]) if int(k) < len(o.cells) else UNDEF
            if k in ("buffer", "byteOffset"):
                if o.frozen:
                    raise Unsupported("the buffer of a shared view")
                if k == "byteOffset":
                    return 0
                b = ABuf(o.cells)
                b.proto = self.P["ArrayBuffer"]
                return b
        elif isinstance(o, ABuf) and k == "byteLength":
            return len(o.cells)
        elif isinstance(o, MapObj) and k == "size":
            return len(o.d)
        elif isstr(o):
            if type(o) is str:
                if k == "length":
                    return len(o)
                if isindex(k):
                    return o[int(k)] if int(k) < len(o) else UNDEF
            elif k == "length":
                if o.kind == "b64":
                    return 4 * ((len(o.v) + 2) // 3)
                raise Unsupported("length of an opaque text")
            return self.P["String"].props.get(k, UNDEF)
        elif isnum(o):
            return self.P["Number"].props.get(k, UNDEF)
        elif isbig(o):
            return self.P["BigInt"].props.get(k, UNDEF)
        elif isbool(o):
            return self.P["Boolean"].props.get(k, UNDEF)
        p = o
        while p is not None:
            if k in p.props:
                v = p.props[k]
                if isinstance(v, Accessor):
                    return self.call(v.get, this if this is not None else o, []) if v.get else UNDEF
                return v
            p = self.protoof(p)
        if k == "name" and isinstance(o, (Func, NF)):
            return o.name
        if k == "length" and isinstance(o, Func):
            return len(o.node["params"])
        if isinstance(o, (Arr, U8, MapObj, Promise, Func, NF)) and k in UNMODELLED:
            raise Unsupported("%s.%s" % (o.cls, k))
        return UNDEF

    def symindex(self, o, k):
        if isinstance(o, (Arr, U8)):
            n = len(o.items if isinstance(o, Arr) else o.cells)
            ks = range(max(0, k.lo), min(n - 1, k.hi) + 1)
        elif isinstance(o, Obj):
            ks = [int(x) for x in o.props if isindex(x) and k.lo <= int(x) <= k.hi]
            if o.proto not in (None, self.P["Object"]):
                raise Unsupported("symbolic property name")
        else:
            raise Unsupported("symbolic property name")
        if len(ks) > 300:
            raise Unsupported("symbolic index into a large array")
        for x in ks:
            if self.decide(T.eq(k.t, x & T.M(W), W)):
                return self.get(o, str(x))
        return UNDEF

    def put(self, o, k, v):
        if o is UNDEF or o is NULL:
            self.throw("TypeError", "property of " + o.n)
        if not isinstance(o, Obj):
            self.throw("TypeError", "property of a primitive")
        k = self.conckey(k)
        if o.frozen:
            self.throw("TypeError", "frozen")
        if isinstance(o, Arr):
            if k == "length":
                o.items = (o.items + [UNDEF] * int(v))[:int(v)]
                return
            if isindex(k):
                while len(o.items) <= int(k):
                    o.items.append(UNDEF)
                o.items[int(k)] = v
                return
        elif isinstance(o, U8) and isindex(k):
            if int(k) < len(o.cells):
                o.cells[int(k)] = self.tocell(v)
            return
        p = o
        while p is not None:
            a = p.props.get(k)
            if isinstance(a, Accessor):
                if a.set:
                    self.call(a.set, o, [v])
                    return
                self.throw("TypeError", "no setter")
            p = self.protoof(p)
        o.props[k] = v

    def tocell(self, v):
        v = self.tonum(v)
        if isinstance(v, Sym):
            t = T.trunc(v.t, W, 8)
            return t if isint(t) else (t, 0)
        if type(v) is float:
            return 0 if not math.isfinite(v) else int(v) & 255
        return v & 255

    def keys(self, o):
        if isinstance(o, Arr):
            return [str(i) for i in range(len(o.items))] + list(o.props)
        if isinstance(o, U8):
            return [str(i) for i in range(len(o.cells))]
        if isstr(o):
            return [str(i) for i in range(len(o))] if type(o) is str else []
        if not isinstance(o, Obj):
            return []
        ks = [k for k in o.props if not k.startswith("#") and not k.startswith("@@")]
        if isinstance(o, (Func, NF)):
            ks = [k for k in ks if k != "prototype"]
        if o.cls == "Error":
            ks = [k for k in ks if k not in ("message", "cause", "stack")]
        idx = sorted((int(k) for k in ks if isindex(k)))
        return [str(i) for i in idx] + [k for k in ks if not isindex(k)]

    def iterate(self, v):
        if isinstance(v, Arr):
            return list(v.items)
        if isinstance(v, U8):
            return [self.cell(c) for c in v.cells]
        if type(v) is str:
            return list(v)
        if isinstance(v, MapObj):
            return [Arr([k, x]) for k, x in v.d.values()] if v.cls == "Map" else [k for k, _ in v.d.values()]
        if isinstance(v, Gen):
            return list(v.values())
        if isinstance(v, Obj):
            f = self.get(v, "@@iterator")
            if isinstance(f, Obj):
                return list(self.pull(self.call(f, v, [])))
        self.throw("TypeError", "not iterable")

    def live(self, a):
        i = 0
        while i < len(a.items):
            yield a.items[i]
            i += 1

    def pull(self, it):
        if isinstance(it, (Gen, Arr)):
            yield from self.lazily(it)
            return
        for _ in range(100000):
            r = self.call(self.get(it, "next"), it, [])
            if self.truth(self.get(r, "done")):
                return
            yield self.get(r, "value")
        raise Unsupported("loop bound")

    def lazily(self, v):
        """an iterable whose values may depend on what happens between them"""
        if isinstance(v, Gen):
            return v.values()
        if isinstance(v, Arr):
            return self.live(v)
        if isinstance(v, Obj) and not isinstance(v, (Arr, U8, MapObj)):
            f = self.get(v, "@@iterator")
            if isinstance(f, Obj):
                return self.pull(self.call(f, v, []))
        return self.iterate(v)

    # ------------------------------------------------------------ built-ins
    def protos(self):
        import jslib
        self.depth = 0
        self.loops = 0
        self.P, self.globals = jslib.make(self)


NODE_GLOBALS = {"globalThis", "global", "require", "setTimeout", "fetch", "crypto", "Buffer", "Symbol", "Proxy", "Reflect", "WeakMap",
                "WeakSet", "Date", "JSON", "Intl", "RegExp", "DataView", "ArrayBuffer", "BigUint64Array", "BigInt64Array",
                "Uint16Array", "Uint32Array", "Int8Array", "Float64Array", "atob", "btoa", "structuredClone", "TextDecoder",
                "queueMicrotask", "setInterval", "performance", "URL"}
# methods that exist in JS but are not modelled (reading them must not look like 'undefined')
UNMODELLED = {"copyWithin", "lastIndexOf", "reduceRight", "sort", "toSorted", "toSpliced", "with", "toLocaleString", "bind", "call",
              "apply", "toString", "keys", "entries", "values", "subarray", "fill", "find", "findLast", "findLastIndex", "flat",
              "flatMap", "splice", "reverse", "finally", "catch", "then", "at", "join", "hasOwnProperty"}


def addr_of_text(s):
    """base58 text -> 256-bit value or None"""
    if not 32 <= len(s) <= 44 or any(c not in sol.B58 for c in s):
        return None
    n = 0
    for c in s:
        n = n * 58 + sol.B58.index(c)
    zeros = len(s) - len(s.lstrip("1"))
    body = n.to_bytes((n.bit_length() + 7) // 8, "big")
    if len(body) + zeros != 32:
        return None
    return int.from_bytes(bytes(zeros) + body, "little")


def load(path):
    return json.load(open(path))
