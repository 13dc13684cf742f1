"""Symbolic executor for LLVM IR."""
import re
import term as T
from term import Term, isint, hi
from ll import FBASE, GBASE, tsize, tbits

M64 = (1 << 64) - 1
PANIC = re.compile(r"4core9panicking|handle_alloc_error|rust_alloc_error_handler|7raw_vec12handle_error|"
                   r"7raw_vec17capacity_overflow|slice_start_index|slice_end_index|slice_index_order|13unwrap_failed|"
                   r"13expect_failed|len_mismatch_fail|slice_error_fail|3std9panicking|rust_panic|rust_begin_unwind|"
                   r"panic_misaligned|panic_null|5alloc5alloc18handle|begin_panic|panic_access_error|panic_fmt|"
                   r"panic_bounds_check|slice5index.*fail")


class Unsupported(Exception):
    pass


class NeedFork(Exception):
    def __init__(self, cond):
        self.cond = cond


class PathEnd(Exception):
    """the current path ends with this outcome"""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.info = kw


class Infeasible(Exception):
    pass


class Obj:
    __slots__ = ("cells", "tok", "ro", "name", "lim")

    def __init__(self, cells, tok, ro=False, name="", lim=None):
        self.cells = cells
        self.tok = tok
        self.ro = ro
        self.name = name
        self.lim = lim          # None | (header length, offset of the u64 length field)


class Frame:
    __slots__ = ("fn", "lab", "ins", "i", "regs", "dst", "after", "allocas")

    def copy(self):
        f = Frame()
        f.fn, f.lab, f.ins, f.i, f.dst, f.after = self.fn, self.lab, self.ins, self.i, self.dst, self.after
        f.regs = dict(self.regs)
        f.allocas = list(self.allocas)
        return f


class State:
    def __init__(self):
        self.frames = []
        self.mem = {}
        self.pc = []
        self.pcset = set()
        self.tok = object()
        self.next_page = 0x10000
        self.trace = []       # environment interactions in order (calls, logs)
        self.x = {}           # environment data (immutable values)
        self.nins = 0
        self.nvars = 0
        self.heap = None
        self.nforks = 0
        self.minlen = {}
        self.blocks = 0
        self.hooks = {}

    def clone(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.pcset = set(self.pcset)
        s.tok = object()
        self.tok = object()
        s.next_page = self.next_page
        s.trace = list(self.trace)
        s.x = dict(self.x)
        s.nins = self.nins
        s.nvars = self.nvars
        s.heap = self.heap
        s.nforks = self.nforks
        s.minlen = dict(self.minlen)
        s.blocks = self.blocks
        s.hooks = self.hooks
        return s

    def add(self, c):
        if isint(c):
            return
        if c.id not in self.pcset:
            self.pcset.add(c.id)
            self.pc.append(c)
            fired = self.hooks.get(c.id, ())
            if c.op == "and":
                # remember conjuncts for quick syntactic answers
                stack = list(c.args)
                while stack:
                    a = stack.pop()
                    if isint(a):
                        continue
                    self.pcset.add(a.id)
                    if a.id in self.hooks:
                        fired = list(fired) + self.hooks[a.id]
                    if a.op == "and":
                        stack += a.args
            for other, body in fired:
                # lazily instantiated assumption: body holds once its triggers are on the path
                if other is None or other.id in self.pcset:
                    self.add(body)

    # ------------------------------------------------------------ memory
    def new_obj(self, size, init=None, name="", ro=False, page=None, lim=None):
        if page is None:
            page = self.next_page
            self.next_page += 1
        cells = list(init) if init is not None else [None] * size
        self.mem[page] = Obj(cells, self.tok, ro, name, lim)
        return page << 32


class Outcome:
    def __init__(self, state, kind, info):
        self.state = state
        self.kind = kind      # ret | panic | abort | oob | ub | badread
        self.info = info
        self.pc = state.pc

    def __repr__(self):
        return "<%s %s>" % (self.kind, {k: v for k, v in self.info.items()})


class Machine:
    def __init__(self, module, feas, env=None, max_ins=2_000_000, max_paths=20000):
        self.m = module
        self.feas = feas
        self.env = env               # object with method call(machine,state,name,args)->handled?
        self.max_ins = max_ins
        self.max_paths = max_paths
        self.funcs_run = {}
        self.n_ins = 0
        self.n_forks = 0
        self.n_paths = 0
        self.intr = {}
        self._icache = {}
        self.solver_unknown = 0

    # ------------------------------------------------------------ decisions
    def decide(self, st, c):
        if isint(c):
            return bool(c)
        if c.id in st.pcset:
            return True
        n = T.bnot(c)
        if not isint(n) and n.id in st.pcset:
            return False
        rt = self.feas.check(st.pc + [c])
        if rt == "unsat":
            st.add(n)
            return False
        rf = self.feas.check(st.pc + [n])
        if rf == "unsat":
            st.add(c)
            return True
        if rt == "unknown" or rf == "unknown":
            self.solver_unknown += 1
        raise NeedFork(c)

    def must(self, st, c):
        """is c implied by the path condition"""
        if isint(c):
            return bool(c)
        if c.id in st.pcset:
            return True
        return self.feas.check(st.pc + [T.bnot(c)]) == "unsat"

    def concretize(self, st, v, what=""):
        if isint(v):
            return v
        if self.feas.check(st.pc) != "sat":
            raise Unsupported("cannot concretize " + what)
        val = self.feas.eval(v)
        c = T.eq(v, val, v.w)
        n = st.x.get("nconc", 0)
        if n > 300:
            raise Unsupported("too many values for " + what)
        st.x["nconc"] = n + 1
        if self.decide(st, c):
            return val
        return self.concretize(st, v, what)

    def fresh(self, st, name, w):
        st.nvars += 1
        return T.var("%s!%d" % (name, st.nvars), w)

    # ------------------------------------------------------------ memory
    def obj(self, st, addr, n, write=False):
        page = addr >> 32
        o = st.mem.get(page)
        if o is None:
            if GBASE <= page < FBASE:
                name = self.m.gname.get(page << 32)
                if name is None:
                    raise PathEnd("oob", addr=addr, n=n)
                size, cells, const = self.m.global_init(name)
                o = Obj(list(cells), st.tok, const, name)
                st.mem[page] = o
            else:
                if n == 0:
                    return None, 0
                raise PathEnd("oob", addr=addr, n=n, what="unmapped address")
        off = addr & 0xFFFFFFFF
        if off + n > len(o.cells):
            if o.lim is not None:
                L = self._len(o)
                if not isint(L) or L > len(o.cells) - o.lim[0]:
                    # beyond the modelled capacity
                    over = T.ult(T.sub(off + n, o.lim[0], 64), T.add(L, 1, 64), 64) if not isint(L) else 1
                    if self.decide(st, over):
                        raise Unsupported("access beyond modelled capacity of %s at %d+%d" % (o.name, off, n))
            raise PathEnd("oob", addr=addr, n=n, what=o.name, off=off)
        if o.lim is not None and n:
            hl, lo_ = o.lim
            if off + n > hl:
                L = self._len(o)
                if isint(L):
                    ok = off + n - hl <= L
                    if not ok:
                        raise PathEnd("oob", addr=addr, n=n, what=o.name, off=off)
                else:
                    need = off + n - hl
                    k = (page, L.id)
                    if st.minlen.get(k, 0) < need:
                        c = T.ule(need, L, 64)
                        if not self.decide(st, c):
                            raise PathEnd("oob", addr=addr, n=n, what=o.name, off=off)
                        st.minlen[k] = need
        if write:
            if o.ro:
                raise PathEnd("oob", addr=addr, n=n, what="write to constant " + o.name)
            if o.tok is not st.tok:
                o = Obj(list(o.cells), st.tok, o.ro, o.name, o.lim)
                st.mem[page] = o
        return o, off

    def _len(self, o):
        a = o.lim[1]
        return cells_value(self, None, o.cells[a:a + 8])

    def load(self, st, addr, n, w=None):
        """n bytes as a value of width w (default 8n)"""
        if not isint(addr):
            addr = self.concretize(st, addr, "load address")
        o, off = self.obj(st, addr, n)
        if o is None:
            return 0
        v = cells_value(self, st, o.cells[off:off + n])
        if w is not None and w != 8 * n:
            v = T.extract(v, w - 1, 0)
        return v

    def store(self, st, addr, n, v, w=None):
        if not isint(addr):
            addr = self.concretize(st, addr, "store address")
        o, off = self.obj(st, addr, n, True)
        if isint(v):
            o.cells[off:off + n] = v.to_bytes(n, "little")
            return
        if w is not None and w != 8 * n:
            v = T.zext(v, w, 8 * n)
        o.cells[off:off + n] = value_cells(v, n)

    def read_bytes(self, st, addr, n):
        if n == 0:
            return []
        if not isint(addr):
            addr = self.concretize(st, addr, "read address")
        o, off = self.obj(st, addr, n)
        return o.cells[off:off + n]

    def raw_data(self, st, addr):
        """all data cells of the account at addr (no bounds check)"""
        return st.mem[addr >> 32].cells[88:]

    def resize_acct(self, st, addr, space):
        o = st.mem[addr >> 32]
        if o.tok is not st.tok:
            o = Obj(list(o.cells), st.tok, o.ro, o.name, o.lim)
            st.mem[addr >> 32] = o
        o.cells[88:88 + space] = [0] * space
        o.cells[80:88] = list(space.to_bytes(8, "little"))

    def write_cells(self, st, addr, cells):
        if not cells:
            return
        if not isint(addr):
            addr = self.concretize(st, addr, "write address")
        o, off = self.obj(st, addr, len(cells), True)
        o.cells[off:off + len(cells)] = cells

    def load_t(self, st, addr, t):
        k = t[0]
        if k == "i":
            return self.load(st, addr, (t[1] + 7) // 8, t[1])
        if k in ("ptr", "double"):
            return self.load(st, addr, 8)
        if k == "float":
            return self.load(st, addr, 4)
        if k == "st":
            from ll import field_off
            return tuple(self.load_t(st, addr + field_off(t, i), f) for i, f in enumerate(t[1]))
        if k == "arr":
            return tuple(self.load_t(st, addr + i * tsize(t[2]), t[2]) for i in range(t[1]))
        if k == "vec":
            return self.load(st, addr, tsize(t), tbits(t))
        raise Unsupported("load of %r" % (t,))

    def store_t(self, st, addr, t, v):
        k = t[0]
        if k == "i":
            self.store(st, addr, (t[1] + 7) // 8, v, t[1])
        elif k in ("ptr", "double"):
            self.store(st, addr, 8, v)
        elif k == "float":
            self.store(st, addr, 4, v)
        elif k == "vec":
            self.store(st, addr, tsize(t), v, tbits(t))
        elif k in ("st", "arr"):
            from ll import field_off
            for i, x in enumerate(v):
                self.store_t(st, addr + field_off(t, i), t[1][i] if k == "st" else t[2], x)
        else:
            raise Unsupported("store of %r" % (t,))

    # ------------------------------------------------------------ running
    def start(self, st, fname, args):
        self._enter(st, fname, args, None, None)
        return st

    def _enter(self, st, fname, args, dst, after):
        f = self.m.function(fname)
        fr = Frame()
        fr.fn = f
        fr.regs = {}
        for (t, pn), v in zip(f.params, args):
            fr.regs[pn] = v
        fr.dst = dst
        fr.after = after
        fr.allocas = []
        st.frames.append(fr)
        self.funcs_run[fname] = self.funcs_run.get(fname, 0) + 1
        self._goto(st, fr, f.entry, None)

    def _goto(self, st, fr, lab, prev):
        phis, ins = fr.fn.blocks[lab]
        st.blocks += 1
        if phis:
            vals = []
            for (_, dst, t, inc) in phis:
                v = inc[prev]
                vals.append((dst, fr.regs[v] if type(v) is str else agg(v)))
            for d, v in vals:
                fr.regs[d] = v
        fr.lab = lab
        fr.ins = ins
        fr.i = 0

    def explore(self, st):
        """generator of Outcomes"""
        work = [st]
        while work:
            s = work.pop()
            r = self.run(s)
            if isinstance(r, Outcome):
                self.n_paths += 1
                yield r
            elif r is not None:
                self.n_forks += 1
                work.extend(r)
            if self.n_paths > self.max_paths:
                raise Unsupported("path limit")

    def run(self, st):
        """run until an outcome or a fork -> Outcome | [states] | None"""
        try:
            while True:
                fr = st.frames[-1]
                ins = fr.ins[fr.i]
                self.n_ins += 1
                st.nins += 1
                if st.nins > self.max_ins:
                    raise Unsupported("instruction limit")
                op = ins[0]
                h = H.get(op)
                if h is None:
                    raise Unsupported("instruction %s in %s" % (ins, fr.fn.name))
                if op == "call" or op == "invoke":
                    snap = None
                    c = ins if op == "call" else ins[1]
                    name = c[3][1] if c[3][0] == "f" else None
                    if name is None or self.needs_snap(name):
                        snap = st.clone()
                    try:
                        r = h(self, st, fr, ins)
                    except NeedFork as e:
                        base = snap if snap is not None else st
                        return self._fork(base, e.cond)
                else:
                    try:
                        r = h(self, st, fr, ins)
                    except NeedFork as e:
                        return self._fork(st, e.cond)
                if r is not None:
                    return r
        except PathEnd as e:
            e.info.setdefault("at", st.frames[-1].fn.name if st.frames else "")
            return Outcome(st, e.kind, e.info)
        except Infeasible:
            return None

    def needs_snap(self, name):
        return name not in self.m.ftext and not name.startswith("llvm.") or (self.env is not None and
                                                                            self.env.overrides(name))

    def _fork(self, st, cond):
        st.nforks += 1
        a = st
        b = st.clone()
        a.add(cond)
        b.add(T.bnot(cond))
        return [b, a]


def agg(v):
    if type(v) is tuple:
        if v and v[0] == "agg":
            return tuple(agg(x) for x in v[1])
        if v and v[0] == "bytes":
            return tuple(v[1])
    return v


def cells_value(mach, st, cells):
    """little-endian value of a list of byte cells"""
    if all(type(c) is int for c in cells):
        return int.from_bytes(bytes(cells), "little")
    ps = []
    i = len(cells) - 1
    while i >= 0:
        c = cells[i]
        if type(c) is int:
            ps.append((c, 8))
            i -= 1
        elif c is None:
            if st is None:
                raise Unsupported("uninitialised length")
            ps.append((mach.fresh(st, "uninit", 8), 8))
            i -= 1
        else:
            t, k = c
            j = i
            while j > 0 and type(cells[j - 1]) is tuple and cells[j - 1][0] is t and cells[j - 1][1] == k - (i - j) - 1:
                j -= 1
            n = i - j + 1
            l = k - n + 1
            ps.append((T.extract(t, 8 * (k + 1) - 1, 8 * l), 8 * n))
            i = j - 1
    return T.concat(ps)


def value_cells(v, n):
    if isint(v):
        return list(v.to_bytes(n, "little"))
    if v.op == "concat" and all(w % 8 == 0 for _, w in v.args):
        out = []
        for (x, w) in reversed(v.args):
            out.extend(value_cells(x, w // 8) if not isint(x) else x.to_bytes(w // 8, "little"))
        return out
    if v.op == "extract" and v.args[2] % 8 == 0 and v.w % 8 == 0 and v.args[0].w % 8 == 0:
        b = v.args[0]
        k = v.args[2] // 8
        return [(b, k + i) for i in range(n)]
    return [(v, i) for i in range(n)]


# ---------------------------------------------------------------- instruction handlers
H = {}


def h(name):
    def deco(f):
        H[name] = f
        return f
    return deco


def val(fr, v):
    if type(v) is str:
        return fr.regs[v]
    if type(v) is int:
        return v
    return agg(v)


def _vec_map(t, f, *vs):
    w = tbits(t[2])
    out = []
    for i in range(t[1] - 1, -1, -1):
        out.append((f(*[T.extract(v, w * (i + 1) - 1, w * i) for v in vs]), w))
    return T.concat(out)


def _binop(op):
    fn = T.BIN[op]

    def f(m, st, fr, ins):
        _, dst, t, a, b = ins
        x = fr.regs[a] if type(a) is str else a
        y = fr.regs[b] if type(b) is str else b
        if t[0] == "vec":
            w = tbits(t[2])
            r = _vec_map(t, lambda p, q: fn(p, q, w), x, y)
        else:
            w = t[1]
            if op in ("udiv", "urem", "sdiv", "srem") and (isint(y) and y == 0):
                raise PathEnd("ub", what="division by zero")
            if op in ("shl", "lshr", "ashr") and not isint(y):
                y = m.concretize(st, y, "shift amount")
            r = fn(x, y, w)
        fr.regs[dst] = r
        fr.i += 1
    return f


for _o in T.BIN:
    H[_o] = _binop(_o)


def icmp1(cc, x, y, w):
    if cc == "eq":
        return T.eq(x, y, w)
    if cc == "ne":
        return T.ne(x, y, w)
    if cc == "ult":
        return T.ult(x, y, w)
    if cc == "ule":
        return T.ule(x, y, w)
    if cc == "ugt":
        return T.ult(y, x, w)
    if cc == "uge":
        return T.ule(y, x, w)
    if cc == "slt":
        return T.slt(x, y, w)
    if cc == "sle":
        return T.sle(x, y, w)
    if cc == "sgt":
        return T.slt(y, x, w)
    return T.sle(y, x, w)


@h("icmp")
def _(m, st, fr, ins):
    _, dst, cc, t, a, b = ins
    x, y = val(fr, a), val(fr, b)
    if t[0] == "vec":
        w = tbits(t[2])
        out = []
        for i in range(t[1] - 1, -1, -1):
            out.append((icmp1(cc, T.extract(x, w * (i + 1) - 1, w * i), T.extract(y, w * (i + 1) - 1, w * i), w), 1))
        fr.regs[dst] = T.concat(out)
    else:
        fr.regs[dst] = icmp1(cc, x, y, 64 if t[0] == "ptr" else t[1])
    fr.i += 1


@h("zext")
def _(m, st, fr, ins):
    _, dst, t, v, t2 = ins
    x = val(fr, v)
    if t[0] == "vec":
        a, b = tbits(t[2]), tbits(t2[2])
        out = [(T.zext(T.extract(x, a * (i + 1) - 1, a * i), a, b), b) for i in range(t[1] - 1, -1, -1)]
        fr.regs[dst] = T.concat(out)
    else:
        fr.regs[dst] = T.zext(x, t[1], t2[1])
    fr.i += 1


@h("sext")
def _(m, st, fr, ins):
    _, dst, t, v, t2 = ins
    x = val(fr, v)
    if t[0] == "vec":
        a, b = tbits(t[2]), tbits(t2[2])
        out = [(T.sext(T.extract(x, a * (i + 1) - 1, a * i), a, b), b) for i in range(t[1] - 1, -1, -1)]
        fr.regs[dst] = T.concat(out)
    else:
        fr.regs[dst] = T.sext(x, t[1], t2[1])
    fr.i += 1


@h("trunc")
def _(m, st, fr, ins):
    _, dst, t, v, t2 = ins
    x = val(fr, v)
    if t[0] == "vec":
        a, b = tbits(t[2]), tbits(t2[2])
        out = [(T.extract(x, a * i + b - 1, a * i), b) for i in range(t[1] - 1, -1, -1)]
        fr.regs[dst] = T.concat(out)
    else:
        fr.regs[dst] = T.extract(x, t2[1] - 1, 0)
    fr.i += 1


def _conv(m, st, fr, ins):
    _, dst, t, v, t2 = ins
    a, b = tbits(t), tbits(t2)
    x = val(fr, v)
    fr.regs[dst] = x if a == b else T.zext(x, a, b) if a < b else T.extract(x, b - 1, 0)
    fr.i += 1


H["ptrtoint"] = H["inttoptr"] = H["bitcast"] = _conv


@h("gep")
def _(m, st, fr, ins):
    _, dst, base, const, dyn = ins
    a = val(fr, base)
    a = (a + const) & M64 if isint(a) else T.add(a, const, 64)
    for (v, w, sc) in dyn:
        x = val(fr, v)
        if w != 64:
            x = T.sext(x, w, 64)
        a = T.add(a, T.mul(x, sc & M64, 64), 64)
    fr.regs[dst] = a
    fr.i += 1


@h("load")
def _(m, st, fr, ins):
    _, dst, t, n, a = ins
    addr = val(fr, a)
    if t[0] == "i":
        fr.regs[dst] = m.load(st, addr, n, t[1])
    else:
        if not isint(addr):
            addr = m.concretize(st, addr, "load address")
        fr.regs[dst] = m.load_t(st, addr, t)
    fr.i += 1


@h("store")
def _(m, st, fr, ins):
    _, t, n, v, a = ins
    addr = val(fr, a)
    x = val(fr, v)
    if not isint(addr):
        addr = m.concretize(st, addr, "store address")
    m.store_t(st, addr, t, x)
    fr.i += 1


@h("alloca")
def _(m, st, fr, ins):
    _, dst, size, n = ins
    n = val(fr, n)
    if not isint(n):
        n = m.concretize(st, n, "alloca size")
    a = st.new_obj(size * n, name="stack " + fr.fn.name[-40:] + dst)
    fr.allocas.append(a >> 32)
    fr.regs[dst] = a
    fr.i += 1


@h("jmp")
def _(m, st, fr, ins):
    m._goto(st, fr, ins[1], fr.lab)


@h("br")
def _(m, st, fr, ins):
    c = val(fr, ins[1])
    m._goto(st, fr, ins[2] if m.decide(st, c) else ins[3], fr.lab)


@h("switch")
def _(m, st, fr, ins):
    _, t, v, d, cases = ins
    x = val(fr, v)
    for cv, lab in cases:
        if m.decide(st, T.eq(x, cv, t[1])):
            m._goto(st, fr, lab, fr.lab)
            return
    m._goto(st, fr, d, fr.lab)


@h("select")
def _(m, st, fr, ins):
    _, dst, t, c, a, b, ct = ins
    c = val(fr, c)
    x, y = val(fr, a), val(fr, b)
    if ct[0] == "vec":
        w = tbits(t[2])
        out = []
        for i in range(t[1] - 1, -1, -1):
            e = lambda v: T.extract(v, w * (i + 1) - 1, w * i)
            out.append((T.ite(T.extract(c, i, i), e(x), e(y), w), w))
        r = T.concat(out)
    elif isint(c):
        r = x if c else y
    elif t[0] in ("st", "arr"):
        r = x if m.decide(st, c) else y
    elif t[0] == "ptr":
        r = x if m.decide(st, c) else y
    else:
        r = T.ite(c, x, y, tbits(t))
    fr.regs[dst] = r
    fr.i += 1


@h("ret")
def _(m, st, fr, ins):
    v = None if ins[2] is None else val(fr, ins[2])
    st.frames.pop()
    for p in fr.allocas:
        st.mem.pop(p, None)
    if not st.frames:
        return Outcome(st, "ret", {"value": v})
    c = st.frames[-1]
    if fr.dst is not None:
        c.regs[fr.dst] = v
    if fr.after is not None:
        m._goto(st, c, fr.after, c.lab)
    else:
        c.i += 1


@h("unreachable")
def _(m, st, fr, ins):
    raise PathEnd("ub", what="unreachable reached")


@h("nop")
def _(m, st, fr, ins):
    fr.i += 1


@h("extractvalue")
def _(m, st, fr, ins):
    v = val(fr, ins[2])
    for i in ins[3]:
        v = v[i]
    fr.regs[ins[1]] = v
    fr.i += 1


def _insert(v, idx, e):
    if not idx:
        return e
    l = list(v)
    l[idx[0]] = _insert(l[idx[0]], idx[1:], e)
    return tuple(l)


@h("insertvalue")
def _(m, st, fr, ins):
    _, dst, t, v, e, idx = ins
    fr.regs[dst] = _insert(val(fr, v), idx, val(fr, e))
    fr.i += 1


@h("freeze")
def _(m, st, fr, ins):
    fr.regs[ins[1]] = val(fr, ins[2])
    fr.i += 1


@h("extractelement")
def _(m, st, fr, ins):
    _, dst, t, v, i = ins
    i = val(fr, i)
    w = tbits(t[2])
    fr.regs[dst] = T.extract(val(fr, v), w * (i + 1) - 1, w * i)
    fr.i += 1


@h("insertelement")
def _(m, st, fr, ins):
    _, dst, t, v, e, i = ins
    i = val(fr, i)
    w = tbits(t[2])
    x = val(fr, v)
    out = []
    for k in range(t[1] - 1, -1, -1):
        out.append((val(fr, e) if k == i else T.extract(x, w * (k + 1) - 1, w * k), w))
    fr.regs[dst] = T.concat(out)
    fr.i += 1


def _f64(x):
    import struct
    return struct.unpack("<d", x.to_bytes(8, "little"))[0]


def _b64(x):
    import struct
    return int.from_bytes(struct.pack("<d", x), "little")


def _fop(op):
    def f(m, st, fr, ins):
        _, dst, t, a, b = ins
        x, y = val(fr, a), val(fr, b)
        if t[0] != "double" or not isint(x) or not isint(y):
            raise Unsupported("symbolic floating point")
        p, q = _f64(x), _f64(y)
        fr.regs[dst] = _b64({"fadd": p + q, "fsub": p - q, "fmul": p * q, "fdiv": p / q if q else float("nan")}[op])
        fr.i += 1
    return f


for _o in ("fadd", "fsub", "fmul", "fdiv"):
    H[_o] = _fop(_o)


@h("uitofp")
def _(m, st, fr, ins):
    _, dst, t, v, t2 = ins
    x = val(fr, v)
    if not isint(x) or t2[0] != "double":
        raise Unsupported("symbolic floating point")
    fr.regs[dst] = _b64(float(x))
    fr.i += 1


@h("cmpxchg")
def _(m, st, fr, ins):
    _, dst, t, a, c, n = ins
    addr = val(fr, a)
    old = m.load_t(st, addr, t)
    e = T.eq(old, val(fr, c), tbits(t))
    if m.decide(st, e):
        m.store_t(st, addr, t, val(fr, n))
        fr.regs[dst] = (old, 1)
    else:
        fr.regs[dst] = (old, 0)
    fr.i += 1


@h("atomicrmw")
def _(m, st, fr, ins):
    _, dst, o, t, a, v = ins
    addr = val(fr, a)
    old = m.load_t(st, addr, t)
    x = val(fr, v)
    w = tbits(t)
    new = {"add": T.add, "sub": T.sub, "and": T.band, "or": T.bor, "xor": T.bxor}.get(o)
    m.store_t(st, addr, t, x if o == "xchg" else new(old, x, w))
    fr.regs[dst] = old
    fr.i += 1


@h("invoke")
def _(m, st, fr, ins):
    return _docall(m, st, fr, ins[1], ins[2])


@h("call")
def _(m, st, fr, ins):
    return _docall(m, st, fr, ins, None)


def _docall(m, st, fr, ins, after):
    _, dst, rt, callee, args = ins
    if callee[0] == "f":
        name = callee[1]
    else:
        a = fr.regs[callee[1]]
        if not isint(a):
            a = m.concretize(st, a, "call target")
        name = m.m.fname.get(a)
        if name is None:
            raise PathEnd("ub", what="call of %x" % a)
    k = m._icache.get(name)
    if k is None:
        k = find_intrinsic(m, name)
        m._icache[name] = k
    if k is not INLINE:
        av = [val(fr, v) for _, v in args]
        r = k(m, st, av, args, rt)
        if dst is not None:
            fr.regs[dst] = r
        if after is not None:
            m._goto(st, fr, after, fr.lab)
        else:
            fr.i += 1
        return None
    av = [val(fr, v) for _, v in args]
    m._enter(st, name, av, dst, after)


INLINE = object()
INTR = {}


def intr(*names):
    def deco(f):
        for n in names:
            INTR[n] = f
        return f
    return deco


def find_intrinsic(m, name):
    if m.env is not None:
        f = m.env.find(name)
        if f is not None:
            return f
    if PANIC.search(name):
        def pan(m_, st, av, args, rt):
            raise PathEnd("panic", what=name)
        return pan
    if "format_inner" in name and "5alloc3fmt" in name:
        return fmt_stub
    if name in m.m.ftext:
        return INLINE
    f = INTR.get(name)
    if f is not None:
        return f
    for k, f in INTR.items():
        if k.endswith(".") and name.startswith(k):
            return f

    def uns(m_, st, av, args, rt):
        raise Unsupported("external function " + name)
    return uns


def fmt_stub(m, st, av, args, rt):
    # alloc::fmt::format: writes an empty String {cap:0, ptr:dangling, len:0}
    m.store(st, av[0], 8, 0)
    m.store(st, av[0] + 8, 8, 1)
    m.store(st, av[0] + 16, 8, 0)


@intr("llvm.assume", "llvm.lifetime.start.p0", "llvm.lifetime.end.p0", "llvm.experimental.noalias.scope.decl",
      "llvm.dbg.value", "llvm.dbg.declare", "llvm.lifetime.", "llvm.invariant.", "llvm.prefetch.")
def _(m, st, av, args, rt):
    return None


@intr("llvm.trap", "abort")
def _(m, st, av, args, rt):
    raise PathEnd("panic", what="abort")


def conc(m, st, v, what):
    return v if isint(v) else m.concretize(st, v, what)


@intr("llvm.memcpy.", "llvm.memmove.", "memcpy", "memmove")
def _(m, st, av, args, rt):
    n = conc(m, st, av[2], "memcpy length")
    if n:
        m.write_cells(st, conc(m, st, av[0], "memcpy dst"), m.read_bytes(st, av[1], n))
    return av[0]


@intr("llvm.memset.", "memset")
def _(m, st, av, args, rt):
    n = conc(m, st, av[2], "memset length")
    b = av[1] if isint(av[1]) else T.extract(av[1], 7, 0)
    if n:
        m.write_cells(st, conc(m, st, av[0], "memset dst"), [b & 255 if isint(b) else (b, 0)] * n)
    return av[0]


@intr("bcmp", "memcmp")
def _(m, st, av, args, rt):
    return memcmp(m, st, av[0], av[1], av[2])


def memcmp(m, st, a, b, n):
    n = conc(m, st, n, "bcmp length")
    if n == 0:
        return 0
    ca, cb = m.read_bytes(st, a, n), m.read_bytes(st, b, n)
    x, y = cells_value(m, st, ca), cells_value(m, st, cb)
    e = T.eq(x, y, 8 * n)
    if isint(e) and e:
        return 0
    xb, yb = cells_value(m, st, ca[::-1]), cells_value(m, st, cb[::-1])
    if isint(xb) and isint(yb):
        return 1 if xb > yb else 0xFFFFFFFF
    lt = T.ult(xb, yb, 8 * n)
    return T.ite(e, 0, T.ite(lt, 0xFFFFFFFF, 1, 32), 32)


@intr("strlen")
def _(m, st, av, args, rt):
    n = 0
    while True:
        b = m.load(st, av[0] + n, 1)
        b = conc(m, st, b, "strlen")
        if b == 0:
            return n
        n += 1


def _w(args):
    return tbits(args[0][0])


@intr("llvm.umax.")
def _(m, st, av, args, rt):
    w = _w(args)
    return T.ite(T.ult(av[0], av[1], w), av[1], av[0], w)


@intr("llvm.umin.")
def _(m, st, av, args, rt):
    w = _w(args)
    return T.ite(T.ult(av[0], av[1], w), av[0], av[1], w)


@intr("llvm.smax.")
def _(m, st, av, args, rt):
    w = _w(args)
    return T.ite(T.slt(av[0], av[1], w), av[1], av[0], w)


@intr("llvm.smin.")
def _(m, st, av, args, rt):
    w = _w(args)
    return T.ite(T.slt(av[0], av[1], w), av[0], av[1], w)


@intr("llvm.abs.")
def _(m, st, av, args, rt):
    w = _w(args)
    return T.ite(T.slt(av[0], 0, w), T.sub(0, av[0], w), av[0], w)


@intr("llvm.usub.sat.")
def _(m, st, av, args, rt):
    w = _w(args)
    return T.ite(T.ult(av[0], av[1], w), 0, T.sub(av[0], av[1], w), w)


@intr("llvm.uadd.sat.")
def _(m, st, av, args, rt):
    w = _w(args)
    return T.ite(T.uaddo(av[0], av[1], w), T.M(w), T.add(av[0], av[1], w), w)


@intr("llvm.sadd.sat.")
def _(m, st, av, args, rt):
    w = _w(args)
    s = T.add(av[0], av[1], w)
    return T.ite(T.saddo(av[0], av[1], w), T.ite(T.slt(av[0], 0, w), 1 << (w - 1), T.M(w - 1), w), s, w)


@intr("llvm.ssub.sat.")
def _(m, st, av, args, rt):
    w = _w(args)
    s = T.sub(av[0], av[1], w)
    return T.ite(T.ssubo(av[0], av[1], w), T.ite(T.slt(av[0], 0, w), 1 << (w - 1), T.M(w - 1), w), s, w)


@intr("llvm.uadd.with.overflow.")
def _(m, st, av, args, rt):
    w = _w(args)
    return (T.add(av[0], av[1], w), T.uaddo(av[0], av[1], w))


@intr("llvm.usub.with.overflow.")
def _(m, st, av, args, rt):
    w = _w(args)
    return (T.sub(av[0], av[1], w), T.ult(av[0], av[1], w))


@intr("llvm.umul.with.overflow.")
def _(m, st, av, args, rt):
    w = _w(args)
    return (T.mul(av[0], av[1], w), T.umulo(av[0], av[1], w))


@intr("llvm.sadd.with.overflow.")
def _(m, st, av, args, rt):
    w = _w(args)
    return (T.add(av[0], av[1], w), T.saddo(av[0], av[1], w))


@intr("llvm.ssub.with.overflow.")
def _(m, st, av, args, rt):
    w = _w(args)
    return (T.sub(av[0], av[1], w), T.ssubo(av[0], av[1], w))


@intr("llvm.ctlz.")
def _(m, st, av, args, rt):
    w = _w(args)
    if isint(av[0]):
        return w - av[0].bit_length()
    r = w
    for i in range(w):
        r = T.ite(T.extract(av[0], i, i), w - 1 - i, r, w)
    return r


@intr("llvm.cttz.")
def _(m, st, av, args, rt):
    w = _w(args)
    if isint(av[0]):
        return w if av[0] == 0 else (av[0] & -av[0]).bit_length() - 1
    r = w
    for i in range(w - 1, -1, -1):
        r = T.ite(T.extract(av[0], i, i), i, r, w)
    return r


@intr("llvm.ctpop.")
def _(m, st, av, args, rt):
    w = _w(args)
    if isint(av[0]):
        return bin(av[0]).count("1")
    r = 0
    for i in range(w):
        r = T.add(r, T.zext(T.extract(av[0], i, i), 1, w), w)
    return r


@intr("llvm.bswap.")
def _(m, st, av, args, rt):
    w = _w(args)
    return T.concat([(T.extract(av[0], 8 * i + 7, 8 * i), 8) for i in range(w // 8)])


@intr("llvm.fshl.")
def _(m, st, av, args, rt):
    w = _w(args)
    s = conc(m, st, av[2], "fshl") % w
    return T.extract(T.concat(((av[0], w), (av[1], w))), 2 * w - 1 - s, w - s)


@intr("llvm.fshr.")
def _(m, st, av, args, rt):
    w = _w(args)
    s = conc(m, st, av[2], "fshr") % w
    return T.extract(T.concat(((av[0], w), (av[1], w))), w - 1 + s, s)


@intr("llvm.ucmp.")
def _(m, st, av, args, rt):
    w = _w(args)
    W = tbits(rt)
    return T.ite(T.eq(av[0], av[1], w), 0, T.ite(T.ult(av[0], av[1], w), T.M(W), 1, W), W)


@intr("llvm.scmp.")
def _(m, st, av, args, rt):
    w = _w(args)
    W = tbits(rt)
    return T.ite(T.eq(av[0], av[1], w), 0, T.ite(T.slt(av[0], av[1], w), T.M(W), 1, W), W)


@intr("llvm.is.constant.")
def _(m, st, av, args, rt):
    return 0


@intr("llvm.expect.")
def _(m, st, av, args, rt):
    return av[0]


@intr("llvm.threadlocal.address.")
def _(m, st, av, args, rt):
    return av[0]


@intr("llvm.vector.reduce.or.")
def _(m, st, av, args, rt):
    t = args[0][0]
    w = tbits(t[2])
    r = 0
    for i in range(t[1]):
        r = T.bor(r, T.extract(av[0], w * (i + 1) - 1, w * i), w)
    return r


@intr("llvm.fptoui.sat.")
def _(m, st, av, args, rt):
    if not isint(av[0]):
        raise Unsupported("symbolic floating point")
    x = _f64(av[0])
    if x != x or x <= 0:
        return 0
    return min(int(x), T.M(tbits(rt))) if x != float("inf") else T.M(tbits(rt))


@intr("llvm.load.relative.")
def _(m, st, av, args, rt):
    off = conc(m, st, av[1], "load.relative")
    v = m.load(st, av[0] + off, 4)
    return (av[0] + T.tosigned(v, 32)) & M64


# ---- heap (hosts without the bump allocator)
@intr("malloc")
def _(m, st, av, args, rt):
    n = conc(m, st, av[0], "malloc size")
    return st.new_obj(n, name="heap")


@intr("calloc")
def _(m, st, av, args, rt):
    n = conc(m, st, av[0], "calloc") * conc(m, st, av[1], "calloc")
    return st.new_obj(n, init=[0] * n, name="heap")


@intr("realloc")
def _(m, st, av, args, rt):
    n = conc(m, st, av[1], "realloc size")
    old = st.mem[av[0] >> 32].cells
    cells = (list(old) + [None] * n)[:n]
    return st.new_obj(n, init=cells, name="heap")


@intr("posix_memalign")
def _(m, st, av, args, rt):
    n = conc(m, st, av[2], "size")
    m.store(st, av[0], 8, st.new_obj(n, name="heap"))
    return 0


@intr("free")
def _(m, st, av, args, rt):
    return None
