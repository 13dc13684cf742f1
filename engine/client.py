"""Symbolic and native execution of the Rust client (and of the program's own codecs, the oracle).

Every harness function is fn(input, parameter, output) -> code over flat byte buffers."""
import ctypes
import os
import pickle
import random
import signal
import struct
import term as T
from term import isint
import harn
import ll
import machine as MC
import native
import prog
import smt
import sol
import svm

IN, OUT = 0x80, 0x81
OUTLEN = 32768


class Env:
    """what the client calls outside itself: the allocator, the (modelled) address derivation, logging"""

    def __init__(self):
        s = svm.SVM([], [])
        self.H = {k: (lambda m, st, av, args, rt, f=f: f(m, st, av)) for k, f in s.H.items()}
        self.H.update(malloc=self.malloc, calloc=self.calloc, realloc=self.realloc, free=self.free,
                      posix_memalign=self.memalign)

    def _name(self, name):
        if name in self.H:
            return self.H[name]
        if "9backtrace9Backtrace" in name and ("7capture" in name or "6create" in name):
            return self.backtrace
        return None

    def overrides(self, name):
        return self._name(name) is not None

    def find(self, name):
        return self._name(name)

    def malloc(self, m, st, av, args, rt):
        n = MC.conc(m, st, av[0], "malloc")
        if n >= 1 << 31:
            return 0
        a = st.new_obj(max(n, 1), name="heap")
        st.x = dict(st.x)
        return a

    def calloc(self, m, st, av, args, rt):
        n = MC.conc(m, st, av[0], "calloc") * MC.conc(m, st, av[1], "calloc")
        return st.new_obj(max(n, 1), init=[0] * max(n, 1), name="heap")

    def realloc(self, m, st, av, args, rt):
        p, n = MC.conc(m, st, av[0], "realloc"), MC.conc(m, st, av[1], "realloc")
        old = st.mem[p >> 32].cells
        a = st.new_obj(n, init=(list(old) + [None] * n)[:n], name="heap")
        st.mem.pop(p >> 32, None)
        return a

    def free(self, m, st, av, args, rt):
        p = MC.conc(m, st, av[0], "free")
        if p:
            if p & 0xFFFFFFFF or (p >> 32) not in st.mem:
                raise MC.PathEnd("ub", what="free of %x" % p)
            st.mem.pop(p >> 32)
        return None

    def memalign(self, m, st, av, args, rt):
        n = MC.conc(m, st, av[2], "memalign")
        m.store(st, av[0], 8, st.new_obj(max(n, 1), name="heap"))
        return 0

    def backtrace(self, m, st, av, args, rt):
        # a disabled backtrace: the enum's first variants carry no data
        m.store(st, av[0], 8, 0)
        return None


class Lib:
    def __init__(self, name, wrap=False):
        self.name = name
        self.heap = wrap            # the program's bump allocator works on a fixed region
        self.ll, self.so, self.build_s = prog.build_crate(name, os.path.join(prog.VERIF, "harness", "wrap.sh") if wrap else None)
        self.mod = ll.Module(self.ll)


class Libs:
    def __init__(self, oracle=True):
        self.client = Lib("client")
        self.oracle = Lib("oracle", True) if oracle else None
        self.shim = native.build_shim(prog.BUILD)

    @property
    def build_s(self):
        return self.client.build_s + (self.oracle.build_s if self.oracle else 0)


class View:
    def __init__(self, o, cells):
        self.o = o
        self.pc = o.pc
        self.kind = o.kind
        self.ret = o.info.get("value")
        self.cells = cells
        ob = o.state.mem.get(OUT)
        self.outc = ob.cells if ob else None
        self.trace = o.state.trace

    def out(self, off, n):
        return MC.cells_value(None, None, self.outc[off:off + n])

    def written(self, off, n):
        return all(c is not None for c in self.outc[off:off + n])


def explore(lib, fn, cells, param, conds=(), stats=None):
    feas = smt.Feas(timeout_ms=prog.PATH_TIMEOUT)
    m = MC.Machine(lib.mod, feas, Env())
    st = MC.State()
    st.new_obj(max(1, len(cells)), init=list(cells) or [0], name="input", page=IN)
    st.new_obj(OUTLEN, name="output", page=OUT)
    if lib.heap:
        st.new_obj(32768, init=[0] * 32768, name="program heap", page=prog.HEAP)
    for c in conds:
        if isint(c) and not c:
            return
        st.add(c)
    m.start(st, fn, [IN << 32, param, OUT << 32])
    try:
        for o in m.explore(st):
            yield View(o, cells)
    finally:
        if stats is not None:
            stats.append(m)


# ---------------------------------------------------------------- native
def flat(cells, env, memo):
    return bytes(c if type(c) is int else (T.evaluate(c[0], env, memo) >> (8 * c[1])) & 255 for c in cells)


def run_native(shim, so, fn, data, param):
    """-> (kind, value, output bytes, events)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            dn = os.open("/dev/null", os.O_WRONLY)
            os.dup2(dn, 2)
            os.dup2(dn, 1)
            signal.alarm(20)
            libc = native.libc
            sh = ctypes.CDLL(shim, mode=ctypes.RTLD_GLOBAL)
            lib = ctypes.CDLL(so, mode=os.RTLD_LAZY)
            libc.mmap(0x300000000, 32768, 3, 0x22 | 0x10, -1, 0)
            e = svm.SVM([], [])
            m, st = native.NativeM(), native.NSt()
            keep = []
            for i, n in enumerate(native.SHIM):
                def g(*av, f=e.H[n], k={"sol_invoke_signed_c": 5}.get(n, 6)):
                    return f(m, st, list(av[:k])) & ((1 << 64) - 1)
                cb = native.HT(g)
                keep.append(cb)
                sh.verif_set(i, cb)
            src = ctypes.create_string_buffer(data, len(data) + 8)
            out = ctypes.create_string_buffer(OUTLEN)
            f = getattr(lib, fn)
            f.restype = ctypes.c_uint64
            f.argtypes = [ctypes.c_void_p, ctypes.c_uint64, ctypes.c_void_p]
            v = f(ctypes.addressof(src), param, ctypes.addressof(out))
            buf = pickle.dumps(("ret", v, out.raw, [tuple(t) for t in st.trace]))
            while buf:
                buf = buf[os.write(w, buf):]
        except BaseException:
            import traceback
            os.write(w, pickle.dumps(("hosterror", traceback.format_exc()[-800:], b"", [])))
        finally:
            os._exit(0)
    os.close(w)
    buf = b""
    while True:
        c = os.read(r, 1 << 16)
        if not c:
            break
        buf += c
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if buf:
        return pickle.loads(buf)
    s = os.WTERMSIG(status) if os.WIFSIGNALED(status) else 0
    return ("panic" if s in (signal.SIGABRT, signal.SIGILL, signal.SIGTRAP) else "crash", s, b"", [])


def agree(v, env, res):
    """symbolic prediction vs native result -> None or a description"""
    memo = {}
    if v.kind != res[0]:
        return "kind %s vs native %s %s" % (v.kind, res[0], res[1])
    if v.kind != "ret":
        return None
    ret = T.evaluate(v.ret, env, memo)
    if ret != res[1]:
        return "code %s vs native %s" % (ret, res[1])
    for k, c in enumerate(v.outc):
        if c is None:
            continue
        x = c if type(c) is int else (T.evaluate(c[0], env, memo) >> (8 * c[1])) & 255
        if x != res[2][k]:
            return "output byte %d: %d vs native %d" % (k, x, res[2][k])
    tr = [native.cval(t, env, memo) for t in v.trace]
    if tr != res[3]:
        return "trace"
    return None


# ---------------------------------------------------------------- checking one function
def check(rec, libs, fn, cells, param, cfg, obligations, conds=(), validate=2, lib=None, witness=None, keep=None,
          describe=None):
    """explore fn and decide its obligations; counterexamples and samples are replayed natively.
    obligations(view) -> (title, goal, *extra)"""
    lib = lib or libs.client
    pv = harn.Prover(rec)
    rng = random.Random(harn.SEED)
    stats = []
    views = []
    for v in explore(lib, fn, cells, param, conds, stats):
        key = v.kind if v.kind != "ret" else "returned %s" % (v.ret if isint(v.ret) else "?")
        rec.paths[key] = rec.paths.get(key, 0) + 1
        if v.kind == "ret" and (witness is None or witness(v)):
            rec.witness[cfg] = rec.witness.get(cfg, 0) + 1
        views.append(v)
        if keep is not None:
            keep.append(v)
        for title, goal, *mm in obligations(v):
            try:
                r = pv.decide(v.pc, goal, *mm)
            except harn.Inconclusive as e:
                rec.inconclusive.append("%s: %s: %s" % (cfg, title, e))
                continue
            if r == "proved":
                continue
            data = flat(cells, r, {})
            res = run_native(libs.shim, lib.so, fn, data, param)
            bad = agree(v, r, res)
            if v.kind in ("panic", "oob", "ub"):
                bad = None if res[0] in ("panic", "crash") or v.kind != "panic" and res[0] != "hosterror" else \
                    "%s vs native %s" % (v.kind, res[0])
            vio = {"what": title, "config": cfg, "function": fn, "parameter": param, "outcome": v.kind,
                   "info": str(v.o.info)[:300], "inputs": harn.describe(r), "input_bytes": data.hex()[:8192],
                   "native": "%s %s" % (res[0], res[1]), "native_output": res[2][:256].hex(), "reproduced": bad is None}
            if bad is None:
                rec.validated += 1
                rec.violations.append(vio)
            else:
                rec.mismatch.append({"cfg": cfg, "title": title, "diff": bad, "inputs": harn.describe(r)})
    for m in stats:
        rec.transitions += m.n_forks
        rec.instructions += m.n_ins
        for k, n in m.funcs_run.items():
            rec.funcs[k] = rec.funcs.get(k, 0) + n
        if m.solver_unknown:
            rec.stats["path_unknown"] = rec.stats.get("path_unknown", 0) + m.solver_unknown
    if validate:
        vs = list(views)
        rng.shuffle(vs)
        vs.sort(key=lambda v: not (v.kind == "ret" and isint(v.ret) and v.ret == 0))
        for v in vs[:validate] + vs[::-1][:max(0, min(validate, len(vs) - validate))]:
            env = pv.models.get([c for c in v.pc if not isint(c)], budget=20)
            if not isinstance(env, dict):
                continue
            data = flat(cells, env, {})
            res = run_native(libs.shim, lib.so, fn, data, param)
            bad = agree(v, env, res)
            if v.kind in ("oob", "ub"):
                bad = None
            if bad is None:
                rec.validated += 1
                if len(rec.samples) < 3:
                    rec.samples.append({"config": cfg, "path": v.kind, "inputs": harn.describe(env),
                                        "native": "%s %s" % (res[0], res[1])})
            else:
                rec.mismatch.append({"cfg": cfg, "diff": bad, "inputs": harn.describe(env)})
    return views


def sym(name, n):
    """n symbolic bytes as one variable"""
    v = T.var(name, 8 * n)
    return v, [(v, i) for i in range(n)]


def num(v, n=8):
    return list(v.to_bytes(n, "little"))
