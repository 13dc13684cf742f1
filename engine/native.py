"""Native host: runs the compiled program (the same build) on concrete accounts.

The runtime model (svm.SVM) is the same code as in the symbolic run, on ints; the program is
the machine code, not the interpreted IR."""
import ctypes
import mmap
import os
import pickle
import signal
import struct
import subprocess
import sys
import term as T
from machine import PathEnd, Unsupported, State
import svm
import sol

SHIM = ["sol_log_", "sol_log_data", "sol_get_clock_sysvar", "sol_get_rent_sysvar", "sol_sha256",
        "sol_try_find_program_address", "sol_create_program_address", "sol_invoke_signed_c", "sol_memcpy_",
        "sol_memmove_", "sol_memset_", "sol_memcmp_", "sol_log_64_", "sol_log_pubkey", "sol_log_compute_units_",
        "sol_panic_", "sol_set_return_data", "sol_get_stack_height", "sol_remaining_compute_units"]
HT = ctypes.CFUNCTYPE(ctypes.c_uint64, *([ctypes.c_uint64] * 6))


def build_shim(outdir):
    so = os.path.join(outdir, "shim.so")
    src = os.path.join(os.path.dirname(os.path.abspath(__file__)), "shim.c")
    tmp = so + ".%d" % os.getpid()
    subprocess.check_call(["gcc", "-O1", "-shared", "-fPIC", "-o", tmp, src])
    os.rename(tmp, so)
    return so


class NSt:
    def __init__(self):
        self.x = {}
        self.trace = []


class NativeM:
    """the host side of the Machine interface, on real memory"""

    def decide(self, st, c):
        return bool(c)

    def must(self, st, c):
        return bool(c)

    def concretize(self, st, v, what=""):
        return v

    def load(self, st, addr, n, w=None):
        return int.from_bytes(ctypes.string_at(addr, n), "little")

    def store(self, st, addr, n, v, w=None):
        ctypes.memmove(addr, v.to_bytes(n, "little"), n)

    def read_bytes(self, st, addr, n):
        return list(ctypes.string_at(addr, n)) if n else []

    def write_cells(self, st, addr, cells):
        if cells:
            ctypes.memmove(addr, bytes(cells), len(cells))

    def raw_data(self, st, addr):
        return list(ctypes.string_at(addr + svm.HDR, svm.CAP))

    def resize_acct(self, st, addr, space):
        ctypes.memset(addr + svm.HDR, 0, space)
        self.store(st, addr + svm.O_LEN, 8, space)


class Result:
    def __init__(self, kind, code=None, why=None, final=None, trace=None):
        self.kind, self.code, self.why, self.final, self.trace = kind, code, why, final, trace

    def __repr__(self):
        return "<%s %s %s>" % (self.kind, self.code, self.why)


libc = ctypes.CDLL(None, use_errno=True)
libc.mmap.restype = ctypes.c_void_p
libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]


def concrete_ctx(ctx, env):
    """the accounts of ctx with concrete values (None where the model leaves a default of 0)"""
    memo = {}
    ev = lambda t: T.evaluate(t, env, memo)
    out = []
    for a in ctx.accts:
        b = svm.Acct()
        b.i, b.name, b.roles = a.i, a.name, a.roles
        b.key, b.owner, b.lam, b.dlen = ev(a.key), ev(a.owner), ev(a.lam), ev(a.dlen)
        b.signer, b.writable, b.exe = ev(a.signer), ev(a.writable), ev(a.exe)
        data = bytearray()
        last = None
        for c in a.data:
            if type(c) is int:
                data.append(c)
            else:
                t, k = c
                if last is None or last[0] is not t:
                    last = (t, ev(t))
                data.append((last[1] >> (8 * k)) & 255)
        b.data = list(data)
        out.append(b)
    return out


def run(shim, so, ctx, env, cells, order=None, prepared=None):
    """run natively in a forked child -> Result"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            dn = os.open("/dev/null", os.O_WRONLY)
            os.dup2(dn, 2)
            signal.alarm(20)
            _child(w, shim, so, ctx, env, cells, prepared)
        except BaseException as e:      # noqa
            import traceback
            os.write(w, pickle.dumps(Result("hosterror", why=traceback.format_exc()[-1500:])))
        finally:
            os._exit(0)
    os.close(w)
    buf = b""
    while True:
        c = os.read(r, 1 << 16)
        if not c:
            break
        buf += c
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if buf:
        return pickle.loads(buf)
    if os.WIFSIGNALED(status):
        s = os.WTERMSIG(status)
        return Result("panic" if s in (signal.SIGABRT, signal.SIGILL, signal.SIGTRAP) else "crash", code=s)
    return Result("hosterror", why="no result")


def _child(w, shim, so, ctx, env, cells, prepared):
    sh = ctypes.CDLL(shim, mode=ctypes.RTLD_GLOBAL)
    lib = ctypes.CDLL(so, mode=os.RTLD_LAZY)
    accts = prepared or concrete_ctx(ctx, env)
    hp = libc.mmap(0x300000000, 32768, 3, 0x22 | 0x10, -1, 0)
    assert hp == 0x300000000, hp
    keep = []

    def alloc(b):
        buf = ctypes.create_string_buffer(bytes(b), len(b) + 16)
        a = ctypes.addressof(buf)
        if a % 8:
            buf = ctypes.create_string_buffer(len(b) + 32)
            a = (ctypes.addressof(buf) + 7) & ~7
            ctypes.memmove(a, bytes(b), len(b))
        keep.append(buf)
        return a
    for a in accts:
        hdr = svm.header_cells(a)
        a.addr = alloc(bytes(hdr) + bytes(a.data) + bytes(svm.CAP - svm.SYM))
    arr = alloc(b"".join(struct.pack("<Q", accts[k].addr) for k in ctx.order))
    memo = {}
    flat = lambda cs: bytes(c if type(c) is int else (T.evaluate(c[0], env, memo) >> (8 * c[1])) & 255 for c in cs)
    data = flat(cells)
    dp = alloc(data)
    kp = alloc(flat(ctx.pid))
    e = svm.SVM(accts, ctx.order)
    e.clock = tuple(T.evaluate(t, env, memo) for t in ctx.env.clock)
    e.rate = T.evaluate(ctx.env.rate, env, memo)
    e.burn = T.evaluate(ctx.env.burn, env, memo)
    m = NativeM()
    st = NSt()
    e.commit(m, st)

    def done(res):
        res.trace = st.trace
        os.write(w, pickle.dumps(res))
        os._exit(0)

    def handler(name):
        f = e.H[name]

        def g(*av):
            n = {"sol_invoke_signed_c": 5}.get(name, 6)
            try:
                return f(m, st, list(av[:n])) & ((1 << 64) - 1)
            except PathEnd as x:
                done(Result(x.kind, why=x.info.get("why")))
            except BaseException:
                import traceback
                done(Result("hosterror", why=traceback.format_exc()[-1500:]))
        return HT(g)
    for i, n in enumerate(SHIM):
        cb = handler(n)
        keep.append(cb)
        sh.verif_set(i, cb)
    fn = lib.verif_process
    fn.restype = ctypes.c_uint64
    fn.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_uint64, ctypes.c_void_p, ctypes.c_uint64]
    v = fn(kp, arr, len(ctx.order), dp, len(data))
    if v:
        done(Result("err", code=v))
    try:
        e.finish(m, st, 0)
    except PathEnd as x:
        done(Result(x.kind, why=x.info.get("why")))
    fin = []
    for a in accts:
        s = e.snap(m, st, a)
        fin.append((s.owner, s.lam, s.dlen, bytes(s.data)))
    done(Result("ok", final=fin))


def expect(ctx, outcome, env):
    """concrete prediction of the symbolic outcome under env, in the shape of Result"""
    memo = {}
    ev = lambda t: T.evaluate(t, env, memo)
    r = Result(outcome.kind, code=outcome.info.get("code"), why=outcome.info.get("why"))
    if outcome.kind == "ok":
        r.final = []
        for s in outcome.info["final"]:
            data = bytearray()
            for c in s.data:
                data.append(c if type(c) is int else 0 if c is None else (ev(c[0]) >> (8 * c[1])) & 255)
            r.final.append((ev(s.owner), ev(s.lam), ev(s.dlen), bytes(data)))
    r.trace = outcome.state.trace
    return r


def cval(x, env, memo):
    """concretise a trace entry"""
    if isinstance(x, T.Term):
        return T.evaluate(x, env, memo)
    if isinstance(x, tuple):
        if len(x) == 2 and isinstance(x[0], T.Term):
            return (T.evaluate(x[0], env, memo) >> (8 * x[1])) & 255
        return tuple(cval(y, env, memo) for y in x)
    return x


def agree(ctx, outcome, env, res):
    """does the native result match the symbolic prediction? -> None or a description"""
    ex = expect(ctx, outcome, env)
    if ex.kind != res.kind:
        return "kind %s/%s vs native %s/%s" % (ex.kind, ex.why or ex.code, res.kind, res.why or res.code)
    if ex.kind == "err" and ex.code != res.code:
        return "code %s vs native %s" % (ex.code, res.code)
    if ex.kind == "abort" and ex.why != res.why:
        return "abort %s vs native %s" % (ex.why, res.why)
    memo = {}
    tr = [cval(t, env, memo) for t in ex.trace]
    nt = [tuple(t) for t in res.trace or []]
    if ex.kind in ("ok", "err", "abort") and tr != nt:
        return "trace %s vs native %s" % (str(tr)[:300], str(nt)[:300])
    if ex.kind == "ok":
        for a, x, y in zip(ctx.accts, ex.final, res.final):
            for f, p, q in zip(("owner", "lamports", "len"), x, y):
                if p != q:
                    return "%s.%s %x vs native %x" % (a.name, f, p, q)
            n = x[2]
            if x[3][:n] != y[3][:n]:
                return "%s data differs" % a.name
    return None
