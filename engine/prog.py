"""Build the on-chain program from /repo and explore its instructions symbolically."""
import fcntl
import hashlib
import itertools
import os
import shutil
import subprocess
import sys
import time
sys.setrecursionlimit(100000)
import term as T
from term import isint
import ll
import machine as MC
import smt
import sol
import svm

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")


def env_for_cargo(wrap=None):
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + e.get("PATH", "")
    e["RUSTUP_TOOLCHAIN"] = "1.88.0"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = wrap or ""
    for k in ("CARGO_INCREMENTAL", "RUSTFLAGS", "CARGO_PROFILE_DEV_DEBUG"):
        e.pop(k, None)
    return e


def source_hash(src):
    h = hashlib.sha256()
    for top in ("/repo/solana-program", "/repo/rust-client", os.path.join(VERIF, "harness"), src):
        for d, ds, fs in sorted(os.walk(top)):
            ds[:] = sorted(x for x in ds if x not in ("target", "node_modules", ".git"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock", ".sh")):
                    p = os.path.join(d, f)
                    h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()


def build_crate(name, wrap=None, crate=None):
    """cargo rustc of /verif/harness/<name> -> (path of .ll, path of .so)"""
    crate = crate or ("verif_" + name)
    src = os.path.join(VERIF, "harness", name)
    tgt = os.path.join(BUILD, name)
    os.makedirs(tgt, exist_ok=True)
    t0 = time.time()
    lock = open(os.path.join(tgt, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    # cargo compares times, not contents: force the local crates when any source differs from the last build
    h = source_hash(src)
    stamp = os.path.join(tgt, "sources")
    if not os.path.exists(stamp) or open(stamp).read() != h:
        fp = os.path.join(tgt, "release", ".fingerprint")
        for d in os.listdir(fp) if os.path.isdir(fp) else ():
            if d.startswith(("xorca", "verif")):
                shutil.rmtree(os.path.join(fp, d))
    cmd = ["cargo", "rustc", "--offline", "--release", "--lib", "--target-dir", tgt, "--", "--emit=llvm-ir,link",
           "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"]
    r = subprocess.run(cmd, cwd=src, env=env_for_cargo(wrap), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        sys.stderr.write(r.stdout.decode(errors="replace")[-6000:])
        raise SystemExit("build of %s failed" % name)
    with open(stamp, "w") as f:
        f.write(h)
    d = os.path.join(tgt, "release", "deps")
    lls = [f for f in os.listdir(d) if f.startswith(crate) and f.endswith(".ll")]
    sos = [f for f in os.listdir(d) if f.startswith("lib" + crate) and f.endswith(".so")]
    newest = lambda fs: os.path.join(d, max(fs, key=lambda f: os.path.getmtime(os.path.join(d, f))))
    return newest(lls), newest(sos), time.time() - t0


def build_program():
    return build_crate("program", os.path.join(VERIF, "harness", "wrap.sh"))


# ---------------------------------------------------------------- configurations
PAGE0 = 0x40
ARR = 0x80
DATA = 0x81
KEYP = 0x82
HEAP = 3


def pairs_of(names):
    return list(itertools.combinations(range(len(names)), 2))


class Ctx:
    """one exploration: an instruction under one aliasing of its accounts"""

    def __init__(self, instr, classes=None, extra=0, nacc=None, fixed=None):
        self.instr = instr
        roles = sol.ROLES[instr]
        n = len(roles)
        cls = classes or [[i] for i in range(n)]
        seen = {i for c in cls for i in c}
        cls = sorted(cls + [[i] for i in range(n) if i not in seen])
        self.classes = cls
        self.accts = []
        order = [None] * n
        for k, c in enumerate(cls):
            name, layout = None, "raw"
            for i in c:
                if sol.LEN.get(roles[i][1], 0) > sol.LEN.get(layout, 0):
                    layout = roles[i][1]
            name = "=".join(roles[i][0] for i in c)
            a = svm.mk_acct(k, name, sol.LAYOUT[layout], (PAGE0 + k) << 32)
            a.roles = [roles[i][0] for i in c]
            self.accts.append(a)
            for i in c:
                order[i] = k
        self.order = order if nacc is None else order[:nacc]
        self.role = {roles[i][0]: self.accts[order[i]] for i in range(n)}
        self.env = svm.SVM(self.accts, self.order)
        self.assume = []
        self.hooks = {}
        self.pid = list(sol.PID)
        self.base_assumptions()

    def __getitem__(self, role):
        return self.role[role]

    def base_assumptions(self):
        A = self.assume
        for i, a in enumerate(self.accts):
            for b in self.accts[:i]:
                A.append(T.ne(a.key, b.key, 256))
        for a in self.accts:
            A.append(T.ule(a.dlen, svm.SYM, 64))
            A.append(T.ult(a.lam, 1 << 60, 64))
            # program accounts belong to a loader
            for k in (svm.K_SYSTEM, svm.K_TOKEN, svm.K_ATA, svm.K_PID):
                self.hook(T.eq(a.key, k, 256), None, T.And(*[T.ne(a.owner, o, 256) for o in (
                    svm.K_SYSTEM, svm.K_TOKEN, svm.K_ATA, svm.K_PID)]))
            # the two mint addresses hold SPL mints
            for k in (svm.K_ORCA, svm.K_XORCA):
                self.hook(T.eq(a.key, k, 256), None, T.And(T.eq(a.owner, svm.K_TOKEN, 256), T.eq(a.dlen, 82, 64)))
            # a signer holds a private key: its address is not a hash output
            self.hook(a.signer, None, nonhash(a.key))
        e = self.env
        A.append(T.ult(e.rate, 1 << 32, 64))

    def hook(self, c, other, body):
        """assume (c [and other]) -> body; instantiated when the triggers reach the path condition.
        Where they never do, the implication is dropped (a weaker assumption)."""
        if isint(c):
            if c:
                self.assume.append(body)
            return
        self.hooks.setdefault(c.id, []).append((other, body))
        if other is not None:
            self.hooks.setdefault(other.id, []).append((c, body))

    # documented environment contracts --------------------------------------
    def spl_valid(self):
        """R1: every account owned by SPL Token is a well-formed mint, token account or multisig"""
        for a in self.accts:
            f = a.f
            tok = T.And(T.eq(a.dlen, 165, 64), T.ult(f("token", "state"), 3, 8),
                        *[T.ult(f("token", x), 2, 32) for x in ("delegate_flag", "native_flag", "close_flag")])
            mint = T.And(T.eq(a.dlen, 82, 64), T.ult(f("mint", "init"), 2, 8),
                         *[T.ult(f("mint", x), 2, 32) for x in ("auth_flag", "freeze_flag")])
            ms = T.eq(a.dlen, 355, 64)
            self.hook(T.eq(a.owner, svm.K_TOKEN, 256), None, T.Or(tok, mint, ms))

    def prog_inv(self):
        """R2: the program's own accounts satisfy the data invariant (checked to be preserved by C08).
        Accounts of the program with any other discriminator are unrestricted: anyone can create a
        zeroed account owned by any program."""
        for a in self.accts:
            own = T.eq(a.owner, svm.K_PID, 256)
            d1, s, d2, p = prog_acct_inv(a.key, a.dlen, a.f)
            self.hook(own, d1, s)
            self.hook(own, d2, p)

    def initial(self, m, data_cells):
        st = MC.State()
        st.hooks = self.hooks
        for a in self.accts:
            cells = svm.header_cells(a) + a.data + [0] * (svm.CAP - svm.SYM)
            st.new_obj(len(cells), init=cells, name="account " + a.name, page=a.addr >> 32, lim=(svm.HDR, svm.O_LEN))
        arr = []
        for k in self.order:
            arr += list(self.accts[k].addr.to_bytes(8, "little"))
        st.new_obj(len(arr), init=arr, name="accounts array", page=ARR, ro=True)
        st.new_obj(len(data_cells), init=data_cells, name="instruction data", page=DATA, ro=True)
        st.new_obj(32, init=self.pid, name="program id", page=KEYP, ro=True)
        st.new_obj(32768, init=[0] * 32768, name="heap", page=HEAP)
        for c in self.assume:
            if isint(c) and not c:
                return None
            st.add(c)
        self.env.commit(m, st)
        return st


def nonhash(key):
    return T.uf("nonhash", ((key, 256),), 1)


def prog_acct_inv(key, dlen, f):
    """the invariant of an account owned by the program, over a field reader f(layout, field):
    (is a State, its body, is a PendingWithdraw, its body)"""
    addr, bump = svm.pending_addr(f("pending", "unstaker"), f("pending", "index"))
    s = T.And(T.eq(dlen, 2048, 64), T.eq(key, svm.K_STATE, 256),
              T.eq(f("state", "bump"), sol.STATE_BUMP, 8), T.eq(f("state", "vault_bump"), sol.VAULT_BUMP, 8),
              T.ult(f("state", "cooldown"), 1 << 63, 64))
    p = T.And(T.eq(dlen, 1024, 64), T.eq(key, addr, 256), T.eq(f("pending", "bump"), bump, 8))
    return T.eq(f("state", "disc"), 1, 8), s, T.eq(f("pending", "disc"), 2, 8), p


def data_cells(instr, ctx, variant=None):
    """instruction data with symbolic payload"""
    c = [sol.TAG[instr]]
    ctx.args = {}

    def put(name, n):
        v = T.var("arg." + name, 8 * n)
        ctx.args[name] = v
        c.extend((v, i) for i in range(n))
    if instr == "stake":
        put("amount", 8)
    elif instr == "unstake":
        put("amount", 8)
        put("index", 1)
    elif instr == "withdraw":
        put("index", 1)
    elif instr == "initialize":
        put("cooldown", 8)
    elif instr == "set":
        c.append(variant)
        put(("cooldown", "authority")[variant], (8, 32)[variant])
    return c


def post(m, env, outcome):
    """finish an outcome: the runtime's end-of-instruction checks; yields final Outcomes"""
    if outcome.kind != "ret":
        yield outcome
        return
    work = [outcome.state]
    while work:
        st = work.pop()
        base = st.clone()
        try:
            v = outcome.info["value"]
            ok = T.eq(v, 0, 64)
            if m.decide(st, ok):
                env.finish(m, st, v)
                snaps = tuple(env.snap(m, st, a) for a in env.accts)
                o = MC.Outcome(st, "ok", {"final": snaps})
            else:
                if not isint(v):
                    v = m.concretize(st, v, "error code")
                o = MC.Outcome(st, "err", {"code": v})
        except MC.NeedFork as e:
            b = base.clone()
            base.add(e.cond)
            b.add(T.bnot(e.cond))
            work += [b, base]
            continue
        except MC.PathEnd as e:
            o = MC.Outcome(st, e.kind, e.info)
        yield o


# a path whose feasibility is not decided in this time is explored; its obligations decide
PATH_TIMEOUT = 4000


def explore(module, ctx, cells, stats=None, nacc=None):
    feas = smt.Feas(timeout_ms=PATH_TIMEOUT)
    m = MC.Machine(module, feas, ctx.env)
    ctx.m = m
    st = ctx.initial(m, cells)
    if st is None or feas.check(st.pc) == "unsat":
        return
    n = len(ctx.order)
    m.start(st, "verif_process", [KEYP << 32, ARR << 32, n, DATA << 32, len(cells)])
    for o in m.explore(st):
        for p in post(m, ctx.env, o):
            yield p
