"""Model of the Solana runtime, the SPL Token, System and Associated-Token programs.

The same code serves two hosts: the symbolic executor (machine.Machine; values are ints or
Terms, decisions fork) and the native host (native.NativeM; every value is an int).
Both offer: decide(st, cond), load/store(st, addr, n), read_bytes/write_cells(st, addr, ..).
"""
import term as T
from term import isint, hi
from machine import PathEnd, Unsupported, cells_value
import sol
import smt

CAP = 4096           # modelled data bytes behind each account
SYM = 2048           # symbolic part of them; every account starts with data_len <= SYM
HDR = 88
M64 = (1 << 64) - 1

K_SYSTEM, K_TOKEN, K_ATA, K_PID = (sol.le(x) for x in (sol.SYSTEM, sol.TOKEN, sol.ATA, sol.PID))
K_ORCA, K_XORCA, K_DEPLOYER, K_STATE, K_VAULT, K_INC = (sol.le(x) for x in (
    sol.ORCA, sol.XORCA, sol.DEPLOYER, sol.STATE, sol.VAULT, sol.INCINERATOR))
for _k in (K_SYSTEM, K_TOKEN, K_ATA, K_PID, K_ORCA, K_XORCA, K_DEPLOYER, K_INC):
    smt.NONHASH.add(_k)


def know_hash(msg):
    import hashlib
    h = sol.le(hashlib.sha256(msg).digest())
    smt.KNOWN_HASH[h] = (int.from_bytes(msg, "little"), 8 * len(msg))
    return h


know_hash(sol.pda_msg([b"state"], sol.STATE_BUMP, sol.PID))
know_hash(sol.pda_msg([sol.STATE, sol.TOKEN, sol.ORCA], sol.VAULT_BUMP, sol.ATA))


def cat(parts):
    """little-endian concatenation of [(value, nbytes)] (first = lowest)"""
    return T.concat([(v, 8 * n) for v, n in reversed(parts)])


def b2v(b):
    return (int.from_bytes(b, "little"), len(b))


def sha_of(msg, nbytes):
    if isint(msg):
        return know_hash(msg.to_bytes(nbytes, "little"))
    return T.sha256(msg, 8 * nbytes)


def fpa_parts(seeds, program):
    """seeds: [(value, nbytes)], program: 256-bit value -> (address, bump)"""
    if all(isint(v) for v, _ in seeds) and isint(program):
        sb = [v.to_bytes(n, "little") for v, n in seeds]
        h, b = sol.find_pda(sb, program.to_bytes(32, "little"))
        know_hash(sol.pda_msg(sb, b, program.to_bytes(32, "little")))
        return sol.le(h), b
    body = cat(list(seeds) + [(program, 32)])
    n = sum(k for _, k in seeds) + 32
    bump = T.uf("fpa%d" % n, ((body, 8 * n),), 8)
    parts = list(seeds) + [(bump, 1), (program, 32), b2v(sol.MARK)]
    return sha_of(cat(parts), sum(k for _, k in parts)), bump


def _fpa_eval(n):
    def f(args):
        body = args[0][0].to_bytes(n, "little")
        # seeds are concatenated: only the concatenation matters to the hash
        return sol.find_pda([body[:-32]], body[-32:])[1]
    return f


for _n in range(32, 200):
    T.UF_EVAL["fpa%d" % _n] = _fpa_eval(_n)


def pending_addr(unstaker, idx):
    return fpa_parts([b2v(b"pending_withdraw"), (unstaker, 32), (idx, 1)], K_PID)


def ata_addr(wallet, mint):
    return fpa_parts([(wallet, 32), (K_TOKEN, 32), (mint, 32)], K_ATA)


class Acct:
    """an account of the transaction (one per distinct key)"""
    __slots__ = ("i", "name", "roles", "addr", "key", "owner", "lam", "dlen", "data", "signer", "writable", "exe")

    def f(self, layout, field):
        """initial value of a data field"""
        o, n = sol.LAYOUT[layout][field]
        return cells_value(None, None, self.data[o:o + n])


def chunk_cells(prefix, layout):
    out = []
    pos = 0
    for k, (o, n) in sorted(layout.items(), key=lambda x: x[1]):
        assert o == pos
        v = T.var("%s.%s" % (prefix, k), 8 * n)
        out += [(v, j) for j in range(n)]
        pos += n
    if pos < SYM:
        v = T.var("%s.rest" % prefix, 8 * (SYM - pos))
        out += [(v, j) for j in range(SYM - pos)]
    return out


def mk_acct(i, name, layout, addr):
    a = Acct()
    a.i, a.name, a.addr, a.roles = i, name, addr, [name]
    a.key = T.var(name + "@key", 256)
    a.owner = T.var(name + "@owner", 256)
    a.lam = T.var(name + "@lamports", 64)
    a.dlen = T.var(name + "@len", 64)
    a.signer = T.var(name + "@signer", 1)
    a.writable = T.var(name + "@writable", 1)
    a.exe = T.var(name + "@exec", 1)
    a.data = chunk_cells(name, layout)
    return a


def header_cells(a):
    from machine import value_cells
    z = lambda b: T.concat([(0, 7), (b, 1)]) if not isint(b) else b
    c = [0xFF]
    for b in (a.signer, a.writable, a.exe):
        c += value_cells(z(b), 1)
    c += [0, 0, 0, 0]
    c += value_cells(a.key, 32) + value_cells(a.owner, 32) + value_cells(a.lam, 8) + value_cells(a.dlen, 8)
    return c


# offsets inside an account
O_SIGNER, O_WRITABLE, O_EXE, O_KEY, O_OWNER, O_LAM, O_LEN = 1, 2, 3, 8, 40, 72, 80


class Snap:
    """final (or committed) view of the accounts"""
    __slots__ = ("owner", "lam", "dlen", "data")

    def f(self, layout, field):
        o, n = sol.LAYOUT[layout][field]
        return cells_value(None, None, self.data[o:o + n])


class SVM:
    """the environment of one transaction instruction"""

    def __init__(self, accts, order):
        self.accts = accts            # unique accounts
        self.order = order            # index into accts per slot
        self.by_addr = {a.addr: a for a in accts}
        self.unix = T.var("clock.unix_timestamp", 64)
        self.clock = (T.var("clock.slot", 64), T.var("clock.epoch_start", 64), T.var("clock.epoch", 64),
                      T.var("clock.leader_epoch", 64), self.unix)
        self.rate = T.var("rent.rate", 64)
        self.burn = T.var("rent.burn", 8)
        self.H = {"sol_log_": self.h_log, "sol_log_data": self.h_logdata, "sol_get_clock_sysvar": self.h_clock,
                  "sol_get_rent_sysvar": self.h_rent, "sol_sha256": self.h_sha,
                  "sol_try_find_program_address": self.h_fpa, "sol_create_program_address": self.h_cpa,
                  "sol_invoke_signed_c": self.h_cpi, "sol_memcpy_": self.h_memcpy, "sol_memmove_": self.h_memcpy,
                  "sol_memset_": self.h_memset, "sol_memcmp_": self.h_memcmp, "sol_log_64_": self.h_log,
                  "sol_log_pubkey": self.h_log, "sol_log_compute_units_": self.h_log, "abort": self.h_abort,
                  "sol_panic_": self.h_abort, "sol_set_return_data": self.h_log,
                  "sol_get_stack_height": lambda m, st, av, *r: 1,
                  "sol_remaining_compute_units": lambda m, st, av, *r: 200000}

    def overrides(self, name):
        return name in self.H

    def find(self, name):
        h = self.H.get(name)
        if h is None:
            return None
        return lambda m, st, av, args, rt: h(m, st, av)

    # ------------------------------------------------------------ plain syscalls
    def h_log(self, m, st, av):
        return 0

    def h_abort(self, m, st, av):
        raise PathEnd("panic", what="abort syscall")

    def h_logdata(self, m, st, av):
        n = av[1]
        out = []
        for k in range(n):
            p, l = m.load(st, av[0] + 16 * k, 8), m.load(st, av[0] + 16 * k + 8, 8)
            if not isint(l):
                l = m.concretize(st, l, "log length")
            out.append(tuple(m.read_bytes(st, p, l)) if l else ())
        st.trace.append(("event", tuple(out)))
        return 0

    def h_clock(self, m, st, av):
        for k, v in enumerate(self.clock):
            m.store(st, av[0] + 8 * k, 8, v)
        return 0

    def h_rent(self, m, st, av):
        m.store(st, av[0], 8, self.rate)
        m.store(st, av[0] + 8, 8, 0x4000000000000000)
        m.store(st, av[0] + 16, 1, self.burn)
        return 0

    def h_memcpy(self, m, st, av):
        if av[2]:
            m.write_cells(st, av[0], m.read_bytes(st, av[1], av[2]))
        return 0

    def h_memset(self, m, st, av):
        n = av[2] if isint(av[2]) else m.concretize(st, av[2], "memset")
        b = av[1] if isint(av[1]) else T.extract(av[1], 7, 0)
        if n:
            m.write_cells(st, av[0], [b & 255 if isint(b) else (b, 0)] * n)
        return 0

    def h_memcmp(self, m, st, av):
        import machine
        m.store(st, av[3], 4, machine.memcmp(m, st, av[0], av[1], av[2]))
        return 0

    def _seeds(self, m, st, p, n):
        out = []
        for k in range(n):
            a, l = m.load(st, p + 16 * k, 8), m.load(st, p + 16 * k + 8, 8)
            if not isint(l):
                l = m.concretize(st, l, "seed length")
            if l:
                out.append((cells_value(m, st, m.read_bytes(st, a, l)), l))
        return out

    def h_sha(self, m, st, av):
        parts = self._seeds(m, st, av[0], av[1])
        n = sum(k for _, k in parts)
        m.store(st, av[2], 32, sha_of(cat(parts), n))
        return 0

    def h_fpa(self, m, st, av):
        seeds = self._seeds(m, st, av[0], av[1])
        prog = m.load(st, av[2], 32)
        addr, bump = fpa_parts(seeds, prog)
        m.store(st, av[3], 32, addr)
        m.store(st, av[4], 1, bump)
        return 0

    def cpa(self, m, st, seeds, prog):
        parts = list(seeds) + [(prog, 32), b2v(sol.MARK)]
        h = sha_of(cat(parts), sum(k for _, k in parts))
        if isint(h) and sol.on_curve(h.to_bytes(32, "little")):
            return None
        return h

    def h_cpa(self, m, st, av):
        h = self.cpa(m, st, self._seeds(m, st, av[0], av[1]), m.load(st, av[2], 32))
        if h is None:
            return 1
        m.store(st, av[3], 32, h)
        return 0

    # ------------------------------------------------------------ accounts
    def owner(self, m, st, a):
        return m.load(st, a.addr + O_OWNER, 32)

    def lam(self, m, st, a):
        return m.load(st, a.addr + O_LAM, 8)

    def dlen(self, m, st, a):
        return m.load(st, a.addr + O_LEN, 8)

    def fld(self, m, st, a, layout, field):
        o, n = sol.LAYOUT[layout][field]
        return m.load(st, a.addr + HDR + o, n)

    def setf(self, m, st, a, layout, field, v):
        o, n = sol.LAYOUT[layout][field]
        m.store(st, a.addr + HDR + o, n, v)

    def snap(self, m, st, a):
        s = Snap()
        s.owner, s.lam, s.dlen = self.owner(m, st, a), self.lam(m, st, a), self.dlen(m, st, a)
        s.data = m.raw_data(st, a.addr)
        return s

    def commit(self, m, st):
        st.x["com"] = tuple(self.snap(m, st, a) for a in self.accts)

    def verify(self, m, st, final=False):
        """the runtime's checks of what the program itself changed since the last commit"""
        com = st.x["com"]
        moved = False
        for a, c in zip(self.accts, com):
            s = self.snap(m, st, a)
            if s.owner is not c.owner and s.owner != c.owner:
                if m.decide(st, T.ne(s.owner, c.owner, 256)):
                    self.need(m, st, a.writable, "owner of read-only account %s changed" % a.name)
                    self.need(m, st, T.eq(c.owner, K_PID, 256), "owner of foreign account %s changed" % a.name)
                    # data must be zeroed
                    L = s.dlen if isint(s.dlen) else m.concretize(st, s.dlen, "len")
                    if L:
                        z = T.eq(cells_value(m, st, list(s.data[:L])), 0, 8 * L)
                        self.need(m, st, z, "owner changed with non-zero data")
            if s.lam is not c.lam and s.lam != c.lam:
                moved = True
                if m.decide(st, T.ne(s.lam, c.lam, 64)):
                    self.need(m, st, a.writable, "lamports of read-only account %s changed" % a.name)
                    if m.decide(st, T.ult(s.lam, c.lam, 64)):
                        self.need(m, st, T.eq(c.owner, K_PID, 256), "lamports of foreign account %s spent" % a.name)
            if s.dlen is not c.dlen and s.dlen != c.dlen:
                if m.decide(st, T.ne(s.dlen, c.dlen, 64)):
                    self.need(m, st, a.writable, "size of read-only account %s changed" % a.name)
                    self.need(m, st, T.eq(c.owner, K_PID, 256), "size of foreign account %s changed" % a.name)
            ch = data_changed(m, st, c, s)
            if ch and m.decide(st, ch) if not isint(ch) else ch:
                self.need(m, st, a.writable, "data of read-only account %s changed" % a.name)
                self.need(m, st, T.eq(c.owner, K_PID, 256), "data of foreign account %s changed" % a.name)
        if final and (moved or st.x.get("moved")):
            z = lambda v: T.zext(v, 64, 80)
            before = after = 0
            for a in self.accts:
                before = T.add(before, z(a.lam), 80)
                after = T.add(after, z(self.lam(m, st, a)), 80)
            self.need(m, st, T.eq(before, after, 80), "sum of lamports changed")
        if moved:
            st.x["moved"] = True

    def need(self, m, st, c, why):
        if not m.decide(st, c):
            raise PathEnd("abort", why=why, runtime=True)

    def fail(self, why):
        raise PathEnd("abort", why=why)

    # ------------------------------------------------------------ CPI
    def find_key(self, m, st, ptr):
        """account of the transaction whose key is at ptr"""
        a = self.by_addr.get(ptr - O_KEY)
        if a is not None:
            return a
        k = m.load(st, ptr, 32)
        for a in self.accts:
            if m.decide(st, T.eq(k, a.key, 256)):
                return a
        return None

    def h_cpi(self, m, st, av):
        ins, infos, ninfos, sigs, nsigs = av
        if not all(isint(x) for x in av):
            raise Unsupported("symbolic CPI arguments")
        prog = m.load(st, m.load(st, ins, 8), 32)
        metas_p, metas_n = m.load(st, ins + 8, 8), m.load(st, ins + 16, 8)
        data_p, data_n = m.load(st, ins + 24, 8), m.load(st, ins + 32, 8)
        if not isint(data_n):
            data_n = m.concretize(st, data_n, "cpi data length")
        if not isint(ninfos):
            ninfos = m.concretize(st, ninfos, "cpi accounts")
        data = m.read_bytes(st, data_p, data_n)
        # signers
        pdas = []
        for k in range(nsigs):
            sp, sn = m.load(st, sigs + 16 * k, 8), m.load(st, sigs + 16 * k + 8, 8)
            h = self.cpa(m, st, self._seeds(m, st, sp, sn), K_PID)
            if h is None:
                self.fail("signer seeds on curve")
            pdas.append(h)
        self.verify(m, st)
        passed = set()
        for k in range(ninfos):
            p = infos + 56 * k
            a = self.by_addr.get(m.load(st, p, 8) - O_KEY)
            if a is None:
                raise Unsupported("CPI account info is not an account of the transaction")
            if (m.load(st, p + 8, 8) != a.addr + O_LAM or m.load(st, p + 24, 8) != a.addr + HDR
                    or m.load(st, p + 32, 8) != a.addr + O_OWNER):
                raise Unsupported("inconsistent CPI account info")
            passed.add(a.i)
        metas = []
        for k in range(metas_n):
            p = metas_p + 16 * k
            kp = m.load(st, p, 8)
            a = self.find_key(m, st, kp)
            if a is None:
                self.fail("CPI account not in the transaction")
            w, s = m.load(st, p + 8, 1), m.load(st, p + 9, 1)
            if not isint(w):
                w = m.concretize(st, w, "meta")
            if not isint(s):
                s = m.concretize(st, s, "meta")
            if a.i not in passed:
                self.fail("CPI account not passed")
            metas.append((a, bool(w), bool(s)))
        for a, w, s in metas:
            if w and not m.decide(st, a.writable):
                self.fail("writable privilege escalation of %s" % a.name)
            if s and not m.decide(st, a.signer):
                if not any(m.decide(st, T.eq(h, a.key, 256)) for h in pdas):
                    self.fail("signer privilege escalation of %s" % a.name)
        sgn = {a.i for a, w, s in metas if s}
        wrt = {a.i for a, w, s in metas if w}
        pa = None
        known = None
        for kk in (K_TOKEN, K_SYSTEM, K_ATA):
            if m.decide(st, T.eq(prog, kk, 256)):
                known = kk
                break
        if known is None:
            raise Unsupported("CPI to an unknown program")
        for a in self.accts:
            if m.decide(st, T.eq(a.key, known, 256)):
                pa = a
                break
        if pa is None:
            self.fail("program account missing")
        c = Cpi(self, m, st, [a for a, _, _ in metas], sgn, wrt, data)
        if known == K_TOKEN:
            c.token()
        elif known == K_SYSTEM:
            c.system()
        else:
            c.ata()
        self.commit(m, st)
        return 0

    def finish(self, m, st, value):
        """end of the instruction (return value 0)"""
        self.verify(m, st, final=True)


def data_changed(m, st, c, s):
    if c.data is s.data:
        return 0
    n = min(len(c.data), len(s.data))
    L = s.dlen
    if isint(L):
        n = min(n, L)
    if c.data[:n] == s.data[:n]:
        return 0
    idx = [i for i in range(n) if c.data[i] != s.data[i]]
    # contiguous runs
    ch = 0
    i = 0
    while i < len(idx):
        j = i
        while j + 1 < len(idx) and idx[j + 1] == idx[j] + 1:
            j += 1
        a, b = idx[i], idx[j] + 1
        x, y = cells_value(m, st, list(c.data[a:b])), cells_value(m, st, list(s.data[a:b]))
        d = T.ne(x, y, 8 * (b - a))
        if not isint(L):
            # bytes beyond the length do not count (whole run treated as inside when its start is)
            d = T.band(d, T.ult(a, L, 64), 1)
        ch = T.bor(ch, d, 1)
        i = j + 1
    return ch


class Cpi:
    def __init__(self, env, m, st, accts, sgn, wrt, data):
        self.e, self.m, self.st, self.a, self.sgn, self.wrt, self.data = env, m, st, accts, sgn, wrt, data

    # helpers
    def need(self, c, why):
        if not self.m.decide(self.st, c):
            raise PathEnd("abort", why=why)

    def d(self, c):
        return self.m.decide(self.st, c)

    def val(self, o, n):
        if o + n > len(self.data):
            raise PathEnd("abort", why="short CPI data")
        return cells_value(self.m, self.st, list(self.data[o:o + n]))

    def g(self, a, layout, f):
        return self.e.fld(self.m, self.st, a, layout, f)

    def s(self, a, layout, f, v):
        self.e.setf(self.m, self.st, a, layout, f, v)

    def owner(self, a):
        return self.e.owner(self.m, self.st, a)

    def acct(self, k):
        if k >= len(self.a):
            raise PathEnd("abort", why="CPI account missing")
        return self.a[k]

    def record(self, *x):
        self.st.trace.append(("cpi",) + x)

    # ------------------------------------------------------------ SPL token
    def unpack_token(self, a):
        m = self
        dl = self.e.dlen(self.m, self.st, a)
        self.need(T.eq(dl, 165, 64), "token account length")
        for f in ("delegate_flag", "native_flag", "close_flag"):
            self.need(T.ult(self.g(a, "token", f), 2, 32), "token account flag")
        s = self.g(a, "token", "state")
        self.need(T.ult(s, 3, 8), "token account state")
        self.need(T.ne(s, 0, 8), "token account uninitialized")

    def unpack_mint(self, a):
        self.need(T.eq(self.e.dlen(self.m, self.st, a), 82, 64), "mint length")
        for f in ("auth_flag", "freeze_flag"):
            self.need(T.ult(self.g(a, "mint", f), 2, 32), "mint flag")
        self.need(T.eq(self.g(a, "mint", "init"), 1, 8), "mint initialized")

    def token_owned(self, *accts):
        for a in accts:
            self.need(T.eq(self.owner(a), K_TOKEN, 256), "%s not owned by the token program" % a.name)
            if a.i not in self.wrt:
                raise PathEnd("abort", why="%s not writable in CPI" % a.name)

    def validate_owner(self, expected, auth):
        self.need(T.eq(expected, auth.key, 256), "owner mismatch")
        ms = T.And(T.eq(self.e.dlen(self.m, self.st, auth), 355, 64), T.eq(self.owner(auth), K_TOKEN, 256))
        if self.d(ms):
            # multisig owners: the program never passes the co-signers
            raise PathEnd("abort", why="multisig owner without co-signers")
        if auth.i not in self.sgn:
            raise PathEnd("abort", why="authority did not sign")

    def debit_auth(self, src, auth, amount, is_self):
        if self.d(T.And(T.eq(self.g(src, "token", "delegate_flag"), 1, 32),
                        T.eq(self.g(src, "token", "delegate"), auth.key, 256))):
            self.validate_owner(self.g(src, "token", "delegate"), auth)
            da = self.g(src, "token", "delegated_amount")
            self.need(T.ule(amount, da, 64), "delegated amount")
            if not is_self:
                nd = T.sub(da, amount, 64)
                self.s(src, "token", "delegated_amount", nd)
                z = T.eq(nd, 0, 64)
                self.s(src, "token", "delegate_flag", T.ite(z, 0, 1, 32))
                self.s(src, "token", "delegate", T.ite(z, 0, self.g(src, "token", "delegate"), 256))
        else:
            self.validate_owner(self.g(src, "token", "owner"), auth)

    def token(self):
        if not self.data:
            raise PathEnd("abort", why="empty token instruction")
        tag = self.val(0, 1)
        if not isint(tag):
            raise Unsupported("symbolic token instruction")
        f = {3: self.t_transfer, 12: self.t_transfer, 7: self.t_mint, 14: self.t_mint, 8: self.t_burn,
             15: self.t_burn}.get(tag)
        if f is None:
            raise Unsupported("token instruction %d" % tag)
        f(tag, self.val(1, 8))

    def checked_decimals(self, mint, tag):
        if tag in (12, 14, 15):
            self.need(T.eq(self.val(9, 1), self.g(mint, "mint", "decimals"), 8), "decimals mismatch")

    def t_transfer(self, tag, amount):
        if tag == 12:
            src, mint, dst, auth = (self.acct(k) for k in range(4))
        else:
            (src, dst, auth), mint = (self.acct(k) for k in range(3)), None
        self.record("transfer", src.i, dst.i, auth.i, amount)
        self.unpack_token(src)
        self.unpack_token(dst)
        self.need(T.ne(self.g(src, "token", "state"), 2, 8), "source frozen")
        self.need(T.ne(self.g(dst, "token", "state"), 2, 8), "destination frozen")
        self.need(T.ule(amount, self.g(src, "token", "amount"), 64), "insufficient token balance")
        self.need(T.eq(self.g(src, "token", "mint"), self.g(dst, "token", "mint"), 256), "mint mismatch")
        if mint is not None:
            self.need(T.eq(self.g(src, "token", "mint"), mint.key, 256), "mint mismatch")
            self.unpack_mint(mint)
            self.checked_decimals(mint, tag)
        is_self = src is dst
        self.debit_auth(src, auth, amount, is_self)
        if is_self:
            self.token_owned(src)
            return
        self.token_owned(src, dst)
        sa, da = self.g(src, "token", "amount"), self.g(dst, "token", "amount")
        self.need(T.bnot(T.uaddo(da, amount, 64)), "destination overflow")
        self.s(src, "token", "amount", T.sub(sa, amount, 64))
        self.s(dst, "token", "amount", T.add(da, amount, 64))
        if self.d(T.eq(self.g(src, "token", "native_flag"), 1, 32)):
            raise PathEnd("abort", why="native token account (outside the model)")

    def t_mint(self, tag, amount):
        mint, dst, auth = (self.acct(k) for k in range(3))
        self.record("mint", mint.i, dst.i, auth.i, amount)
        self.unpack_token(dst)
        self.need(T.ne(self.g(dst, "token", "state"), 2, 8), "destination frozen")
        self.need(T.ne(self.g(dst, "token", "native_flag"), 1, 32), "native mint")
        self.need(T.eq(self.g(dst, "token", "mint"), mint.key, 256), "mint mismatch")
        self.unpack_mint(mint)
        self.checked_decimals(mint, tag)
        self.need(T.eq(self.g(mint, "mint", "auth_flag"), 1, 32), "fixed supply")
        self.validate_owner(self.g(mint, "mint", "authority"), auth)
        self.token_owned(mint, dst)
        da, su = self.g(dst, "token", "amount"), self.g(mint, "mint", "supply")
        self.need(T.bnot(T.uaddo(da, amount, 64)), "balance overflow")
        self.need(T.bnot(T.uaddo(su, amount, 64)), "supply overflow")
        self.s(dst, "token", "amount", T.add(da, amount, 64))
        self.s(mint, "mint", "supply", T.add(su, amount, 64))

    def t_burn(self, tag, amount):
        src, mint, auth = (self.acct(k) for k in range(3))
        self.record("burn", src.i, mint.i, auth.i, amount)
        self.unpack_token(src)
        self.unpack_mint(mint)
        self.need(T.ne(self.g(src, "token", "state"), 2, 8), "account frozen")
        self.need(T.ne(self.g(src, "token", "native_flag"), 1, 32), "native mint")
        self.need(T.ule(amount, self.g(src, "token", "amount"), 64), "insufficient token balance")
        self.need(T.eq(self.g(src, "token", "mint"), mint.key, 256), "mint mismatch")
        self.checked_decimals(mint, tag)
        o = self.g(src, "token", "owner")
        if not self.d(T.Or(T.eq(o, K_SYSTEM, 256), T.eq(o, K_INC, 256))):
            self.debit_auth(src, auth, amount, False)
        self.token_owned(src, mint)
        su = self.g(mint, "mint", "supply")
        self.need(T.ule(amount, su, 64), "supply underflow")
        self.s(src, "token", "amount", T.sub(self.g(src, "token", "amount"), amount, 64))
        self.s(mint, "mint", "supply", T.sub(su, amount, 64))

    # ------------------------------------------------------------ system program
    def sys_transfer(self, fr, to, lam):
        if fr.i not in self.sgn:
            raise PathEnd("abort", why="transfer source did not sign")
        self.need(T.eq(self.e.dlen(self.m, self.st, fr), 0, 64), "transfer source carries data")
        fl = self.e.lam(self.m, self.st, fr)
        self.need(T.ule(lam, fl, 64), "insufficient lamports")
        if fr is to:
            return
        if not (isint(lam) and lam == 0):
            self.need(T.Or(T.eq(lam, 0, 64), T.eq(self.owner(fr), K_SYSTEM, 256)), "transfer source not system-owned")
            for a in (fr, to):
                if a.i not in self.wrt:
                    raise PathEnd("abort", why="lamports of read-only account")
        tl = self.e.lam(self.m, self.st, to)
        self.need(T.bnot(T.uaddo(tl, lam, 64)), "lamports overflow")
        self.m.store(self.st, fr.addr + O_LAM, 8, T.sub(fl, lam, 64))
        self.m.store(self.st, to.addr + O_LAM, 8, T.add(tl, lam, 64))

    def sys_allocate(self, a, space, signed):
        if not signed:
            raise PathEnd("abort", why="allocate: account did not sign")
        self.need(T.And(T.eq(self.e.dlen(self.m, self.st, a), 0, 64), T.eq(self.owner(a), K_SYSTEM, 256)),
                  "allocate: account in use")
        if not isint(space):
            space = self.m.concretize(self.st, space, "allocate size")
        if space > CAP:
            raise Unsupported("allocation of %d bytes" % space)
        self.m.resize_acct(self.st, a.addr, space)

    def sys_assign(self, a, owner, signed):
        if self.d(T.eq(self.owner(a), owner, 256)):
            return
        if not signed:
            raise PathEnd("abort", why="assign: account did not sign")
        self.need(T.eq(self.owner(a), K_SYSTEM, 256), "assign: not system-owned")
        self.m.store(self.st, a.addr + O_OWNER, 32, owner)

    def system(self):
        tag = self.val(0, 4)
        if not isint(tag):
            raise Unsupported("symbolic system instruction")
        if tag == 0:
            lam, space, owner = self.val(4, 8), self.val(12, 8), self.val(20, 32)
            fr, to = self.acct(0), self.acct(1)
            self.record("create", fr.i, to.i, lam, space, owner)
            self.need(T.eq(self.e.lam(self.m, self.st, to), 0, 64), "create: account holds lamports")
            self.sys_allocate(to, space, to.i in self.sgn)
            self.sys_assign(to, owner, to.i in self.sgn)
            self.sys_transfer(fr, to, lam)
        elif tag == 1:
            self.record("assign", self.acct(0).i, self.val(4, 32))
            self.sys_assign(self.acct(0), self.val(4, 32), self.acct(0).i in self.sgn)
        elif tag == 2:
            self.record("sol_transfer", self.acct(0).i, self.acct(1).i, self.val(4, 8))
            self.sys_transfer(self.acct(0), self.acct(1), self.val(4, 8))
        elif tag == 8:
            self.record("allocate", self.acct(0).i, self.val(4, 8))
            self.sys_allocate(self.acct(0), self.val(4, 8), self.acct(0).i in self.sgn)
        else:
            raise Unsupported("system instruction %d" % tag)

    # ------------------------------------------------------------ associated token program
    def ata(self):
        tag = self.val(0, 1) if self.data else 0
        if tag not in (0, 1):
            raise Unsupported("ATA instruction")
        fund, ata, wallet, mint, sysp, tokp = (self.acct(k) for k in range(6))
        self.record("ata", fund.i, ata.i, wallet.i, mint.i)
        addr, bump = ata_addr(wallet.key, mint.key)
        self.need(T.eq(ata.key, addr, 256), "ATA address")
        self.need(T.eq(tokp.key, K_TOKEN, 256), "ATA token program")
        self.need(T.eq(sysp.key, K_SYSTEM, 256), "ATA system program")
        if tag == 1 and self.d(T.eq(self.owner(ata), K_TOKEN, 256)):
            self.unpack_token(ata)
            self.need(T.eq(self.g(ata, "token", "owner"), wallet.key, 256), "ATA owner")
            self.need(T.eq(self.g(ata, "token", "mint"), mint.key, 256), "ATA mint")
            return
        self.need(T.eq(self.owner(ata), K_SYSTEM, 256), "ATA not system-owned")
        self.need(T.eq(self.owner(mint), K_TOKEN, 256), "ATA mint owner")
        self.unpack_mint(mint)
        rent = T.mul(T.mul(128 + 165, self.e.rate, 64), 2, 64)
        self.sgn = set(self.sgn) | {ata.i}
        cur = self.e.lam(self.m, self.st, ata)
        if self.d(T.ult(cur, rent, 64)):
            self.sys_transfer(fund, ata, T.sub(rent, cur, 64))
        self.sys_allocate(ata, 165, True)
        self.sys_assign(ata, K_TOKEN, True)
        self.s(ata, "token", "mint", mint.key)
        self.s(ata, "token", "owner", wallet.key)
        self.s(ata, "token", "state", 1)
