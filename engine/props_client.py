"""Properties of the Rust client, decided over the symbolic paths of the real client (and, as oracle, of the program)."""
import itertools
import time
import client as C
import harn
import machine as MC
import prog
import props_chain as P
import sol
import svm
import term as T
from client import num, sym
from term import isint

ASSUME = [
    "the RPC client is replaced by a ledger keyed by address; address derivation by the model of engine/svm.py (find = "
    "the first bump off the curve, computed natively on replay); SHA-256 is injective",
    "the allocator never fails; error texts of third-party crates are not judged",
]


def cells_eq(a, b):
    """two lists of byte cells are equal"""
    if len(a) != len(b):
        return 0
    if any(c is None for c in a) or any(c is None for c in b):
        return 0
    a, b = list(a), list(b)
    if a == b:
        return 1
    g = 1
    for k in range(0, len(a), 64):
        x, y = MC.cells_value(None, None, a[k:k + 64]), MC.cells_value(None, None, b[k:k + 64])
        g = T.And(g, T.eq(x, y, 8 * len(a[k:k + 64])))
    return g


def pc_and(v):
    return T.And(1, *v.pc)


def bytes_of(name, n):
    """n one-byte variables"""
    return [(T.var("%s.%d" % (name, i), 8), 0) for i in range(n)]


def fault(v):
    if v.kind != "ret":
        yield "no input makes the client panic or read out of bounds (%s %s)" % (v.kind, str(v.o.info)[:120]), 0


def runner(make):
    """a property from a function (libs, tier) -> ([tasks], bounds, witnesses)"""
    def run(prop, tier):
        t0 = time.time()
        libs = C.Libs()
        tasks, bounds, need = make(libs, tier)
        bounds = dict(bounds)
        bounds["configurations"], bounds["build_s"] = len(tasks), round(libs.build_s, 1)
        rec = harn.run_tasks(tasks, 820 if tier != "thorough" else 7000)
        return harn.conclude(prop, rec, t0, bounds, ASSUME, need_witness=need)
    return run


# ---------------------------------------------------------------- C14 conversions
def t_conv(rec, libs, which):
    (a, ac), (n, nc), (s, sc) = sym("amount", 8), sym("pool", 8), sym("supply", 8)
    cells = ac + nc + sc
    name = ("orca to xorca", "xorca to orca")[which]
    ref = C.check(rec, libs, "conv_prog", cells, which, name + " (program)", lambda v: fault(v), lib=libs.oracle)
    zero = T.Or(T.eq(n, 0, 64), T.eq(s, 0, 64))
    z, add, mul = P.z, P.a_, P.m_
    num_, den = (s, n) if which == 0 else (n, s)
    ms = (z(a), add(z(num_), 100), add(z(den), 100))

    def ob(v):
        yield from fault(v)
        if v.kind != "ret":
            return
        ok = isint(v.ret) and v.ret == 0
        for o in ref:
            if o.kind != "ret":
                continue
            op = isint(o.ret) and o.ret == 0
            if ok and op:
                yield ("the client's result is the program's (%s)" % name,
                       T.Or(T.Not(pc_and(o)), T.eq(v.out(0, 8), o.out(0, 8), 64)), ms)
            elif ok != op:
                yield ("the client %s where the program %s (%s)" % (("fails", "succeeds")[ok], ("fails", "succeeds")[op], name),
                       T.Not(pc_and(o)), ms)
        if not ok:
            yield ("the error names its cause (%s)" % name,
                   T.And(zero, int(which == 1)) if v.ret == 2 else T.Or(T.Not(zero), int(which == 0)), ms)
    C.check(rec, libs, "conv_client", cells, which, name, ob, validate=3, witness=lambda v: v.ret == 0)


def c14(libs, tier):
    return ([(t_conv, (libs, w), {}) for w in (0, 1)],
            {"inputs": "all 2^192 amounts, pool sizes and supplies in both directions"}, ["orca to xorca", "xorca to orca"])


# ---------------------------------------------------------------- C15 layouts
ACCTS = {"state": (2048, ["state_bytes", "state_info"], "state_prog"), "pending": (1024, ["pending_bytes", "pending_info"], "pending_prog"),
         "token": (165, ["token_account"], None), "mint": (82, ["token_mint"], None)}


def valid_acct(kind, d):
    b = lambda o: d[o][0]
    if kind in ("state", "pending"):
        return T.ule(b(0), 3, 8)
    if kind == "token":
        return T.ule(b(108), 2, 8)
    return T.ule(b(45), 1, 8)


def t_codec(rec, libs, kind, fn, n):
    full, _, pf = ACCTS[kind]
    d = bytes_of("data", n)
    view = None
    cfg = "%s %s bytes" % (fn, n)
    if n >= full:
        v = valid_acct(kind, d)
        if pf:
            os_ = C.check(rec, libs, pf, d[:full], full, cfg + " (program)", lambda v: fault(v), conds=[v], lib=libs.oracle)
            view = os_[0].outc
            assert len(os_) == 1
    order = sorted(sol.LAYOUT[kind].items(), key=lambda x: x[1])

    def ob(v):
        yield from fault(v)
        if v.kind != "ret":
            return
        if v.ret == 1:
            yield "valid %s data is decoded" % kind, T.Not(valid_acct(kind, d)) if n == full else 1
            return
        if n < full:
            yield "truncated %s data is rejected" % kind, 0
            return
        for name, (o, k) in order:
            ref = view if pf else d
            yield "field %s of %s is the program's" % (name, kind), cells_eq(v.outc[o:o + k], ref[o:o + k])
        yield "re-encoding %s data gives its bytes" % kind, T.And(
            T.eq(v.out(full, 8), full, 64), cells_eq(v.outc[full + 8:full + 8 + full], d[:full]))
    C.check(rec, libs, fn, d, n, cfg, ob, witness=lambda v: v.ret == 0, validate=1)


EV = [("Stake", [(o, 8) for o in range(0, 40, 8)]), ("Unstake", [(o, 8) for o in range(0, 48, 8)] + [(48, 1)]),
      ("Withdraw", [(16, 8), (32, 8), (40, 8), (48, 1)]), ("UpdateAuthoritySet", [(56, 32), (88, 32)])]


def ev_cells(t):
    """bytes of an emitted event as cells"""
    return [c for part in t[1] for c in part]


def t_event(rec, libs, which):
    name, fields = EV[which]
    inp = []
    for k in range(6):
        inp += sym("f%d" % k, 8)[1]
    inp += sym("index", 1)[1] + [0] * 7 + sym("key1", 32)[1] + sym("key2", 32)[1]
    em = C.check(rec, libs, "event_emit", inp, which, "emit " + name, lambda v: fault(v), lib=libs.oracle)
    for e in em:
        if e.kind != "ret" or e.ret != 0:
            rec.inconclusive.append("the program does not emit " + name)
            continue
        evs = [t for t in e.trace if t[0] == "event"]
        data = ev_cells(evs[0])

        def ob(v):
            yield from fault(v)
            if v.kind != "ret":
                return
            if v.ret != 0:
                yield "the client decodes the program's %s event" % name, 0
                return
            yield "the client recognises the %s event" % name, T.eq(v.out(256, 8), which, 64)
            p = 264
            for k, (o, n) in enumerate(fields):
                yield "field %d of the %s event" % (k, name), cells_eq(v.outc[p:p + n], inp[o:o + n])
                p += n
            yield "re-encoding the %s event" % name, T.And(T.eq(v.out(0, 8), len(data), 64), cells_eq(v.outc[8:8 + len(data)], data))
        C.check(rec, libs, "event_decode", data, len(data), "decode " + name, ob, witness=lambda v: v.ret == 0)


def t_evbytes(rec, libs, n):
    d = bytes_of("log", n)
    size = {0: 41, 1: 50, 2: 26, 3: 65}

    def ob(v):
        yield from fault(v)
        if v.kind != "ret":
            return
        if v.ret == 0:
            m = v.out(0, 8)
            if not isint(m):
                yield "length of the re-encoding", 0
            elif m > n:
                yield "an event is decoded from a complete encoding", 0
            else:
                yield "a decoded event re-encodes to its bytes", cells_eq(v.outc[8:8 + m], d[:m])
        else:
            yield "complete events are decoded", T.And(1, *[T.Not(T.eq(d[0][0], t, 8)) for t, k in size.items() if k == n])
    C.check(rec, libs, "event_decode", d, n, "decode %d arbitrary bytes" % n, ob, validate=1)


def t_const(rec, libs):
    st = C.check(rec, libs, "state_prog", [1] + [0] * 2047, 0, "program constants", lambda v: [], lib=libs.oracle)[0]
    pd = C.check(rec, libs, "pending_prog", [2] + [0] * 1023, 0, "program constants", lambda v: [], lib=libs.oracle)[0]

    def ob(v):
        yield from fault(v)
        if v.kind == "ret":
            for o, a, what in ((165, st.out(2048, 8), "State size"), (173, pd.out(1024, 8), "PendingWithdraw size"),
                               (181, st.out(2056, 8), "State discriminator"), (189, pd.out(1032, 8), "PendingWithdraw discriminator")):
                yield "%s agrees with the program" % what, T.eq(v.out(o, 8), a, 64)
    C.check(rec, libs, "constants", [], 0, "constants", ob)


def c15(libs, tier):
    t = []
    for kind, (full, fns, _) in ACCTS.items():
        short = [0, 1, 6, 7, 8, 15, 16, 39, 40, 48, 55, 56, full - 1]
        if tier == "thorough":
            short = list(range(0, min(full, 200))) + [full - 1]
        for fn in fns:
            t += [(t_codec, (libs, kind, fn, n), {}) for n in [full] + sorted({x for x in short if x < full}) + [full + 5] * (kind in ("state", "pending"))]
    t += [(t_event, (libs, w), {}) for w in range(4)]
    t += [(t_evbytes, (libs, n), {}) for n in range(0, 72 if tier != "thorough" else 140)]
    t.append((t_const, (libs,), {}))
    return t, {"accounts": "every content of State (2048), PendingWithdraw (1024), token account (165) and mint (82) bytes, "
               "truncations and excess bytes", "events": "every value of every field; every byte string of up to %d bytes" % (
                   71 if tier != "thorough" else 139)}, ["state_bytes 2048", "pending_bytes 1024", "token_account 165",
                                                         "token_mint 82"] + ["decode " + e for e, _ in EV]


# ---------------------------------------------------------------- C16 instructions
IXARGS = {"stake": [8], "unstake": [8, 1], "withdraw": [1], "initialize": [8], "set": None}
MODES = {0: "struct", 1: "builder", 2: "builder + remaining", 3: "struct + remaining", 4: "CPI struct", 5: "CPI builder",
         6: "CPI builder + remaining, signed", 7: "CPI struct + remaining, signed", 8: "CPI struct, signed",
         9: "builder, remaining one by one", 10: "CPI builder, remaining one by one"}
SIGNERS = {"stake": [0], "unstake": [0], "withdraw": [0], "initialize": [0, 1], "set": [0]}


def t_ix(rec, libs, ix, mode, var):
    n = len(sol.ROLES[ix])
    args = []
    if ix == "set":
        args = [var] + [0] * 7 + (sym("value", 8)[1] if var == 0 else sym("value", 32)[1])
        want = num(4) + num(var) + args[8:]
    else:
        want = num(sol.TAG[ix])
        for k, w in enumerate(IXARGS[ix]):
            c = sym("arg%d" % k, w)[1]
            args += c + [0] * (8 - w)
            want += c
    args += [0] * (48 - len(args))
    cells = list(args)
    keys, sg, wr = [], [], []
    for k in range(n + 3):
        key = sym("key%d" % k, 32)[1]
        s, w = T.var("signer%d" % k, 1), T.var("writable%d" % k, 1)
        keys.append(key)
        sg.append(s)
        wr.append(w)
        cells += key + [(T.zext(s, 1, 8), 0), (T.zext(w, 1, 8), 0)] + [0] * 6
    rem = mode in (2, 3, 6, 7, 9, 10)
    cpi = mode in (4, 5, 6, 7, 8, 10)
    cfg = "%s%s, %s" % (ix, "" if ix != "set" else "/%d" % var, MODES[mode])
    flags = {}

    def ob(v):
        yield from fault(v)
        if v.kind != "ret":
            return
        yield "building the instruction succeeds", int(isint(v.ret) and v.ret == 0)
        yield "the instruction addresses the program", T.eq(v.out(0, 32), svm.K_PID, 256)
        cnt = n + (2 if rem else 0)
        yield "%d accounts are listed" % cnt, T.eq(v.out(32, 8), cnt, 64)
        if not isint(v.out(32, 8)) or v.out(32, 8) != cnt:
            return
        for k in range(cnt):
            o = 40 + 34 * k
            src = k if k < n else k + 1
            what = sol.ROLES[ix][k][0] if k < n else "remaining account %d" % (k - n)
            yield "account %d is the %s given" % (k, what), cells_eq(v.outc[o:o + 32], keys[src])
            if k >= n:
                # remaining accounts keep the roles the caller gave them
                so, wo, si, wi = v.out(o + 32, 1), v.out(o + 33, 1), T.zext(sg[src], 1, 8), T.zext(wr[src], 1, 8)
                kept = T.And(T.eq(so, si, 8), T.eq(wo, wi, 8))
                if not cpi:
                    yield "%s keeps its signer and writable flags" % what, kept
                else:
                    yield "%s of the CPI carries the two flags given" % what, T.Or(kept, T.And(T.eq(so, wi, 8), T.eq(wo, si, 8)))
                    yield "CPI of %s: remaining accounts keep their signer and writable flags as documented" % ix, kept
            else:
                yield "exactly the authorising accounts sign (account %d)" % k, T.eq(v.out(o + 32, 1), int(k in SIGNERS[ix]), 8)
                w = v.out(o + 33, 1)
                if isint(w):
                    flags[k] = w
                else:
                    yield "the %s has a fixed access mode" % what, 0
        if cpi:
            m = v.out(2048, 8)
            if not isint(m):
                yield "number of accounts passed on", 0
                return
            infos = [v.outc[2056 + 32 * k:2088 + 32 * k] for k in range(m)]
            for k in list(range(n)) + [n] + ([n + 1, n + 2] if rem else []):
                yield "every account of the call is passed on (%d)" % k, int(any(x == keys[k] for x in infos))
            p = 2056 + 32 * m
            signed = mode in (6, 7, 8)
            yield "signer seeds are passed on", seeds_ok(v, p, signed)
        ln = v.out(1024, 8)
        if not isint(ln):
            yield "length of the instruction data", 0
            return
        data = v.outc[1032:1032 + ln]
        ps = C.check(rec, libs, "ix_parse", data, ln, cfg + " (program's parser)", lambda v: fault(v), conds=v.pc,
                     lib=libs.oracle, validate=1)
        for q in ps:
            if q.kind == "ret":
                ok = isint(q.ret) and q.ret == 0 and all(c is not None for c in q.outc[:len(want)])
                yield ("the program parses the arguments the caller gave",
                       T.Or(T.Not(pc_and(q)), cells_eq(q.outc[:len(want)], want) if ok else 0))
    C.check(rec, libs, "ix_" + ix, cells, mode, cfg, ob, witness=lambda v: v.ret == 0, validate=1)
    return flags if len(flags) == n else None


def seeds_ok(v, p, signed):
    if not signed:
        return T.eq(v.out(p, 8), 0, 64)
    want = num(1) + num(2) + num(4) + list(b"seed") + num(1) + [3]
    return cells_eq(v.outc[p:p + len(want)], want)


def t_suff(rec, libs, chain, ix, var):
    """the program accepts a well-formed request sent with the access modes the client sets, however it is built"""
    vecs = {}
    for mode in MODES:
        flags = t_ix(harn.Rec(), libs, ix, mode, var)
        if flags is not None:
            vecs.setdefault(tuple(flags[k] for k in range(len(flags))), []).append(mode)
    for vec, modes in vecs.items():
        by = "" if len(vecs) == 1 else " (%s)" % "; ".join(MODES[m] for m in modes)

        def setup(c):
            fv = set()
            for a in c.accts:
                fv |= {a.signer, a.writable}
            c.assume.extend(x for x in P.live_assumptions(c) if isint(x) or not set(T.vars_of(x)) <= fv)
            for k, (r, _) in enumerate(sol.ROLES[ix]):
                c.assume.append(T.eq(c[r].signer, int(k in SIGNERS[ix]), 1))
                c.assume.append(T.eq(c[r].writable, vec[k], 1))

        def ob(v):
            for t, *rest in P.ob_live(v):
                yield (t.replace("a well-formed request", "a well-formed request with the client's access modes" + by), *rest)
        harn.run_chain(chain, rec, ix, None, None if ix != "set" else var, obligations=ob, validate=0, setup=setup,
                       label=" with the client's access modes" + by)


def t_disc(rec, libs):
    def ob(v):
        yield from fault(v)
        if v.kind == "ret":
            for k, ix in enumerate(("stake", "unstake", "withdraw", "initialize", "set")):
                yield "the %s discriminator constant" % ix, T.eq(v.out(160 + k, 1), sol.TAG[ix], 8)
    C.check(rec, libs, "constants", [], 0, "constants", ob)


def c16(libs, tier):
    chain = harn.Chain()
    t = []
    for ix in sol.ROLES:
        for var in ((0, 1) if ix == "set" else (0,)):
            t.append((t_suff, (libs, chain, ix, var), {}))
    for ix in sol.ROLES:
        for var in ((0, 1) if ix == "set" else (0,)):
            t += [(t_ix, (libs, ix, mode, var), {}) for mode in MODES]
    t.append((t_disc, (libs,), {}))
    return t, {"instructions": list(sol.ROLES), "construction": list(MODES.values()),
               "inputs": "every argument, address and flag; two remaining accounts"}, list(sol.ROLES)


# ---------------------------------------------------------------- C17 addresses
def t_pda(rec, libs, which):
    name = ("state", "vault", "withdrawal record")[which]
    (a, ac), (b, bc), (c, cc) = sym("key1", 32), sym("key2", 32), sym("key3", 32)
    cells = ac + bc + cc
    if which == 0:
        spec = (svm.K_STATE, sol.STATE_BUMP)
    elif which == 1:
        spec = svm.fpa_parts([(a, 32), (b, 32), (c, 32)], svm.K_ATA)
    else:
        spec = svm.pending_addr(a, T.extract(b, 7, 0))

    def ob(v):
        yield from fault(v)
        if v.kind == "ret":
            if v.ret != 0:
                yield "the %s address is found" % name, 0
                return
            yield "the %s address is derived from its seeds" % name, T.eq(v.out(0, 32), spec[0], 256)
            yield "the bump of the %s address" % name, T.eq(v.out(32, 1), spec[1], 8)
    C.check(rec, libs, "pda", cells, which, name, ob, witness=lambda v: v.ret == 0)
    C.check(rec, libs, "pda_prog", cells, which, name + " (program)", ob, lib=libs.oracle, witness=lambda v: v.ret == 0)


def t_keys(rec, libs):
    idp = C.check(rec, libs, "id_prog", [], 0, "program id (program)", lambda v: fault(v), lib=libs.oracle)[0]

    def ob(v):
        yield from fault(v)
        if v.kind != "ret":
            return
        yield "well-known addresses parse", int(v.ret == 0)
        if v.ret == 0:
            for o, want, what in ((0, idp.out(0, 32), "program id"), (32, idp.out(0, 32), "program id (ID)"), (64, svm.K_ORCA, "ORCA mint"),
                                  (96, svm.K_XORCA, "xORCA mint"), (128, svm.K_TOKEN, "token program")):
                yield "the client's %s is the program's" % what, T.eq(v.out(o, 32), want, 256)
    C.check(rec, libs, "constants", [], 0, "constants", ob, witness=lambda v: v.ret == 0)


def c17(libs, tier):
    return ([(t_pda, (libs, w), {}) for w in range(3)] + [(t_keys, (libs,), {})],
            {"inputs": "every owner, mint, token program and index"}, ["state", "vault", "withdrawal record", "constants"])


# ---------------------------------------------------------------- C18 errors
def t_err(rec, libs):
    (x, xc) = sym("index", 8)
    ref = {}

    def obp(v):
        yield from fault(v)
        if v.kind == "ret" and v.ret == 0:
            i = v.out(0, 8)
            k = v.out(8, 8)
            m = v.out(16, 8)
            if isint(k) and isint(m):
                ref[k] = (i, [c for c in v.outc[24:24 + m]])
            else:
                yield "program error codes are fixed", 0
    for k in range(20):
        C.check(rec, libs, "err_prog", num(k), 0, "program error %d" % k, obp, lib=libs.oracle, validate=0)
    if len(ref) != 20:
        rec.inconclusive.append("program error table: %s" % sorted(ref))
    (code, cc) = sym("code", 4)
    known = T.Or(0, *[T.eq(code, k, 32) for k in ref])

    def ob(v):
        yield from fault(v)
        if v.kind != "ret":
            return
        if v.ret == 1:
            yield "every code of the program is known to the client", T.Not(known)
            return
        yield "only codes of the program are known to the client", known
        yield "an error converts back to its code", T.eq(v.out(8, 8), T.zext(code, 32, 64), 64)
        ln = v.out(16, 8)
        for k, (i, msg) in ref.items():
            same = T.And(T.eq(v.out(0, 8), i, 64), T.eq(ln, len(msg), 64) if not isint(ln) or ln != len(msg) else cells_eq(v.outc[24:24 + len(msg)], msg))
            yield "code %d has the program's name and message" % k, T.Or(T.Not(T.eq(code, k, 32)), same)
    C.check(rec, libs, "err_client", cc + [0] * 4, 0, "client errors", ob, validate=6, witness=lambda v: v.ret == 0)


def c18(libs, tier):
    return [(t_err, (libs,), {})], {"inputs": "all 2^32 error numbers"}, ["client errors"]


# ---------------------------------------------------------------- C19 fetching
MISSING, OK, FAIL = 0, 1, 2


def entry(k, key, exists, data, owner=None):
    key = num(key, 32) if isint(key) else [(key, i) for i in range(32)]
    out = num(exists) if isint(exists) else [(exists, 0)] + [0] * 7
    out += sym("lamports%d" % k, 8)[1] + num(len(data))
    out += (num(owner, 32) if owner is not None else sym("owner%d" % k, 32)[1]) + key
    return out + list(data) + [0] * (2048 - len(data))


def header(n, mx=256):
    return num(n) + sym("staker", 32)[1] + num(mx) + [0] * 16


def t_list(rec, libs, mx, pattern, sparse=None):
    """pattern: per index m missing, s system-owned and empty (pre-funded), r a record, ? a record or missing, f request fails"""
    sparse = {i: p for i, p in sorted((sparse or dict(enumerate(pattern))).items()) if i < 256}
    cells = header(len(sparse), mx)
    staker = T.var("staker", 256)
    conds, recs = [], []
    for i, p in sparse.items():
        key = svm.pending_addr(staker, i)[0]
        data = bytes_of("r%d" % i, 1024) if p in "r?" else []
        ex = {"m": MISSING, "s": OK, "r": OK, "f": FAIL}.get(p)
        if p == "?":
            ex = T.zext(T.var("exists%d" % i, 1), 1, 8)
        if data:
            conds.append(T.eq(data[0][0], 2, 8))
        cells += entry(i, key, ex, data, owner=svm.K_SYSTEM if p == "s" else svm.K_PID if p in "r?" else None)
        if p in "r?":
            recs.append((i, 1 if p == "r" else T.var("exists%d" % i, 1), data))
    top = 15 if mx == 256 else mx
    recs = [r for r in recs if r[0] < top]
    fails = any(p == "f" and i < top for i, p in sparse.items())
    cfg = "pending withdrawals max %s %s" % (mx if mx != 256 else "default", pattern or sparse)

    def ob(v):
        yield from fault(v)
        if v.kind != "ret":
            return
        if v.ret != 0:
            yield ("the withdrawals are listed whatever lamports anyone sent to record addresses" if "s" in sparse.values() else
                   "the withdrawals are listed"), int(fails)
            return
        yield "a failing request is reported", int(not fails)
        m = v.out(1024, 8)
        if not isint(m):
            yield "number of withdrawals", 0
            return
        # which of the records exist on this path must be decided by the path
        g = 0
        for sub in itertools.combinations(recs, m):
            ids = {r[0] for r in sub}
            x = 1
            for i, e, d in recs:
                e = T.eq(e, int(i in ids), 1)
                x = T.And(x, e)
            p = 1032
            for i, e, d in sub:
                if x == 0:
                    break
                x = T.And(x, cells_eq(v.outc[p:p + 56], d[:56]))
                p += 56
            g = T.Or(g, x)
        yield "exactly the existing records are listed, in order of index, with their contents", g
    C.check(rec, libs, "fetch", cells, 2, cfg, ob, conds=conds, witness=lambda v: v.ret == 0, validate=1)


def valid_token(d):
    u = lambda o, n: MC.cells_value(None, None, d[o:o + n])
    opt = lambda o: T.Or(T.eq(u(o, 4), 0, 32), T.eq(u(o, 4), 1, 32))
    return T.And(T.Or(T.eq(u(108, 1), 1, 8), T.eq(u(108, 1), 2, 8)), opt(72), opt(109), opt(129))


def valid_mint(d):
    u = lambda o, n: MC.cells_value(None, None, d[o:o + n])
    opt = lambda o: T.Or(T.eq(u(o, 4), 0, 32), T.eq(u(o, 4), 1, 32))
    return T.And(T.eq(u(45, 1), 1, 8), opt(0), opt(46))


def t_fetch(rec, libs, which, kinds):
    """kinds: for state, vault, mint one of r (exists), m (missing), f (request fails)"""
    ds, dv, dm = bytes_of("state", 2048), bytes_of("vault", 165), bytes_of("mint", 82)
    ks, kv, km = svm.K_STATE, svm.K_VAULT, svm.K_XORCA
    ex = {"r": OK, "m": MISSING, "f": FAIL}
    need = {0: "s", 1: "s", 3: "v", 4: "m", 5: "svm"}[which]
    k = dict(zip("svm", kinds))
    cells = header(3) + entry(0, ks, ex[k["s"]], ds, svm.K_PID) + entry(1, kv, ex[k["v"]], dv, svm.K_TOKEN) + \
        entry(2, km, ex[k["m"]], dm, svm.K_TOKEN)
    there = all(k[x] == "r" for x in need)
    oks = {"s": T.eq(ds[0][0], 1, 8), "v": valid_token(dv), "m": valid_mint(dm)}
    L = sol.LAYOUT
    fld = lambda d, lay, f: d[L[lay][f][0]:sum(L[lay][f])]
    val = lambda d, lay, f: MC.cells_value(None, None, fld(d, lay, f))
    amount, escrow = val(dv, "token", "amount"), val(ds, "state", "escrow")
    name = {0: "state", 1: "cooldown", 3: "vault", 4: "supply", 5: "exchange rate"}[which]
    # the accounts as the program leaves them
    conds = [oks[x] for x in need if k[x] == "r"]
    covered = T.ule(escrow, amount, 64) if which == 5 and there else 1

    def ob(v):
        yield from fault(v)
        if v.kind != "ret":
            return
        if v.ret != 0:
            yield "the %s is fetched when its accounts exist" % name, T.Not(covered) if there else 1
            return
        yield "missing accounts are reported", int(there)
        if not there:
            return
        o = 1024
        if which == 0:
            for f, (p, n) in L["state"].items():
                yield "the %s is the account's (%s)" % (name, f), cells_eq(v.outc[o + p:o + p + n], ds[p:p + n])
        elif which == 1:
            yield "the cooldown is the state's", cells_eq(v.outc[o:o + 8], fld(ds, "state", "cooldown"))
        elif which == 3:
            yield "the vault address", T.eq(v.out(o, 32), kv, 256)
            yield "the vault owner", cells_eq(v.outc[o + 32:o + 64], fld(dv, "token", "owner"))
            yield "the vault mint", cells_eq(v.outc[o + 64:o + 96], fld(dv, "token", "mint"))
            yield "the vault amount", cells_eq(v.outc[o + 96:o + 104], fld(dv, "token", "amount"))
        elif which == 4:
            yield "the supply is the mint's", cells_eq(v.outc[o:o + 8], fld(dm, "mint", "supply"))
        else:
            yield "a rate is given only for a covered escrow", covered
            yield "the numerator is the unescrowed ORCA", T.eq(v.out(o, 8), T.sub(amount, escrow, 64), 64)
            yield "the denominator is the xORCA supply", T.eq(v.out(o + 8, 8), val(dm, "mint", "supply"), 64)
    C.check(rec, libs, "fetch", cells, which, "%s %s" % (name, kinds), ob, conds=conds, witness=lambda v: v.ret == 0, validate=1)


def t_one(rec, libs, which, kind, n):
    """fetch_pending_withdraw / fetch_maybe_pending_withdraw / fetch_maybe_state by address"""
    key = T.var("staker", 256)
    lay = "state" if which == 8 else "pending"
    full = sol.LEN[lay]
    d = bytes_of("acct", n)
    cells = header(1) + entry(0, key, {"r": OK, "m": MISSING, "f": FAIL}[kind], d)
    good = kind == "r" and n >= full
    name = {6: "fetch_pending_withdraw", 7: "fetch_maybe_pending_withdraw", 8: "fetch_maybe_state"}[which]

    def ob(v):
        yield from fault(v)
        if v.kind != "ret":
            return
        if v.ret == 0:
            yield "%s answers only for an existing account" % name, int(good)
            if good:
                o = 1024
                yield "%s returns the address asked for" % name, T.eq(v.out(o, 32), key, 256)
                yield "%s returns the lamports" % name, T.eq(v.out(o + 32, 8), T.var("lamports0", 64), 64)
                yield "%s returns the data" % name, cells_eq(v.outc[o + 40:o + 40 + full], d[:full])
        elif v.ret == 2:
            yield "%s reports a missing account only if it is missing" % name, int(kind == "m" and which != 6)
            yield "%s names the missing address" % name, T.eq(v.out(1024, 32), key, 256)
        else:
            yield "%s fails only on a failed request, a missing account or undecodable data" % name, \
                T.Not(T.ule(d[0][0], 3, 8)) if good else int(kind != "m" or which == 6)
    C.check(rec, libs, "fetch", cells, which, "%s %s %d" % (name, kind, n), ob, witness=lambda v: v.ret in (0, 2), validate=1)


def c19(libs, tier):
    t = []
    n = 3 if tier != "thorough" else 5
    for pat in itertools.product("?s", repeat=n):
        t.append((t_list, (libs, n, "".join(pat)), {}))
    for pat in ("mfm", "rfr", "rrf"):
        t.append((t_list, (libs, 3, pat), {}))
    # records at or beyond the limit are not searched
    for mx, pat in ((0, "rr"), (1, "rr"), (2, "rsrr"), (2, "rmfr")):
        t.append((t_list, (libs, mx, pat), {}))
    for pat in ("r" * 15, "m" * 15, "r" * 17, "m" * 14 + "rr", "rm" * 8, "mrrrmmrrsrmmsrr", "s" * 15, "?m?m?m?m?mmmmmm"):
        t.append((t_list, (libs, 256, pat), {}))
    # more indices than one request may ask for
    for mx in ((100, 101, 255) if tier != "thorough" else (99, 100, 101, 150, 199, 200, 201, 255)):
        t.append((t_list, (libs, mx, "", {0: "?", 99: "r", 100: "s", mx - 1: "r", mx: "r"}), {}))
    for which in (0, 1, 3, 4, 5):
        for kinds in itertools.product("rmf", repeat=3):
            if which != 5 and (kinds.count("r") < 2):
                continue
            t.append((t_fetch, (libs, which, "".join(kinds)), {}))
    for which in (6, 7, 8):
        full = 2048 if which == 8 else 1024
        t += [(t_one, (libs, which, k, m), {}) for k, m in (("r", full), ("m", full), ("f", full), ("r", full - 1), ("r", 0))]
    return t, {"withdrawal lists": "every mix of missing, pre-funded and existing records over the first %d indices, selected "
               "mixes over the default 15 (and beyond the limit) and over up to 255 indices; contents and lamports arbitrary" % n,
               "accounts": "existing with arbitrary contents, missing, or request failing"}, \
        ["pending withdrawals max 3", "pending withdrawals max default", "state rrr", "cooldown rrr", "vault rrr",
         "supply rrr", "exchange rate rrr", "fetch_pending_withdraw r", "fetch_maybe_pending_withdraw r", "fetch_maybe_state r"]


REG = {"C14": runner(c14), "C15": runner(c15), "C16": runner(c16), "C17": runner(c17), "C18": runner(c18), "C19": runner(c19)}
