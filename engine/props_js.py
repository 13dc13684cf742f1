"""Properties of the JS client, decided over the symbolic paths of its (transpiled) source, with the program as oracle."""
import itertools
import re
import time
import client as C
import harn
import jsrun as J
import machine as MC
import prog
import props_chain as P
import props_client as R
import sol
import svm
import term as T
from client import num, sym
from props_client import bytes_of, cells_eq, pc_and
from term import isint

ASSUME = [
    "the TypeScript compiler's type erasure is trusted (types are not judged); symbolic execution of the JS is that of engine/jsx.py, "
    "cross-checked against node on models of the explored paths",
    "@solana/kit and @solana-program/token are not installed here: the codecs, address derivation and account helpers the client uses are "
    "restated in harness/js/kit.js and token.js from their documented behaviour",
    "the RPC is a ledger keyed by address that answers at most 100 addresses per request; SHA-256 is injective",
]


def fault(v):
    if v.kind != "ret":
        yield "the client does not fail outside the harness (%s)" % str(v.what)[:100], 0


def runner(make):
    def run(prop, tier):
        t0 = time.time()
        js = J.JS()
        try:
            tasks, bounds, need = make(js, tier)
            bounds = dict(bounds)
            bounds["configurations"], bounds["build_s"] = len(tasks), round(js.build_s, 1)
            rec = harn.run_tasks(tasks, 820 if tier != "thorough" else 7000)
        finally:
            js.close()
        return harn.conclude(prop, rec, t0, bounds, ASSUME, need_witness=need)
    return run


def u(d, o, n):
    return MC.cells_value(None, None, d[o:o + n])


# ---------------------------------------------------------------- C20 conversions
def t_conv(rec, js, which):
    (a, ac), (n, nc), (s, sc) = sym("amount", 8), sym("pool", 8), sym("supply", 8)
    cells = ac + nc + sc
    name = ("orca to xorca", "xorca to orca")[which]
    ref = C.check(rec, js.libs, "conv_prog", cells, which, name + " (program)", lambda v: R.fault(v), lib=js.oracle)
    zero = T.Or(T.eq(n, 0, 64), T.eq(s, 0, 64))
    z, add = P.z, P.a_
    num_, den = (s, n) if which == 0 else (n, s)
    ms = (z(a), add(z(num_), 100), add(z(den), 100))

    def ob(v):
        yield from fault(v)
        if v.kind != "ret":
            return
        for o in ref:
            if o.kind != "ret" or not (isint(o.ret) and o.ret == 0):
                continue
            if v.ret == 0:
                r = v.out(0, 24)
                yield ("the JS client's result is the program's (%s)" % name,
                       T.Or(T.Not(pc_and(o)), T.eq(r, T.zext(o.out(0, 8), 64, 192), 192)), ms)
            else:
                yield "the JS client converts where the program does (%s)" % name, T.Not(pc_and(o)), ms
        if v.ret == 0:
            yield "a conversion at a zero pool is refused or one to one (%s)" % name, \
                T.Or(T.Not(zero), T.eq(v.out(0, 24), T.zext(a, 64, 192), 192) if which == 0 else 0)
        else:
            yield "only a conversion from xORCA at a zero pool is refused (%s)" % name, zero if which == 1 else 0
    J.check(rec, js, "conv", cells, which, name, ob, validate=3, witness=lambda v: v.ret == 0)


def c20(js, tier):
    return ([(t_conv, (js, w), {}) for w in (0, 1)],
            {"inputs": "all 2^192 amounts, pool sizes and supplies in both directions"}, ["orca to xorca", "xorca to orca"])


# ---------------------------------------------------------------- C22 accounts and events
KINDS = ["state", "pending", "token", "mint"]
TAG = {"state": 1, "pending": 2}


def valid(kind, d):
    """contents the codec accepts"""
    b = lambda o: d[o][0] if not isint(d[o]) else d[o]
    if kind in ("state", "pending"):
        return T.ule(b(0), 3, 8)
    if kind == "token":
        return T.ule(b(108), 2, 8)
    return 1


def t_account(rec, js, fn, k, n):
    kind = KINDS[k]
    full = sol.LEN[kind]
    d = bytes_of("data", n)
    cfg = "%s %s %d bytes" % (fn, kind, n)
    view = d[:full]
    pre = []
    if fn == "accountInfo":
        pre = sym("address", 32)[1] + sym("lamports", 8)[1] + sym("owner", 32)[1]
    if n >= full and kind in ("state", "pending"):
        os_ = C.check(rec, js.libs, kind + "_prog", d[:full], full, cfg + " (program)", lambda v: R.fault(v), conds=[valid(kind, d)],
                      lib=js.oracle, validate=0)
        assert len(os_) == 1
        view = os_[0].outc
    order = sorted(sol.LAYOUT[kind].items(), key=lambda x: x[1])

    def ob(v):
        yield from fault(v)
        if v.kind != "ret":
            return
        if v.ret != 0:
            yield "valid %s data is decoded" % kind, T.Not(valid(kind, d)) if n >= full else 1
            return
        if n < full:
            yield "truncated %s data is rejected" % kind, 0
            return
        p = len(pre)
        if pre:
            yield "address, lamports and owner of the %s account" % kind, cells_eq(v.outc[:p], pre)
        for name, (o, m) in order:
            # a boolean other than 0 and 1 does not occur in a mint
            dom = T.ule(u(d, 45, 1), 1, 8) if (kind, name) == ("mint", "init") else 1
            yield "field %s of %s is the program's" % (name, kind), T.Or(T.Not(dom), cells_eq(v.outc[p + o:p + o + m], view[o:o + m]))
        if pre:
            return
        tag = T.eq(u(d, 0, 1), TAG[kind], 8) if kind in TAG else T.ule(u(d, 45, 1), 1, 8) if kind == "mint" else 1
        ln = v.out(full, 8)
        yield "re-encoding %s data gives its bytes" % kind, T.Or(T.Not(tag), T.And(
            int(isint(ln) and ln == full), cells_eq(v.outc[full + 8:full + 8 + full], d[:full])))
    J.check(rec, js, fn, pre + d, k, cfg, ob, witness=lambda v: v.ret == 0, validate=1)


def t_default(rec, js, k):
    kind = KINDS[k]
    full = sol.LEN[kind]
    d = bytes_of("data", full)

    def ob(v):
        yield from fault(v)
        if v.kind == "ret" and v.ret == 0:
            want = [TAG[kind]] + [0] * 5 + d[6:56] + [0] * (full - 56)
            yield "a %s account encoded from its values alone has its discriminator and zero padding" % kind, cells_eq(v.outc, want)
        elif v.kind == "ret":
            yield "a %s account encodes" % kind, T.Not(valid(kind, d))
    J.check(rec, js, "encodeDefault", d, k, "default " + kind, ob, witness=lambda v: v.ret == 0, validate=1)


def t_identify(rec, js, n):
    d = bytes_of("data", n)

    def ob(v):
        yield from fault(v)
        if v.kind != "ret":
            return
        t = u(d, 0, 1) if n else 0
        if v.ret == 0:
            for o in (0, 1):
                k = v.out(o, 1)
                yield "an account is identified by its discriminator", T.Or(T.And(T.eq(t, 1, 8), T.eq(k, 0, 8)), T.And(T.eq(t, 2, 8), T.eq(k, 1, 8)))
        else:
            yield "State and PendingWithdraw accounts are identified", T.And(T.Not(T.eq(t, 1, 8)), T.Not(T.eq(t, 2, 8)))
    J.check(rec, js, "identify", d, 0, "identify %d bytes" % n, ob, validate=1)


def t_const(rec, js):
    st = C.check(rec, js.libs, "state_prog", [1] + [0] * 2047, 0, "program constants", lambda v: [], lib=js.oracle)[0]
    pd = C.check(rec, js.libs, "pending_prog", [2] + [0] * 1023, 0, "program constants", lambda v: [], lib=js.oracle)[0]
    idp = C.check(rec, js.libs, "id_prog", [], 0, "program id (program)", lambda v: [], lib=js.oracle)[0]

    def ob(v):
        yield from fault(v)
        if v.kind != "ret":
            return
        yield "the constants are exported", int(v.ret == 0)
        if v.ret:
            return
        for o, a, what in ((0, st.out(2048, 8), "State size"), (8, pd.out(1024, 8), "PendingWithdraw size"),
                           (16, st.out(2056, 8), "State discriminator"), (24, pd.out(1032, 8), "PendingWithdraw discriminator")):
            yield "%s agrees with the program" % what, T.eq(v.out(o, 8), a, 64)
        yield "discriminator bytes of the accounts", cells_eq(v.outc[32:34], [1, 2])
        for i, ix in enumerate(("stake", "unstake", "withdraw", "initialize", "set")):
            yield "%s discriminator" % ix, T.eq(v.out(34 + 8 * i, 8), sol.TAG[ix], 64)
            yield "%s discriminator bytes" % ix, T.eq(v.out(74 + i, 1), sol.TAG[ix], 8)
        yield "the client's program id is the program's", T.eq(v.out(79, 32), idp.out(0, 32), 256)
    J.check(rec, js, "constants", [], 0, "constants", ob)


def t_event(rec, js, which, codec):
    name, fields = R.EV[which]
    inp = []
    for k in range(6):
        inp += sym("f%d" % k, 8)[1]
    inp += sym("index", 1)[1] + [0] * 7 + sym("key1", 32)[1] + sym("key2", 32)[1]
    em = C.check(rec, js.libs, "event_emit", inp, which, "emit " + name, lambda v: R.fault(v), lib=js.oracle, validate=0)
    for e in em:
        if e.kind != "ret" or e.ret != 0:
            rec.inconclusive.append("the program does not emit " + name)
            continue
        data = R.ev_cells([t for t in e.trace if t[0] == "event"][0])

        def ob(v):
            yield from fault(v)
            if v.kind != "ret":
                return
            if v.ret != 0:
                yield "the client decodes the program's %s event" % name, 0
                return
            yield "the client recognises the %s event" % name, T.eq(v.out(0, 8), which, 64)
            p = 8
            for k, (o, n) in enumerate(fields):
                yield "field %d of the %s event" % (k, name), cells_eq(v.outc[p:p + n], inp[o:o + n])
                p += n
            ln = v.out(p, 8)
            yield "re-encoding the %s event" % name, T.And(int(isint(ln) and ln == len(data)), cells_eq(v.outc[p + 8:p + 8 + len(data)], data))
        J.check(rec, js, "event", data, codec, "decode %s%s" % (name, " by codec" if codec else ""), ob, witness=lambda v: v.ret == 0, validate=1)


def t_evbytes(rec, js, n):
    d = bytes_of("log", n)
    size = {0: 41, 1: 50, 2: 26, 3: 65}

    def ob(v):
        yield from fault(v)
        if v.kind != "ret":
            return
        if v.ret == 0:
            k = v.out(0, 8)
            if not isint(k) or k not in size:
                yield "the variant of a decoded event", 0
                return
            if size[k] > n:
                yield "an event is decoded from a complete encoding", 0
                return
            p = 8 + size[k] - 1
            m = v.out(p, 8)
            yield "a decoded event re-encodes to its bytes", T.And(int(isint(m) and m == size[k]), cells_eq(v.outc[p + 8:p + 8 + size[k]], d[:size[k]]))
        else:
            yield "complete events are decoded", T.And(1, *[T.Not(T.eq(d[0][0], t, 8)) for t, k in size.items() if k == n])
    J.check(rec, js, "event", d, 0, "decode %d arbitrary bytes" % n, ob, validate=1)


def c22(js, tier):
    t = []
    for k, kind in enumerate(KINDS):
        full = sol.LEN[kind]
        short = [0, 1, 6, 7, 8, 15, 16, 39, 40, 48, 55, 56, full - 1]
        if tier == "thorough":
            short = list(range(0, min(full, 200))) + [full - 1]
        for fn in ("account", "accountCodec") + (("accountInfo",) if k < 2 else ()):
            t += [(t_account, (js, fn, k, n), {}) for n in [full] + (sorted({x for x in short if x < full}) if fn == "account" else [full - 1]) + [full + 5] * (k < 2)]
        if k < 2:
            t.append((t_default, (js, k), {}))
    t += [(t_identify, (js, n), {}) for n in (0, 1, 2, 1024, 2048)]
    t.append((t_const, (js,), {}))
    t += [(t_event, (js, w, c), {}) for w in range(4) for c in (0, 1)]
    t += [(t_evbytes, (js, n), {}) for n in range(0, 72 if tier != "thorough" else 140)]
    return t, {"accounts": "every content of State (2048), PendingWithdraw (1024), token account (165) and mint (82) bytes, truncations and excess bytes",
               "events": "every value of every field; every byte string of up to %d bytes" % (71 if tier != "thorough" else 139)}, \
        ["account state 2048", "account pending 1024", "account token 165", "account mint 82", "accountInfo state", "default state",
         "default pending", "constants"] + ["decode " + e for e, _ in R.EV]


# ---------------------------------------------------------------- C25 instructions
NAMES = ("stake", "unstake", "withdraw", "initialize", "set")
READ = {0: "", 1: " (program given)"}


def ix_cells(ix, var, numbers=False):
    """-> (argument cells, what the program must parse, conditions)"""
    conds, args = [], []
    if ix == "set":
        args = [0] * 8 + (sym("value", 8)[1] if var == 0 else sym("value", 32)[1])
        want = num(4) + num(var) + args[8:]
        nums = [("value", True)] if var == 0 else []
    else:
        want, nums = num(sol.TAG[ix]), []
        for k, w in enumerate(R.IXARGS[ix]):
            c = sym("arg%d" % k, w)[1]
            args += c + [0] * (8 - w)
            want += c
            if w == 8:
                nums.append(("arg%d" % k, ix == "initialize"))
    if numbers:
        # JS numbers are exact up to 2^53 - 1
        for nm, signed in nums:
            x = T.var(nm, 64)
            conds.append(T.ult(T.add(x, (1 << 53) - 1, 64) if signed else x, (1 << 54) - 1 if signed else 1 << 53, 64))
    return args + [0] * (48 - len(args)), want, conds


def ix_param(ix, var, given=0, kind=0, numbers=0):
    return NAMES.index(ix) + 8 * var + 16 * given + 32 * kind + 128 * numbers


def t_ix(rec, js, ix, var, given, kind, numbers):
    n = len(sol.ROLES[ix])
    args, want, conds = ix_cells(ix, var, numbers)
    keys = [sym("key%d" % k, 32)[1] for k in range(n)]
    cells = args + sym("program", 32)[1] + [c for k in keys for c in k]
    cfg = "%s%s%s%s%s" % (ix, "" if ix != "set" else "/%d" % var, READ[given], ("", " signer 1", " signer 2")[kind], " numbers" if numbers else "")
    roles = {}

    def ob(v):
        yield from fault(v)
        if v.kind != "ret":
            return
        yield "building the instruction succeeds", int(v.ret == 0)
        if v.ret != 0:
            return
        yield "the instruction addresses the program", cells_eq(v.outc[:32], args_prog) if given else T.eq(v.out(0, 32), svm.K_PID, 256)
        yield "%d accounts are listed" % n, T.eq(v.out(32, 8), n, 64)
        if v.out(32, 8) != n:
            return
        for k in range(n):
            o = 40 + 34 * k
            yield "account %d is the %s given" % (k, sol.ROLES[ix][k][0]), cells_eq(v.outc[o:o + 32], keys[k])
            r = v.out(o + 32, 1)
            if not isint(r):
                yield "account %d has a fixed role" % k, 0
                continue
            roles[k] = r
            yield "exactly the authorising accounts sign (account %d)" % k, int((r >> 1) == int(k in R.SIGNERS[ix]))
            yield "account %d carries its signer" % k, T.eq(v.out(o + 33, 1), 1, 8)
        p = 40 + 34 * n
        ln = v.out(p, 8)
        if not isint(ln):
            yield "length of the instruction data", 0
            return
        data = v.outc[p + 8:p + 8 + ln]
        for q in C.check(rec, js.libs, "ix_parse", data, ln, cfg + " (program's parser)", lambda v: R.fault(v), conds=v.pc, lib=js.oracle, validate=0):
            if q.kind == "ret":
                ok = isint(q.ret) and q.ret == 0 and all(c is not None for c in q.outc[:len(want)])
                yield ("the program parses the arguments the caller gave",
                       T.Or(T.Not(pc_and(q)), cells_eq(q.outc[:len(want)], want) if ok else 0))
    args_prog = cells[48:80]
    J.check(rec, js, "ix", cells, ix_param(ix, var, given, kind, numbers), cfg, ob, conds=conds, witness=lambda v: v.ret == 0, validate=1)
    return roles if len(roles) == n else None


def t_suff(rec, js, chain, ix, var):
    vecs = {}
    for given in (0, 1):
        r = t_ix(harn.Rec(), js, ix, var, given, 0, 0)
        if r is not None:
            vecs[tuple(r[k] & 1 for k in range(len(r)))] = 1
    for vec in vecs:
        def setup(c):
            c.assume.extend(P.live_assumptions(c))
            for k, (r, _) in enumerate(sol.ROLES[ix]):
                c.assume.append(T.eq(c[r].signer, int(k in R.SIGNERS[ix]), 1))
                c.assume.append(T.eq(c[r].writable, vec[k], 1))

        def ob(v):
            for t, *rest in P.ob_live(v):
                yield (t.replace("a well-formed request", "a well-formed request with the JS client's access modes"), *rest)
        harn.run_chain(chain, rec, ix, None, None if ix != "set" else var, obligations=ob, validate=0, setup=setup,
                       label=" with the JS client's access modes")


def t_ixparse(rec, js, ix, var, given):
    n = len(sol.ROLES[ix])
    args, want, conds = ix_cells(ix, var)
    keys = [sym("key%d" % k, 32)[1] for k in range(n)]
    cells = args + sym("program", 32)[1] + [c for k in keys for c in k]
    cfg = "parse %s%s%s" % (ix, "" if ix != "set" else "/%d" % var, READ[given])
    got = []
    J.explore(js, "ix", cells, ix_param(ix, var, given), conds, harn.Rec(), lambda v: got.append(v))
    built = got[0] if len(got) == 1 and got[0].kind == "ret" and got[0].ret == 0 else None
    back = []
    if ix == "set":
        back = [4] + num(var) + args[8:8 + (8 if var == 0 else 32)]
    else:
        back = [sol.TAG[ix]]
        for k, w in enumerate(R.IXARGS[ix]):
            back += args[8 * k:8 * k + 8]

    def ob(v):
        yield from fault(v)
        if v.kind != "ret":
            return
        yield "the client parses the instructions it builds", int(v.ret == 0)
        if v.ret != 0:
            return
        yield "the parsed program is the instruction's", cells_eq(v.outc[:32], cells[48:80]) if given else T.eq(v.out(0, 32), svm.K_PID, 256)
        yield "%d accounts are parsed" % n, T.eq(v.out(32, 8), n, 64)
        for k in range(n):
            o = 40 + 33 * k
            yield "the parsed %s is the one given" % sol.ROLES[ix][k][0], cells_eq(v.outc[o:o + 32], keys[k])
            if built:
                yield "the parsed %s has the role built" % sol.ROLES[ix][k][0], T.eq(v.out(o + 32, 1), built.out(40 + 34 * k + 32, 1), 8)
        p = 40 + 33 * n
        yield "the parsed arguments are those given", cells_eq(v.outc[p:p + len(back)], back)
        p += len(back)
        yield "the instruction is identified", T.And(T.eq(v.out(p, 1), sol.TAG[ix], 8), T.eq(v.out(p + 1, 1), sol.TAG[ix], 8))
    J.check(rec, js, "ixParse", cells, ix_param(ix, var, given), cfg, ob, conds=conds, witness=lambda v: v.ret == 0, validate=1)


def t_ixshort(rec, js, ix, m):
    n = len(sol.ROLES[ix])
    args, want, conds = ix_cells(ix, 0)
    cells = args + sym("program", 32)[1] + [c for k in range(n) for c in sym("key%d" % k, 32)[1]]

    def ob(v):
        yield from fault(v)
        if v.kind == "ret":
            yield "an instruction with %d of %d accounts is %s by the parser" % (m, n, "taken" if m >= n else "refused"), int((v.ret == 0) == (m >= n))
    J.check(rec, js, "ixShort", cells, ix_param(ix, 0) + 256 * m, "parse %s with %d accounts" % (ix, m), ob, validate=1)


def t_ixidentify(rec, js, n):
    d = bytes_of("data", n)

    def ob(v):
        yield from fault(v)
        if v.kind != "ret":
            return
        t = u(d, 0, 1) if n else 255
        if v.ret == 0:
            yield "an instruction is identified by its discriminator", T.And(T.eq(v.out(0, 1), t, 8), T.ule(t, 4, 8))
        else:
            yield "the program's instructions are identified", T.Not(T.ule(t, 4, 8))
    J.check(rec, js, "ixIdentify", d, 0, "identify %d bytes" % n, ob, validate=1)


def c25(js, tier):
    chain = harn.Chain()
    t = []
    vs = lambda ix: (0, 1) if ix == "set" else (0,)
    for ix in NAMES:
        t += [(t_suff, (js, chain, ix, v), {}) for v in vs(ix)]
    for ix in NAMES:
        for v in vs(ix):
            t += [(t_ix, (js, ix, v, g, k, nb), {}) for g in (0, 1) for k in (0, 1, 2) for nb in (0, 1) if (k == 0 or g == 0) and not (nb and ix == "withdraw")]
            t += [(t_ixparse, (js, ix, v, g), {}) for g in (0, 1)]
        n = len(sol.ROLES[ix])
        t += [(t_ixshort, (js, ix, m), {}) for m in range(n + 1)]
    t += [(t_ixidentify, (js, n), {}) for n in (0, 1, 2, 9, 41)]
    return t, {"instructions": list(NAMES), "construction": "default or given program address; three kinds of signer; amounts as bigint or number",
               "inputs": "every argument and address"}, list(NAMES) + ["parse " + x for x in NAMES]


# ---------------------------------------------------------------- C26 addresses and errors
def t_pda(rec, js, which):
    name = ("state", "vault", "withdrawal record")[which]
    (a, ac), (b, bc), (c, cc) = sym("key1", 32), sym("key2", 32), sym("key3", 32)
    cells = ac + bc + cc
    ref = C.check(rec, js.libs, "pda_prog", cells, which, name + " (program)", lambda v: R.fault(v), lib=js.oracle, validate=1)

    def ob(v):
        yield from fault(v)
        if v.kind != "ret":
            return
        if v.ret != 0:
            yield "the %s address is found" % name, 0
            return
        for o in ref:
            if o.kind == "ret":
                g = T.Not(pc_and(o))
                yield "the %s address is the program's" % name, T.Or(g, T.eq(v.out(0, 32), o.out(0, 32), 256))
                yield "the bump of the %s address is the program's" % name, T.Or(g, T.eq(v.out(32, 1), o.out(32, 1), 8))
    J.check(rec, js, "pda", cells, which, name, ob, witness=lambda v: v.ret == 0)


def screaming(n):
    return re.sub(r"(?<!^)([A-Z])", r"_\1", n).upper()


def variants():
    src = open(prog.VERIF + "/harness/oracle/src/lib.rs").read()
    body = src[src.index("errors!(\n"):]
    return [x.strip() for x in body[body.index("(") + 1:body.index(")")].split(",") if x.strip()]


def program_errors(rec, js):
    """name -> (code, message)"""
    ref = {}
    names = variants()
    for k in range(len(names)):
        for v in C.check(rec, js.libs, "err_prog", num(k), 0, "program error %d" % k, lambda v: R.fault(v), lib=js.oracle, validate=0):
            if v.kind == "ret" and v.ret == 0 and isint(v.out(8, 8)) and isint(v.out(16, 8)):
                ref[screaming(names[k])] = (v.out(8, 8), bytes(v.outc[24:24 + v.out(16, 8)]))
    if len(ref) != len(names):
        rec.inconclusive.append("program error table: %s" % sorted(ref))
    return ref


def t_errors(rec, js):
    ref = program_errors(rec, js)

    def ob(v):
        yield from fault(v)
        if v.kind != "ret":
            return
        yield "the error codes are exported", int(v.ret == 0)
        if v.ret:
            return
        b = bytes(v.outc)
        n, p, got = int.from_bytes(b[:8], "little"), 8, {}
        for _ in range(n):
            m = int.from_bytes(b[p:p + 8], "little")
            got[b[p + 8:p + 8 + m].decode()] = int.from_bytes(b[p + 8 + m:p + 16 + m], "little")
            p += 16 + m
        for name, (code, _) in ref.items():
            yield "the client's code of %s is the program's" % name, int(got.get(name) == code)
        yield "the client exports no other code", int(set(got) == set(ref))
    J.check(rec, js, "errorNames", [], 0, "error names", ob)
    (code, cc) = sym("code", 4)
    known = T.Or(0, *[T.eq(code, k, 32) for k, _ in ref.values()])

    def ob2(v):
        yield from fault(v)
        if v.kind != "ret":
            return
        yield "asking for a message does not throw", int(v.ret == 0)
        if v.ret:
            return
        if v.out(0, 1) == 0:
            yield "every code of the program has a message", T.Not(known)
            return
        msg = v.outc[9:9 + v.out(1, 8)]
        yield "only codes of the program have messages", known
        for name, (k, want) in ref.items():
            yield "the message of %s is the program's" % name, T.Or(T.Not(T.eq(code, k, 32)), cells_eq(msg, list(want)))
    J.check(rec, js, "errorMessage", cc, 0, "error messages", ob2, validate=4, witness=lambda v: v.ret == 0)


def t_iserr(rec, js, kind, with_code):
    (code, cc), (idx, ic), (want, wc) = sym("code", 4), sym("index", 1), sym("want", 4)
    (p0, c0), (p1, c1) = sym("prog0", 32), sym("prog1", 32)
    cells = cc + ic + [0] * 3 + wc + [0] * 4 + c0 + c1

    def ob(v):
        yield from fault(v)
        if v.kind != "ret":
            return
        yield "isXorcaStakingProgramError does not throw", int(v.ret == 0)
        if v.ret:
            return
        one = T.eq(T.extract(idx, 0, 0), 1, 1)
        mine = T.Or(T.And(one, T.eq(p1, svm.K_PID, 256)), T.And(T.Not(one), T.eq(p0, svm.K_PID, 256)))
        exp = T.And(int(kind == 0), mine, T.eq(code, want, 32) if with_code else 1)
        r = T.eq(v.out(0, 1), 1, 8)
        yield "exactly the program's custom errors%s are recognised" % (" of the given code" if with_code else ""), T.Or(T.And(r, exp), T.And(T.Not(r), T.Not(exp)))
    J.check(rec, js, "isError", cells, kind + 4 * with_code, "isError %d%s" % (kind, " code" if with_code else ""), ob, validate=2)


def c26(js, tier):
    return ([(t_pda, (js, w), {}) for w in range(3)] + [(t_errors, (js,), {})] +
            [(t_iserr, (js, k, c), {}) for k in range(4) for c in (0, 1)],
            {"inputs": "every owner, mint, token program and index 0..255; every 32-bit error number"},
            ["state", "vault", "withdrawal record", "error names", "error messages"])


# ---------------------------------------------------------------- C27 fetching
MISSING, OK, FAIL = 0, 1, 2


def entry(k, key, status, data, owner=None):
    key = num(key, 32) if isint(key) else [(key, i) for i in range(32)]
    return (key + num(status, 1) + num(len(data), 2) + (num(owner, 32) if owner is not None else sym("owner%d" % k, 32)[1])
            + sym("lamports%d" % k, 8)[1] + list(data))


def header(entries, first=None):
    return sym("staker", 32)[1] + num(len(entries), 1) + [c for e in entries for c in e]


def t_list(rec, js, mx, pattern=None, sparse=None):
    """per index: m missing, s system-owned and empty (pre-funded), r a record, f request fails"""
    sparse = {i: p for i, p in sorted((sparse or dict(enumerate(pattern))).items()) if i < 256}
    staker = T.var("staker", 256)
    top = 15 if mx is None else mx
    es, conds, recs = [], [], []
    for i, p in sparse.items():
        data = bytes_of("r%d" % i, 1024) if p == "r" else []
        if data:
            conds.append(T.eq(data[0][0], 2, 8))
            if i < top:
                recs.append(data)
        es.append(entry(i, svm.pending_addr(staker, i)[0], {"m": MISSING, "f": FAIL}.get(p, OK), data, svm.K_SYSTEM if p == "s" else svm.K_PID))
    fails = any(p == "f" and i < top for i, p in sparse.items())
    cfg = "pending withdrawals max %s %s" % ("default" if mx is None else mx, pattern or sparse)

    def ob(v):
        yield from fault(v)
        if v.kind != "ret":
            return
        if v.ret != 0:
            yield "the withdrawals are listed", int(fails)
            return
        yield "a failing request is reported", int(not fails)
        yield "exactly the existing records are listed", T.eq(v.out(0, 8), len(recs), 64)
        if v.out(0, 8) == len(recs):
            yield "the records are listed in order of index, with their contents", cells_eq(v.outc[8:], [c for d in recs for c in d])
    J.check(rec, js, "fetched", header(es), 2 + 16 * (0 if mx is None else mx + 1), cfg, ob, conds=conds, witness=lambda v: v.ret == 0, validate=1)


def t_limit(rec, js, k):
    values = [-1, 256, 0.5, 1.5, 300, -0.5, 254.999, 0, 1, 255]
    good = values[k] in (0, 1, 255)

    def ob(v):
        yield from fault(v)
        if v.kind == "ret":
            yield "a search of %s withdrawals is %s" % (values[k], "answered" if good else "refused"), int((v.ret == 0) == good)
    J.check(rec, js, "searchLimit", sym("staker", 32)[1], k, "limit %s" % values[k], ob, validate=1)


def t_fetch(rec, js, which, kinds):
    ds, dv, dm = bytes_of("state", 2048), bytes_of("vault", 165), bytes_of("mint", 82)
    stt = {"r": OK, "m": MISSING, "f": FAIL}
    need = {0: "s", 1: "s", 3: "v", 4: "m", 5: "svm"}[which]
    k = dict(zip("svm", kinds))
    cells = header([entry(0, svm.K_STATE, stt[k["s"]], ds, svm.K_PID), entry(1, svm.K_VAULT, stt[k["v"]], dv, svm.K_TOKEN),
                    entry(2, svm.K_XORCA, stt[k["m"]], dm, svm.K_TOKEN)])
    there = all(k[x] == "r" for x in need)
    oks = {"s": T.eq(ds[0][0], 1, 8), "v": R.valid_token(dv), "m": R.valid_mint(dm)}
    L = sol.LAYOUT
    fld = lambda d, lay, f: d[L[lay][f][0]:sum(L[lay][f])]
    val = lambda d, lay, f: MC.cells_value(None, None, fld(d, lay, f))
    amount, escrow = val(dv, "token", "amount"), val(ds, "state", "escrow")
    name = {0: "state", 1: "cooldown", 3: "vault", 4: "supply", 5: "exchange rate"}[which]
    conds = [oks[x] for x in need if k[x] == "r"]
    # a pool the program keeps covers its escrow (C06)
    covered = T.ule(escrow, amount, 64) if which == 5 and there else 1

    def ob(v):
        yield from fault(v)
        if v.kind != "ret":
            return
        if v.ret != 0:
            yield "the %s is fetched when its accounts exist" % name, T.Not(covered) if there else 1
            return
        yield "missing accounts are reported", int(there)
        if not there:
            return
        if which == 0:
            yield "the state is the account's", cells_eq(v.outc, ds)
        elif which == 1:
            yield "the cooldown is the state's", cells_eq(v.outc, fld(ds, "state", "cooldown"))
        elif which == 3:
            yield "the vault address", T.eq(v.out(0, 32), svm.K_VAULT, 256)
            yield "the vault owner", cells_eq(v.outc[32:64], fld(dv, "token", "owner"))
            yield "the vault mint", cells_eq(v.outc[64:96], fld(dv, "token", "mint"))
            yield "the vault amount", cells_eq(v.outc[96:], fld(dv, "token", "amount"))
        elif which == 4:
            yield "the supply is the mint's", cells_eq(v.outc, fld(dm, "mint", "supply"))
        else:
            yield "the numerator is the unescrowed ORCA", T.Or(T.Not(covered), T.eq(v.out(0, 8), T.sub(amount, escrow, 64), 64))
            yield "the denominator is the xORCA supply", T.eq(v.out(8, 8), val(dm, "mint", "supply"), 64)
    J.check(rec, js, "fetched", cells, which, "%s %s" % (name, kinds), ob, conds=conds, witness=lambda v: v.ret == 0, validate=1)


def t_one(rec, js, which, kind, n):
    k = which & 1
    lay = ("state", "pending")[k]
    full = sol.LEN[lay]
    d = bytes_of("acct", n)
    cells = header([entry(0, T.var("staker", 256), {"r": OK, "m": MISSING, "f": FAIL}[kind], d)])
    name = ("fetchState", "fetchPendingWithdraw", "fetchMaybeState", "fetchMaybePendingWithdraw")[which - 6]
    maybe = which >= 8
    staker = sym("staker", 32)[1]

    def ob(v):
        yield from fault(v)
        if v.kind != "ret":
            return
        if v.ret != 0:
            yield "%s answers for an existing account" % name, (T.Not(T.ule(d[0][0], 3, 8)) if n >= full else 1) if kind == "r" else int(kind == "f" or not maybe)
            return
        if kind == "m" and maybe:
            yield "%s reports a missing account" % name, cells_eq(v.outc, num(0) + staker)
            return
        yield "%s answers only for an existing account" % name, int(kind == "r" and n >= full)
        if kind != "r" or n < full:
            return
        o = 0
        if maybe:
            yield "%s reports an existing account" % name, T.eq(v.out(0, 8), 1, 64)
            o = 8
        yield "%s returns the address, lamports and owner" % name, cells_eq(v.outc[o:o + 72], staker + sym("lamports0", 8)[1] + sym("owner0", 32)[1])
        yield "%s returns the data" % name, cells_eq(v.outc[o + 72:], d[:full])
    J.check(rec, js, "fetched", cells, which, "%s %s %d" % (name, kind, n), ob, witness=lambda v: v.ret == 0, validate=1)


def t_all(rec, js, which, kinds):
    """two accounts at once"""
    k = which & 1
    lay = ("state", "pending")[k]
    full = sol.LEN[lay]
    data = [bytes_of("acct%d" % i, full) for i in (0, 1)]
    keys = [T.var("staker", 256), T.var("other", 256)]
    stt = {"r": OK, "m": MISSING, "f": FAIL}
    cells = header([entry(1, keys[1], stt[kinds[1]], data[1]), entry(0, keys[0], stt[kinds[0]], data[0])])
    conds = [T.Not(T.eq(keys[0], keys[1], 256))] + [T.ule(d[0][0], 3, 8) for d, x in zip(data, kinds) if x == "r"]
    name = ("fetchAllMaybeState", "fetchAllMaybePendingWithdraw", "fetchAllState", "fetchAllPendingWithdraw")[which - 10]
    maybe = which < 12

    def ob(v):
        yield from fault(v)
        if v.kind != "ret":
            return
        want = 0 if maybe and "f" not in kinds or kinds == "rr" else 1
        yield "%s %s" % (name, "answers" if want == 0 else "reports a missing account or failed request"), int((v.ret == 0) == (want == 0))
        if v.ret != 0 or want:
            return
        exp = []
        for i in (0, 1):
            exp += (num(int(kinds[i] == "r")) if maybe else []) + [(keys[i], j) for j in range(32)] + (data[i] if kinds[i] == "r" else [])
        yield "%s returns the accounts in order" % name, cells_eq(v.outc, exp)
    J.check(rec, js, "fetched", cells, which, "%s %s" % (name, kinds), ob, conds=conds, witness=lambda v: v.ret == 0, validate=1)


def c27(js, tier):
    t = []
    n = 3 if tier != "thorough" else 4
    for pat in itertools.product("mrs", repeat=n):
        t.append((t_list, (js, n, "".join(pat)), {}))
    for mx, pat in ((3, "mfm"), (3, "rfr"), (3, "rrf"), (0, "rr"), (1, "rr"), (2, "rsrr"), (2, "rmfr")):
        t.append((t_list, (js, mx, pat), {}))
    for pat in ("r" * 15, "m" * 15, "r" * 17, "m" * 14 + "rr", "rm" * 8, "mrrrmmrrsrmmsrr", "s" * 15):
        t.append((t_list, (js, None, pat), {}))
    for mx in ((100, 101, 255) if tier != "thorough" else (99, 100, 101, 150, 199, 200, 201, 255)):
        t.append((t_list, (js, mx, "", {0: "r", 1: "m", 99: "r", 100: "s", mx - 1: "r", mx: "r"}), {}))
    t += [(t_limit, (js, k), {}) for k in range(10)]
    for which in (0, 1, 3, 4, 5):
        for kinds in itertools.product("rmf", repeat=3):
            if which != 5 and kinds.count("r") < 2:
                continue
            t.append((t_fetch, (js, which, "".join(kinds)), {}))
    for which in (6, 7, 8, 9):
        full = (2048, 1024)[which & 1]
        t += [(t_one, (js, which, k, m), {}) for k, m in (("r", full), ("m", full), ("f", full), ("r", full - 1), ("r", 0))]
    for which in (10, 11, 12, 13):
        t += [(t_all, (js, which, k), {}) for k in ("rr", "rm", "mr", "mm", "rf")]
    return t, {"withdrawal lists": "every mix of missing, pre-funded and existing records over the first %d indices, selected mixes over the default 15 "
               "(and beyond the limit) and over up to 255 indices; contents and lamports arbitrary" % n,
               "accounts": "existing with arbitrary contents, missing, or request failing"}, \
        ["pending withdrawals max 3", "pending withdrawals max default", "state rrr", "cooldown rrr", "vault rrr", "supply rrr", "exchange rate rrr",
         "fetchState r", "fetchPendingWithdraw r", "fetchMaybeState r", "fetchMaybePendingWithdraw r", "fetchAllMaybeState rr", "fetchAllPendingWithdraw rr"]


REG = {"C20": runner(c20), "C22": runner(c22), "C25": runner(c25), "C26": runner(c26), "C27": runner(c27)}
