"""Obligations of the on-chain properties, over the finished symbolic paths of the real program."""
import itertools
import term as T
from term import isint
import harn
import ll
import machine as MC
import native
import prog
import sol
import svm
from svm import K_SYSTEM, K_TOKEN, K_ATA, K_PID, K_ORCA, K_XORCA, K_DEPLOYER, K_STATE, K_VAULT

INSTRS = [("stake", None), ("unstake", None), ("withdraw", None), ("initialize", None), ("set", 0), ("set", 1)]
W = 256


def z(v, w=64):
    return T.zext(v, w, W)


def a_(*xs):
    r = 0
    for x in xs:
        r = T.add(r, x, W)
    return r


def m_(x, y):
    return T.mul(x, y, W)


def le(x, y):
    return T.ule(x, y, W)


def lt(x, y):
    return T.ult(x, y, W)


def eq64(x, y):
    return T.eq(x, y, 64)


def eqk(x, y):
    return T.eq(x, y, 256)


# ---------------------------------------------------------------- configurations
def alias_configs(instr, tier):
    """account aliasings: all distinct, every single pair; thorough adds every two merges"""
    n = len(sol.ROLES[instr])
    out = [None]
    pairs = list(itertools.combinations(range(n), 2))
    out += [[list(p)] for p in pairs]
    if tier == "thorough":
        out += [[list(t)] for t in itertools.combinations(range(n), 3)]
        out += [[list(p), list(q)] for p, q in itertools.combinations(pairs, 2) if not set(p) & set(q)]
    return out


# ---------------------------------------------------------------- generic pieces
def same_data(v, a):
    return harn.unchanged(a, v.fin[a.i])


def frame(v, allow, lam=(), own=(), length=()):
    """every account is as before except: allow = {role: (layout, {field: value | None})};
    lam/own/length: roles whose lamports/owner/length are judged elsewhere"""
    c = v.c
    for a in c.accts:
        s = v.fin[a.i]
        roles = set(a.roles)
        nm = a.name
        if not roles & set(own):
            yield "owner of %s unchanged" % nm, eqk(s.owner, a.owner)
        if not roles & set(lam):
            yield "lamports of %s unchanged" % nm, eq64(s.lam, a.lam)
        if not roles & set(length):
            yield "data length of %s unchanged" % nm, eq64(s.dlen, a.dlen)
        fields = {}
        layout = None
        whole = False
        for r in a.roles:
            if r in allow:
                if allow[r] is None:
                    whole = True
                    continue
                layout, fs = allow[r]
                fields.update(fs)
        if whole:
            continue
        for f, val in fields.items():
            if val is not None:
                w = 8 * sol.LAYOUT[layout][f][1]
                yield "%s.%s has the specified value" % (nm, f), T.eq(s.f(layout, f), val, w)
        yield "other data of %s unchanged" % nm, harn.unchanged(a, s, layout, tuple(fields))


DELEG = {"delegate_flag": None, "delegate": None, "delegated_amount": None}


def pool(v):
    """(vault, escrow, supply) before and after, as 256-bit values"""
    g = lambda x: (z(x.f("token", "amount")) if x is not None else None)
    pre = (v.pre("vault", "token", "amount"), v.pre("state", "state", "escrow"))
    post = (v.post("vault", "token", "amount"), v.post("state", "state", "escrow"))
    return pre, post


def supply(v):
    if "xorca_mint" not in v.c.role:
        s = T.var("supply", 64)      # not part of the instruction: unchanged
        return s, s
    return v.pre("xorca_mint", "mint", "supply"), v.post("xorca_mint", "mint", "supply")


def canon(v, role, key, layout, field):
    """the field of the pool's real account of that kind, before and after, as cases [(guard, before, after)]: the
    account passed in that role when it is the real one, otherwise a value the instruction does not touch"""
    other = T.var("other.%s.%s" % (layout, field), 64)
    if role not in v.c.role:
        return [(1, other, other)]
    is_it = eqk(v.c[role].key, key)
    here = (is_it, v.pre(role, layout, field), v.post(role, layout, field))
    return [here] if v.entails(is_it) else [here, (T.bnot(is_it), other, other)]


def pool_cases(v):
    """(guard, suffix, vault, escrow, supply, and the three after) of the real pool"""
    vs = canon(v, "vault", K_VAULT, "token", "amount")
    es = canon(v, "state", K_STATE, "state", "escrow")
    ss = canon(v, "xorca_mint", K_XORCA, "mint", "supply")
    for i, (a, b, c) in enumerate(itertools.product(vs, es, ss)):
        g = T.And(a[0], b[0], c[0])
        if isint(g) and not g:
            continue
        yield g, " (other accounts)" if i else "", a[1], b[1], c[1], a[2], b[2], c[2]


def floor_is(what, q, num, den, unless=0):
    """q == floor(num/den), as two obligations"""
    yield what + " (not more)", T.Implies(T.bnot(unless), le(m_(q, den), num)), (den,)
    yield what + " (not less)", T.Implies(T.bnot(unless), lt(num, m_(a_(q, 1), den))), (den,)


def rent(v, space):
    return m_(a_(space + 128), m_(z(v.c.env.rate), 2))


# ---------------------------------------------------------------- C01 price
def ob_price(v):
    if v.o.kind != "ok":
        return
    instr = v.c.instr
    if instr == "initialize":
        return
    if instr == "set":
        yield "Set leaves the escrow total unchanged", eq64(v.post("state", "state", "escrow"),
                                                            v.pre("state", "state", "escrow"))
        return
    for g, suffix, *vals in pool_cases(v):
        V, E, S, V2, E2, S2 = map(z, vals)
        inv = T.And(g, le(E, V), le(S, T.sub(V, E, W)))
        N, N2 = T.sub(V, E, W), T.sub(V2, E2, W)
        ms = (a_(S, 100), a_(N, 100))
        fs = (le(z(v.c.args["amount"]), S),) if "amount" in v.c.args else ()
        yield "the pool stays backed" + suffix, T.Implies(inv, le(E2, V2)), ms, fs
        yield "redemption price never falls" + suffix, T.Implies(
            T.And(inv, lt(0, S), le(E2, V2)), le(m_(a_(N, 100), a_(S2, 100)), m_(a_(N2, 100), a_(S, 100)))), ms, fs


# ---------------------------------------------------------------- C03 stake / C04 unstake / C05 withdraw: exact effects
def ob_stake(v):
    if v.o.kind != "ok":
        return
    x = v.c.args["amount"]
    (V, E), (V2, _) = pool(v)
    S, S2 = supply(v)
    m = T.sub(S2, S, 64)
    N = T.sub(z(V), z(E), W)
    yield from places(v)
    yield "vault backs the escrow", T.ule(E, V, 64)
    yield "vault receives the stake exactly", T.eq(z(V2), a_(z(V), z(x)), W)
    yield "staker ORCA account is debited exactly", T.And(
        T.eq(a_(z(v.post("staker_orca_ata", "token", "amount")), z(x)), z(v.pre("staker_orca_ata", "token", "amount")), W))
    yield "xORCA supply grows", T.ult(S, S2, 64)
    yield "minted xORCA goes to the staker exactly", T.eq(
        z(v.post("staker_xorca_ata", "token", "amount")), a_(z(v.pre("staker_xorca_ata", "token", "amount")), z(m)), W)
    virt = T.Or(T.eq(S, 0, 64), T.eq(V, E, 64))
    yield "first stake mints one to one", T.Implies(virt, eq64(m, x))
    yield from floor_is("minted amount is floor(x*(S+100)/(N+100))", z(m), m_(z(x), a_(z(S), 100)), a_(N, 100), virt)
    yield from frame(v, {"vault": ("token", {"amount": None}),
                         "staker_orca_ata": ("token", dict(DELEG, amount=None)),
                         "staker_xorca_ata": ("token", {"amount": None}),
                         "xorca_mint": ("mint", {"supply": None})})


def ob_unstake(v):
    if v.o.kind != "ok":
        return
    x, idx = v.c.args["amount"], v.c.args["index"]
    (V, E), (V2, E2) = pool(v)
    S, S2 = supply(v)
    w = T.sub(E2, E, 64)
    N = T.sub(z(V), z(E), W)
    now, cd = v.c.env.unix, v.pre("state", "state", "cooldown")
    yield from places(v)
    yield "vault backs the escrow", T.ule(E, V, 64)
    yield "xORCA is burned from the unstaker exactly", T.eq(
        a_(z(v.post("unstaker_xorca_ata", "token", "amount")), z(x)),
        z(v.pre("unstaker_xorca_ata", "token", "amount")), W)
    yield "xORCA supply falls exactly", T.eq(a_(z(S2), z(x)), z(S), W)
    yield "escrow grows by the withdrawable amount", T.ult(E, E2, 64)
    yield from floor_is("withdrawable amount is floor(x*(N+100)/(S+100))", z(w), m_(z(x), a_(N, 100)), a_(z(S), 100))
    ts = T.add(now, cd, 64)
    yield "maturity does not overflow", T.Not(T.saddo(now, cd, 64))
    p = v.snap("pending")
    f = lambda n: p.f("pending", n)
    yield "record belongs to the program", T.And(eqk(p.owner, K_PID), eq64(p.dlen, 1024), T.eq(f("disc"), 2, 8))
    yield "record names the unstaker and index", T.And(eqk(f("unstaker"), v.c["unstaker"].key), T.eq(f("index"), idx, 8))
    yield "record stores the withdrawable amount", eq64(f("amount"), w)
    yield "record matures exactly one cooldown from now", eq64(f("ts"), ts)
    yield "record padding is zero", T.And(T.eq(f("pad1"), 0, 40), T.eq(f("pad2"), 0, 968 * 8))
    yield "record account was unused", T.And(eqk(v.c["pending"].owner, K_SYSTEM), eq64(v.c["pending"].dlen, 0))
    yield from frame(v, {"unstaker_xorca_ata": ("token", dict(DELEG, amount=None)),
                         "xorca_mint": ("mint", {"supply": None}), "state": ("state", {"escrow": None}),
                         "pending": None}, lam=("unstaker", "pending"), own=("pending",), length=("pending",))


def ob_withdraw(v):
    if v.o.kind != "ok":
        return
    (V, E), (V2, E2) = pool(v)
    A = v.pre("pending", "pending", "amount")
    yield from places(v)
    yield "vault pays the recorded amount exactly", T.eq(a_(z(V2), z(A)), z(V), W)
    yield "owner receives the recorded amount exactly", T.eq(
        z(v.post("unstaker_orca_ata", "token", "amount")),
        a_(z(v.pre("unstaker_orca_ata", "token", "amount")), z(A)), W)
    yield "escrow falls by the recorded amount", T.eq(a_(z(E2), z(A)), z(E), W)
    yield "cooldown is over", T.sle(v.pre("pending", "pending", "ts"), v.c.env.unix, 64)
    p, u = v.snap("pending"), v.snap("unstaker")
    yield "record is closed", T.And(eqk(p.owner, K_SYSTEM), eq64(p.dlen, 0), eq64(p.lam, 0))
    yield "record rent returns to the owner", T.eq(z(u.lam), a_(z(v.c["unstaker"].lam), z(v.c["pending"].lam)), W)
    yield from frame(v, {"vault": ("token", dict(DELEG, amount=None)),
                         "unstaker_orca_ata": ("token", {"amount": None}),
                         "state": ("state", {"escrow": None}), "pending": None},
                     lam=("unstaker", "pending"), own=("pending",), length=("pending",))


# ---------------------------------------------------------------- C06 solvency
def liab(own, disc, amount):
    return T.ite(T.And(eqk(own, K_PID), T.eq(disc, 2, 8)), z(amount), 0, W)


def ob_solvency(v):
    if v.o.kind != "ok":
        return
    c = v.c
    st = c.role.get("state")
    pre = post = 0
    for a in c.accts:
        s = v.fin[a.i]
        if s.owner is a.owner and list(s.data[:48]) == list(a.data[:48]):
            continue
        pre = a_(pre, liab(a.owner, a.f("pending", "disc"), a.f("pending", "amount")))
        post = a_(post, liab(s.owner, s.f("pending", "disc"), s.f("pending", "amount")))
    if c.instr == "initialize":
        yield "a new pool owes nothing", T.And(T.eq(v.post("state", "state", "escrow"), 0, 64), T.eq(pre, post, W))
        yield "a new vault belongs to the state", eqk(v.post("vault", "token", "owner"), K_STATE)
        for g, _, S2 in canon(v, "xorca_mint", K_XORCA, "mint", "supply"):
            yield "a new pool's vault covers the xORCA supply", T.Implies(
                g, T.ule(S2, v.post("vault", "token", "amount"), 64))
        return
    E, E2 = v.pre("state", "state", "escrow"), v.post("state", "state", "escrow")
    yield "escrow total tracks the pending records", T.eq(a_(z(E), post), a_(z(E2), pre), W)
    if "vault" not in c.role:
        return
    for g, suffix, V, E, S, V2, E2, S2 in pool_cases(v):
        S, S2 = z(S), z(S2)
        inv = T.And(g, T.ule(E, V, 64), le(S, T.sub(z(V), z(E), W)))
        N, N2 = T.sub(z(V), z(E), W), T.sub(z(V2), z(E2), W)
        ms = (a_(S, 100), a_(N, 100), T.sub(N, S, W))
        fs = (le(z(c.args["amount"]), S),) if "amount" in c.args else ()
        yield "vault keeps covering the escrow" + suffix, T.Implies(inv, T.ule(E2, V2, 64)), ms, fs
        yield "unescrowed ORCA keeps covering the xORCA supply" + suffix, T.Implies(
            T.And(inv, T.ule(E2, V2, 64)), le(S2, N2)), ms, fs


# ---------------------------------------------------------------- C07 authorization
def ob_auth(v):
    """who signed for what left which account"""
    if v.o.kind != "ok":
        return
    c = v.c
    sg = lambda key: T.Or(*[T.And(eqk(key, b.key), T.eq(b.signer, 1, 1)) for b in c.accts])
    user = {"stake": "staker", "unstake": "unstaker", "withdraw": "unstaker", "initialize": "payer",
            "set": "update_authority"}[c.instr]
    yield "the acting user signed", T.eq(c[user].signer, 1, 1)
    for a in c.accts:
        s = v.fin[a.i]
        if s.lam is not a.lam:
            ok = T.eq(a.signer, 1, 1)
            if c.instr == "withdraw" and "pending" in a.roles:
                ok = T.Or(ok, T.And(eqk(a.owner, K_PID), eqk(c["unstaker"].key, a.f("pending", "unstaker"))))
            yield "lamports of %s spent with its signature" % a.name, T.Implies(T.ult(s.lam, a.lam, 64), ok)
        x, y = a.f("token", "amount"), s.f("token", "amount")
        tok = T.And(eqk(a.owner, K_TOKEN), eq64(a.dlen, 165))
        if x is not y:
            ok = sg(a.f("token", "owner"))
            if c.instr == "withdraw":
                ok = T.Or(ok, T.And(eqk(a.key, K_VAULT), sg(c["pending"].f("pending", "unstaker")),
                                    T.Implies(T.ult(y, x, 64),
                                              eqk(c["unstaker_orca_ata"].f("token", "owner"),
                                                  c["pending"].f("pending", "unstaker")))))
            yield "tokens of %s leave with its owner's signature" % a.name, T.Implies(
                T.And(tok, T.ult(y, x, 64)), ok)
        st = T.And(eqk(a.owner, K_PID), T.eq(a.f("state", "disc"), 1, 8))
        cd, au = (a.f("state", n) for n in ("cooldown", "authority"))
        cd2, au2 = (s.f("state", n) for n in ("cooldown", "authority"))
        if cd is not cd2 or au is not au2:
            yield "settings of %s change only with the update authority's signature" % a.name, T.Implies(
                T.And(st, T.Or(T.ne(cd, cd2, 64), T.ne(au, au2, 256))), sg(au))
        if c.instr == "initialize" and "state" in a.roles:
            yield "initialised by the deployer", T.And(eqk(c["payer"].key, K_DEPLOYER), T.eq(c["payer"].signer, 1, 1))
            yield "update authority agreed", sg(au2)
    if c.instr == "stake":
        yield "xORCA is minted to the staker's own account", eqk(c["staker_xorca_ata"].f("token", "owner"), c["staker"].key)
    if c.instr == "withdraw":
        yield "paid to the signer's own account", eqk(c["unstaker_orca_ata"].f("token", "owner"), c["unstaker"].key)
        yield "record belongs to the signer", eqk(c["pending"].f("pending", "unstaker"), c["unstaker"].key)


# ---------------------------------------------------------------- C08 canonical accounts and data invariant
def places(v):
    """the accounts a successful instruction used are the documented ones"""
    c = v.c
    i = c.instr
    if i != "set":
        yield "ORCA mint is the real one", T.And(eqk(c["orca_mint"].key, K_ORCA), eqk(c["orca_mint"].owner, K_TOKEN))
        yield "token program is the real one", eqk(c["token_program"].key, K_TOKEN)
        yield "vault is the state's canonical ORCA account", eqk(c["vault"].key, K_VAULT)
    if i in ("unstake", "withdraw", "initialize"):
        yield "system program is the real one", eqk(c["system_program"].key, K_SYSTEM)
    yield "state is the canonical address", eqk(c["state"].key, K_STATE)
    if i in ("stake", "unstake", "initialize"):
        yield "xORCA mint is the real one", T.And(eqk(c["xorca_mint"].key, K_XORCA), eqk(c["xorca_mint"].owner, K_TOKEN))
    if i == "initialize":
        yield "state account was unused", T.And(eqk(c["state"].owner, K_SYSTEM), eq64(c["state"].dlen, 0))
    else:
        yield "state is the program's State account", T.And(
            eqk(c["state"].owner, K_PID), T.eq(c["state"].f("state", "disc"), 1, 8))
    if i in ("stake", "unstake", "withdraw"):
        a = c["vault"]
        yield "vault is an ORCA token account of the state", T.And(
            eqk(a.owner, K_TOKEN), eqk(a.f("token", "mint"), K_ORCA), eqk(a.f("token", "owner"), K_STATE))
    if i in ("unstake", "withdraw"):
        u = c["unstaker"].key
        idx = c.args["index"]
        yield "record is at the user's canonical address", eqk(c["pending"].key, svm.pending_addr(u, idx)[0])
    if i == "withdraw":
        yield "record is a PendingWithdraw account", T.And(
            eqk(c["pending"].owner, K_PID), T.eq(c["pending"].f("pending", "disc"), 2, 8))
    tok = {"stake": [("staker_orca_ata", "staker", K_ORCA), ("staker_xorca_ata", "staker", K_XORCA)],
           "unstake": [("unstaker_xorca_ata", "unstaker", K_XORCA)],
           "withdraw": [("unstaker_orca_ata", "unstaker", K_ORCA)]}.get(i, [])
    for r, u, mint in tok:
        yield "%s is a token account of the user and mint" % r, T.And(
            eqk(c[r].owner, K_TOKEN), eqk(c[r].f("token", "mint"), mint), eqk(c[r].f("token", "owner"), c[u].key))


def ob_canon(v):
    if v.o.kind != "ok":
        return
    c = v.c
    yield from places(v)
    # data invariant of the program's own accounts afterwards
    for a in c.accts:
        s = v.fin[a.i]
        if s.owner is a.owner and s.dlen is a.dlen and list(s.data[:64]) == list(a.data[:64]):
            continue
        d1, b1, d2, b2 = prog.prog_acct_inv(a.key, s.dlen, s.f)
        own = eqk(s.owner, K_PID)
        d1p, b1p, d2p, b2p = prog.prog_acct_inv(a.key, a.dlen, a.f)
        ownp = eqk(a.owner, K_PID)
        hyp = T.And(T.Implies(T.And(ownp, d1p), b1p), T.Implies(T.And(ownp, d2p), b2p))
        yield "data invariant of %s (State)" % a.name, T.Implies(T.And(hyp, own, d1), b1)
        yield "data invariant of %s (PendingWithdraw)" % a.name, T.Implies(T.And(hyp, own, d2), b2)


# ---------------------------------------------------------------- C09 set, C10 initialize
def ob_set(v):
    if v.o.kind != "ok":
        return
    c = v.c
    yield from places(v)
    yield "the current update authority signed", T.And(
        T.eq(c["update_authority"].signer, 1, 1),
        eqk(c["update_authority"].key, v.pre("state", "state", "authority")))
    if "cooldown" in c.args:
        yield "new cooldown is not negative", T.ult(c.args["cooldown"], 1 << 63, 64)
        f = {"cooldown": c.args["cooldown"]}
    else:
        f = {"authority": c.args["authority"]}
    yield from frame(v, {"state": ("state", f)})


def ob_initialize(v):
    if v.o.kind != "ok":
        return
    c = v.c
    s, t = v.snap("state"), v.snap("vault")
    f = lambda n: s.f("state", n)
    yield "only the deployer", T.And(eqk(c["payer"].key, K_DEPLOYER), T.eq(c["payer"].signer, 1, 1))
    yield "the update authority signed", T.eq(c["update_authority"].signer, 1, 1)
    yield "only once: the state account was unused", T.And(eqk(c["state"].owner, K_SYSTEM), eq64(c["state"].dlen, 0))
    yield "cooldown is not negative", T.ult(c.args["cooldown"], 1 << 63, 64)
    m = lambda n: c["xorca_mint"].f("mint", n)
    yield "xORCA mint is controlled by the state alone", T.And(
        T.eq(m("auth_flag"), 1, 32), eqk(m("authority"), K_STATE), T.eq(m("freeze_flag"), 0, 32))
    yield "xORCA supply is zero", T.eq(m("supply"), 0, 64)
    yield "both mints have 6 decimals", T.And(T.eq(m("decimals"), 6, 8), T.eq(c["orca_mint"].f("mint", "decimals"), 6, 8))
    yield "state account belongs to the program", T.And(eqk(s.owner, K_PID), eq64(s.dlen, 2048))
    yield "state contents", T.And(
        T.eq(f("disc"), 1, 8), T.eq(f("pad1"), 0, 40), T.eq(f("bump"), sol.STATE_BUMP, 8),
        T.eq(f("vault_bump"), sol.VAULT_BUMP, 8), T.eq(f("escrow"), 0, 64), T.eq(f("cooldown"), c.args["cooldown"], 64),
        eqk(f("authority"), c["update_authority"].key), T.eq(f("pad2"), 0, 1992 * 8))
    g = lambda n: t.f("token", n)
    yield "vault is an empty ORCA account of the state", T.And(
        eqk(t.owner, K_TOKEN), eq64(t.dlen, 165), eqk(g("mint"), K_ORCA), eqk(g("owner"), K_STATE),
        T.eq(g("amount"), 0, 64), T.eq(g("state"), 1, 8), T.eq(g("delegate_flag"), 0, 32), T.eq(g("close_flag"), 0, 32))
    yield from frame(v, {"state": None, "vault": None}, lam=("payer", "state", "vault"), own=("state", "vault"),
                     length=("state", "vault"))


# ---------------------------------------------------------------- C11 rent and pre-funding
def ob_rent(v):
    if v.o.kind != "ok":
        return
    c = v.c
    if c.instr == "unstake":
        payer, new = "unstaker", (("pending", 1024),)
    elif c.instr == "initialize":
        payer, new = "payer", (("state", 2048), ("vault", 165))
    else:
        return
    cases = []
    for r, n in new:
        a, s = c[r], v.snap(r)
        need = rent(v, n)
        short = lt(z(a.lam), need)
        cases.append([(short, T.sub(need, z(a.lam), W), need), (T.bnot(short), 0, z(a.lam))])
        yield "%s is rent exempt" % r, le(need, z(s.lam))
        for g, top, after in cases[-1]:
            yield "%s keeps its pre-funding" % r, T.Implies(g, T.eq(z(s.lam), after, W))
    for cs in itertools.product(*cases):
        yield "the payer pays exactly the missing rent", T.Implies(
            T.And(*[x[0] for x in cs]), T.eq(a_(z(v.snap(payer).lam), *[x[1] for x in cs]), z(c[payer].lam), W))
    yield from ((t, g) for t, g in frame(v, {r: None for r in c.role}, lam=(payer,) + tuple(r for r, _ in new),
                                         own=tuple(c.role), length=tuple(c.role)))


# ---------------------------------------------------------------- C13 events
def ob_events(v):
    if v.o.kind != "ok":
        return
    c = v.c
    ev = [t for t in v.o.state.trace if t[0] == "event"]
    want = []
    if c.instr == "stake":
        want = [0, (c.args["amount"], 8), (v.post("vault", "token", "amount"), 8), (v.post("state", "state", "escrow"), 8),
                (v.post("xorca_mint", "mint", "supply"), 8),
                (T.sub(v.post("staker_xorca_ata", "token", "amount"), v.pre("staker_xorca_ata", "token", "amount"), 64), 8)]
    elif c.instr == "unstake":
        want = [1, (c.args["amount"], 8), (v.post("vault", "token", "amount"), 8), (v.post("state", "state", "escrow"), 8),
                (v.post("xorca_mint", "mint", "supply"), 8), (v.post("pending", "pending", "amount"), 8),
                (v.post("state", "state", "cooldown"), 8), (c.args["index"], 1)]
    elif c.instr == "withdraw":
        want = [2, (v.post("state", "state", "escrow"), 8),
                (T.sub(v.post("unstaker_orca_ata", "token", "amount"), v.pre("unstaker_orca_ata", "token", "amount"), 64), 8),
                (v.post("state", "state", "cooldown"), 8), (c.args["index"], 1)]
    elif c.instr == "set" and "authority" in c.args:
        want = [3, (v.post("state", "state", "authority"), 32), (v.pre("state", "state", "authority"), 32)]
    n = 1 if want else 0
    yield "%d event is emitted" % n, int(len(ev) == n and all(len(e[1]) == 1 for e in ev))
    if want and len(ev) == 1 and len(ev[0][1]) == 1:
        got = ev[0][1][0]
        flat = svm.cat([(want[0], 1)] + want[1:])
        size = 1 + sum(k for _, k in want[1:])
        yield "event has the documented size", int(len(got) == size)
        if len(got) == size:
            yield "event reports the resulting state", T.eq(MC.cells_value(None, None, list(got)), flat, 8 * size)


# ---------------------------------------------------------------- C21 records, C22 state lifecycle
def ob_records(v):
    if v.o.kind != "ok":
        return
    c = v.c
    for a in c.accts:
        s = v.fin[a.i]
        if s.owner is a.owner and s.lam is a.lam and s.dlen is a.dlen and list(s.data) == list(a.data) + [0] * (len(s.data) - len(a.data)):
            continue
        rec = T.And(eqk(a.owner, K_PID), T.eq(a.f("pending", "disc"), 2, 8))
        keep = T.And(eqk(s.owner, K_PID), T.ule(a.lam, s.lam, 64), same_data(v, a))
        f = lambda n: a.f("pending", n)
        paid = 0
        if c.instr == "withdraw":
            u = c["unstaker"]
            ata = c["unstaker_orca_ata"]
            d = T.sub(z(v.fin[ata.i].f("token", "amount")), z(ata.f("token", "amount")), W)
            paid = T.And(T.eq(u.signer, 1, 1), eqk(u.key, f("unstaker")), T.sle(f("ts"), c.env.unix, 64),
                         T.eq(d, z(f("amount")), W), eqk(ata.f("token", "owner"), f("unstaker")),
                         T.eq(c.args["index"], f("index"), 8),
                         eqk(s.owner, K_SYSTEM), eq64(s.dlen, 0), eq64(s.lam, 0))
        yield "record %s survives unless its matured owner withdraws it" % a.name, T.Implies(rec, T.Or(keep, paid))
        st = T.And(eqk(a.owner, K_PID), T.eq(a.f("state", "disc"), 1, 8))
        g, h = (lambda n: a.f("state", n)), (lambda n: s.f("state", n))
        good = [eqk(s.owner, K_PID), T.eq(h("disc"), 1, 8), eq64(s.dlen, a.dlen), T.ule(a.lam, s.lam, 64),
                T.eq(h("bump"), g("bump"), 8), T.eq(h("vault_bump"), g("vault_bump"), 8),
                T.eq(h("pad1"), g("pad1"), 40), T.eq(h("pad2"), g("pad2"), 1992 * 8)]
        if c.instr != "set":
            good += [eq64(h("cooldown"), g("cooldown")), eqk(h("authority"), g("authority"))]
        yield "state %s survives with its identity and settings" % a.name, T.Implies(st, T.And(*good))
        born = T.And(T.Not(rec), eqk(s.owner, K_PID), T.eq(s.f("pending", "disc"), 2, 8))
        if c.instr == "unstake":
            ok = T.And(eqk(a.owner, K_SYSTEM), eq64(a.dlen, 0), T.eq(c["unstaker"].signer, 1, 1),
                       eqk(s.f("pending", "unstaker"), c["unstaker"].key))
            if a.i == c["pending"].i:
                N = T.sub(z(v.pre("vault", "token", "amount")), z(v.pre("state", "state", "escrow")), W)
                yield "creating record %s burns xORCA" % a.name, T.ult(
                    v.post("xorca_mint", "mint", "supply"), v.pre("xorca_mint", "mint", "supply"), 64), (a_(N, 100),)
        else:
            ok = 0
        yield "record %s is only created by unstaking" % a.name, T.Implies(born, ok)


# ---------------------------------------------------------------- C23 liveness
def tok_ok(c, role, mint, owner, writable=True):
    a = c[role]
    f = lambda n: a.f("token", n)
    x = [eqk(a.owner, K_TOKEN), eq64(a.dlen, 165), eqk(f("mint"), mint), eqk(f("owner"), owner), T.eq(f("state"), 1, 8),
         T.eq(f("native_flag"), 0, 32), T.eq(f("delegate_flag"), 0, 32), T.ult(f("close_flag"), 2, 32)]
    if writable:
        x.append(T.eq(a.writable, 1, 1))
    return x


def mint_ok(c, role, key, writable=False, state_auth=False):
    a = c[role]
    f = lambda n: a.f("mint", n)
    x = [eqk(a.key, key), eqk(a.owner, K_TOKEN), eq64(a.dlen, 82), T.eq(f("init"), 1, 8), T.ult(f("auth_flag"), 2, 32),
         T.ult(f("freeze_flag"), 2, 32), T.eq(f("decimals"), 6, 8)]
    if state_auth:
        x += [T.eq(f("auth_flag"), 1, 32), eqk(f("authority"), K_STATE), T.eq(f("freeze_flag"), 0, 32),
              T.eq(f("freeze"), 0, 256)]
    if writable:
        x.append(T.eq(a.writable, 1, 1))
    return x


def signer_ok(c, role):
    a = c[role]
    return [T.eq(a.signer, 1, 1), T.eq(a.writable, 1, 1), eqk(a.owner, K_SYSTEM), eq64(a.dlen, 0)]


def state_ok(c, writable):
    a = c["state"]
    f = lambda n: a.f("state", n)
    x = [eqk(a.key, K_STATE), eqk(a.owner, K_PID), eq64(a.dlen, 2048), T.eq(f("disc"), 1, 8),
         T.eq(f("bump"), sol.STATE_BUMP, 8), T.eq(f("vault_bump"), sol.VAULT_BUMP, 8), T.ult(f("cooldown"), 1 << 63, 64)]
    if writable:
        x.append(T.eq(a.writable, 1, 1))
    return x


def live_assumptions(c):
    """a well-formed request in a healthy pool"""
    i = c.instr
    A = []
    V = E = S = None
    if i in ("stake", "unstake", "withdraw"):
        V, E = c["vault"].f("token", "amount"), c["state"].f("state", "escrow")
        A += [eqk(c["vault"].key, K_VAULT)] + tok_ok(c, "vault", K_ORCA, K_STATE, i != "unstake")
        A += mint_ok(c, "orca_mint", K_ORCA)
        A += [eqk(c["token_program"].key, K_TOKEN), T.ule(E, V, 64), T.ult(V, 1 << 62, 64)]
    N = T.sub(V, E, 64) if V is not None else None
    if i in ("stake", "unstake"):
        S = c["xorca_mint"].f("mint", "supply")
        A += mint_ok(c, "xorca_mint", K_XORCA, True, True)
        A += [T.ule(S, N, 64)]
    if i == "stake":
        x = c.args["amount"]
        A += signer_ok(c, "staker") + state_ok(c, False)
        A += tok_ok(c, "staker_orca_ata", K_ORCA, c["staker"].key) + tok_ok(c, "staker_xorca_ata", K_XORCA, c["staker"].key)
        A += [T.ule(x, c["staker_orca_ata"].f("token", "amount"), 64), T.ult(x, 1 << 62, 64), T.ult(0, x, 64),
              T.ule(c["staker_xorca_ata"].f("token", "amount"), S, 64)]
        # the stake is worth at least one unit of xORCA
        A += [T.Or(T.eq(S, 0, 64), T.eq(N, 0, 64), le(a_(z(N), 100), m_(z(x), a_(z(S), 100))))]
    elif i == "unstake":
        x = c.args["amount"]
        p = c["pending"]
        A += signer_ok(c, "unstaker") + state_ok(c, True) + tok_ok(c, "unstaker_xorca_ata", K_XORCA, c["unstaker"].key)
        A += [eqk(p.key, svm.pending_addr(c["unstaker"].key, c.args["index"])[0]), eqk(p.owner, K_SYSTEM), eq64(p.dlen, 0),
              T.eq(p.writable, 1, 1), eqk(c["system_program"].key, K_SYSTEM)]
        A += [T.ule(x, c["unstaker_xorca_ata"].f("token", "amount"), 64),
              T.ule(c["unstaker_xorca_ata"].f("token", "amount"), S, 64), T.ult(0, x, 64),
              le(a_(z(S), 100), m_(z(x), a_(z(N), 100))), T.ule(T.mul(2 * (1024 + 128), c.env.rate, 64), c["unstaker"].lam, 64),
              T.ult(c.env.unix, 1 << 62, 64), T.ult(c["state"].f("state", "cooldown"), 1 << 62, 64)]
    elif i == "withdraw":
        p = c["pending"]
        f = lambda n: p.f("pending", n)
        addr, bump = svm.pending_addr(c["unstaker"].key, c.args["index"])
        A += signer_ok(c, "unstaker") + state_ok(c, True) + tok_ok(c, "unstaker_orca_ata", K_ORCA, c["unstaker"].key)
        A += [eqk(p.key, addr), T.eq(f("bump"), bump, 8), eqk(p.owner, K_PID), eq64(p.dlen, 1024), T.eq(f("disc"), 2, 8),
              eqk(f("unstaker"), c["unstaker"].key), T.eq(f("index"), c.args["index"], 8), T.eq(p.writable, 1, 1),
              eqk(c["system_program"].key, K_SYSTEM), T.ule(f("amount"), E, 64), T.sle(f("ts"), c.env.unix, 64),
              T.ult(c["unstaker_orca_ata"].f("token", "amount"), 1 << 62, 64)]
    elif i == "initialize":
        A += signer_ok(c, "payer") + [T.eq(c["update_authority"].signer, 1, 1), T.eq(c["update_authority"].writable, 1, 1)]
        A += [eqk(c["payer"].key, K_DEPLOYER), eqk(c["state"].key, K_STATE), eqk(c["vault"].key, K_VAULT)]
        for r in ("state", "vault"):
            A += [eqk(c[r].owner, K_SYSTEM), eq64(c[r].dlen, 0), T.eq(c[r].writable, 1, 1)]
        A += mint_ok(c, "xorca_mint", K_XORCA, False, True) + mint_ok(c, "orca_mint", K_ORCA)
        A += [T.eq(c["xorca_mint"].f("mint", "supply"), 0, 64), eqk(c["token_program"].key, K_TOKEN),
              eqk(c["system_program"].key, K_SYSTEM), eqk(c["ata_program"].key, K_ATA),
              T.ult(c.args["cooldown"], 1 << 63, 64), T.ule(T.mul(2 * (2048 + 128 + 165 + 128), c.env.rate, 64), c["payer"].lam, 64)]
    elif i == "set":
        A += [T.eq(c["update_authority"].signer, 1, 1), T.eq(c["update_authority"].writable, 1, 1)]
        A += state_ok(c, True) + [eqk(c["update_authority"].key, c["state"].f("state", "authority"))]
        if "cooldown" in c.args:
            A += [T.ult(c.args["cooldown"], 1 << 63, 64)]
    return A


def rent_c(c, space):
    return z(T.mul(2 * (space + 128), c.env.rate, 64))      # rate < 2^32


def ob_live(v):
    if v.o.kind != "ok":
        c = v.c
        ms, fs = (), ()
        if c.instr in ("stake", "unstake"):
            S, N = (z(c["xorca_mint"].f("mint", "supply")),
                    T.sub(z(c["vault"].f("token", "amount")), z(c["state"].f("state", "escrow")), W))
            x = z(c.args["amount"])
            ms = (a_(S, 100), a_(N, 100), x)
            fs = (le(x, S), le(S, N), le(x, 1 << 62), le(m_(x, a_(S, 100)), m_(x, a_(N, 100))))
        yield "a well-formed request succeeds (got %s %s)" % (v.o.kind, v.o.info.get("code") or v.o.info.get("why")), 0, ms, fs


# ---------------------------------------------------------------- C24 truthful errors
def ob_errors(v):
    if v.o.kind in ("panic", "oob", "ub"):
        yield "no fault", 0
        return
    if v.o.kind != "err":
        return
    c = v.c
    ms = ()
    code = v.o.info["code"]
    i = c.instr
    g = lambda r, l, f: c[r].f(l, f)
    why = 0
    if code == 6002:
        sg = {"stake": ["staker"], "unstake": ["unstaker"], "withdraw": ["unstaker"],
              "initialize": ["payer", "update_authority"], "set": ["update_authority"]}[i]
        wr = {"stake": ["staker", "vault", "staker_orca_ata", "staker_xorca_ata", "xorca_mint"],
              "unstake": ["unstaker", "state", "pending", "unstaker_xorca_ata", "xorca_mint"],
              "withdraw": ["unstaker", "state", "pending", "unstaker_orca_ata", "vault"],
              "initialize": ["payer", "update_authority", "state", "vault"], "set": ["update_authority", "state"]}[i]
        why = T.Or(*[T.eq(c[r].signer, 0, 1) for r in sg], *[T.eq(c[r].writable, 0, 1) for r in wr])
    elif code == 6004:
        own = {"stake": {"vault": K_TOKEN, "staker_orca_ata": K_TOKEN, "staker_xorca_ata": K_TOKEN, "xorca_mint": K_TOKEN,
                         "orca_mint": K_TOKEN, "state": K_PID},
               "unstake": {"vault": K_TOKEN, "unstaker_xorca_ata": K_TOKEN, "xorca_mint": K_TOKEN, "orca_mint": K_TOKEN,
                           "state": K_PID, "pending": K_SYSTEM},
               "withdraw": {"vault": K_TOKEN, "unstaker_orca_ata": K_TOKEN, "orca_mint": K_TOKEN, "state": K_PID,
                            "pending": K_PID},
               "initialize": {"state": K_SYSTEM, "vault": K_SYSTEM, "xorca_mint": K_TOKEN, "orca_mint": K_TOKEN},
               "set": {"state": K_PID}}[i]
        why = T.Or(*[T.ne(c[r].owner, k, 256) for r, k in own.items()])
    elif code == 6005:
        cs = [T.ne(c["state"].key, K_STATE, 256)]
        if i != "set":
            cs.append(T.ne(c["vault"].key, K_VAULT, 256))
        if i in ("unstake", "withdraw"):
            cs.append(T.ne(c["pending"].key, svm.pending_addr(c["unstaker"].key, c.args["index"])[0], 256))
        why = T.Or(*cs)
    elif code == 6006:
        k = {"xorca_mint": K_XORCA, "orca_mint": K_ORCA, "token_program": K_TOKEN, "system_program": K_SYSTEM,
             "ata_program": K_ATA}
        cs = [T.ne(c[r].key, x, 256) for r, x in k.items() if r in c.role]
        if i == "set":
            cs.append(T.ne(c["update_authority"].key, g("state", "state", "authority"), 256))
        if i == "initialize":
            cs.append(T.ne(g("xorca_mint", "mint", "authority"), c["state"].key, 256))
        why = T.Or(*cs)
    elif code == 6007:
        cs = []
        toks = {"stake": [("vault", "state", "orca_mint"), ("staker_orca_ata", "staker", "orca_mint"),
                          ("staker_xorca_ata", "staker", "xorca_mint")],
                "unstake": [("vault", "state", "orca_mint"), ("unstaker_xorca_ata", "unstaker", "xorca_mint")],
                "withdraw": [("vault", "state", "orca_mint"), ("unstaker_orca_ata", "unstaker", "orca_mint")]}.get(i, [])
        for r, o, mt in toks:
            cs += [T.ult(c[r].dlen, 165, 64), T.ult(2, g(r, "token", "state"), 8),
                   T.ne(g(r, "token", "owner"), c[o].key, 256), T.ne(g(r, "token", "mint"), c[mt].key, 256)]
        for r in ("xorca_mint", "orca_mint"):
            if r in c.role:
                cs += [T.ult(c[r].dlen, 82, 64), T.ult(1, g(r, "mint", "init"), 8)]
        if i in ("unstake", "initialize"):
            cs += [T.ne(g("xorca_mint", "mint", "authority"), c["state"].key, 256),
                   T.ne(g("xorca_mint", "mint", "auth_flag"), 1, 32), T.ne(g("xorca_mint", "mint", "freeze_flag"), 0, 32)]
        if i == "initialize":
            cs += [T.ne(g("xorca_mint", "mint", "freeze"), 0, 256), T.ne(g("xorca_mint", "mint", "supply"), 0, 64)]
            cs += [T.ne(g(r, "mint", "decimals"), 6, 8) for r in ("xorca_mint", "orca_mint")]
        else:
            cs += [T.ult(c["state"].dlen, 2048, 64), T.ne(g("state", "state", "disc"), 1, 8)]
        if i == "withdraw":
            cs += [T.ult(c["pending"].dlen, 1024, 64), T.ne(g("pending", "pending", "disc"), 2, 8)]
        why = T.Or(*cs)
    elif code in (6008, 6014, 6015) and i in ("stake", "unstake"):
        V, E, S = g("vault", "token", "amount"), g("state", "state", "escrow"), g("xorca_mint", "mint", "supply")
        N = T.sub(z(V), z(E), W)
        x = z(c.args["amount"])
        virt = T.Or(T.eq(S, 0, 64), T.eq(V, E, 64))
        up, dn = (a_(z(S), 100), a_(N, 100)) if i == "stake" else (a_(N, 100), a_(z(S), 100))
        over = T.Or(le(m_(dn, 1 << 64), m_(x, up)),     # quotient >= 2^64
                    le(1 << 128, m_(x, up)))            # or its dividend is over 128 bits
        zero = lt(m_(x, up), dn)
        if code == 6008 and i == "stake":
            why = T.And(T.Not(virt), over)
        elif code == 6008:
            room = T.sub(1 << 64, z(E), W)
            ms = (room, dn)
            why = T.Or(virt, over, le(m_(room, dn), m_(x, up)))
        elif code == 6014 and i == "stake":
            why = T.Or(T.eq(c.args["amount"], 0, 64), T.And(T.Not(virt), zero))
        elif code == 6015 and i == "unstake":
            why = zero
    elif code == 6009 and i in ("stake", "unstake"):
        why = T.ult(g({"stake": "staker_orca_ata", "unstake": "unstaker_xorca_ata"}[i], "token", "amount"),
                    c.args["amount"], 64)
    elif code == 6010 and i == "initialize":
        why = T.ne(c["state"].dlen, 0, 64)
    elif code == 6011 and i == "withdraw":
        why = T.slt(c.env.unix, g("pending", "pending", "ts"), 64)
    elif code == 6013 and i in ("set", "initialize"):
        why = T.slt(c.args["cooldown"], 0, 64) if "cooldown" in c.args else 0
    elif code == 6016 and i == "withdraw":
        why = T.ult(g("state", "state", "escrow"), g("pending", "pending", "amount"), 64)
    elif code == 6017 and i == "unstake":
        why = T.saddo(c.env.unix, g("state", "state", "cooldown"), 64)
    elif code == 6018 and i in ("stake", "unstake"):
        why = T.ult(g("vault", "token", "amount"), g("state", "state", "escrow"), 64)
    elif code == 6019 and i == "initialize":
        why = T.ne(c["payer"].key, K_DEPLOYER, 256)
    elif code > 1 << 31:
        # a runtime error of the program's libraries (duplicate borrow, allocation): not one of the documented codes
        why = int(code >> 32 != 0)
    yield "error %d tells the truth" % code, why, ms


# ---------------------------------------------------------------- C12 malformed input
def ob_nofault(v):
    if v.o.kind in ("panic", "oob", "ub"):
        yield "no panic or memory fault", 0
