"""Check framework: tasks, obligations, verdicts, replay, evidence."""
import json
import multiprocessing
import os
import pickle
import random
import signal
import sys
import time
import traceback
import term as T
from term import isint
import intq
import ll
import machine as MC
import native
import prog
import smt
import sol
import solve
import svm

VERIF = prog.VERIF
EVID = os.path.join(VERIF, "evidence")
TIER = os.environ.get("VERIF_TIER", "quick")
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1
NPROC = int(os.environ.get("VERIF_JOBS", "8"))


class Inconclusive(Exception):
    pass


class Rec:
    """what a task found (picklable)"""

    def __init__(self):
        self.paths = {}
        self.transitions = 0
        self.instructions = 0
        self.obligations = 0
        self.discharged = {}
        self.violations = []
        self.inconclusive = []
        self.validated = 0
        self.mismatch = []
        self.samples = []
        self.funcs = {}
        self.witness = {}
        self.stats = {}
        self.extra = {}
        self.error = None

    def merge(self, o):
        for d in ("paths", "discharged", "funcs", "witness", "stats"):
            a, b = getattr(self, d), getattr(o, d)
            for k, v in b.items():
                a[k] = a.get(k, 0) + v
        for k, v in o.extra.items():
            self.extra.setdefault(k, []).append(v)
        for n in ("transitions", "instructions", "obligations", "validated"):
            setattr(self, n, getattr(self, n) + getattr(o, n))
        self.violations += o.violations
        self.inconclusive += o.inconclusive
        self.mismatch += o.mismatch
        if len(self.samples) < 12:
            self.samples += o.samples[:2]
        if o.error:
            self.error = (self.error or "") + o.error


class Prover:
    def __init__(self, rec):
        self.rec = rec
        self.feas = smt.Feas()
        self.short = smt.Feas(timeout_ms=2000)
        self.models = solve.Models()
        self._pf = None

    def path_facts(self, pc, conds):
        if self._pf is None or self._pf[0] is not pc or self._pf[1] != len(pc):
            known = fixed_vars(conds)
            extra = []
            for c in conds:
                if solve.hashterms([c]):
                    d = T.subst(c, known)
                    if d is not c and not (isint(d) and d):
                        extra.append(d)
            self._pf = (pc, len(pc), known, extra)
        return self._pf[2], self._pf[3]

    def decide(self, pc, goal, mults=(), facts=(), model_budget=60):
        """-> 'proved' | env (a verified counterexample of pc => goal) ; raises Inconclusive"""
        rec = self.rec
        rec.obligations += 1
        if isint(goal) and goal:
            rec.discharged["syntactic"] = rec.discharged.get("syntactic", 0) + 1
            return "proved"
        ng = T.bnot(goal)
        if any(isint(c) and not c for c in pc):
            rec.discharged["syntactic"] = rec.discharged.get("syntactic", 0) + 1
            return "proved"
        conds = [c for c in pc if not isint(c)]
        # hash terms of addresses the path fixes to constants are computed
        known, extra = self.path_facts(pc, conds)
        conds = conds + extra
        if solve.hashterms([ng]):
            ng = T.subst(ng, known)
            if isint(ng):
                if not ng:
                    rec.discharged["bv"] = rec.discharged.get("bv", 0) + 1
                    return "proved"
            goal = T.bnot(ng)
        nl = solve.nonlinear(conds + [ng])
        facts = [f for f in facts if not isint(f)]
        r = self.short.check(conds + [ng])
        if r != "unsat" and (nl or r != "sat"):
            m = self.models.spread(conds + [ng], tries=60, budget=1) if nl else None
            if m is not None:
                return m
            if intq.prove(conds, goal, mults, refute=self.short, facts=facts) == "unsat":
                rec.discharged["int-linear"] = rec.discharged.get("int-linear", 0) + 1
                return "proved"
            if nl and intq.prove(conds, goal, mults, mode="nia", timeout_ms=8000, refute=self.short, facts=facts) == "unsat":
                rec.discharged["int-nia"] = rec.discharged.get("int-nia", 0) + 1
                return "proved"
            m = self.models.spread(conds + [ng]) if nl else None
            if m is not None:
                return m
            if r != "sat":
                r = self.feas.check(conds + [ng])
        if r == "unsat":
            rec.discharged["bv"] = rec.discharged.get("bv", 0) + 1
            return "proved"
        m = self.models.get(conds + [ng], budget=model_budget)
        if m == "unsat":
            rec.discharged["bv"] = rec.discharged.get("bv", 0) + 1
            return "proved"
        if m is not None:
            return m
        if nl and intq.prove(conds, goal, mults, mode="nia", timeout_ms=60000, refute=self.short, facts=facts) == "unsat":
            rec.discharged["int-nia"] = rec.discharged.get("int-nia", 0) + 1
            return "proved"
        raise Inconclusive("no proof and no counterexample")


def fixed_vars(conds):
    """variables the conditions equate with constants"""
    out = {}
    stack = list(conds)
    while stack:
        c = stack.pop()
        if isint(c):
            continue
        if c.op == "and" and c.w == 1:
            stack += c.args
        elif c.op == "not" and not isint(c.args[0]):
            d = c.args[0]
            if d.op == "not":
                stack.append(d.args[0])
            elif d.op == "or":
                stack += [T.bnot(x) for x in d.args]
        elif c.op == "eq":
            a, b = c.args[:2]
            if isint(a):
                a, b = b, a
            if isint(b) and a.op == "var":
                out[a] = b
    return out


class View:
    """pre/post access of a finished path"""

    def __init__(self, ctx, outcome):
        self.c = ctx
        self.o = outcome
        self.fin = outcome.info.get("final")

    def pre(self, role, layout, field):
        return self.c[role].f(layout, field)

    def post(self, role, layout, field):
        return self.fin[self.c[role].i].f(layout, field)

    def snap(self, role):
        return self.fin[self.c[role].i]

    def entails(self, cond):
        """the path condition implies cond (decided by the solver; undecided counts as no)"""
        if isint(cond):
            return bool(cond)
        if any(c is cond for c in self.o.pc):
            return True
        global _ENT
        if _ENT is None:
            _ENT = smt.Feas(timeout_ms=4000)
        return _ENT.check(list(self.o.pc) + [T.bnot(cond)]) == "unsat"


_ENT = None


def unchanged(a, s, layout=None, but=()):
    """frame condition on the data of account a: every byte the same except the named fields"""
    skip = set()
    for f in but:
        o, n = sol.LAYOUT[layout][f]
        skip |= set(range(o, o + n))
    g = T.eq(s.dlen, a.dlen, 64)
    run = []
    full = list(a.data) + [0] * (svm.CAP - svm.SYM)

    def flush():
        nonlocal g, run
        if run:
            x = MC.cells_value(None, None, [full[i] for i in run])
            y = MC.cells_value(None, None, [s.data[i] for i in run])
            if x is not y:
                # only bytes inside the account count
                g = T.And(g, T.Or(T.eq(x, y, 8 * len(run)), T.ule(a.dlen, run[0], 64)))
        run = []
    for i in range(min(len(full), len(s.data))):
        if i in skip or full[i] == s.data[i]:
            flush()
            continue
        run.append(i)
    flush()
    return g


# ---------------------------------------------------------------- running the chain program
class Chain:
    """shared build of the on-chain program"""

    def __init__(self):
        self.ll, self.so, self.build_s = prog.build_program()
        self.shim = native.build_shim(prog.BUILD)
        self.mod = ll.Module(self.ll)


def describe(env, n=40):
    """readable subset of a model"""
    out = {}
    for k in sorted(env):
        v = env[k]
        if v > 1 << 300:
            continue
        if v > 1 << 70:
            b = v.to_bytes(32, "little") if v < 1 << 256 else b""
            out[k] = sol.b58enc(b) if len(b) == 32 else hex(v)
        else:
            out[k] = v
    return out


def save_replay(prop, rec_dict, k):
    d = os.path.join(EVID, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%d.json" % (prop, k))
    with open(p, "w") as f:
        json.dump(rec_dict, f, indent=1, default=str)
    return p


def run_chain(chain, rec, instr, classes=None, variant=None, inv=True, obligations=None, validate=2, setup=None,
              cells=None, keep=None, label="", nacc=None, witness_any=False):
    """explore one instruction configuration and decide its obligations.
    obligations(view) -> iterable of (title, goal, mults); called for every finished path."""
    ctx = prog.Ctx(instr, classes, nacc=nacc)
    undecided = {}
    if inv:
        ctx.prog_inv()
    cs = cells(ctx) if cells else prog.data_cells(instr, ctx, variant)
    if setup:
        setup(ctx)
    pv = Prover(rec)
    rng = random.Random(SEED)
    cand = []
    cfg = instr + ("" if variant is None else "/%d" % variant) + label + (
        "" if not classes else " alias " + ",".join("=".join(sol.ROLES[instr][i][0] for i in c) for c in classes))
    for o in prog.explore(chain.mod, ctx, cs):
        if any(not is_known(x) for x in rec.violations):
            break
        key = o.kind if o.kind != "err" else "err %s" % o.info["code"]
        rec.paths[key] = rec.paths.get(key, 0) + 1
        v = View(ctx, o)
        if keep is not None:
            keep.append(v)
        if o.kind == "ok" or witness_any:
            rec.witness[cfg] = rec.witness.get(cfg, 0) + 1
        for title, goal, *mm in (obligations(v) if obligations else ()):
            if undecided.get(title, 0) > 2:
                continue            # already inconclusive: do not spend the time again
            try:
                r = pv.decide(o.pc, goal, *mm)
            except Inconclusive as e:
                undecided[title] = undecided.get(title, 0) + 1
                rec.inconclusive.append("%s: %s: %s" % (cfg, title, e))
                continue
            if r == "proved":
                continue
            res = native.run(chain.shim, chain.so, ctx, r, cs)
            bad = native.agree(ctx, o, r, res)
            vio = {"what": title, "config": cfg, "instruction": instr, "classes": classes, "variant": variant,
                   "outcome": o.kind, "code": o.info.get("code"), "why": str(o.info.get("why") or o.info.get("what")),
                   "inputs": describe(r), "native": repr(res), "reproduced": bad is None}
            if o.kind in ("panic", "oob", "ub"):
                # memory errors need not trap natively
                vio["reproduced"] = res.kind in ("panic", "crash") or (o.kind == "oob" and res.kind != "hosterror")
                bad = None if vio["reproduced"] else bad
            if bad is None:
                rec.validated += 1
                rec.violations.append(vio)
            else:
                rec.mismatch.append({"cfg": cfg, "title": title, "diff": bad})
        cand.append(o)
    rec.transitions += ctx.m.n_forks
    rec.instructions += ctx.m.n_ins
    for k, n in ctx.m.funcs_run.items():
        rec.funcs[k] = rec.funcs.get(k, 0) + n
    if ctx.m.solver_unknown:
        rec.stats["path_unknown"] = rec.stats.get("path_unknown", 0) + ctx.m.solver_unknown
    # translator validation: replay models of explored paths on the compiled program
    if validate:
        oks = [o for o in cand if o.kind == "ok"]
        rest = [o for o in cand if o.kind != "ok"]
        rng.shuffle(oks)
        rng.shuffle(rest)
        for o in oks[:validate] + rest[:validate]:
            env = pv.models.get(o.pc, budget=20)
            if not isinstance(env, dict):
                continue
            res = native.run(chain.shim, chain.so, ctx, env, cs)
            bad = native.agree(ctx, o, env, res)
            if bad is None:
                rec.validated += 1
                if len(rec.samples) < 3:
                    rec.samples.append({"config": cfg, "path": o.kind, "code": o.info.get("code"),
                                        "inputs": describe(env), "native": repr(res)})
            else:
                rec.mismatch.append({"cfg": cfg, "diff": bad, "inputs": describe(env)})
    return ctx


def is_known(v):
    return any(match(f, v) for f in load_findings() if f.get("status") != "fixed")


def match(f, v):
    return all(str(v.get(x)) == str(y) or (x == "what" and str(y) in str(v.get("what"))) for x, y in f.get("match", {}).items())


# ---------------------------------------------------------------- task pool
def _work(args):
    fn, a, kw = args
    rec = Rec()
    s0 = dict(smt.stats)
    t0 = time.time()
    try:
        fn(rec, *a, **kw)
    except MC.Unsupported as e:
        rec.error = "unsupported: %s (%s)\n%s" % (e, kw or a, traceback.format_exc()[-900:])
    except Exception:
        rec.error = "task %s %s: %s\n" % (getattr(fn, "__name__", fn), kw, traceback.format_exc()[-2500:])
    for k, v in smt.stats.items():
        rec.stats[k] = rec.stats.get(k, 0) + v - s0.get(k, 0)
    rec.stats["task_s"] = time.time() - t0
    rec.stats["tasks"] = 1
    return rec


_TASKS = []


def _run_idx(i):
    return _work(_TASKS[i])


def run_tasks(tasks, limit_s):
    """tasks: [(fn, args, kwargs)], run in forked workers -> merged Rec"""
    global _TASKS
    _TASKS = tasks
    total = Rec()
    ctx = multiprocessing.get_context("fork")
    t_end = time.time() + limit_s
    with ctx.Pool(min(NPROC, max(1, len(tasks))), maxtasksperchild=4) as pool:
        its = {i: pool.apply_async(_run_idx, (i,)) for i in range(len(tasks))}
        while its:
            for i in [i for i, it in its.items() if it.ready()]:
                total.merge(its.pop(i).get())
            if not its:
                break
            if any(not is_known(v) for v in total.violations):
                t_end = min(t_end, time.time() + 15)       # a counterexample is enough
            if time.time() > t_end:
                total.error = (total.error or "") + "tasks %s stopped\n" % sorted(its)
                pool.terminate()
                break
            time.sleep(0.02)
    return total


# ---------------------------------------------------------------- verdict
def load_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))


def conclude(prop, rec, t0, bounds, assumptions, need_witness=(), extra=None):
    """write evidence, print the verdict, return the exit code"""
    os.makedirs(EVID, exist_ok=True)
    known = [f for f in load_findings() if f.get("property") == prop and f.get("status") != "fixed"]
    new, old = [], []
    for v in rec.violations:
        k = [f for f in known if match(f, v)]
        (old if k else new).append((v, k))
    missing = [w for w in need_witness if not any(k.startswith(w) for k in rec.witness)]
    st = rec.stats
    cov = {
        "states": sum(rec.paths.values()),
        "transitions": rec.transitions,
        "traces_validated_against_impl": rec.validated,
        "samples": rec.samples[:8] or [{"note": "no sample"}],
        "explanation": "states = finished symbolic paths (each a set of inputs decided by the solver); transitions = "
                       "symbolic branch points; traces = solver models executed on the compiled real code and "
                       "compared with the symbolic prediction",
        "paths_by_outcome": rec.paths,
        "ir_instructions_executed": rec.instructions,
        "obligations": rec.obligations,
        "obligations_discharged_by": rec.discharged,
        "reachability_witnesses": rec.witness,
        "solver": {"queries": int(st.get("queries", 0)), "sat": int(st.get("sat", 0)),
                   "unsat": int(st.get("unsat", 0)), "unknown": int(st.get("unknown", 0)),
                   "seconds": round(st.get("time", 0), 2), "integer_queries": int(st.get("int_queries", 0)),
                   "integer_seconds": round(st.get("int_time", 0), 2),
                   "exact_bv_queries": int(st.get("bv_exact_queries", 0)), "tasks": int(st.get("tasks", 0)),
                   "cpu_s": round(st.get("task_s", 0), 1)},
        "functions_encoded": sorted(demangle(k) for k in rec.funcs)[:200],
        "bounds": bounds,
        "replay_mismatches": rec.mismatch[:5],
        "inconclusive": rec.inconclusive[:10],
    }
    if extra:
        cov.update(extra)
    ev = {"property": prop, "tier": "thorough" if TIER == "thorough" else "quick", "seed": SEED,
          "level": "model_checking", "coverage": cov, "assumptions": assumptions, "wall_s": round(time.time() - t0, 2),
          "violations": len(new)}
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for f in known:
        if any(f in k for _, k in old):
            print("KNOWN-FINDING: property=%s %s" % (prop, f["text"]))
    print("%s: %d paths, %d obligations (%s), %d replays, %d solver queries, %.1f s" % (
        prop, sum(rec.paths.values()), rec.obligations,
        ", ".join("%s %d" % kv for kv in sorted(rec.discharged.items())), rec.validated,
        st.get("queries", 0) + st.get("int_queries", 0), time.time() - t0))
    if new:
        for k, (v, _) in enumerate(new[:5]):
            p = save_replay(prop, v, k)
            print("  %s [%s]" % (v["what"], v.get("config")))
            print("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    if rec.error or rec.mismatch or rec.inconclusive or missing:
        if rec.error:
            print("ERROR " + rec.error[-3000:])
        for m in rec.mismatch[:5]:
            print("MISMATCH", str(m)[:600])
        for m in rec.inconclusive[:5]:
            print("INCONCLUSIVE", m)
        if missing:
            print("VACUOUS: no successful path for", missing)
        return 2
    return 0


def demangle(n):
    import re
    if not n.startswith("_ZN"):
        return n
    out = []
    i = 3
    while i < len(n) and n[i].isdigit():
        m = re.match(r"\d+", n[i:])
        k = int(m.group())
        i += len(m.group())
        out.append(n[i:i + k])
        i += k
    if out and re.match(r"h[0-9a-f]{16}$", out[-1]):
        out.pop()
    return "::".join(out).replace("$LT$", "<").replace("$GT$", ">").replace("$u20$", " ").replace("..", "::")
