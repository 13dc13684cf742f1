"""Building the JS client, exploring harness functions symbolically, deciding and replaying them in node."""
import fcntl
import json
import os
import random
import shutil
import subprocess
import sys
import threading
import time
import term as T
from term import isint
import client as C
import harn
import jsx
import machine as MC
import prog
import smt

NODE = "node"


class JS:
    def __init__(self, oracle=True):
        t0 = time.time()
        base = os.path.join(prog.BUILD, "js")
        os.makedirs(base, exist_ok=True)
        self.dir = os.path.join(base, "out")
        with open(os.path.join(base, "lock"), "w") as lock:
            fcntl.flock(lock, fcntl.LOCK_EX)
            tmp = os.path.join(base, "new.%d" % os.getpid())
            r = subprocess.run([NODE, os.path.join(prog.VERIF, "harness", "js", "build.cjs"), "/repo", tmp],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                sys.stderr.write(r.stdout.decode(errors="replace")[-3000:])
                raise SystemExit("build of the JS client failed")
            self.dir = tmp
            self.prog = jsx.load(os.path.join(tmp, "ast.json"))
        self.main = self.prog["main"]
        self.build_s = time.time() - t0
        self.oracle = None
        if oracle:
            class L:
                pass
            self.libs = L()
            self.libs.client = self.libs.oracle = self.oracle = C.Lib("oracle", True)
            self.libs.shim = C.native.build_shim(prog.BUILD)
            self.build_s += self.oracle.build_s
        self._node = None

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def native(self, fn, data, param):
        """-> (kind, code, output)"""
        if self._node is None or self._node[0] != os.getpid():
            p = subprocess.Popen([NODE, "native.mjs", str(self.main)], cwd=self.dir, stdin=subprocess.PIPE,
                                 stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            self._node = (os.getpid(), p)
        p = self._node[1]
        p.stdin.write((json.dumps({"fn": fn, "input": data.hex(), "param": param}) + "\n").encode())
        p.stdin.flush()
        line = p.stdout.readline()
        if not line:
            self._node = None
            return ("crash", 0, b"")
        r = json.loads(line)
        if "thrown" in r:
            return ("panic", r["thrown"], b"")
        return ("ret", r["ret"], bytes.fromhex(r["out"]))


class View:
    def __init__(self, kind, value, pc, cells):
        self.pc, self.cells, self.what = pc, cells, ""
        self.kind, self.ret, self.outc = {"throw": "panic"}.get(kind, kind), None, []
        if kind == "ret":
            ok = isinstance(value, jsx.Arr) and len(value.items) == 2 and type(value.items[0]) is int and isinstance(value.items[1], jsx.U8)
            if not ok:
                raise jsx.Unsupported("result of the harness function")
            self.ret, self.outc = value.items[0], value.items[1].cells
        elif kind == "throw":
            m = value.props.get("message") if isinstance(value, jsx.Obj) else None
            self.what = m if type(m) is str else ""
        else:
            self.what = value

    def out(self, off, n):
        c = self.outc[off:off + n]
        if len(c) < n:
            return None
        return MC.cells_value(None, None, c)


def concrete_view(res, pc, cells):
    v = View("concrete", res[1], pc, cells)
    v.kind = res[0]
    if res[0] == "ret":
        v.ret, v.outc = res[1], list(res[2])
    return v


def agree(v, env, res):
    memo = {}
    if v.kind != res[0]:
        return "kind %s %s vs native %s %s" % (v.kind, v.what, res[0], res[1])
    if v.kind != "ret":
        return None
    if v.ret != res[1]:
        return "code %s vs native %s" % (v.ret, res[1])
    if len(v.outc) != len(res[2]):
        return "%d bytes of output vs native %d" % (len(v.outc), len(res[2]))
    b = C.flat(v.outc, env, memo)
    for k in range(len(b)):
        if b[k] != res[2][k]:
            return "output byte %d: %d vs native %d" % (k, b[k], res[2][k])
    return None


def big_stack(f):
    """run f in a thread with a deep stack"""
    out = []

    def g():
        try:
            out.append((True, f()))
        except BaseException as e:
            out.append((False, e))
    old = threading.stack_size(1 << 29)
    try:
        t = threading.Thread(target=g)
        t.start()
        t.join()
    finally:
        threading.stack_size(old)
    ok, r = out[0]
    if not ok:
        raise r
    return r


def explore(js, fn, cells, param, conds, rec, each):
    """each(view) -> true to stop"""
    I = jsx.Interp(js.prog)

    def go():
        for kind, value, pc in I.explore(fn, lambda: [jsx.U8(list(cells)), param], conds):
            try:
                v = View(kind, value, pc, cells)
            except jsx.Unsupported as e:
                v = View("unsupported", str(e), pc, cells)
            if each(v):
                return
    big_stack(go)
    rec.transitions += I.forks
    rec.instructions += I.steps
    for k, n in I.funcs.items():
        rec.funcs["js " + k] = rec.funcs.get("js " + k, 0) + n
    if I.unknown:
        rec.stats["path_unknown"] = rec.stats.get("path_unknown", 0) + I.unknown


def input_vars(cells):
    vs = {}
    for c in cells:
        if not isint(c):
            for x in T.vars_of(c[0]):
                vs[x] = 1
    return list(vs)


def check(rec, js, fn, cells, param, cfg, obligations, conds=(), validate=2, witness=None, keep=None):
    """explore the harness function fn of the JS client and decide its obligations: obligations(view) -> (title, goal, *extra)"""
    pv = harn.Prover(rec)
    rng = random.Random(harn.SEED)
    views = []
    vars_ = input_vars(cells)

    def violation(title, env, res, note=None):
        rec.validated += 1
        rec.violations.append({
            "what": title, "config": cfg, "function": fn, "parameter": param, "outcome": res[0], "info": note,
            "inputs": harn.describe(env), "input_bytes": C.flat(cells, env, {}).hex()[:8192],
            "native": "%s %s" % (res[0], res[1]), "native_output": res[2][:256].hex(), "reproduced": True})

    def each(v):
        if any(not harn.is_known(x) for x in rec.violations):
            return True
        key = v.kind if v.kind != "ret" else "returned %s" % v.ret
        rec.paths[key] = rec.paths.get(key, 0) + 1
        if v.kind == "unsupported":
            # no verdict for this path; look for a counterexample in it with concrete runs of models of the path
            if not hunt(rec, js, pv, fn, param, v, vars_, obligations, violation, rng):
                rec.inconclusive.append("%s: not encoded: %s" % (cfg, v.what))
            return
        if v.kind == "ret" and (witness is None or witness(v)):
            rec.witness[cfg] = rec.witness.get(cfg, 0) + 1
        views.append(v)
        if keep is not None:
            keep.append(v)
        for title, goal, *mm in obligations(v):
            try:
                r = pv.decide(v.pc, goal, *mm)
            except harn.Inconclusive as e:
                rec.inconclusive.append("%s: %s: %s" % (cfg, title, e))
                continue
            if r == "proved":
                continue
            res = js.native(fn, C.flat(cells, r, {}), param)
            bad = agree(v, r, res)
            if bad is None:
                violation(title, r, res, v.what)
            else:
                rec.mismatch.append({"cfg": cfg, "title": title, "diff": bad, "inputs": harn.describe(r)})
    explore(js, fn, cells, param, conds, rec, each)
    if validate and not rec.violations:
        vs = list(views)
        rng.shuffle(vs)
        vs.sort(key=lambda v: not (v.kind == "ret" and v.ret == 0))
        for v in vs[:validate] + vs[::-1][:max(0, min(validate, len(vs) - validate))]:
            env = pv.models.get([c for c in v.pc if not isint(c)], budget=20)
            if not isinstance(env, dict):
                continue
            res = js.native(fn, C.flat(cells, env, {}), param)
            bad = agree(v, env, res)
            if bad is None:
                rec.validated += 1
                if len(rec.samples) < 3:
                    rec.samples.append({"config": cfg, "path": v.kind, "inputs": harn.describe(env),
                                        "native": "%s %s" % (res[0], res[1])})
            else:
                rec.mismatch.append({"cfg": cfg, "diff": bad, "inputs": harn.describe(env)})
    return views


def hunt(rec, js, pv, fn, param, v, vars_, obligations, violation, rng, rounds=24):
    """counterexamples among concrete runs of models of a path that could not be encoded; never a proof"""
    for k in range(rounds):
        prefer = []
        if k:
            for x in vars_:
                val = rng.choice((rng.getrandbits(x.w), rng.getrandbits(max(1, x.w * 3 // 4)), T.M(x.w), T.M(x.w) - 1, rng.getrandbits(max(1, x.w // 2))))
                prefer.append(T.eq(x, val, x.w))
        env = pv.models.get([c for c in v.pc if not isint(c)], prefer=prefer, budget=10)
        if not isinstance(env, dict):
            continue
        env = dict(env)
        for x in vars_:
            env.setdefault(x.args[0], 0)
        res = js.native(fn, C.flat(v.cells, env, {}), param)
        pc = [T.eq(x, T.evaluate(x, env, {}), x.w) for x in vars_]
        cv = concrete_view(res, pc, v.cells)
        for title, goal, *mm in obligations(cv):
            try:
                r = pv.decide(pc, goal, *mm)
            except harn.Inconclusive:
                continue
            if r != "proved":
                violation(title, r, res, v.what)
                return True
    return False
