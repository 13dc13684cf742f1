#!/usr/bin/env python3
"""mkbug.py ID: (re)generate /verif/seeded/ID from tools/bugs/ID.py, which defines
PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (python text) [, KIND = chain|rust|js]
Not part of any check. Verifies: the patch builds, the stable tests pass, the demo passes without and fails with it."""
import json
import os
import shutil
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ID = sys.argv[1]
ns = {}
exec(open(os.path.join(V, "tools", "bugs", ID + ".py")).read(), ns)
out = os.path.join(V, "seeded", ID)
assert out.startswith("/verif/seeded/") and "/" not in ID
shutil.rmtree(out, ignore_errors=True)
os.makedirs(out)
edited = []
try:
    for f, old, new in ns["EDITS"]:
        p = os.path.join("/repo", f)
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
        edited.append(f)
    d = subprocess.check_output(["git", "-C", "/repo", "diff"])
    open(os.path.join(out, "patch.diff"), "wb").write(d)
finally:
    subprocess.check_call(["git", "-C", "/repo", "checkout", "--", "."])
json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]},
          open(os.path.join(out, "meta.json"), "w"), indent=1)
kind = ns.get("KIND", "chain")
if kind == "chain":
    shutil.copy(os.path.join(V, "tools", "demolib", "demolib.py"), out)
    os.makedirs(os.path.join(out, "engine"))
    for f in ("term.py", "machine.py", "ll.py", "sol.py", "svm.py", "smt.py", "prog.py", "native.py", "shim.c"):
        shutil.copy(os.path.join(V, "engine", f), os.path.join(out, "engine"))
    shutil.copytree(os.path.join(V, "harness"), os.path.join(out, "harness"), ignore=shutil.ignore_patterns("target", "client", "js"))
    open(os.path.join(out, "demo.py"), "w").write("from demolib import *\n" + ns["DEMO"].lstrip())
    sh = '#!/bin/sh\nexec python3-vt "$(cd "$(dirname "$0")" && pwd)/demo.py"\n'
elif kind == "client":
    shutil.copy(os.path.join(V, "tools", "demolib", "democlient.py"), out)
    os.makedirs(os.path.join(out, "engine"))
    for f in ("term.py", "machine.py", "ll.py", "sol.py", "svm.py", "smt.py", "prog.py", "native.py", "shim.c", "client.py", "harn.py",
              "intq.py", "solve.py"):
        shutil.copy(os.path.join(V, "engine", f), os.path.join(out, "engine"))
    shutil.copytree(os.path.join(V, "harness"), os.path.join(out, "harness"), ignore=shutil.ignore_patterns("target", "program", "oracle", "js"))
    open(os.path.join(out, "demo.py"), "w").write("from democlient import *\n" + ns["DEMO"].lstrip())
    sh = '#!/bin/sh\nexec python3-vt "$(cd "$(dirname "$0")" && pwd)/demo.py"\n'
elif kind == "js":
    shutil.copy(os.path.join(V, "tools", "demolib", "demojs.py"), out)
    shutil.copytree(os.path.join(V, "harness", "js"), os.path.join(out, "js"))
    open(os.path.join(out, "demo.py"), "w").write("from demojs import *\n" + ns["DEMO"].lstrip())
    sh = '#!/bin/sh\nexec python3-vt "$(cd "$(dirname "$0")" && pwd)/demo.py"\n'
else:
    for name, text in ns["FILES"].items():
        p = os.path.join(out, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "w").write(text)
    sh = ns["SH"]
open(os.path.join(out, "demo.sh"), "w").write(sh)
os.chmod(os.path.join(out, "demo.sh"), 0o755)


def demo():
    tmp = "/tmp/demo_place_" + ID
    shutil.rmtree(tmp, ignore_errors=True)
    shutil.copytree(out, tmp, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    r = subprocess.run([tmp + "/demo.sh"], cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    shutil.rmtree(tmp)
    return r.returncode, r.stdout.decode()[-800:]


a = demo()
print("clean:", a)
assert a[0] == 0
try:
    subprocess.check_call(["git", "-C", "/repo", "apply", out + "/patch.diff"])
    b = demo()
    print("patched:", b)
    assert b[0] != 0
    if "notest" not in sys.argv:
        subprocess.check_call(["bash", "/opt/vp/build.sh"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        subprocess.run(["bash", "/opt/vp/test.sh", "/tmp/t_%s.json" % ID], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        base = json.load(open("/opt/vp/BASELINE.json"))
        got = json.load(open("/tmp/t_%s.json" % ID))
        print(str(got)[:300] if "debug" in sys.argv else "", )
        exp = base["stable"] or base
        gp = got.get("passed") or got
        miss = [t for t in exp if t not in gp]
        print("tests missing:", miss)
        assert not miss
    for p in ([ns["PROPERTY"]] + ns.get("ALSO", [])) if "nocheck" not in sys.argv else []:
        r = subprocess.run(["./check.py", p], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        print("CHECK", ID, p, "->", r.returncode, r.stdout.decode()[-700:])
finally:
    subprocess.check_call(["git", "-C", "/repo", "checkout", "--", "."])
