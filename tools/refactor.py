#!/usr/bin/env python3
"""refactor.py NAME...: apply behaviour-preserving edits (tools/refactors/NAME.py: EDITS, CHECKS) to /repo, run the checks (they must stay
quiet), and undo them. Not part of any check."""
import os
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
names = sys.argv[1:] or sorted(f[:-3] for f in os.listdir(V + "/tools/refactors") if f.endswith(".py"))
bad = []
for name in names:
    ns = {}
    exec(open("%s/tools/refactors/%s.py" % (V, name)).read(), ns)
    try:
        for f, old, new in ns["EDITS"]:
            p = os.path.join("/repo", f)
            s = open(p).read()
            if old is None:
                open(p, "w").write(new)
                continue
            assert s.count(old) == 1, (name, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        if ns.get("TEST"):
            subprocess.check_call(["bash", "/opt/vp/build.sh"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        for p in ns["CHECKS"]:
            r = subprocess.run(["./check.py", p], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            t = r.stdout.decode().strip()
            print("REFACTOR", name, p, "->", r.returncode, t.splitlines()[0][:120] if t else "", flush=True)
            if r.returncode:
                bad.append((name, p))
                print(t[-1500:])
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
print("noisy:", bad)
