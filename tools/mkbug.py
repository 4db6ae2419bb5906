#!/usr/bin/env python3
"""Create and validate a planted bug. usage: mkbug.py SPEC.py ; SPEC defines ID, PROPERTY, EDITS=[(file,old,new)],
DEMO (C++ source), NEEDS, BREAKS, optional FLAGS (extra g++ flags), SHIM (True: copy shim beside)."""
import json, os, runpy, shutil, subprocess, sys
REPO, V = "/repo", "/verif"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def validate(spec):
    s = runpy.run_path(spec)
    d = f"{V}/seeded/{s['ID']}"
    assert sh(f"git -C {REPO} status --porcelain").stdout.strip() == "", "repo dirty"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(f"{d}/demo.cpp", "w").write(s["DEMO"])
    inc = '-I "$H/shim" -I "$H/shim/mpi"' if s.get("SHIM") else ""
    if s.get("SHIM"): shutil.copytree(f"{V}/shim", f"{d}/shim")
    open(f"{d}/demo.sh", "w").write(f"""#!/bin/bash
# exit 0: the property holds on this input; non-zero: broken
H="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
g++ -std=c++20 -O1 -w {s.get('FLAGS','')} {inc} -I include "$H/demo.cpp" -o "$T/demo" -lpthread || exit 3
cd "$T" && timeout 120 ./demo
""")
    json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(f"{d}/meta.json", "w"), indent=1)
    try:
        r = sh(f"bash {d}/demo.sh", cwd=REPO); assert r.returncode == 0, ("demo fails on clean", r.stdout[-1500:])
        for f, old, new in s["EDITS"]:
            p = f"{REPO}/{f}"; t = open(p).read(); assert t.count(old) == 1, (f, old, t.count(old)); open(p, "w").write(t.replace(old, new))
        open(f"{d}/patch.diff", "w").write(sh(f"git -C {REPO} diff").stdout)
        r = sh("bash /opt/vp/build.sh"); assert r.returncode == 0, ("build", r.stdout[-1500:])
        sh("bash /opt/vp/test.sh /tmp/o.json"); o = json.load(open("/tmp/o.json")); base = json.load(open("/opt/vp/BASELINE.json"))
        txt = json.dumps(o); 
        print("tests:", {k: (len(v) if isinstance(v, (list, dict)) else v) for k, v in o.items()})
        fl = o.get("failed") or []
        assert not fl, fl
        r = sh(f"bash {d}/demo.sh", cwd=REPO); assert r.returncode not in (0, 3), ("demo does not fail with bug", r.returncode, r.stdout[-800:])
        print("demo with bug:", r.returncode, r.stdout[-200:])
        c = sh(f"VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 {V}/run.py {s['PROPERTY']} quick")
        print("check:", c.returncode, "CAUGHT" if c.returncode == 1 and "VIOLATION" in c.stdout else "MISSED", c.stdout[-700:])
    except AssertionError as e:
        print("REJECT", s["ID"], e); shutil.rmtree(d)
    finally:
        sh(f"git -C {REPO} checkout -- .")
for sp in sys.argv[1:]: print("==", sp); validate(sp)
