#!/usr/bin/env python3
"""mk.py SPEC.py: (re)creates seeds described in SPEC.py (list SEEDS of dicts) from /repo HEAD; verifies build, tests, demo."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
K = os.path.dirname(os.path.abspath(__file__))
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
for s in ns["SEEDS"]:
    if only and s["id"] not in only: continue
    d = os.path.join(V, "seeded", s["id"]); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    kind = "full" if "demo" in s else "part"
    open(os.path.join(d, "demo.rs" if kind == "full" else "main.rs"), "w").write(s.get("demo") or s["main"])
    shutil.copy(os.path.join(K, kind + ".sh"), os.path.join(d, "demo.sh")); os.chmod(os.path.join(d, "demo.sh"), 0o755)
    if kind == "full": shutil.copytree(os.path.join(V, "shadow"), os.path.join(d, "shadow"))
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    assert not sh("git -C /repo status --porcelain --untracked-files=no").stdout
    r0 = sh("bash %s/demo.sh" % d, cwd="/repo")
    try:
        for f, old, new in s["edits"]:
            p = os.path.join("/repo", f); t = open(p).read()
            assert t.count(old) == s.get("count", 1), (s["id"], f, t.count(old))
            open(p, "w").write(t.replace(old, new))
        df = sh("git -C /repo diff").stdout
        open(os.path.join(d, "patch.diff"), "w").write(df)
        b = sh("bash /opt/vp/build.sh"); t = sh("bash /opt/vp/test.sh /tmp/seed.json")
        o = json.load(open("/tmp/seed.json"))
        r1 = sh("bash %s/demo.sh" % d, cwd="/repo")
        c = sh("python3 absint/main.py %s --tier quick" % s["property"], cwd=V)
        print(s["id"], s["property"], "demo clean:", r0.returncode, "patched:", r1.returncode, "build:", b.returncode, "pass:", len(o["passed"]), "fail:", len(o["failed"]), "CHECK:", c.returncode, flush=True)
        if r0.returncode: print(r0.stderr[-1500:])
        if r1.returncode in (8, 9): print(r1.stderr[-1500:])
        print("   ", (c.stdout.strip().splitlines() or [""])[0][:240], "|", (c.stdout.strip().splitlines() or [""])[-1][:100], flush=True)
    finally:
        sh("git -C /repo checkout -- .")
