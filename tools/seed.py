#!/usr/bin/env python3
"""Make and confirm planted bugs: seed.py SPECFILE [ids] (SEEDS=[dicts] or a single spec; python file defining ID, PROPERTY, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO, optional SCRIPT)."""
import os, sys, subprocess, json, runpy
R = "/repo"
def sh(*a, **k): return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def main(s):
    d = "/verif/seeded/" + s["ID"]; os.makedirs(d, exist_ok=True)
    assert not sh("git", "-C", R, "status", "--short").stdout, "repo dirty"
    try:
        for f, old, new in s["EDITS"]:
            p = os.path.join(R, f); t = open(p, newline="").read(); assert t.count(old) == 1, (f, old, t.count(old)); open(p, "w", newline="").write(t.replace(old, new))
        diff = sh("git", "-C", R, "diff").stdout; open(d + "/patch.diff", "wb").write(diff)
    finally:
        sh("git", "-C", R, "checkout", "--", ".")
    if s["DEMO"]: open(d + "/demo.cpp", "w").write(s["DEMO"])
    for n, t in s.get("FILES", {}).items(): open(d + "/" + n, "w").write(t)
    open(d + "/demo.sh", "w").write(s.get("SCRIPT") or '#!/bin/bash\nset -e\nd=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap \'rm -rf "$t"\' EXIT\ng++ -std=c++14 -O1 -w %s -Iinclude "$d/demo.cpp" -o "$t/demo"\n"$t/demo"\n' % s.get("FLAGS", ""))
    json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    # confirm
    r0 = sh("bash", d + "/demo.sh", cwd=R)
    assert sh("git", "-C", R, "apply", d + "/patch.diff").returncode == 0
    try:
        b = sh("bash", "/opt/vp/build.sh"); sh("bash", "/opt/vp/test.sh", "/tmp/seed_t.json"); t = json.load(open("/tmp/seed_t.json")); base = json.load(open("/opt/vp/BASELINE.json"))
        miss = [x for x in base["stable"] if x not in t["passed"]]
        r1 = sh("bash", d + "/demo.sh", cwd=R)
        print(s["ID"], "demo clean", r0.returncode, "| build", b.returncode, "missing", miss, "| demo patched", r1.returncode, r1.stdout.decode()[-200:].strip())
        if r0.returncode: print(r0.stdout.decode()[-600:])
        ok = r0.returncode == 0 and b.returncode == 0 and not miss and r1.returncode != 0
        print("  CONFIRMED" if ok else "  NOT VALID")
        for p in [s["PROPERTY"]] + s.get("ALSO", []):
            c = sh("python3", "/verif/pbt/run.py", p, "quick"); print("  check", p, "exit", c.returncode, c.stdout.decode()[-700:])
    finally:
        sh("git", "-C", R, "checkout", "--", ".")
if __name__ == "__main__":
    sp = runpy.run_path(sys.argv[1])
    todo = sp["SEEDS"] if "SEEDS" in sp else [sp]
    want = sys.argv[2:]; sys.argv[2:] = []
    for s in todo:
        if want and s["ID"] not in want: continue
        try: main(s)
        except AssertionError as e: print(s["ID"], "FAILED", e)
        sys.stdout.flush()
