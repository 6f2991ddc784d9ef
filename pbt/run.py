#!/usr/bin/env python3
"""Builds one check against /repo's working tree, runs it, writes evidence/<id>.json.
usage: run.py PROPERTY quick|thorough          exit 0 held, exit 1 with a VIOLATION line
       run.py --replay FILE                    re-run one recorded failing case (exit 1 if it still fails)"""
import json, os, sys, subprocess, tempfile, shutil, time, hashlib, random
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
EVID = os.path.join(VERIF, "evidence")
JOBS = 8
sys.path.insert(0, HERE)
from configs import posit_configs, cfg_line
import checks as C

class Broken(Exception):
    pass

def sh(cmd, cwd=None, timeout=600, env=None):
    try:
        r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
        return r.returncode, r.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode("utf8", "replace") + "\n(timed out)"

class Build:
    """Collects compile jobs; run() executes them on 8 cores."""
    def __init__(self, dir, prop, tier, seed):
        self.dir, self.prop, self.tier, self.seed = dir, prop, tier, seed
        self.thorough = tier == "thorough"
        self.jobs = []           # (argv, what)
        self.notes = []
        self.repo, self.here = REPO, HERE
    def path(self, name):
        return os.path.join(self.dir, name)
    def write(self, name, text):
        with open(self.path(name), "w") as f:
            f.write(text)
        return self.path(name)
    def cc(self, src, out, flags=(), cxx="g++", std="c++14", opt="-O1", inc=True, what=None):
        self.jobs.append((self.cc_argv(src, out, flags, cxx, std, opt, inc), what or os.path.basename(src)))
        return self.path(out)
    def cc_argv(self, src, out, flags=(), cxx="g++", std="c++14", opt="-O1", inc=True):
        return [cxx, "-std=" + std, opt, "-w"] + ["-I" + HERE] + (["-I" + REPO + "/include", "-ftrivial-auto-var-init=pattern"] + (["-fno-lifetime-dse"] if cxx.startswith("g++") else []) if inc else []) + list(flags) + ["-c", src, "-o", self.path(out)]
    def harness(self, src, out, flags=()):
        return self.cc(src, out, flags=flags, std="c++17", opt="-O2", inc=False)
    def run_jobs(self):
        jobs, self.jobs = self.jobs, []
        def one(j):
            rc, o = sh(j[0], cwd=self.dir)
            if rc != 0 and rc not in (1,):      # killed compilers and the like: once more
                rc, o = sh(j[0], cwd=self.dir)
            return rc, o, j
        with ThreadPoolExecutor(JOBS) as ex:
            res = list(ex.map(one, jobs))
        bad = [r for r in res if r[0] != 0]
        if bad:
            # retry failed ones serially before believing it
            bad = [r for r in [one(r[2]) for r in bad] if r[0] != 0]
        if bad:
            raise Broken("does not compile: %s\n%s\n%s" % (bad[0][2][1], " ".join(bad[0][2][0]), "\n".join(l for l in bad[0][1].splitlines() if "error" in l)[:3000] or bad[0][1][-3000:]))
    def link(self, objs, out, flags=(), cxx="g++"):
        argv = [cxx] + list(objs) + list(flags) + ["-o", self.path(out)]
        rc, o = sh(argv, cwd=self.dir)
        if rc != 0:
            rc, o = sh(argv, cwd=self.dir)
        if rc != 0:
            raise Broken("does not link: " + o[-3000:])
        return self.path(out)
    # formats in chunks, plus register_cfgs
    def posit_objs(self, cfgs, ops, chunk=4, tag="cfg", reg=None, **kw):
        defs = "".join("#define OPS_%s\n" % o for o in ops) + "#define OPS_IMPL\n"
        objs, fns = [], []
        groups = [cfgs[i::max(1, -(-len(cfgs) // chunk))] for i in range(max(1, -(-len(cfgs) // chunk)))]
        for i, g in enumerate(groups):
            fn = "%s_%d" % (tag, i)
            text = defs + '#include "ops.hpp"\nvoid %s() {\n%s}\n' % (fn, "".join("  CFG(%s);\n" % cfg_line(c) for c in g))
            src = self.write(fn + ".cpp", text)
            objs.append(self.cc(src, fn + ".o", what="formats " + "; ".join("Posit<%s>" % cfg_line(c) for c in g), **kw))
            fns.append(fn)
        text = '#include "ops.hpp"\n' + ("" if reg else "std::vector<IPosit*> g_cfgs;\n") + "".join("void %s();\n" % f for f in fns) + "void register_cfgs() {\n" + "".join("  %s();\n" % f for f in fns) + "}\n"
        src = self.write(tag + "_reg.cpp", text)
        objs.append(self.cc(src, tag + "_reg.o", **reg) if reg else self.harness(src, tag + "_reg.o"))
        return objs

def exe_argv(exe):
    return list(exe) if isinstance(exe, (list, tuple)) else [exe]

def run_binary(b, exe, rundir, limit, extra=()):
    os.makedirs(rundir, exist_ok=True)
    argv = exe_argv(exe) + ["--out", rundir, "--seed", str(b.seed), "--tier", b.tier, "--deadline", str(limit), "--scale", str(1 if b.thorough else getattr(b, "scale", 5))] + list(extra)
    rc, o = sh(argv, timeout=limit + 400)
    sp = os.path.join(rundir, "summary.json")
    if not os.path.exists(sp):
        raise Broken("check process failed (status %d): %s" % (rc, o[-2000:]))
    s = json.load(open(sp))
    s["workers"] = []
    for w in range(8):
        p = os.path.join(rundir, "w%d.json" % w)
        if os.path.exists(p):
            s["workers"].append(json.load(open(p)))
    return s

def merge(parts):
    """parts: [(label, summary)] -> coverage"""
    ev = nt = exh = exhnt = dist = disc = 0
    bodies, samples, rules, budget = [], [], [], False
    for label, s in parts:
        dist += s["distinct_generated"]
        if s["rule"] not in rules:
            rules.append(s["rule"])
        exhnt += sum(w["exh_nontriv"] for w in s["workers"])
        for i, bd in enumerate(s["bodies"]):
            ws = [w["bodies"][i] for w in s["workers"]]
            e = sum(x["evals"] for x in ws); x_ = sum(x["exh"] for x in ws)
            ev += e; exh += x_; nt += sum(x["nontriv"] for x in ws); disc += sum(x["discards"] for x in ws)
            budget |= any(x["budget_hit"] for x in ws)
            cl = {c: sum(x["cls"][k] for x in ws) for k, c in enumerate(bd["classes"])}
            bodies.append({"check": (label + ":" if label else "") + bd["name"], "cases": e, "enumerated": x_, "classes": cl})
            for x in ws[:2]:
                samples += [(label + ":" if label else "") + bd["name"] + ": " + t for t in x["samples"][:2]]
    return dict(evaluations=ev, nontrivial=nt, enumerated=exh, distinct=dist + exhnt, rule="; ".join(rules), bodies=bodies, samples=samples[:40], discards=disc, budget_hit=budget)

def write_evidence(prop, d):
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, ".%s.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(d, f, indent=1)
    os.replace(tmp, os.path.join(EVID, prop + ".json"))

def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time(); spec = C.CHECKS[prop]
    work = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    rc = 0
    try:
        b = Build(work, prop, tier, seed)
        b.scale = spec.get("scale", 5)
        viol, parts, notes = [], [], b.notes
        try:
            parts = spec["run"](b, spec) or []
        except Broken as e:
            viol.append({"body": "build", "message": str(e), "choices": [], "case": "building the check against the tree"})
        for label, s in parts:
            for f in s["failures"]:
                if f["hits"] == 0:
                    notes.append("unreproducible failure ignored: %s %s" % (f["body"], f["message"])); continue
                viol.append(dict(f, label=label))
        cov = merge(parts) if parts else dict(evaluations=0, nontrivial=0, enumerated=0, distinct=0, rule="", bodies=[], samples=[], discards=0, budget_hit=False)
        vout = []
        for i, v in enumerate(viol):
            rd = os.path.join(EVID, "replays"); os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, "%s_%d.json" % (prop, i))
            json.dump(dict(v, property=prop, tier=tier, seed=seed), open(rp, "w"), indent=1)
            vout.append({"replay": rp, "message": v["message"][:2000], "case": v["case"][:2000], "body": v["body"]})
            print("  %s\n    %s" % (v["case"], v["message"]))
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            rc = 1
        write_evidence(prop, C.evidence(prop, tier, seed, time.time() - t0, cov, vout, notes, spec))
        print("%s %s seed=%d: %s; %d cases (%d enumerated, %d distinct non-trivial) in %.1f s" % (prop, tier, seed, "VIOLATED" if rc else "held", cov["evaluations"], cov["enumerated"], cov["distinct"], time.time() - t0))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return rc

def replay(path):
    r = json.load(open(path)); prop = r["property"]; spec = C.CHECKS[prop]
    work = tempfile.mkdtemp(prefix="verif_replay_")
    try:
        b = Build(work, prop, r["tier"], r["seed"])
        b.replay = r
        try:
            parts = spec["run"](b, spec)
        except Broken as e:
            print(e); print("VIOLATION property=%s replay=%s" % (prop, path)); return 1
        if r["body"] == "build":
            print("builds now"); return 0
        for label, (rc, out) in parts:
            if label == r.get("label", ""):
                print(out)
                if rc:
                    print("VIOLATION property=%s replay=%s" % (prop, path))
                return 1 if rc else 0
        print("nothing to replay"); return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)

def execute(b, exe, label="", limit=None):
    """run an engine binary, or replay one case in it"""
    r = getattr(b, "replay", None)
    if r:
        if r.get("label", "") != label:
            return (label, (0, ""))
        return (label, sh(exe_argv(exe) + ["--tier", b.tier, "--replay", r["body"]] + [str(x) for x in r["choices"]]))
    return (label, run_binary(b, exe, os.path.join(b.dir, "run_" + (label or "main")), limit or (3000 if b.thorough else 420)))

C.execute = execute
C.Broken = Broken
C.sh = sh
if __name__ == "__main__":
    sys.exit(main())
