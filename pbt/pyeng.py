"""The engine (choice sequences, shrinking, replay) for checks of Python code: same command line and output files as engine.cpp."""
import json, multiprocessing, os, random, signal, sys, time
SHARDS = 8

class Fail(Exception): pass
class Discard(Exception): pass

def fail(fmt, *a):
    raise Fail(fmt % a if a else fmt)

class Src:
    """a source of choices: random when generating, a recorded list when replaying (0 when it is used up)"""
    def __init__(self, rnd=None, given=None):
        self.rnd, self.given, self.rec, self.text = rnd, given, [], ""
        self.counted, self.nontrivial, self.key, self.cls = False, False, None, []
    def below(self, n):
        i = len(self.rec)
        if self.given is not None:
            v = self.given[i] % n if i < len(self.given) else 0
        else:
            v = self.rnd.randrange(n)
        self.rec.append(v)
        return v
    def case(self, text, nontrivial, key=None, *cls):
        self.counted, self.nontrivial, self.text, self.key, self.cls = True, nontrivial, text, key if key is not None else text, cls

class Hang(BaseException): pass
def on_alarm(sig, frame): raise Hang()

def attempt(fn, s):
    signal.signal(signal.SIGALRM, on_alarm); signal.alarm(60)
    try:
        fn(s)
        return None
    except Hang:
        return "does not end within 60 s"
    except Fail as e:
        return str(e)
    except Discard:
        return None
    except RecursionError as e:
        return "raised RecursionError"
    except Exception as e:                     # the code under test raised where it should not
        return "raised %s: %s" % (type(e).__name__, e)
    finally:
        signal.alarm(0)

def shrink(fn, cur, seconds=15):
    end = time.time() + seconds
    def bad(c):
        s = Src(given=c)
        return s.rec if attempt(fn, s) is not None else None
    def smaller(a, b): return (len(a), a) < (len(b), b)
    progress = True
    while progress and time.time() < end:
        progress = False
        for ln in range(min(8, len(cur)), 0, -1):
            i = 0
            while i + ln <= len(cur) and time.time() < end:
                u = bad(cur[:i] + cur[i + ln:])
                if u is not None and smaller(u, cur): cur = u; progress = True
                else: i += 1
        i = 0
        while i < len(cur) and time.time() < end:
            lo, hi = 0, cur[i]
            for v in [0, 1, 2] + [cur[i] // 2, cur[i] - 1]:
                if i < len(cur) and 0 <= v < cur[i]:
                    u = bad(cur[:i] + [v] + cur[i + 1:])
                    if u is not None and smaller(u, cur): cur = u; progress = True
            i += 1
    return cur

def worker(check, shard, seed, deadline, scale, thorough, out):
    sys.stdout = open(os.devnull, "w")
    hashes, fails, bodies, exhnt = set(), [], [], 0
    for bi, b in enumerate(check["bodies"]):
        r = dict(evals=0, nontriv=0, exh=0, discards=0, budget_hit=0, cls=[0] * len(b["classes"]), samples=[])
        failed = False
        def account(s, exh):
            nonlocal exhnt
            r["evals"] += 1; r["exh"] += exh
            if not s.counted: r["discards"] += 1
            elif s.nontrivial:
                r["nontriv"] += 1
                if exh: exhnt += 1
                else: hashes.add(hash((bi, s.key)))
            for c in s.cls: r["cls"][b["classes"].index(c)] += 1
            if s.text and len(r["samples"]) < 6 and r["evals"] % 97 == 13: r["samples"].append(s.text)
        for i, given in enumerate(b.get("exhaustive", lambda t: ())(thorough)):
            if i % SHARDS != shard: continue
            s = Src(given=given)
            m = attempt(b["fn"], s)
            if m is not None: fails.append((bi, s.rec)); failed = True; break
            account(s, 1)
            if r["evals"] % 256 == 0 and time.time() > deadline: r["budget_hit"] = 1; break
        total = int((b["thorough"] if thorough else b["quick"]) * scale) // SHARDS
        for i in range(total):
            if failed: break
            s = Src(rnd=random.Random("%d %d %d" % (seed, bi, i * SHARDS + shard)))
            m = attempt(b["fn"], s)
            if m is not None: fails.append((bi, s.rec)); break
            account(s, 0)
            if i % 256 == 0 and time.time() > deadline: r["budget_hit"] = 1; break
        bodies.append(r)
    json.dump(dict(fail=len(fails), exh_nontriv=exhnt, bodies=bodies), open(os.path.join(out, "w%d.json" % shard), "w"))
    json.dump(dict(hashes=sorted(hashes), fails=fails), open(os.path.join(out, "w%d.raw" % shard), "w"))

def main(check, argv):
    opt = dict(out=".", seed="1", tier="quick", scale="1", deadline="300"); i = 0; rp = None
    while i < len(argv):
        a = argv[i]
        if a == "--replay": rp = (argv[i + 1], [int(x) for x in argv[i + 2:]]); break
        opt[a[2:]] = argv[i + 1]; i += 2
    thorough = opt["tier"] == "thorough"
    if rp:
        for b in check["bodies"]:
            if b["name"] == rp[0]:
                s = Src(given=rp[1]); o, sys.stdout = sys.stdout, open(os.devnull, "w")
                m = attempt(b["fn"], s); sys.stdout = o
                print("%s\ncase: %s\n%s" % ("FAILS" if m is not None else "passes", s.text, m or ""))
                return 1 if m is not None else 0
        print("no such body"); return 2
    t0 = time.time(); out = opt["out"]
    ps = [multiprocessing.Process(target=worker, args=(check, w, int(opt["seed"]), t0 + float(opt["deadline"]), float(opt["scale"]), thorough, out)) for w in range(SHARDS)]
    for p in ps: p.start()
    for w, p in enumerate(ps):
        p.join(float(opt["deadline"]) + 120)
        if p.is_alive(): p.kill(); p.join()
    raws, failures, seen = [], [], set()
    for w in range(SHARDS):
        f = os.path.join(out, "w%d.raw" % w)
        if not os.path.exists(f):
            failures.append(dict(body=check["bodies"][0]["name"], hits=3, message="worker %d ended without a result (hang or crash)" % w, case="", choices=[])); continue
        raws.append(json.load(open(f)))
    so, sys.stdout = sys.stdout, open(os.devnull, "w")
    for bi, ch in sorted((x[0], x[1]) for r in raws for x in r["fails"]):
        if bi in seen: continue
        seen.add(bi); b = check["bodies"][bi]
        mn = shrink(b["fn"], ch); hits = 0
        for _ in range(3):
            s = Src(given=mn); m = attempt(b["fn"], s)
            if m is not None: hits += 1; msg, text = m, s.text
        failures.append(dict(body=b["name"], hits=hits, message=msg if hits else "", case=text if hits else "", choices=mn))
    sys.stdout = so
    hs = set(h for r in raws for h in r["hashes"])
    json.dump(dict(distinct_generated=len(hs), rule=check["rule"], wall=time.time() - t0, assumptions=[],
                   bodies=[dict(name=b["name"], classes=b["classes"]) for b in check["bodies"]], failures=failures), open(os.path.join(out, "summary.json"), "w"))
    return 1 if failures else 0
