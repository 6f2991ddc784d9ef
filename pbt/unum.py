#!/usr/bin/env python3
"""P33: scripts/punum.py (the unum 2.0 lattice) against an independent model of the same lattice.
usage: unum.py SCRIPTS_DIR <engine options>"""
import bisect, contextlib, io, math, struct, sys
from fractions import Fraction as F
import pyeng
from pyeng import Fail, fail
sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
with contextlib.redirect_stdout(io.StringIO()):
    import punum

# ---------------------------------------------------------------- the model
# A lattice with 8n cells: even cell = one exact value (0, +-e, +-1/e or the single infinity), odd cell = the open
# interval between its neighbours, in the order 0 .. positive .. infinity .. negative .. back to 0.
INF = "inf"
class Model:
    def __init__(self, exacts):
        ex = list(exacts); self.ex = ex
        self.n2 = 8 * len(ex); self.rational = all(not isinstance(x, float) for x in ex)
        ex = [F(x) for x in ex] if self.rational else ex
        pos = sorted(set(ex) | set(1 / x for x in ex))
        assert len(pos) == 2 * len(ex) - 1
        self.pos = pos
        self.val = [F(0)] + pos + [INF] + [-x for x in reversed(pos)]
        assert len(self.val) == self.n2 // 2
        self.sorted = [-x for x in reversed(pos)] + [F(0)] + pos        # finite values in order
        self.idx = [2 * (i - len(pos)) % self.n2 for i in range(len(self.sorted))]
    def cell(self, q):
        """the cell holding the finite value q"""
        i = bisect.bisect_left(self.sorted, q)
        if i < len(self.sorted) and self.sorted[i] == q: return self.idx[i]
        if i == 0: return self.n2 // 2 + 1
        return (self.idx[i - 1] + 1) % self.n2
    def ends(self, v):
        """finite cell as (low, low is in, high, high is in); None for an infinite end"""
        if v % 2 == 0: q = self.val[v // 2]; return (q, True, q, True)
        lo, hi = self.val[v // 2], self.val[(v // 2 + 1) % (self.n2 // 2)]
        return (None if lo == INF else lo, False, None if hi == INF else hi, False)
    def hull(self, lo, lc, hi, hc):
        """first and last cell that meet the interval"""
        if lo is None: a = self.n2 // 2 + 1
        else:
            a = self.cell(lo)
            if a % 2 == 0 and not lc: a = (a + 1) % self.n2
        if hi is None: b = self.n2 // 2 - 1
        else:
            b = self.cell(hi)
            if b % 2 == 0 and not hc: b = (b - 1) % self.n2
        return a, (b - a) % self.n2 + 1
    def neg(self, v): return -v % self.n2
    def inv(self, v): return (self.n2 // 2 - v) % self.n2
    def add(self, x, y):
        """(first cell, number of cells) of the smallest bound that contains every sum"""
        h = self.n2 // 2
        if x == h and y == h: return 0, self.n2
        if x == h or y == h: return h, 1
        a, b = self.ends(x), self.ends(y)
        return self.hull(None if a[0] is None or b[0] is None else a[0] + b[0], a[1] and b[1], None if a[2] is None or b[2] is None else a[2] + b[2], a[3] and b[3])
    def mul(self, x, y):
        h = self.n2 // 2
        if (x == h and y == 0) or (x == 0 and y == h): return 0, self.n2
        if x == h or y == h: return h, 1
        if x == 0 or y == 0: return 0, 1
        sx, sy = x > h, y > h
        a = self.ends(self.neg(x) if sx else x); b = self.ends(self.neg(y) if sy else y)
        f, n = self.hull(a[0] * b[0], a[1] and b[1], None if a[2] is None or b[2] is None else a[2] * b[2], a[3] and b[3])
        return ((-(f + n - 1)) % self.n2, n) if sx != sy else (f, n)
    def text(self, v):
        if v == self.n2 // 2: return "inf"
        e = self.ends(v)
        return str(e[0]) if v % 2 == 0 else "(%s,%s)" % ("-inf" if e[0] is None else e[0], "inf" if e[2] is None else e[2])

BUILTIN = {
    "p1": [F(1)], "p2": [F(1), F(2)], "p4": [F(1), F(2), F(4), F(8)], "p8": [F(2) ** k for k in range(8)],
    "ppi8": sorted([1, math.pi, 2 * math.pi, 3 * math.pi / 2, math.pi / 2, 3 / 4.0 * math.pi, math.pi / 3.0, math.pi * 2 / 3.0]),
    "p8a": sorted(F(2) ** n * F(4 + m, 4) for n in range(8) for m in range(4)),
    "p16a": sorted(F(2) ** n * F(256 + m, 256) for n in range(32) for m in range(256)),
}
CACHE = {}
def quiet(f, *a):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a)
def builtin(name):
    if name not in CACHE:
        CACHE[name] = (name, quiet(getattr(punum.Alphabet, name)), Model(BUILTIN[name]))
    return CACHE[name]
def rational(s, small=False):
    k = s.below(3)
    if k == 0: return F(1 + s.below(6 if small else 20))
    if k == 1: return F(1 + s.below(30), 1 + s.below(12))
    return F(1 + s.below(10 ** 6), 1 + s.below(10 ** 6))
def make_alphabet(s, rational_only=False):
    k = s.below(10)
    if k < 6:
        n = ["p1", "p2", "p4", "p8", "p8a", "p4" if rational_only else "ppi8"][k]
        return builtin(n)
    if k == 6 and s.below(8) == 0: return builtin("p16a")
    n = 1 << s.below(5); step = s.below(3); x = F(1); pts = [1 if step == 0 else F(1)]
    while len(pts) < n:
        x = x + (1 + s.below(4)) if step == 0 else x * F(2 + s.below(3) + (1 + s.below(3)), 2 + s.below(3)) if step == 2 else x + rational(s, True)
        if x <= pts[-1]: x = F(pts[-1]) + 1
        pts.append(int(x) if step == 0 and x == int(x) else x)
    name = "[%s]" % " ".join(map(str, pts))
    if name not in CACHE:
        if len(CACHE) > 3000: CACHE.clear()
        CACHE[name] = (name, quiet(punum.Alphabet, tuple(pts)), Model(pts))
    return CACHE[name]
def cell(s, m):
    k = s.below(4)
    if k == 0: return (s.below(9) - 4) % m.n2
    if k == 1: return (m.n2 // 2 + s.below(9) - 4) % m.n2
    if k == 2: return (m.n2 // 4 * (1 + 2 * s.below(2)) + s.below(9) - 4) % m.n2
    return s.below(m.n2)

def is_pnum(p, A, v, what):
    if not isinstance(p, punum.Pnum): fail("%s is a %s and not a Pnum", what, type(p).__name__)
    if p.base is not A: fail("%s belongs to another alphabet", what)
    if p.v != v: fail("%s is cell %r, expected %d", what, p.v, v)
def is_bound(p, A, m, exp, what):
    """exp = (first, count); count 0 is the empty bound, count n2 everything"""
    if not isinstance(p, punum.Pbound): fail("%s is a %s and not a Pbound", what, type(p).__name__)
    f, n = exp
    if bool(p.empty) != (n == 0): fail("%s: empty is %r, expected %r", what, p.empty, n == 0)
    if bool(p.iseverything()) != (n == m.n2): fail("%s: iseverything() is %r, expected %r", what, p.iseverything(), n == m.n2)
    if n == 0: return
    a, b = p.v
    if a.base is not A or b.base is not A or p.base is not A: fail("%s belongs to another alphabet", what)
    if not (0 <= a.v < m.n2 and 0 <= b.v < m.n2): fail("%s has a cell out of range", what)
    if n == m.n2: return
    if (a.v, (b.v - a.v) % m.n2 + 1) != (f, n): fail("%s goes from cell %d (%s) to %d (%s), expected %d (%s) to %d (%s)", what, a.v, m.text(a.v), b.v, m.text(b.v), f, m.text(f), (f + n - 1) % m.n2, m.text((f + n - 1) % m.n2))

# ---------------------------------------------------------------- the checks
def value(s, m):
    """something to convert: near the values of the lattice, anywhere, and of several types"""
    k = s.below(8)
    if k == 0: return (s.below(41) - 20)
    if k == 1: return F(s.below(2 ** 20) - 2 ** 19, 1 + s.below(2 ** 10))
    if k == 2:
        b = s.below(2 ** 64)
        if b % 8 == 7: return (math.inf, -math.inf, math.nan, -0.0)[s.below(4)]
        return struct.unpack("<d", struct.pack("<Q", b))[0]
    if k == 3: return float(s.below(2001) - 1000) / 2 ** s.below(12)
    q = m.sorted[s.below(len(m.sorted))]
    j = s.below(5)
    if j == 0: return q
    if j == 1: return float(q)
    if j == 2 and m.rational: return F(q) + F((1, -1)[s.below(2)], 1 << (4 + s.below(90)))
    if j == 3: return math.nextafter(float(q), (math.inf, -math.inf)[s.below(2)])
    i = s.below(len(m.sorted)); 
    return (F(q) + F(m.sorted[i])) / 2 if m.rational else (q + float(m.sorted[i])) / 2
def convert(s):
    name, A, m = make_alphabet(s); x = value(s, m)
    s.case("alphabet %s: convert(%r)" % (name, x), True, None, *(["whole" if isinstance(x, int) else "float" if isinstance(x, float) else "rational"]))
    if isinstance(x, float) and math.isnan(x):
        try: A.convert(x)
        except Exception: return
        fail("converting a NaN did not raise")
    exp = m.n2 // 2 if isinstance(x, float) and math.isinf(x) else m.cell(x)
    p = A.convert(x)
    is_pnum(p, A, exp, "the result")
def unary(s):
    name, A, m = make_alphabet(s); v = cell(s, m); h = m.n2 // 2
    s.case("alphabet %s: cell %d = %s" % (name, v, m.text(v)), v not in (0, h), None, "exact" if v % 2 == 0 else "interval")
    x = A.rawpnum(v + m.n2 * s.below(2)); is_pnum(x, A, v, "rawpnum")
    is_pnum(-x, A, m.neg(v), "-x"); is_pnum(~x, A, m.inv(v), "~x"); is_pnum(punum.neg(x), A, m.neg(v), "neg(x)"); is_pnum(punum.inv(x), A, m.inv(v), "inv(x)")
    is_pnum(x.abs(), A, m.neg(v) if v > h else v, "abs"); is_pnum(x.next(), A, (v + 1) % m.n2, "next"); is_pnum(x.prev(), A, (v - 1) % m.n2, "prev")
    is_pnum(A.next(v), A, (v + 1) % m.n2, "Alphabet.next"); is_pnum(A.prev(v), A, (v - 1) % m.n2, "Alphabet.prev")
    is_pnum(x.fromindex(v), A, v, "fromindex"); i = s.below(len(m.ex)); is_pnum(A.fromexactsindex(i), A, m.n2 // 4 + 2 * i, "fromexactsindex"); is_pnum(x.fromexactsindex(i), A, m.n2 // 4 + 2 * i, "Pnum.fromexactsindex")
    if list(x.exacts()) != m.ex: fail("exacts")
    for o in (A, x):
        is_pnum(o.one(), A, m.n2 // 4, "one"); is_pnum(o.zero(), A, 0, "zero"); is_pnum(o.inf(), A, h, "inf")
    if (A.n, A.n2, A.pnnvalues(), A.pnnmask(), A.pnmod(v + m.n2)) != (len(m.ex), m.n2, m.n2, m.n2 - 1, v): fail("the sizes of the alphabet")
    for n, e in (("isexact", v % 2 == 0), ("iszero", v == 0), ("isinf", v == h), ("isstrictlynegative", v > h), ("isfractional", 0 < min(v, m.n2 - v) < m.n2 // 4)):
        if bool(getattr(x, n)()) != e: fail("%s() is %r, expected %r", n, getattr(x, n)(), e)
    if v % 2 == 0:
        q = x.exactvalue()
        if (q != math.inf) if v == h else (q != m.val[v // 2]): fail("exactvalue() is %r, expected %s", q, m.text(v))
        if v != h: is_pnum(A.convert(q), A, v, "convert(exactvalue())")
        t = str(x)
        if m.rational and t != "pnum(%s)" % m.text(v): fail("str() is %s, expected pnum(%s)", t, m.text(v))
    elif "?" not in str(x): fail("str() of an interval is %s", str(x))
OPS = [("+", lambda a, b: a + b, lambda m, x, y: m.add(x, y)), ("-", lambda a, b: a - b, lambda m, x, y: m.add(x, m.neg(y))),
       ("*", lambda a, b: a * b, lambda m, x, y: m.mul(x, y)), ("/", lambda a, b: a / b, lambda m, x, y: m.mul(x, m.inv(y)))]
def binary_on(s, alph):
    name, A, m = alph; x, y = cell(s, m), cell(s, m); o, f, e = OPS[s.below(4)]; h = m.n2 // 2
    r = e(m, x, y)
    s.case("alphabet %s: %s %s %s" % (name, m.text(x), o, m.text(y)), x not in (0, h) and y not in (0, h), (name, x, o, y), o, *(["interval operand"] if (x | y) & 1 else []), *(["several cells"] if r[1] > 1 else []))
    is_bound(f(A.rawpnum(x), A.rawpnum(y)), A, m, r, "the result")
def binary(s): binary_on(s, make_alphabet(s, True))
def small(s): binary_exh(s)
def binary_exh(s):
    name, A, m = builtin(["p1", "p2", "p4", "p8"][s.below(4)]); x, y = s.below(m.n2), s.below(m.n2); o, f, e = OPS[s.below(4)]; h = m.n2 // 2
    s.case("alphabet %s: %s %s %s" % (name, m.text(x), o, m.text(y)), x not in (0, h) and y not in (0, h), (name, x, o, y), o)
    is_bound(f(A.rawpnum(x), A.rawpnum(y)), A, m, e(m, x, y), "the result")
def all_small(thorough):
    for k, n in enumerate((8, 16, 32, 64) if thorough else (8, 16, 32)):
        for x in range(n):
            for y in range(n):
                for o in range(4): yield [k, x, y, o]
def bound_text(m, f, n):
    """what a bound prints: [v], (a,b), [a,b) ..."""
    if n == 0: return "[]"
    if n == m.n2: return "[all]"
    l = (f + n - 1) % m.n2; t = lambda v: "inf" if v % m.n2 == m.n2 // 2 else str(m.val[v % m.n2 // 2])
    if n == 1 and f % 2 == 0: return "[%s]" % t(f)
    return ("[" + t(f) if f % 2 == 0 else "(" + t(f - 1)) + "," + (t(l) + "]" if l % 2 == 0 else t(l + 1) + ")")
def bounds(s):
    name, A, m = make_alphabet(s); a, b = cell(s, m), cell(s, m); n2 = m.n2; k = s.below(12); B = punum.Pbound; h = n2 // 2
    if k < 7: p, e = B(A.rawpnum(a), A.rawpnum(b)), (a, (b - a) % n2 + 1)
    elif k == 7: p, e = B(A.rawpnum(a)), (a, 1)
    elif k == 8: p, e = B.empty(A), (0, 0)
    elif k == 9: p, e = B.everything(A), (0, n2)
    elif k == 10: p, e = (B.finite(A), (h + 1, n2 - 1)) if b & 1 else (B.nonzero(A), (1, n2 - 1))
    else: p, e = [(B.inf(A), (h, 1)), (B.one(A), (n2 // 4, 1)), (B.zero(A), (0, 1))][b % 3]
    s.case("alphabet %s: bound of %d cells from %d (%s)" % (name, e[1], e[0], m.text(e[0])), 0 < e[1] < n2, None, "empty or all" if e[1] in (0, n2) else "one cell" if e[1] == 1 else "several cells")
    is_bound(p, A, m, e, "the bound")
    f, n = e; l = (f + n - 1) % n2
    is_bound(p.complement(), A, m, ((l + 1) % n2, n2 - n) if n else (0, n2), "the complement")
    is_bound(-p, A, m, (m.neg(l), n), "-b"); is_bound(~p, A, m, (m.inv(l), n), "~b")
    is_bound(p.complement().complement(), A, m, e, "the complement of the complement")
    if n2 <= 256:
        c = [x.v for x in p.iter()]
        if n == n2: c = sorted(c); f = 0
        if c != [(f + i) % n2 for i in range(n)]: fail("iter() gives the cells %r, expected %d from %d", c[:20], n, f)
    if m.rational:
        t = str(p)
        if t != bound_text(m, f, n): fail("str() is %s, expected %s", t, bound_text(m, f, n))
def construct(s):
    n = 1 + s.below(9); bad = None; pts = [F(1)]
    for _ in range(n - 1): pts.append(pts[-1] + F(1 + s.below(5), 1 + s.below(3)))
    k = s.below(5)
    if n & (n - 1): bad = "the number of points is not a power of two"
    if k == 1: pts[0] = F(1, 2) if s.below(2) else F(2); bad = "does not start with 1"
    if k == 2 and n > 1: i = 1 + s.below(n - 1); pts[i] = pts[i - 1] if s.below(2) else pts[i - 1] - F(1, 2); bad = "not increasing"
    s.case("Alphabet(%s): %s" % (" ".join(map(str, pts)), bad or "valid"), True, None, "invalid" if bad else "valid")
    try: A = quiet(punum.Alphabet, tuple(pts))
    except Exception as e:
        if bad: return
        raise
    if bad: fail("accepted although it is wrong: %s", bad)
    if list(A.eexacts) != pts: fail("the exact points changed")
CHECK = dict(rule="an operand is neither zero nor infinity; a bound is neither empty nor full; a conversion or a construction always counts", bodies=[
    dict(name="convert", fn=convert, quick=24000, thorough=2000000, classes=["whole", "float", "rational"]),
    dict(name="unary", fn=unary, quick=12000, thorough=800000, classes=["exact", "interval"]),
    dict(name="binary", fn=binary, quick=24000, thorough=2000000, classes=["+", "-", "*", "/", "interval operand", "several cells"]),
    dict(name="small lattices", fn=small, quick=0, thorough=0, exhaustive=all_small, classes=["+", "-", "*", "/"]),
    dict(name="bounds", fn=bounds, quick=16000, thorough=1000000, classes=["empty or all", "one cell", "several cells"]),
    dict(name="construct", fn=construct, quick=4000, thorough=100000, classes=["valid", "invalid"]),
])
if __name__ == "__main__":
    sys.exit(pyeng.main(CHECK, sys.argv[2:]))
