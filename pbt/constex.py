"""Generates constant expressions over posits; each is evaluated by the compiler and again at run time."""
import os, random
UN = "neg abs sabs inv half twice next prev pred unpack low relow refull uinv uneg ur fbits".split()
BIN = "add sub mul div eq lt mn mx uadd umul udiv".split()
TER = "fma_ chain dot".split()
FIN1 = "toi".split()
ES0 = "sigm softp urm urd".split()
OTHER = "fromi frombits cst".split()
BITS = {"int8_t": 8, "int16_t": 16, "int32_t": 32, "int64_t": 64}

def pattern(r, n):
    m = r.randrange(6)
    if m <= 1: v = r.getrandbits(n)
    elif m == 2: v = r.choice([0, 1, 1 << (n - 2), (1 << (n - 1)) - 1, 1 << (n - 1), (1 << (n - 2)) | (1 << (n - 3)), (1 << (n - 1)) - 2, 3 << max(0, n - 4)]) + r.randint(-2, 2)
    elif m == 3: v = (1 << r.randrange(n)) - 1 << r.randrange(n)
    elif m == 4: v = (1 << (n - 2)) + r.randint(-(1 << max(1, n // 2)), 1 << max(1, n // 2))
    else: v = r.getrandbits(n) >> r.randrange(n)
    if r.randrange(2): v = -v
    v &= (1 << n) - 1
    return v - (1 << n) if v >> (n - 1) else v

def related(r, n, a):
    m = r.randrange(6)
    v = a + r.randint(-2, 2) if m == 0 else -a + r.randint(-2, 2) if m == 1 else pattern(r, n)
    v &= (1 << n) - 1
    return v - (1 << n) if v >> (n - 1) else v

def operands(r, cfg, op):
    n, es, spec = cfg[1], cfg[2], cfg[4]
    a = pattern(r, n); b = related(r, n, a); c = related(r, n, b)
    if op in ES0: a = abs(a) % ((1 << (n - 2)) + 1) if op in ("urm", "urd") else a
    if op == "fromi": a = r.choice([r.getrandbits(32) - (1 << 31), r.randint(-300, 300), (1 << r.randrange(31)) + r.randint(-1, 1), 0, -(1 << 31), (1 << 31) - 1])
    if op == "frombits": a = r.choice([r.getrandbits(32), (r.getrandbits(1) << 31) | (r.randrange(256) << 23) | r.choice([0, 1, (1 << 23) - 1, r.getrandbits(23)]), 0x7f800000, 0xff800000, 0x7fc00000, 0, 0x80000000, 1, 0x3f800000])
    if op == "cst": a = r.randrange(12)
    top = {-(1 << (n - 1))} | ({-(1 << (n - 1)) + 1, (1 << (n - 1)) - 1} if spec == "WithNanInf" else set())
    if (op in FIN1 or op in ES0) and a in top: a = 1
    return a, (0 if op in UN + FIN1 + ES0 + OTHER else b), (c if op in TER else 0)

def lit(v):
    return "(-9223372036854775807ll-1)" if v == -(1 << 63) else "%dll" % v

def generate(seed, cfgs, per):
    """[(cfg, op, [operands])]"""
    out = []
    for cfg in cfgs:
        for op in UN + BIN + TER + FIN1 + OTHER + (ES0 if cfg[2] == 0 else []):
            r = random.Random("%s %s %s" % (seed, cfg, op)); seen = []
            for _ in range(per):
                t = operands(r, cfg, op)
                if t not in seen: seen.append(t)
            out.append((cfg, op, seen))
    return out

def source(groups, fn):
    t = '#define CEX_IMPL\n#include "cex.hpp"\n'; body = ""
    for i, (cfg, op, cs) in enumerate(groups):
        T, n, es, ft, spec = cfg; P = "Posit<%s, %d, %d, %s, PositSpec::%s>" % (T, n, es, ft, spec)
        t += "typedef O<%s, %s> G%d;\nstatic constexpr int64_t A%d[][4] = {\n%s};\n" % (P, T, i, i, "".join(" {%s, %s, %s, G%d::%s(%s, %s, %s)},\n" % (lit(a), lit(b), lit(c), i, op, lit(a), lit(b), lit(c)) for a, b, c in cs))
        body += '  for (auto& x : A%d) g_cases.push_back(CCase{"%s", "%s", x[0], x[1], x[2], x[3], &G%d::%s});\n' % (i, P, op, i, op)
    return t + "void %s() {\n%s}\n" % (fn, body)
