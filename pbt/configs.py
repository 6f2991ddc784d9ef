"""Posit formats the checks instantiate: every width 4..64, with exponent size, holder, fraction type and special-value
convention rotated, plus common formats and a few chosen by the seed."""
import random
HOLD = ["int8_t", "int16_t", "int32_t", "int64_t"]
FT = ["uint8_t", "uint16_t", "uint32_t", "uint64_t"]
BITS = [8, 16, 32, 64]
SPEC = ["WithNan", "WithInf", "WithNanInf"]

def cfg_line(c):
    return ", ".join(str(x) for x in c)

def admissible(n, es):
    return 0 <= es <= n - 3 and es <= 55

def mk(n, es, hi, fi, si):
    hs = [i for i in range(4) if BITS[i] >= n]
    h = hs[hi % len(hs)]; f = hs[fi % len(hs)]
    return (HOLD[h], n, es, FT[f], SPEC[si % 3])

def posit_configs(seed, extra=4, eszero=False, maxn=64, minn=4, thorough=False, dense=True):
    out, seen = [], set()
    def add(c):
        if c not in seen and minn <= c[1] <= maxn and admissible(c[1], c[2]):
            seen.add(c); out.append(c)
    if eszero:
        for n in range(4, 65):
            add(mk(n, 0, n, n // 2, n))
        for n in (8, 16, 32, 64):
            for s in range(3):
                add(mk(n, 0, 0, s, s))
    else:
        for n in range(4, 65):
            cand = [0, 1, 2, 3, n - 3, n // 2, n - 4, 5]
            es = [e for e in cand if admissible(n, e)]
            add(mk(n, es[(n * 5) % len(es)], n // 3, n // 2, n))
        # common formats, all conventions, holders exactly as wide and wider
        for (n, es) in [(8, 0), (8, 1), (8, 2), (16, 1), (16, 2), (32, 2), (32, 3), (64, 2), (64, 3)]:
            for s in range(3):
                add(mk(n, es, 0 if s != 1 else 1, s, s))
        add(("int32_t", 28, 5, "uint32_t", "WithNan")); add(("int32_t", 32, 3, "uint64_t", "WithNan"))
        add(("int16_t", 10, 0, "uint16_t", "WithNan")); add(("int16_t", 12, 0, "uint16_t", "WithNan")); add(("int16_t", 12, 1, "uint32_t", "WithInf"))
        add(("int8_t", 8, 5, "uint8_t", "WithNanInf")); add(("int8_t", 4, 1, "uint8_t", "WithNanInf")); add(("int8_t", 5, 2, "uint8_t", "WithInf"))
        add(("int8_t", 6, 0, "uint8_t", "WithNan")); add(("int8_t", 7, 3, "uint64_t", "WithNan")); add(("int64_t", 8, 1, "uint8_t", "WithNan"))
        add(("int32_t", 32, 29, "uint32_t", "WithNan")); add(("int64_t", 64, 55, "uint64_t", "WithInf")); add(("int64_t", 64, 0, "uint64_t", "WithNan"))
        add(("int16_t", 16, 13, "uint16_t", "WithInf")); add(("int16_t", 16, 0, "uint16_t", "WithNanInf")); add(("int32_t", 32, 0, "uint32_t", "WithNan"))
    rnd = random.Random(seed * 7919 + 13)
    n0 = len(out); want = n0 + extra + (40 if thorough else 0)
    while len(out) < want:
        n = rnd.randint(minn, maxn)
        add(mk(n, 0 if eszero else min(rnd.randint(0, n - 3), rnd.randint(0, 55)), rnd.randint(0, 3), rnd.randint(0, 3), rnd.randint(0, 2)))
        if len(seen) > 4000: break
    return out
