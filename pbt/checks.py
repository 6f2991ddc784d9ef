"""How each property's check is built and run."""
import os, shutil
from configs import posit_configs, cfg_line

def posit_check(ops, src=None, eszero=False, flags=(), hflags=(), lflags=(), extra=24, cfg=None, chunk=3, impls=(), srcs=()):
    def run(b, spec):
        cfgs = cfg(b) if cfg else posit_configs(b.seed, extra=extra, eszero=eszero, thorough=b.thorough)
        objs = b.posit_objs(cfgs, ops, chunk=chunk, flags=flags)
        objs += [b.cc(os.path.join(b.here, "impl", x + ".cpp"), "impl_%s.o" % x) for x in impls] + [b.cc(os.path.join(b.repo, "src", x + ".cpp"), "src_%s.o" % x) for x in srcs]
        objs.append(b.harness(os.path.join(b.here, "engine.cpp"), "engine.o"))
        objs.append(b.harness(os.path.join(b.here, "checks", (src or b.prop) + ".cpp"), "check.o", flags=hflags))
        b.run_jobs()
        exe = b.link(objs, "check", flags=lflags)
        return [execute(b, exe)]
    return run

def custom_check(impls=None, hflags=(), lflags=(), flags=(), limit=None):
    """one harness file, implementation files compiled against the repository"""
    def run(b, spec):
        objs = []
        for i, im in enumerate(impls or [b.prop + ".cpp"]):
            name, kw = im if isinstance(im, tuple) else (im, {})
            objs.append(b.cc(os.path.join(b.here, "impl", name), "impl%d.o" % i, **dict(dict(flags=flags), **kw)))
        objs.append(b.harness(os.path.join(b.here, "engine.cpp"), "engine.o"))
        objs.append(b.harness(os.path.join(b.here, "checks", b.prop + ".cpp"), "check.o", flags=hflags))
        b.run_jobs()
        exe = b.link(objs, "check", flags=lflags)
        return [execute(b, exe, limit=limit)]
    return run

def variant_check(variants, lflags=(), hflags=()):
    """the same harness linked against the implementation built in several ways (label -> compile options)"""
    def run(b, spec):
        eng = b.harness(os.path.join(b.here, "engine.cpp"), "engine.o")
        chk = b.harness(os.path.join(b.here, "checks", b.prop + ".cpp"), "check.o", flags=hflags)
        objs = [(l, b.cc(os.path.join(b.here, "impl", b.prop + ".cpp"), "impl_%s.o" % l, **kw)) for l, kw in variants]
        b.run_jobs()
        return [execute(b, b.link([o, eng, chk], "check_" + l, flags=lflags), label=l) for l, o in objs]
    return run

MODES = ["WithNan", "WithInf", "WithNanInf"]
BOUNDS = ["-fsanitize=bounds", "-fsanitize-undefined-trap-on-error"]      # an access outside an array ends the run
def tab_flags(cls, es, mode):
    u = cls.upper()
    if mode.startswith("POSITMUL"):      # the deferred-product build
        return ["-DPOSITMUL"] + tab_flags(cls, es, mode[8:])
    return [] if es is None else ["-D%s_SPEC" % u, "-D%s_ES=%d" % (u, es), "-D%s_MODE=PositSpec::%s" % (u, mode)]

def gen_table(b, cls, label, flags=()):
    """build and run the repository's table generator; returns the generated source"""
    o = b.cc(os.path.join(b.repo, "src", cls + "_gen.cpp"), "gen_%s.o" % label, flags=list(flags) + BOUNDS)
    b.run_jobs()
    exe = b.link([o], "gen_" + label)
    tbl = b.path("tbl_%s.cpp" % label)
    rc, out = sh([exe, tbl], timeout=120)
    if rc or not os.path.exists(tbl):
        raise Broken("table generator %s failed (status %d): %s" % (cls, rc, out[-500:]))
    return tbl

def table_check(variants):
    """variants(b) -> [(label, [(class, es or None, mode), ...])]; tables are generated from the tree, then everything is compared"""
    def run(b, spec):
        eng = b.harness(os.path.join(b.here, "engine.cpp"), "engine.o"); todo = []
        vs = variants(b)
        gens = {}
        for label, classes in vs:
            for cls, es, mode in classes:
                l = "%s_%s_%s" % (cls, es, mode); gens[l] = b.cc(os.path.join(b.repo, "src", cls + "_gen.cpp"), "gen_%s.o" % l, flags=tab_flags(cls, es, mode) + BOUNDS)
        b.run_jobs()
        for label, classes in vs:
            regs, objs = "", [eng]
            for cls, es, mode in classes:
                l = "%s_%s_%s" % (cls, es, mode); fl = tab_flags(cls, es, mode)
                exe = b.link([gens[l]], "gen_" + l); tbl = b.path("tbl_%s.cpp" % l)
                rc, out = sh([exe, tbl], timeout=120)
                if rc or not os.path.exists(tbl):
                    raise Broken("table generator %s failed (status %d): %s" % (cls, rc, out[-500:]))
                objs.append(b.cc(tbl, "tbl_%s.o" % l, opt="-O0"))
                objs.append(b.cc(os.path.join(b.repo, "src", cls + ".cpp"), "src_%s.o" % l, flags=fl))
                objs.append(b.cc(os.path.join(b.here, "impl", "TAB.cpp"), "impl_%s.o" % l, flags=fl + ['-DTAB_HDR="%s.hpp"' % cls, "-DTAB_CLASS=" + cls]))
                regs += "R(%s)" % cls
            objs.append(b.harness(os.path.join(b.here, "checks", "TAB.cpp"), "check_%s.o" % label, flags=["-DTAB_REG=" + regs, '-DTAB_PROP="%s"' % b.prop]))
            todo.append((label, objs))
        b.run_jobs()
        return [execute(b, b.link(objs, "check_" + label), label=label) for label, objs in todo]
    return run

def binary8_check():
    """the generator is run for several layouts, and the class linked against each table"""
    def run(b, spec):
        eng = b.harness(os.path.join(b.here, "engine.cpp"), "engine.o"); chk = b.harness(os.path.join(b.here, "checks", b.prop + ".cpp"), "check.o"); todo = []
        lays = [("default", [])] + [("E%dM%d" % (e, 7 - e), ["-DBINARY8_SPEC", "-DBINARY8_EXP=%d" % e, "-DBINARY8_MAN=%d" % (7 - e)]) for e in (4, 3, 6)]
        gens = {l: b.cc(os.path.join(b.repo, "src", "binary8_gen.cpp"), "gen_%s.o" % l, flags=fl + BOUNDS) for l, fl in lays}
        b.run_jobs()
        for l, fl in lays:
            exe = b.link([gens[l]], "gen_" + l); tbl = b.path("tbl_%s.cpp" % l)
            rc, out = sh([exe, tbl], timeout=120)
            if rc or not os.path.exists(tbl):
                raise Broken("table generator binary8 failed (status %d): %s" % (rc, out[-500:]))
            todo.append((l, [eng, chk, b.cc(tbl, "tbl_%s.o" % l, opt="-O0"), b.cc(os.path.join(b.repo, "src", "binary8.cpp"), "src_%s.o" % l, flags=fl), b.cc(os.path.join(b.here, "impl", "P23.cpp"), "impl_%s.o" % l, flags=fl)]))
        b.run_jobs()
        return [execute(b, b.link(o, "check_" + l), label=l) for l, o in todo]
    return run

def simd_check():
    def run(b, spec):
        eng = b.harness(os.path.join(b.here, "engine.cpp"), "engine.o"); chk = b.harness(os.path.join(b.here, "checks", b.prop + ".cpp"), "check.o"); todo = []
        vs = [("default", [])] + [(l, tab_flags("posit8", e, m)) for l, e, m in (("es2_WithNan", 2, "WithNan"), ("es1_WithInf", 1, "WithInf"), ("es0_WithNanInf", 0, "WithNanInf"))]
        gens = {l: b.cc(os.path.join(b.repo, "src", "posit8_gen.cpp"), "gen_%s.o" % l, flags=fl + BOUNDS) for l, fl in vs}
        b.run_jobs()
        for l, fl in vs:
            exe = b.link([gens[l]], "gen_" + l); tbl = b.path("tbl_%s.cpp" % l)
            rc, out = sh([exe, tbl], timeout=120)
            if rc or not os.path.exists(tbl):
                raise Broken("table generator posit8 failed (status %d): %s" % (rc, out[-500:]))
            objs = [eng, chk, b.cc(tbl, "tbl_%s.o" % l, opt="-O0"), b.cc(os.path.join(b.repo, "src", "posit8.cpp"), "src_%s.o" % l, flags=fl), b.cc(os.path.join(b.here, "impl", "P24s.cpp"), "scal_%s.o" % l, flags=fl)]
            for o in ("-O2",) if not b.thorough else ("-O2", "-O0"):
                todo.append((l + o, objs + [b.cc(os.path.join(b.repo, "src", "simdposit8.cpp"), "vsrc_%s%s.o" % (l, o), flags=fl + ["-mavx2"] + (BOUNDS if fl else []), opt=o), b.cc(os.path.join(b.here, "impl", "P24v.cpp"), "vec_%s%s.o" % (l, o), flags=fl + ["-mavx2"] + (BOUNDS if fl else []), opt=o)]))
        b.run_jobs()
        return [execute(b, b.link(o, "check_" + l), label=l) for l, o in todo]
    return run

TRAP = ["-fsanitize=shift-exponent,signed-integer-overflow,integer-divide-by-zero,bounds,float-cast-overflow,null,unreachable,return,vla-bound,bool,enum"]
ONE = ["bithippop.hpp", "fixedtraits.hpp", "floattraits.hpp", "typehelpers.hpp", "unpacked.h", "posit.h"]
def single_header(b):
    """a directory whose headers all come from the one file that makeone.sh makes of a copy of the tree; the script finds stand-ins for the clipboard and for git"""
    d = b.path("one"); inc = os.path.join(d, "include"); shutil.copytree(os.path.join(b.repo, "include"), inc); shutil.copy(os.path.join(b.repo, "makeone.sh"), d); os.makedirs(os.path.join(d, "bin"))
    for n, t in (("pbcopy", "cat >/dev/null"), ("git", "echo 0123456789abcdef0123456789abcdef01234567")):
        p = os.path.join(d, "bin", n)
        with open(p, "w") as f: f.write("#!/bin/sh\n" + t + "\n")
        os.chmod(p, 0o755)
    rc, out = sh(["env", "PATH=%s:%s" % (os.path.join(d, "bin"), os.environ.get("PATH", "/usr/bin:/bin")), "bash", "makeone.sh"], cwd=d, timeout=60); one = os.path.join(d, "posit_one.h")
    if not os.path.exists(one) or not os.path.getsize(one):
        raise Broken("makeone.sh made no posit_one.h (status %d): %s" % (rc, out[-500:]))
    alone = os.path.join(d, "alone"); os.makedirs(alone); shutil.move(one, alone)
    for h in ONE:
        with open(os.path.join(inc, h), "w") as f: f.write("#pragma once\n#include \"once.h\"\n")
    with open(os.path.join(alone, "once.h"), "w") as f: f.write("#pragma once\n#include \"posit_one.h\"\n")
    src = b.write("alone.cpp", '#include "posit_one.h"\nint alone(int x) { Posit<int8_t,8,0,uint8_t,PositSpec::WithNan> a(x), c(0.5f); return (int)(float)(a*c+a/c-a); }\n')
    for cxx in ["g++"] + (["clang++"] if shutil_which("clang++") else []):      # nothing else on the search path
        b.cc(src, "alone_%s.o" % cxx, cxx=cxx, inc=False, flags=["-I" + alone], what="the single header alone")
    b.run_jobs()
    return ["-I" + alone, "-I" + inc]
def builds_check(one=False):
    """the same code in several builds, each a private library loaded by one harness"""
    ops = ["CODEC", "ENCODE", "FROM", "TO", "CMP", "SIGN", "ADD", "MUL", "DIV", "COMPOUND", "SCALE", "STEP", "CONST", "DOT", "UR"]
    def cfgs(b):
        c = [("int8_t", 8, 0, "uint8_t", "WithNan"), ("int8_t", 8, 2, "uint16_t", "WithNanInf"), ("int16_t", 12, 1, "uint32_t", "WithInf"), ("int16_t", 16, 2, "uint16_t", "WithNan"), ("int32_t", 32, 2, "uint32_t", "WithNan"), ("int64_t", 64, 3, "uint64_t", "WithNanInf"), ("int32_t", 20, 0, "uint64_t", "WithInf"), ("int8_t", 5, 2, "uint8_t", "WithInf")]
        return c + posit_configs(b.seed, extra=24 if b.thorough else 4)[-(24 if b.thorough else 4):]
    def run(b, spec):
        hw = ["-mbmi", "-mbmi2", "-mlzcnt", "-mpopcnt"]
        raw = ["-ftrivial-auto-var-init=uninitialized"]      # the code as it is normally built; the other builds fill variables with a pattern
        vs = [("gcc-O0-11", dict(std="c++11", opt="-O0")), ("gcc-O2-14", dict(std="c++14", opt="-O2", flags=raw + ["-flifetime-dse"])), ("gcc-O3-17-bmi", dict(std="c++17", opt="-O3", flags=hw + raw + ["-flifetime-dse"])), ("clang-O2-14", dict(cxx="clang++", std="c++14", opt="-O2", flags=raw)), ("clang-O1-17-bmi", dict(cxx="clang++", std="c++17", opt="-O1", flags=hw)),
              ("gcc-O1-14-ubsan", dict(std="c++14", opt="-O1", flags=TRAP + ["-fsanitize-undefined-trap-on-error"])), ("gcc-O2-14-fpga", dict(std="c++14", opt="-O2", flags=["-DFPGAHLS"])), ("clang-O1-11-ubsan", dict(cxx="clang++", std="c++11", opt="-O1", flags=TRAP + ["-fsanitize-trap=all"]))]
        if b.thorough:
            vs += [("clang-O0-17", dict(cxx="clang++", std="c++17", opt="-O0")), ("gcc-O2-20", dict(std="c++20", opt="-O2")), ("gcc-O0-14-bmi", dict(std="c++14", opt="-O0", flags=hw)), ("gcc-Os-17", dict(std="c++17", opt="-Os"))]
        if one:
            fi = single_header(b)
            vs = [("headers", dict(std="c++14", opt="-O1"))] + [("single-" + l, dict(k, inc=False, flags=k.get("flags", []) + fi)) for l, k in vs if l in ("gcc-O2-14", "clang-O1-17-bmi") + (("gcc-O0-11", "gcc-O2-14-fpga", "gcc-O2-20") if b.thorough else ())]
        if not cpu_has("bmi1", "bmi2"):
            vs = [v for v in vs if "bmi" not in v[0]]
        vs = [v for v in vs if not ("clang" in v[0] and not shutil_which("clang++"))]
        pic = ["-fPIC", "-fvisibility=hidden", "-fvisibility-inlines-hidden", "-ffp-contract=off"]
        cs = cfgs(b); libs = []
        for l, kw in vs:
            fl = list(kw.get("flags", [])) + pic + (["-fno-gnu-unique"] if kw.get("cxx", "g++") == "g++" else [])
            kw = dict(kw, flags=fl); objs = b.posit_objs(cs, ops, chunk=4, tag="cfg_" + l.replace("-", "_"), reg=kw, **kw)
            libs.append((l, kw.get("cxx", "g++"), objs + [b.cc(os.path.join(b.here, "impl", "P25.cpp"), "impl_%s.o" % l, **kw)]))
        eng = b.harness(os.path.join(b.here, "engine.cpp"), "engine.o")
        chk = b.harness(os.path.join(b.here, "checks", "P25.cpp"), "check.o", flags=["-DPID=\"%s\"" % b.prop, "-DBUILDS=" + ",".join('"%s"' % l for l, _, _ in libs)])
        b.run_jobs()
        for l, cxx, objs in libs:
            b.link(objs, "lib_%s.so" % l, flags=["-shared"], cxx=cxx)
        return [execute(b, b.link([eng, chk], "check", flags=["-ldl"]))]
    return run

def constexpr_check():
    """compile-time values against run-time values of the same expressions. An operation the compiler cannot evaluate at all is
    noted; one that it evaluates for simple operands and rejects for others is a failure."""
    import constex
    cfgs = [("int8_t", 8, 0, "uint8_t", "WithNan"), ("int8_t", 8, 2, "uint16_t", "WithNanInf"), ("int16_t", 12, 1, "uint32_t", "WithInf"), ("int16_t", 16, 2, "uint16_t", "WithNan"), ("int32_t", 32, 2, "uint32_t", "WithNan"), ("int64_t", 64, 3, "uint64_t", "WithNanInf"), ("int32_t", 20, 0, "uint64_t", "WithInf"), ("int8_t", 5, 2, "uint8_t", "WithInf"), ("int16_t", 16, 0, "uint16_t", "WithNanInf")]
    def run(b, spec):
        cs = cfgs + posit_configs(b.seed, extra=3, thorough=b.thorough)[-(3 + (20 if b.thorough else 0)):]
        cxxs = [("gcc", "g++", "c++14", [])] + ([("clang", "clang++", "c++17", [])] if shutil_which("clang++") else []) + ([("gcc-bmi", "g++", "c++17", ["-mbmi", "-mbmi2"])] if cpu_has("bmi1", "bmi2") else [])
        out = []
        def compiles(groups, name, cxx, std, more):
            src = b.write(name + ".cpp", constex.source(groups, name))
            rc, o = sh(b.cc_argv(src, name + ".o", cxx=cxx, std=std, opt="-O1", flags=more + (["-fconstexpr-ops-limit=2000000000"] if cxx == "g++" else ["-fconstexpr-steps=2000000000"])), cwd=b.dir)
            if rc not in (0, 1): rc, o = sh(b.cc_argv(src, name + ".o", cxx=cxx, std=std, opt="-O1", flags=more), cwd=b.dir)
            return rc == 0, o
        from concurrent.futures import ThreadPoolExecutor
        eng = b.harness(os.path.join(b.here, "engine.cpp"), "engine.o"); chk = b.harness(os.path.join(b.here, "checks", b.prop + ".cpp"), "check.o"); b.run_jobs()
        for tag, cxx, std, more in cxxs:
            groups = constex.generate(b.seed, cs, 800 if b.thorough else 150)
            def one(ci):
                g = [x for x in groups if x[0] == cs[ci]]; name = "cx_%s_%d" % (tag.replace("-", "_"), ci); drop = []
                ok, o = compiles(g, name, cxx, std, more)
                if not ok:
                    keep = []
                    for x in g:        # which operation
                        k, e = compiles([x], name + "_x", cxx, std, more)
                        if k: keep.append(x); continue
                        simple = (x[0], x[1], [(1 << (x[0][1] - 2),) * 3 if x[1] not in constex.OTHER else (1, 0, 0)])
                        if not compiles([simple], name + "_x", cxx, std, more)[0]: drop.append(x[1]); continue
                        for t in x[2]:     # a single operand list that the compiler rejects
                            k, e = compiles([(x[0], x[1], [t])], name + "_x", cxx, std, more)
                            if not k:
                                raise Broken("%s: %s of the patterns %s is rejected in a constant expression by %s, while simple operands are accepted\n%s" % (x[0], x[1], t, cxx, "\n".join(l for l in e.splitlines() if "error" in l or "note" in l)[:1500]))
                    g = keep; ok, o = compiles(g, name, cxx, std, more)
                    if not ok: raise Broken("does not compile: " + o[-1500:])
                return name, drop
            with ThreadPoolExecutor(8) as ex:
                res = list(ex.map(one, range(len(cs))))
            dropped = sorted(set(x for _, d in res for x in d))
            if dropped: b.notes.append("%s: not constant-evaluable, not compared: %s" % (cxx, " ".join(dropped)))
            reg = b.harness(b.write("reg_%s.cpp" % tag, "".join("void %s();\n" % n for n, _ in res) + "void register_cfgs() {\n" + "".join("  %s();\n" % n for n, _ in res) + "}\n"), "reg_%s.o" % tag); b.run_jobs()
            out.append(execute(b, b.link([eng, chk, reg] + [b.path(n + ".o") for n, _ in res], "check_" + tag), label=tag))
        return out
    return run

def float2bits_check():
    """every float at run time, and generated arrays of constants evaluated by each compiler"""
    import random, struct
    def run(b, spec):
        rnd = random.Random(b.seed * 31 + 7); ins = [0, 0x80000000, 0x7f800000, 0xff800000, 1, 0x80000001, 0x7fffff, 0x800000, 0x7f7fffff, 0x3f800000]
        ins += [e << 23 for e in range(255)] + [(e << 23) - 1 & 0xffffffff for e in range(1, 256)] + [1 << k for k in range(23)]
        ins += [(rnd.getrandbits(32) & 0xffffffff) for _ in range(20000 if b.thorough else 3000)] + [rnd.getrandbits(23) >> rnd.randrange(23) for _ in range(300)]
        ins = [x for x in ins if (x & 0x7fffffff) <= 0x7f800000]
        def lit(x):
            m = x & 0x7fffffff
            t = "__builtin_huge_valf()" if m == 0x7f800000 else "%sf" % struct.unpack("<f", struct.pack("<I", m))[0].hex()
            return ("-" if x >> 31 else "") + t
        src = b.write("consts.cpp", '#include <cmath>\n#include "floatconst2bits.hpp"\n#include "f2b.hpp"\nstatic constexpr F2BConst c[] = {\n' + "".join("{%du, float2bits(%s)},\n" % (x, lit(x)) for x in ins) + '{2143289344u, float2bits(__builtin_nanf(""))}};\nconst F2BConst* f2b_consts = c; int f2b_nconsts = sizeof c / sizeof c[0];\n')
        vs = [("gcc", dict(cxx="g++", std="c++17", opt="-O2"), True), ("gcc-O0", dict(cxx="g++", std="gnu++14", opt="-O0"), False)]
        if shutil_which("clang++"): vs += [("clang", dict(cxx="clang++", std="c++17", opt="-O2"), b.thorough)]
        eng = b.harness(os.path.join(b.here, "engine.cpp"), "engine.o"); todo = []
        for l, kw, whole in vs:
            o = [eng, b.harness(os.path.join(b.here, "checks", "P27.cpp"), "check_%s.o" % l, flags=["-DF2B_ALL"] if whole else []), b.cc(os.path.join(b.here, "impl", "P27.cpp"), "impl_%s.o" % l, **kw)]
            kc = dict(kw, flags=["-fconstexpr-ops-limit=2000000000", "-fconstexpr-loop-limit=10000000"] if kw["cxx"] == "g++" else ["-fconstexpr-steps=2000000000"])
            o.append(b.cc(src, "consts_%s.o" % l, **kc)); todo.append((l, o))
        b.run_jobs()
        return [execute(b, b.link(o, "check_" + l), label=l) for l, o in todo]
    return run

def eigen_check():
    cf = [("int16_t", 16, 2, "uint16_t", "WithNan"), ("int8_t", 8, 0, "uint8_t", "WithNan"), ("int32_t", 32, 2, "uint32_t", "WithInf"), ("int16_t", 12, 1, "uint32_t", "WithNanInf"), ("int64_t", 64, 3, "uint64_t", "WithNan"), ("int32_t", 20, 0, "uint64_t", "WithInf")]
    def run(b, spec):
        inc = next((d for d in ("/usr/include/eigen3", "/usr/local/include/eigen3") if os.path.isdir(d)), None)
        cs = list(dict.fromkeys(cf + posit_configs(b.seed, extra=2 if not b.thorough else 8, minn=6, dense=False)[-(2 if not b.thorough else 8):]))
        objs = [b.cc(os.path.join(b.here, "impl", "P28.cpp"), "eig_%d.o" % i, flags=["-I" + inc, "-DEIG_ID=%d" % i, "-DEIG_CFG=%s,%d,%d,%s,PositSpec::%s" % c, '-DEIG_NAME="Posit<%s>"' % cfg_line(c)]) for i, c in enumerate(cs)]
        objs.append(b.harness(os.path.join(b.here, "engine.cpp"), "engine.o"))
        objs.append(b.harness(os.path.join(b.here, "checks", "P28.cpp"), "check.o", flags=["-DEIG_LIST=" + " ".join("X(%d)" % i for i in range(len(cs)))]))
        b.run_jobs()
        return [execute(b, b.link(objs, "check"))]
    return run

def bits_check():
    """the bit helpers in builds with and without the hardware instructions"""
    def run(b, spec):
        vs = [("gcc", {}), ("gcc-O3-17", dict(opt="-O3", std="c++17"))] + ([("clang", dict(cxx="clang++"))] if shutil_which("clang++") else [])
        if cpu_has("bmi1", "bmi2"):
            vs += [("gcc-bmi", dict(flags=["-mbmi", "-mbmi2", "-mlzcnt"]))] + ([("clang-bmi", dict(cxx="clang++", std="c++17", flags=["-mbmi", "-mbmi2", "-mlzcnt"]))] if shutil_which("clang++") else [])
        eng = b.harness(os.path.join(b.here, "engine.cpp"), "engine.o"); chk = b.harness(os.path.join(b.here, "checks", "P32.cpp"), "check.o")
        todo = [(l, [eng, chk, b.cc(os.path.join(b.here, "impl", "P32.cpp"), "impl_%s.o" % l, **kw)]) for l, kw in vs]
        b.run_jobs()
        return [execute(b, b.link(o, "check_" + l), label=l) for l, o in todo]
    return run

def lister_check():
    """src/listposits.cpp built for several formats, loaded as modules and run on generated format strings"""
    def run(b, spec):
        import re
        cs = [("int16_t", 4, 1, "uint16_t", "WithInf"), ("int8_t", 8, 0, "uint8_t", "WithNan"), ("int8_t", 8, 2, "uint16_t", "WithNanInf"), ("int16_t", 10, 1, "uint16_t", "WithNan"), ("int8_t", 5, 2, "uint8_t", "WithNanInf"), ("int32_t", 6, 1, "uint32_t", "WithNan"), ("int16_t", 12, 3, "uint32_t", "WithInf"), ("int16_t", 16, 1, "uint16_t", "WithNan")]
        cs += posit_configs(b.seed, extra=6 if b.thorough else 2, minn=4, maxn=11, dense=False)[-(6 if b.thorough else 2):]
        cs = [c for c in cs if c[0] != "int64_t" and c[2] <= 5]; objs = []; regs = ""
        chosen = {1: "Biov", 4: "2Uvb"}      # formats chosen at build time, as scripts/listposits8_16bin.sh does
        for i, c in enumerate(cs):
            objs.append(b.cc(os.path.join(b.repo, "src", "listposits.cpp"), "lister_%d.o" % i, flags=["-I" + os.path.join(b.repo, "extern"), "-fPIC", "-DPOSIT_TYPE=%s,%d,%d,%s,PositSpec::%s" % c] + (["-DLISTFORMAT=" + chosen[i]] if i in chosen else [])))
        # the table classes (README, "Testing Posit12"): the lister includes their sources and tables, so it is compiled beside freshly generated ones
        tabs = [("posit8", 8, 1, "WithNanInf", "int8_t", 8), ("posit10", 10, 2, "WithInf", "int16_t", 16), ("posit12", 12, 2, "WithNan", "int16_t", 16)]; fl = sum([tab_flags(t[0], t[2], t[3]) for t in tabs], [])
        d = b.path("typeid"); os.makedirs(d); gens = [b.cc(os.path.join(b.repo, "src", t[0] + "_gen.cpp"), "gen_%s.o" % t[0], flags=fl + BOUNDS) for t in tabs]
        b.run_jobs()
        for f in ["listposits.cpp"] + [t[0] + ".cpp" for t in tabs]:
            shutil.copy(os.path.join(b.repo, "src", f), d)
        for t, g in zip(tabs, gens):
            tbl = os.path.join(d, t[0] + "_tbl.cpp"); rc, out = sh([b.link([g], "gen_" + t[0]), tbl], timeout=120)
            if rc or not os.path.exists(tbl):
                raise Broken("table generator %s failed (status %d): %s" % (t[0], rc, out[-500:]))
        for t in tabs:
            objs.append(b.cc(os.path.join(d, "listposits.cpp"), "lister_%s.o" % t[0], opt="-O0", flags=fl + ["-I" + os.path.join(b.repo, "src"), "-I" + os.path.join(b.repo, "extern"), "-fPIC", "-DPOSIT_TYPEID=" + t[0]]))
        b.run_jobs()
        for t, o in zip(tabs, objs[len(cs):]):
            so = b.link([o], "lister_%s.so" % t[0], flags=["-shared", "-Wl,-Bsymbolic"]); regs += '  add_lister(%d, %d, %d, %s, %d, "%s", "%s");\n' % (t[1], t[2], MODES.index(t[3]), re.sub(r"\D", "", t[4]), t[5], t[0], so)
        for i, c in enumerate(cs):       # each lister a module of its own: its globals do not meet those of the others
            so = b.link([objs[i]], "lister_%d.so" % i, flags=["-shared", "-Wl,-Bsymbolic"])
            regs += '  add_lister(%d, %d, %d, %s, %s, "Posit<%s>", "%s", "%s");\n' % (c[1], c[2], MODES.index(c[4]), re.sub(r"\D", "", c[0]), re.sub(r"\D", "", c[3]), cfg_line(c), so, chosen.get(i, "iv"))
        regs = "void register_listers() {\n" + regs + "}\n"; objs = []
        objs.append(b.harness(b.write("listers.cpp", '#include "lister.hpp"\n' + regs), "listers.o"))
        objs.append(b.harness(os.path.join(b.here, "engine.cpp"), "engine.o")); objs.append(b.harness(os.path.join(b.here, "checks", "P31.cpp"), "check.o"))
        b.run_jobs()
        return [execute(b, b.link(objs, "check", flags=["-ldl"]))]
    return run

def unum_check():
    """the Python lattice against a model in Python; the engine is pyeng.py"""
    def run(b, spec):
        import sys
        return [execute(b, [sys.executable, "-B", os.path.join(b.here, "unum.py"), os.path.join(b.repo, "scripts")])]
    return run

def mex_check():
    """the MATLAB functions and the C conversion routines against a stand-in MATLAB"""
    def run(b, spec):
        mex = ["-I" + os.path.join(b.here, "mex"), "-fexceptions", "-fno-strict-aliasing", "-fsanitize=bounds", "-fsanitize-undefined-trap-on-error"]; src = os.path.join(b.repo, "matlab"); objs = []
        for f, n in ((os.path.join(src, "p8binop.cpp"), "mex_binop"), (os.path.join(src, "p8unop.cpp"), "mex_unop"), (os.path.join(src, "p8Tofloat.cpp"), "mex_tofloat"), (os.path.join(b.repo, "src", "floatTop8.cpp"), "mex_top8")):
            objs.append(b.cc(f, n + ".o", flags=mex + ["-DmexFunction=" + n]))
        objs.append(b.cc(os.path.join(src, "halfprecision", "halfprecision.c"), "mex_half.o", flags=mex + ["-DmexFunction=mex_half"], cxx="gcc", std="gnu11"))
        objs.append(b.cc(os.path.join(src, "halfprecision", "ieeehalfprecision.c"), "ieee.o", flags=mex + ["-D%s=ieee_%s" % (x, x) for x in ("singles2halfp", "doubles2halfp", "halfp2singles", "halfp2doubles")], cxx="gcc", std="gnu11"))
        objs += [b.harness(os.path.join(b.here, x), o) for x, o in (("engine.cpp", "engine.o"), ("mex/mexlib.cpp", "mexlib.o"), ("checks/P34.cpp", "check.o"))]
        b.run_jobs()
        return [execute(b, b.link(objs, "check"))]
    return run

def lanes_check():
    """the asimd wrappers, built by two compilers, against scalar loops"""
    def run(b, spec):
        objs = [b.harness(os.path.join(b.here, x), o) for x, o in (("engine.cpp", "engine.o"), ("checks/P35.cpp", "check.o"))]
        vs = [("gcc-O2", dict(opt="-O2")), ("clang-O1", dict(cxx="clang++", opt="-O1", flags=["-fsanitize=bounds", "-fsanitize-trap=bounds"]))] + ([("gcc-O0", dict(opt="-O0")), ("clang-O3", dict(cxx="clang++", opt="-O3"))] if b.thorough else [])
        todo = [(l,) + tuple(b.cc(os.path.join(b.here, "impl", "P35%s.cpp" % x), "lanes%s_%s.o" % (x, l), **dict(kw, flags=["-mavx2"] + kw.get("flags", []))) for x in ("", "b")) for l, kw in vs]
        b.run_jobs()
        return [execute(b, b.link(objs + [o, p], "check_" + l), label=l) for l, o, p in todo]
    return run

def threads_check():
    """every number type in one program, run by several threads: instrumented for data races, and at full speed"""
    ops = ["CODEC", "ENCODE", "FROM", "TO", "CMP", "SIGN", "ADD", "MUL", "DIV", "COMPOUND", "SCALE", "STEP", "CONST", "DOT", "UR", "PRINT"]
    def run(b, spec):
        cs = [("int8_t", 8, 0, "uint8_t", "WithNan"), ("int8_t", 8, 2, "uint16_t", "WithNanInf"), ("int16_t", 12, 1, "uint32_t", "WithInf"), ("int16_t", 16, 2, "uint16_t", "WithNan"), ("int32_t", 32, 2, "uint32_t", "WithNan"), ("int64_t", 64, 3, "uint64_t", "WithNanInf"), ("int32_t", 20, 0, "uint64_t", "WithInf")]
        cs = list(dict.fromkeys(cs + posit_configs(b.seed, extra=12 if b.thorough else 3)[-(12 if b.thorough else 3):]))
        gens = {c: b.cc(os.path.join(b.repo, "src", c + "_gen.cpp"), "gen_%s.o" % c, flags=BOUNDS) for c in ("posit8", "posit10", "posit12", "binary8")}
        b.run_jobs(); tbls = {}
        for c, o in gens.items():
            tbls[c] = b.path("tbl_%s.cpp" % c); rc, out = sh([b.link([o], "gen_" + c), tbls[c]], timeout=120)
            if rc or not os.path.exists(tbls[c]):
                raise Broken("table generator %s failed (status %d): %s" % (c, rc, out[-500:]))
        avx = cpu_has("avx2"); vec = ["-mavx2", "-DLOUD"]; f16 = ["-mavx", "-mf16c"] if cpu_has("f16c", "avx") else []; todo = []
        for l, san, opt, hw, reps, n in (("tsan", ["-fsanitize=thread", "-DTSAN"], "-O1", [], 3, 4), ("plain", [], "-O2", f16, 40, 4)):
            fl = san + ["-pthread"]; kw = dict(flags=fl, opt=opt)
            objs = b.posit_objs(cs, ops, chunk=2, tag="cfg_" + l, **kw)
            for i, (f, more) in enumerate([("P15", []), ("P18", []), ("P19", hw), ("P22", ["-Dvpb_g_cfgs=g_pfs", "-Dregister_cfgs=register_pfs"]), ("P23", []), ("P30", [])] + ([("P24v", vec), ("P35", vec)] if avx else [])):
                objs.append(b.cc(os.path.join(b.here, "impl", f + ".cpp"), "impl_%s_%s.o" % (f, l), flags=fl + more, opt=opt))
            for c in gens:
                objs += [b.cc(tbls[c], "tbl_%s_%s.o" % (c, l), opt="-O0", flags=san), b.cc(os.path.join(b.repo, "src", c + ".cpp"), "src_%s_%s.o" % (c, l), **kw)]
                if c != "binary8":
                    objs.append(b.cc(os.path.join(b.here, "impl", "TAB.cpp"), "tab_%s_%s.o" % (c, l), flags=fl + ['-DTAB_HDR="%s.hpp"' % c, "-DTAB_CLASS=" + c], opt=opt))
            if avx:
                objs.append(b.cc(os.path.join(b.repo, "src", "simdposit8.cpp"), "vsrc_%s.o" % l, flags=fl + ["-mavx2"], opt=opt))
            objs += [b.harness(os.path.join(b.here, "engine.cpp"), "engine_%s.o" % l), b.harness(os.path.join(b.here, "checks", "P36.cpp"), "check_%s.o" % l, flags=fl + ["-DREPS=%d" % reps, "-DQUICK=%d" % n, "-DHAVE_AVX2=%d" % avx])]
            todo.append((l, objs, san + ["-pthread"]))
        b.run_jobs()
        return [execute(b, b.link(o, "check_" + l, flags=fl), label=l) for l, o, fl in todo]
    return run

def cpu_has(*w):
    with open("/proc/cpuinfo") as f:
        cpu = f.read().split()
    return all(x in cpu for x in w)

def shutil_which(x):
    import shutil
    return shutil.which(x)

def posit8_variants(b):
    v = [("default", [("posit8", None, "")]), ("deferred", [("posit8", 1, "POSITMULWithNan")])]
    more = [(e, m) for e in (0, 1, 2) for m in MODES if (e, m) != (0, "WithNan")]
    return v + [("es%d_%s" % (e, m), [("posit8", e, m)]) for e, m in more]

def posit1012_variants(b):
    v = [("default", [("posit10", None, ""), ("posit12", None, "")]), ("deferred", [("posit10", 1, "POSITMULWithNan"), ("posit12", 0, "POSITMULWithNanInf")])]
    more = [(e, m) for e in (0, 1, 2) for m in MODES if (e, m) != (2, "WithNan")]
    return v + [("es%d_%s" % (e, m), [("posit10", e, m), ("posit12", e, m)]) for e, m in more]

def f16_variants():
    sw = ("software", dict(flags=["-mno-f16c"]))
    with open("/proc/cpuinfo") as f:
        cpu = f.read().split()
    return [("hardware", dict(flags=["-mavx", "-mf16c"])), sw] if "f16c" in cpu and "avx" in cpu else [sw]

CHECKS = {
    "P37": dict(run=builds_check(one=True), technique="property-based testing: generated formats and operands, the single header against the separate ones"),
    "P36": dict(run=threads_check(), technique="property-based testing: generated programs of operations run by several threads and again by one in another order; data races counted by the thread sanitizer"),
    "P34": dict(run=mex_check()),
    "P35": dict(run=lanes_check()),
    "P33": dict(run=unum_check()),
    "P32": dict(run=bits_check()),
    "P31": dict(run=lister_check()),
    "P28": dict(run=eigen_check()),
    "P27": dict(run=float2bits_check()),
    "P30": dict(run=posit_check(["PRINT"], impls=["P30"], srcs=["posit8", "posit10", "posit12"], lflags=["-Wl,--unresolved-symbols=ignore-all"])),
    "P29": dict(run=posit_check(["PM"], flags=["-DPOSITMUL"], lflags=["-lgmp"])),
    "P26": dict(run=constexpr_check()),
    "P25": dict(run=builds_check()),
    "P24": dict(run=simd_check()),
    "P23": dict(run=binary8_check()),
    "P22": dict(run=custom_check()),
    "P20": dict(run=table_check(posit8_variants)),
    "P21": dict(run=table_check(posit1012_variants)),
    "P19": dict(run=lambda b, spec: variant_check(f16_variants())(b, spec)),
    "P01": dict(run=posit_check(["CODEC"])),
    "P02": dict(run=posit_check(["FROM"])),
    "P03": dict(run=posit_check(["TO", "FROM"])),
    "P04": dict(run=posit_check(["CMP"])),
    "P05": dict(run=posit_check(["SIGN", "CODEC", "CMP"])),
    "P06": dict(run=posit_check(["ADD"])),
    "P07": dict(run=posit_check(["MUL"])),
    "P08": dict(run=posit_check(["DIV"])),
    "P09": dict(run=posit_check(["ADD", "MUL", "DIV", "COMPOUND", "DOT"])),
    "P10": dict(run=posit_check(["SCALE", "MUL", "DIV"])),
    "P11": dict(run=posit_check(["STEP", "CONST"])),
    "P13": dict(run=posit_check(["HIST", "FROM", "ADD", "MUL", "DIV", "DOT", "CMP", "SIGN", "SCALE", "STEP", "TO"], chunk=2)),
    "P14": dict(run=posit_check(["UR"], eszero=True)),
    "P12": dict(run=posit_check(["DOT", "MUL"], lflags=["-lgmp"])),
    "P16": dict(run=custom_check()),
    "P17": dict(run=custom_check()),
    "P18": dict(run=custom_check()),
    "P15": dict(run=custom_check(lflags=["-lgmp"])),
}

def evidence(prop, tier, seed, wall, cov, viol, notes, spec):
    return {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {"evaluations": cov["evaluations"], "distinct_nontrivial": cov["distinct"],
                         "rule": "a case is one choice list drawn from the seed (or one point of a complete enumeration); non-trivial: " + cov["rule"],
                         "samples": cov["samples"], "enumerated_completely": cov["enumerated"], "nontrivial_evaluations": cov["nontrivial"],
                         "bodies": cov["bodies"], "discarded": cov["discards"], "budget_hit": cov["budget_hit"], "notes": notes, "violations_found": viol},
            "assumptions": list(spec.get("assumptions", [])), "wall_s": round(wall, 1), "violations": len(viol)}

NA = {}
