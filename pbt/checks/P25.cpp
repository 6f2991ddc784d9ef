#include <dlfcn.h>
#include <unistd.h>
#include "../afl.hpp"
#include "../unp.hpp"
#include "../gen.hpp"
#include "../lgen.hpp"
struct Bld { std::string name; bool fpga; std::vector<IPosit*> p; std::vector<IUnp*> u; std::vector<IAny*> a; };
static std::vector<Bld> B; std::vector<IPosit*> g_cfgs; std::vector<IUnp*> g_unps; std::vector<IAny*> g_anys;
void register_cfgs() {
  static const char* names[] = {BUILDS};
  char self[4096]; ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1); std::string dir(self, n > 0 ? n : 0); dir = dir.substr(0, dir.rfind('/') + 1);
  for (const char* b : names) { void* h = dlopen((dir + "lib_" + b + ".so").c_str(), RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); _exit(3); }
    typedef void (*F)(std::vector<IPosit*>**, std::vector<IUnp*>**, std::vector<IAny*>**); F f = (F)dlsym(h, "build_tables"); std::vector<IPosit*>* p; std::vector<IUnp*>* u; std::vector<IAny*>* a; f(&p, &u, &a); B.push_back(Bld{b, strstr(b, "fpga") != nullptr, *p, *u, *a}); }
  g_cfgs = B[0].p; g_unps = B[0].u; g_anys = B[0].a;
}
static size_t pick(Src& s) { return (size_t)s.draw(g_cfgs.size()); }
// every build against the first
#define EACH_(nat, what, expr, ...) do { auto w = [&](Bld& b) { return expr; }(B[0]); for (size_t bi_ = 1; bi_ < B.size(); bi_++) { if (nat && B[bi_].fpga) continue; auto g = [&](Bld& b) { return expr; }(B[bi_]); if (g != w) fail("%s: %s differs: %s gives %lld, %s gives %lld [%s]", name, what, B[0].name.c_str(), (long long)w, B[bi_].name.c_str(), (long long)g, strf(__VA_ARGS__).c_str()); } } while (0)
#define EACH(what, expr, ...) EACH_(false, what, expr, __VA_ARGS__)
// through native floats, which the hardware synthesis build does not have
#define EACHN(what, expr, ...) EACH_(true, what, expr, __VA_ARGS__)
static u64 hf(const Full& x) { return x.type == FIN ? mix64(mix64(mix64(x.exp) ^ x.frac) ^ x.neg) : x.type == INF ? 2 + x.neg : x.type; }
static u64 hl(const Low& x) { return x.type == FIN ? mix64(mix64(mix64(mix64(x.regime) ^ x.exp) ^ x.frac) ^ x.neg) : x.type; }
static uint32_t nf(uint32_t b) { return fl_isnan(F_SINGLE, b) ? 0x7fc00000u : b; } static u64 nd(u64 b) { return fl_isnan(F_DOUBLE, b) ? 0x7ff8000000000000ull : b; } static unsigned nh(unsigned b) { return fl_isnan(F_HALF, b) ? 0x7e00 : b; }
static void pairs(Src& s) {
  size_t i = pick(s); IPosit& c = *g_cfgs[i]; const char* name = c.name.c_str(); i64 x = gen_pat(s, c.f), y = gen_rel(s, c.f, x, c.ftb), z = gen_rel(s, c.f, x, c.ftb); s.note(ref_kind(c.f, x) == FIN && ref_kind(c.f, y) == FIN, cfg_id(c), x, y, z); SHOW(s, "%s %s, %s, %s", name, PV(c, x), PV(c, y), PV(c, z));
#define E(what, e) EACH(what, b.p[i]->e, "%s, %s, %s", PV(c, x), PV(c, y), PV(c, z))
  E("sum", add(x, y)); E("difference", sub(x, y)); E("product", mul(x, y)); E("quotient", div(x, y)); E("comparison", cmp(x, y)); E("min", mn(x, y)); E("max", mx(x, y)); E("+=", compound(0, x, y)); E("*=", compound(1, x, y)); E("/=", compound(2, x, y)); E("fma", fma_(x, y, z));
  i64 a[4] = {x, y, z, x}, d[4] = {z, x, y, y}; for (int n = 0; n <= 4; n++) E("dot", dot(a, d, n, 0));
}
static void unary(Src& s) {
  size_t i = pick(s); IPosit& c = *g_cfgs[i]; const char* name = c.name.c_str(); i64 x = gen_pat(s, c.f); s.covered = c.f.N <= 12; s.note(ref_kind(c.f, x) == FIN, cfg_id(c), x); SHOW(s, "%s %s", name, PV(c, x));
#undef E
#define E(what, e) EACH(what, b.p[i]->e, "%s", PV(c, x))
#define G(what, e) EACH(what, e, "%s", PV(c, x))
#define GN(what, e) EACHN(what, e, "%s", PV(c, x))
  E("half", half(x)); E("twice", twice(x)); E("next", next(x)); E("prev", prev(x)); E("reciprocal", inv(x, 0)); E("negation", neg(x, 0)); E("abs", abs_(x, 0)); E("std::abs", abs_(x, 1)); E("predicates", preds(x)); E("fields round trip", relow(x, 0)); E("unpacked round trip", refull(x, 0));
  G("unpack", hf(b.p[i]->full(x))); G("unpack_low", hl(b.p[i]->low(x))); G("full fields", hl(b.p[i]->full2low(x))); GN("float", nf(b.p[i]->to_fbits(x, 0))); G("float bits", nf(b.p[i]->to_fbits(x, 1))); GN("double", nd(b.p[i]->to_dbits(x))); G("half float", nh(b.p[i]->to_hbits(x))); E("unit range", ur(x));
  if (ref_kind(c.f, x) == FIN || x == 0) { E("int", to_i(x)); if (c.f.es == 0) { E("sigmoid", sigm(x)); E("softplus", softp(x)); if (x >= 0 && x <= 1ll << (c.f.N - 2)) { E("one minus x", urm(x)); E("x(1-x)", urd(x)); } } }
}
static void from(Src& s) {
  size_t i = pick(s); IPosit& c = *g_cfgs[i]; const char* name = c.name.c_str();
  switch (s.draw(4)) {
    case 0: { uint32_t v = gen_fbits(s, c.f); s.note(fl_decode(F_SINGLE, v).k == FIN, cfg_id(c), v, 1); SHOW(s, "%s of float %.9g", name, bits_f(v)); EACHN("conversion of a float", b.p[i]->from_f(bits_f(v)), "bits %#x", v); EACH("conversion of float bits", b.p[i]->from_fbits(v), "bits %#x", v); break; }
    case 1: { u64 v = gen_dbits(s, c.f); s.note(fl_decode(F_DOUBLE, v).k == FIN, cfg_id(c), v, 2); SHOW(s, "%s of double %.17g", name, bits_d(v)); EACHN("conversion of a double", b.p[i]->from_d(bits_d(v)), "bits %#llx", (unsigned long long)v); break; }
    case 2: { int v = gen_int(s); s.note(v != 0, cfg_id(c), v, 3); SHOW(s, "%s of int %d", name, v); EACH("conversion of an int", b.p[i]->from_i(v), "%d", v); break; }
    default: { Full u; u.type = FIN; u.neg = s.draw(2); { i64 me = ref_decode(c.f, c.f.maxpos()).e + 3; u.exp = s.range(-me, me); } if (s.draw(2)) u.exp %= 40; u.frac = gen_bits(s, c.ftb) << (64 - c.ftb); s.note(true, cfg_id(c), u.exp, u.frac, u.neg); SHOW(s, "%s of unpacked %c2^%lld frac %#llx", name, u.neg ? '-' : '+', (long long)u.exp, (unsigned long long)u.frac); EACH("encoding", b.p[i]->encode(u), "2^%lld frac %#llx", (long long)u.exp, (unsigned long long)u.frac); }
  }
}
static void consts(Src& s) {
  size_t i = pick(s); IPosit& c = *g_cfgs[i]; const char* name = c.name.c_str(); s.covered = true; s.note(true, cfg_id(c)); SHOW(s, "%s constants", name);
  for (int k = 0; k < 14; k++) EACH("constant", [&] { Consts q = b.p[i]->consts(); i64 v[14]; memcpy(v, &q, sizeof v); return v[k]; }(), "constant %d", k); for (int k = 0; k < 9; k++) EACH("limit", [&] { Limits q = b.p[i]->limits(); i64 v[9]; memcpy(v, &q, sizeof v); return v[k]; }(), "limit %d", k);
}
static Full genu(Src& s, int W, int EB) { Full u; u64 t = s.draw(12); u.type = t == 9 ? ZERO : t == 10 ? INF : t == 11 ? NAN_ : FIN; u.neg = s.draw(2); i64 m = EB == 8 ? 30 : EB == 16 ? 8000 : 1 << 28; u.exp = s.draw(3) ? s.range(-20, 20) : s.range(-m, m); u.frac = gen_bits(s, W) << (64 - W); return u; }
static void unps(Src& s) {
  size_t i = s.draw(g_unps.size()); IUnp& c = *g_unps[i]; const char* name = c.name.c_str(); Full x = genu(s, c.W, c.EB), y = genu(s, c.W, c.EB); if (s.draw(4) == 3) { y = x; y.neg = s.draw(2); } s.note(x.type == FIN && y.type == FIN, i, hf(x), hf(y)); SHOW(s, "%s type %d %c2^%lld %#llx; type %d %c2^%lld %#llx", name, x.type, x.neg ? '-' : '+', (long long)x.exp, (unsigned long long)x.frac, y.type, y.neg ? '-' : '+', (long long)y.exp, (unsigned long long)y.frac);
#undef G
#define G(what, e) EACH(what, e, "2^%lld %#llx; 2^%lld %#llx", (long long)x.exp, (unsigned long long)x.frac, (long long)y.exp, (unsigned long long)y.frac)
  G("sum", hf(b.u[i]->add(x, y))); G("difference", hf(b.u[i]->sub(x, y))); G("+=", hf(b.u[i]->iadd(x, y, 0))); G("product", hf(b.u[i]->mul(x, y))); G("quotient", hf(b.u[i]->div(x, y))); G("reciprocal", hf(b.u[i]->inv(x))); G("negation", hf(b.u[i]->neg(x))); G("equality", b.u[i]->eq(x, y));
}
static void anys(Src& s) {
  size_t i = s.draw(g_anys.size()); IAny& c = *g_anys[i]; const char* name = c.name.c_str(); const FFmt& f = c.f; u64 x = gen_lay(s, f), y = gen_lay(s, f); Dy dx = fl_decode(f, x), dy = fl_decode(f, y); s.note(dx.k == FIN && dy.k == FIN, i, x, y); SHOW(s, "%s %#llx, %#llx", name, (unsigned long long)x, (unsigned long long)y);
  auto n = [&](u64 v) { return fl_isnan(f, v) ? f.infb() | 1 : v; };
#undef G
#define G(what, e) EACHN(what, e, "%#llx, %#llx", (unsigned long long)x, (unsigned long long)y)
  for (int op = 0; op < 6; op++) if (op != 3 || dy.k != ZERO) G("operation", n(b.a[i]->bin(op, x, y))); for (int op = 0; op < 8; op++) if (dx.k != ZERO || (op != 2 && op != 3)) G("unary operation", n(b.a[i]->un(op, x)));
  G("comparison", b.a[i]->cmp(x, y)); G("float", nf(f_bits(b.a[i]->to_f(x)))); G("double", nd(d_bits(b.a[i]->to_d(x)))); if (dx.k == FIN || dx.k == ZERO) G("int", b.a[i]->to_i(x)); if (dx.k != NAN_) G("from double", n(b.a[i]->from_d(b.a[i]->to_d(y))));
}
CHECK_MAIN(PID, "all operands are finite and non-zero") {
  c.bodies.push_back(Body{"pairs", pairs, 700, 20000, {}, {}});
  c.bodies.push_back(Body{"unary", unary, 700, 20000, exh_unary(12), {}});
  c.bodies.push_back(Body{"from-native", from, 1000, 20000, {}, {}});
  c.bodies.push_back(Body{"constants", consts, 0, 0, {Exh{g_cfgs.size(), [](u64 i, std::vector<u64>& o) { o = {i}; }}}, {}});
  c.bodies.push_back(Body{"unpacked", unps, 700, 20000, {}, {}});
  c.bodies.push_back(Body{"floats", anys, 500, 20000, {}, {}});
}
