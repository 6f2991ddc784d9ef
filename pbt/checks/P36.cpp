// Programs of operations run by several threads at once, then by one thread in another order: every call gives the same result,
// and (built with the thread sanitizer) no two calls touch the same memory without synchronisation.
#include "../tab.hpp"
#include "../unp.hpp"
#include "../afl.hpp"
#include "../b8.hpp"
#include "../h16.hpp"
#include "../simd.hpp"
#include "../lanes.hpp"
#include "../tother.hpp"
#include "../gen.hpp"
#include "../lgen.hpp"
#include <atomic>
#include <iostream>
#include <condition_variable>
#include <mutex>
#include <sstream>
#include <thread>
#include <unistd.h>
extern std::vector<IPosit*> g_pfs; void register_pfs(); void reg_posit8(); void reg_posit10(); void reg_posit12();
std::vector<ITab*> g_tabs;
#ifdef TSAN
static volatile int g_races;
extern "C" __attribute__((no_sanitize("thread"))) void __tsan_on_report(void*) { g_races = g_races + 1; }
extern "C" const char* __tsan_default_options() { return "exitcode=0:symbolize=0:log_path=/dev/null:atexit_sleep_ms=0"; }
static int races() { return g_races; }
#else
static int races() { return 0; }
#endif
static const int T = 3, L = 16, V = 4;      // threads, steps of each, values of the pool
struct Pool { u64 w[V]; Full u[V]; };
struct Target { std::string name; std::vector<const char*> ops; std::function<void(Src&, Pool&)> gen; std::function<u64(int, const Pool&, int, int, int)> run; int bits = 0; bool sext = false; };
static std::vector<Target> G;
static u64 hs(const std::string& t) { u64 h = 1469598103934665603ull; for (unsigned char c : t) h = (h ^ c) * 1099511628211ull; return h; }
static u64 hm(const void* p, size_t n) { return hs(std::string((const char*)p, n)); }
static u64 hf(const Full& x) { return x.type == FIN ? mix64(mix64(mix64(x.exp) ^ x.frac) ^ x.neg) : x.type == INF ? 2 + x.neg : x.type; }
static u64 hl(const Low& x) { return x.type == FIN ? mix64(mix64(mix64(mix64(x.regime) ^ x.exp) ^ x.frac) ^ x.neg) : x.type; }
static std::string put(TOther& t, const long long* a, int base) { std::ostringstream o; o.setf(base == 0 ? std::ios::dec : base == 1 ? std::ios::hex : std::ios::oct, std::ios::basefield); o << base << ' '; t.put(o, a); o << ' ' << 255; return o.str(); }
static void posit_target(IPosit* c, bool generic) {
  Target t; t.name = c->name; t.bits = c->f.N; t.sext = true; t.gen = [c](Src& s, Pool& p) { p.w[0] = gen_pat(s, c->f); for (int i = 1; i < V; i++) p.w[i] = gen_rel(s, c->f, (i64)p.w[0], c->ftb); };
  t.ops = {"+", "-", "*", "/", "+=", "*=", "compare", "min", "max", "neg", "abs", "inv", "half", "twice", "next", "prev", "fma", "low fields", "full fields", "unpack", "predicates", "from double", "from float", "from int", "to float", "to double", "to int", "print", "constants", "unit range", "1-x", "sigmoid", "softplus"};
  if (generic) for (const char* x : {"/=", "dot", "analyze", "encode", "print in a base", "to half", "float bits"}) t.ops.push_back(x);
  t.run = [c](int op, const Pool& p, int ia, int ib, int ic) -> u64 {
    i64 a = (i64)p.w[ia], b = (i64)p.w[ib], d = (i64)p.w[ic];
    switch (op) {
      case 0: return c->add(a, b); case 1: return c->sub(a, b); case 2: return c->mul(a, b); case 3: return c->div(a, b); case 4: return c->compound(0, a, b); case 5: return c->compound(1, a, b); case 6: return c->cmp(a, b); case 7: return c->mn(a, b); case 8: return c->mx(a, b);
      case 9: return c->neg(a, ib % 2); case 10: return c->abs_(a, ib % 2); case 11: return c->inv(a, ib % 3); case 12: return c->half(a); case 13: return c->twice(a); case 14: return c->next(a); case 15: return c->prev(a); case 16: return c->fma_(a, b, d);
      case 17: return c->relow(a, ib % 2); case 18: return c->refull(a, ib % 2); case 19: return hf(c->full(a)); case 20: return c->preds(a); case 21: return c->from_d(a * 0.37109375); case 22: return c->from_f((float)(b * 1.5)); case 23: return c->from_i((int)a);
      case 24: return c->to_fbits(a, 0); case 25: return c->to_dbits(a); case 26: { Kind k = ref_kind(c->f, a); return k == FIN || k == ZERO ? (u64)c->to_i(a) : 0; } case 27: return hs(c->print_full(a)); case 28: { Consts q = c->consts(); Limits l = c->limits(); return hm(&q, 13 * 8) ^ (u64)l.eps ^ (u64)l.max; }
      case 29: return c->ur(a); case 30: return a >= 0 && a <= 1ll << (c->f.N - 2) ? c->urm(a) : 0; case 31: return c->f.es == 0 && ref_kind(c->f, a) == FIN ? c->sigm(a) : 0; case 32: return c->f.es == 0 && ref_kind(c->f, a) == FIN ? c->softp(a) : 0;
      case 33: return c->compound(2, a, b); case 34: { i64 x[V] = {a, b, d, a}, y[V] = {d, b, b, a}; return c->dot(x, y, 1 + ic, 0); } case 35: { Info i = c->analyze(a); return mix64(mix64(i.inf | i.nan << 1 | i.sign << 2 | (u64)(uint32_t)i.exponent << 8) ^ i.ifrac) ^ mix64(i.rs * 31 + i.fs); }
      case 36: { Full u = c->full(a); u.exp += ib - ic; u.neg = ib & 1; return c->encode(u); } case 37: { i64 g[] = {0, ib, 9, a, 6, ic, 9, b}; return hs(c->print(g, 4, 0)); } case 38: return c->to_hbits(a); default: return c->to_fbits(a, 1);
    } };
  G.push_back(t);
}
static void targets() {
  for (IPosit* c : g_cfgs) posit_target(c, true);
  for (IPosit* c : g_pfs) posit_target(c, false);
  for (IUnp* c : g_unps) { Target t; t.name = c->name; t.ops = {"+", "-", "*", "/", "+=", "-=", "inv", "neg", "==", "predicates", "constants"};
    t.gen = [c](Src& s, Pool& p) { for (int i = 0; i < V; i++) { Full u; u64 k = s.draw(12); u.type = k == 9 ? ZERO : k == 10 ? INF : k == 11 ? NAN_ : FIN; u.neg = s.draw(2); u.exp = s.range(-20, 20); u.frac = gen_bits(s, c->W) << (64 - c->W); if (i && s.draw(4) == 3) { u = p.u[0]; u.neg = s.draw(2); } p.u[i] = u; p.w[i] = hf(u); } };
    t.run = [c](int op, const Pool& p, int ia, int ib, int) -> u64 { const Full &a = p.u[ia], &b = p.u[ib]; switch (op) { case 0: return hf(c->add(a, b)); case 1: return hf(c->sub(a, b)); case 2: return hf(c->mul(a, b)); case 3: return hf(c->div(a, b)); case 4: return hf(c->iadd(a, b, 0)); case 5: return hf(c->iadd(a, b, 1)); case 6: return hf(c->inv(a)); case 7: return hf(c->neg(a)); case 8: return c->eq(a, b); case 9: return c->preds(a); default: return hf(c->cst(ib)); } };
    G.push_back(t); }
  auto lay = [](FFmt f) { return [f](Src& s, Pool& p) { for (int i = 0; i < V; i++) { p.w[i] = gen_lay(s, f); if (i && s.draw(4) == 3) p.w[i] = p.w[0] ^ 1ull << s.draw(f.bits()); } }; };
  for (IAny* c : g_anys) { Target t; t.name = c->name; t.bits = c->f.bits(); t.gen = lay(c->f); t.ops = {"+", "-", "*", "/", "+=", "*=", "min", "max", "half", "twice", "inv", "~", "neg", "-x", "abs", "std::abs", "fma", "compare", "predicates", "to float", "to double", "from double", "from int", "unpack", "constants"};
    t.run = [c](int op, const Pool& p, int ia, int ib, int ic) -> u64 { u64 a = p.w[ia], b = p.w[ib]; if (op < 8) return c->bin(op, a, b); if (op < 16) return c->un(op - 8, a); switch (op) { case 16: return c->fma3(a, b, p.w[ic]); case 17: return c->cmp(a, b); case 18: return c->preds(a); case 19: return f_bits(c->to_f(a)); case 20: return d_bits(c->to_d(a)); case 21: return c->from_d((i64)a * 0.0078125); case 22: return c->from_i((int)a); case 23: return hf(c->to_u(a, ib & 1)); default: return c->cst(ib * 2); } };
    G.push_back(t); }
  static const char* BO[] = {"+", "-", "*", "/", "+=", "*=", "min", "max", "inv", "half", "twice", "exp2", "square", "-x", "inv()", "half()", "twice()", "exp2()", "square()", "neg()", "std::abs"};
  for (ITab* c : g_tabs) { Target t; t.name = c->name; t.ops.assign(BO, BO + 21); for (const char* x : {"compare", "predicates", "constant", "print", "to float", "to double", "generic posit", "from double", "from int", "from generic"}) t.ops.push_back(x);
    t.bits = c->f.N; t.sext = true; t.gen = [c](Src& s, Pool& p) { p.w[0] = gen_pat(s, c->f); for (int i = 1; i < V; i++) p.w[i] = gen_rel(s, c->f, (i64)p.w[0], c->ftb); };
    t.run = [c](int op, const Pool& p, int ia, int ib, int ic) -> u64 { i64 a = (i64)p.w[ia], b = (i64)p.w[ib]; if (op < 8) return c->bin(op, a, b); if (op < 21) return c->un(op - 8, a); switch (op) { case 21: return c->cmp(a, b); case 22: return c->preds(a); case 23: { i64 o = 0; c->cst(ib * 3 + ic, o); return o; } case 24: return hs(c->print(a)); case 25: return f_bits(c->to_f(a)); case 26: return d_bits(c->to_d(a)); case 27: return c->to_p(a, ib); case 28: return c->from_d(a * 0.109375); case 29: return c->from_i((int)a); default: return c->from_p(a, ib % 3); } };
    G.push_back(t); }
  { Target t; t.name = "binary8tab"; t.bits = 8; t.ops.assign(BO, BO + 21); for (const char* x : {"compare", "negative", "constant", "to float", "to double", "from float", "from int"}) t.ops.push_back(x); t.gen = lay(B8Api::fmt());
    t.run = [](int op, const Pool& p, int ia, int ib, int ic) -> u64 { u64 a = p.w[ia], b = p.w[ib]; if (op < 8) return B8Api::bin(op, a, b); if (op < 21) return B8Api::un(op - 8, a); switch (op) { case 21: return B8Api::cmp(a, b); case 22: return B8Api::negative(a, ib & 1); case 23: return B8Api::cst(ib * 2 + ic % 2); case 24: return f_bits(B8Api::to_f(a)); case 25: return d_bits(B8Api::to_d(a)); case 26: return B8Api::from_f((int)a * 0.171875f); default: return B8Api::from_i((int)a - 100); } };
    G.push_back(t); }
  { Target t; t.name = "float16n32"; t.bits = 16; t.gen = lay(F_HALF); t.ops = {"+", "-", "*", "/", "+=", "*=", "rem", "half", "square", "inv", "sqrt", "neg", "-x", "abs", "std::abs", "mulAdd", "compare", "constant", "print", "to float", "to double", "raw", "from float"};
    t.run = [](int op, const Pool& p, int ia, int ib, int ic) -> u64 { IHalf* c = g_half; u64 a = p.w[ia], b = p.w[ib]; if (op < 7) return c->bin(op, a, b); if (op < 15) return c->un(op - 7, a); switch (op) { case 15: return c->mad(a, b, p.w[ic]); case 16: return c->cmp(a, b); case 17: return c->cst(ib); case 18: return hs(c->print(a)); case 19: return f_bits(c->to_f(a)); case 20: return d_bits(c->to_d(a)); case 21: return c->raw(a, ib % 3); default: return c->from_f((float)((i64)a * 0.71875)); } };
    G.push_back(t); }
  for (TOther& o : g_others) { Target t; TOther* c = &o; t.name = std::string("printing ") + o.name; t.bits = c->w > 32 ? 32 : c->w; t.sext = c->kind == 1; t.ops = {"dec", "hex", "oct"}; t.gen = [c](Src& s, Pool& p) { for (int i = 0; i < V; i++) { p.w[i] = s.draw(1ull << (c->w > 32 ? 32 : c->w)); if (c->kind == 1) p.w[i] = (u64)((i64)(p.w[i] << (64 - c->w)) >> (64 - c->w)); } };
    t.run = [c](int op, const Pool& p, int ia, int ib, int ic) -> u64 { long long g[4] = {(long long)p.w[ia], 0, 0, 0}; if (c->kind == 0) { g[0] = ib; g[1] = ic & 1; g[2] = (long long)(p.w[ia] % 100) - 50; g[3] = (long long)p.w[ia]; } return hs(put(*c, g, op)); };
    G.push_back(t); }
  if (HAVE_AVX2) {
    { Target t; t.name = "simd_posit8_32"; t.ops = {"+", "-", "*", "/", "neg", "inv", "square", "exp2", "half", "twice", "neg()", "inv()", "square()", "exp2()", "half()", "twice()", "copy", "is_negative", "is_nan", "is_infinity", "has_neg_exponent", "gauss2", "expression", "floats", "print", "from int", "from float"};
      t.gen = [](Src& s, Pool& p) { for (int i = 0; i < V; i++) p.w[i] = s.draw(0); };
      t.run = [](int op, const Pool& p, int ia, int ib, int ic) -> u64 { u64 a[4], b[4], c[4], o[4] = {0}; for (int i = 0; i < 4; i++) { a[i] = mix64(p.w[ia] + i); b[i] = mix64(p.w[ib] + i); c[i] = mix64(p.w[ic] + i); } if (op == 23) { float f[32]; simd_float((uint8_t*)a, f); return hm(f, sizeof f); } if (op == 24) return hs(simd_print((uint8_t*)a)); if (op == 25) { simd_bcast_i((int)(a[0] % 200) - 100, (uint8_t*)o); return hm(o, 32); } if (op == 26) { simd_bcast_f((int)(a[0] % 200) * 0.07f, (uint8_t*)o); return hm(o, 32); } simd_op(op, (uint8_t*)a, (uint8_t*)b, (uint8_t*)c, (uint8_t*)o); return hm(o, 32); };
      G.push_back(t); }
    for (ILanes* c : g_lanes) { Target t; t.name = std::string("lanes ") + c->name; t.ops = {"load and store", "broadcast", "max", "select", "add", "lane", "running maximum", "print", "strided load"}; t.gen = [](Src& s, Pool& p) { for (int i = 0; i < V; i++) p.w[i] = s.draw(0); };
      t.run = [c](int op, const Pool& p, int ia, int ib, int ic) -> u64 {
        u64 m = c->bits == 64 ? ~0ull : (1ull << c->bits) - 1, a[128], b[128], o[128] = {0}; int idx[128] = {0}; for (int i = 0; i < 128; i++) { a[i] = mix64(p.w[ia] + i) & m; b[i] = mix64(p.w[ib] + i) & m; }
        switch (op) { case 0: return hs(c->store(a, o, ib)) ^ hm(o, c->n * 8); case 1: c->bcast(a[ib], o); break; case 2: c->max(a, b, o); break; case 3: c->select(a, b, b, a, o); break; case 4: if (c->hasadd) c->add(a, b, o); break; case 5: return c->hassub ? c->lane(a, ib % c->n) : 0;
          case 6: if (c->hasbi && c->hasblend && c->n <= 32) { c->argmax(a, 1 + ib % (128 / c->n > 3 ? 3 : 1), o, idx); return hm(o, c->n * 8) ^ hm(idx, sizeof idx); } return 0;
          case 7: return c->hasprint ? hs(c->print(a)) : 0; default: if (!c->hasstr) return 0; { std::vector<u64> v(4 * 64 + 8, 1); for (size_t i = 0; i < v.size(); i++) v[i] = mix64(p.w[ia] + i) & m; c->incr(a[0] & 7, o); } }
        return hm(o, c->n * 8); };
      G.push_back(t); }
  }
}
void setup() {
  register_pfs(); register_unps(); register_anys(); register_half(); register_others(); reg_posit8(); reg_posit10(); reg_posit12(); if (HAVE_AVX2) register_lanes(); targets();
  std::ostringstream o; o << std::hex << 1 << std::oct << 2 << std::dec << 3.5f << 'c' << std::endl;      // the C++ library's own lazy set-up
}
// the standard streams are shared by everything: an operation that writes to them, or changes how they print, acts on others
struct Sink : std::streambuf { std::atomic<u64> n{0}; int overflow(int c) override { n++; return c == EOF ? 0 : c; } std::streamsize xsputn(const char*, std::streamsize k) override { n++; return k; } };
static Sink& sink() { static Sink* k; if (!k) { k = new Sink; std::cout.rdbuf(k); std::cerr.rdbuf(k); std::clog.rdbuf(k); } return *k; }
static u64 streams() { u64 h = sink().n; for (std::ostream* o : {&std::cout, &std::cerr, &std::clog}) h = mix64(h ^ (u64)o->flags()) ^ (u64)o->precision() << 8 ^ (u64)o->width() << 16 ^ (u64)o->fill() << 40; return h; }
struct Step { int op, a, b, c; };
struct Case { Target* t; Pool p; int n, reps; Step st[T][L]; u64 res[T][L]; bool unstable[T][L]; };
static u64 call(const Case& c, int t, int i) { const Step& s = c.st[t][i]; try { return c.t->run(s.op, c.p, s.a, s.b, s.c); } catch (Fail&) { return 0x12345; } }
// threads that live as long as the process (children of a fork start their own)
struct Crew {
  std::mutex m; std::condition_variable go, done; std::vector<std::thread> th; u64 round = 0; int left = 0; std::atomic<int> ready{0}; Case* c = nullptr;
  void loop(int t) { u64 seen = 0; for (;;) { Case* k; { std::unique_lock<std::mutex> g(m); go.wait(g, [&] { return round != seen; }); seen = round; k = c; }
      ready.fetch_add(1); while (ready.load() < T) std::this_thread::yield();
      for (int r = 0; r < k->reps; r++) for (int i = 0; i < k->n; i++) { u64 v = call(*k, t, i); if (r == 0) { k->res[t][i] = v; k->unstable[t][i] = false; } else if (v != k->res[t][i]) k->unstable[t][i] = true; }
      { std::lock_guard<std::mutex> g(m); if (--left == 0) done.notify_one(); } } }
  void run(Case& k) { std::unique_lock<std::mutex> g(m); if (th.empty()) for (int t = 0; t < T; t++) { th.emplace_back(&Crew::loop, this, t); th.back().detach(); } c = &k; left = T; ready = 0; round++; go.notify_all(); done.wait(g, [&] { return left == 0; }); }
};
static Crew* crew() { static Crew* c; static pid_t owner; if (owner != getpid()) { c = new Crew; owner = getpid(); } return c; }
static void threads(Src& s) {
  static Case c; c.t = &G[s.draw(G.size())]; memset(&c.p, 0, sizeof c.p); c.t->gen(s, c.p); bool same = s.draw(2); c.n = 1 + (int)s.draw(L); c.reps = s.replay ? 300 : REPS;
  int few[3] = {-1, 0, 0}; if (s.draw(2)) for (int& f : few) f = (int)s.draw(c.t->ops.size());      // long runs of few operations
  for (int t = 0; t < T; t++) for (int i = 0; i < c.n; i++) { if (t && same) { c.st[t][i] = c.st[0][i]; continue; } Step& p = c.st[t][i]; p.op = few[0] < 0 ? (int)s.draw(c.t->ops.size()) : few[s.draw(3)]; u64 k = s.draw(V * V * V); p.a = k % V; p.b = k / V % V; p.c = k / V / V; }
  { u64 h = 0; for (int t = 0; t < T; t++) for (int i = 0; i < c.n; i++) { const Step& p = c.st[t][i]; h = mix64(h ^ (u64)(p.op * 64 + p.a * 16 + p.b * 4 + p.c)); } u64 w = 0; bool dif = false; for (int i = 0; i < V; i++) { w = mix64(w ^ c.p.w[i]); dif |= c.p.w[i] != c.p.w[0]; } s.note(dif && c.n > 1, (u64)(c.t - &G[0]), h, w); }
  auto step = [&](int t, int i) { const Step& p = c.st[t][i]; return strf("%s(#%d,#%d,#%d)", c.t->ops[p.op], p.a, p.b, p.c); };
  if (s.want) { std::string d = c.t->name + ": values"; for (int i = 0; i < V; i++) d += strf(" %#llx", (unsigned long long)c.p.w[i]); for (int t = 0; t < (same ? 1 : T); t++) { d += same ? "; every thread runs" : strf("; thread %d runs", t); for (int i = 0; i < c.n; i++) d += " " + step(t, i); } s.text = d.substr(0, 3000); }
  u64 o0 = streams(); int r0 = races(); crew()->run(c);
  if (races() != r0) fail("%s: a data race between calls on different objects (threads running %s)", c.t->name.c_str(), [&] { std::string d; for (int i = 0; i < c.n; i++) d += " " + step(0, i); return d; }().c_str());
  if (streams() != o0) fail("%s: the standard streams were written to or changed (thread 0 ran %s)", c.t->name.c_str(), [&] { std::string d; for (int i = 0; i < c.n; i++) d += " " + step(0, i); return d; }().c_str());
  for (int t = T - 1; t >= 0; t--) for (int i = c.n - 1; i >= 0; i--) { u64 v = call(c, t, i);
    if (c.unstable[t][i]) fail("%s: thread %d got different results from the same call %s", c.t->name.c_str(), t, step(t, i).c_str());
    if (v != c.res[t][i]) fail("%s: %s gave %#llx while %d threads ran and %#llx alone, after other calls", c.t->name.c_str(), step(t, i).c_str(), (unsigned long long)c.res[t][i], T, (unsigned long long)v); }
}
// one thread, no randomness left in the order: f(q), unrelated, f(p), f(q) for operands p and q that differ in one or two bits, in order or in sign
static u64 quiet(Target& t, int op, const Pool& p) { try { return t.run(op, p, 0, 1, 2); } catch (Fail&) { return 0x12345; } }
static void history(Src& s) {
  Target& t = G[s.draw(G.size())]; int op = (int)s.draw(t.ops.size()); Pool p, q, x; memset(&p, 0, sizeof p); t.gen(s, p); memset(&x, 0, sizeof x); t.gen(s, x);
  s.note(p.w[0] != p.w[1], (u64)(&t - &G[0]), op, p.w[0], p.w[1]); u64 pick = s.draw(0), n = 0; int B = t.bits;
  if (s.want) s.text = strf("%s: %s of %#llx, %#llx between calls with operands differing in one or two bits", t.name.c_str(), t.ops[op], (unsigned long long)p.w[0], (unsigned long long)p.w[1]);
  u64 base = quiet(t, op, p);
  auto probe = [&](const char* how) {
    quiet(t, op, x); u64 r0 = quiet(t, op, q); quiet(t, op, x); u64 y = quiet(t, op, p), r1 = quiet(t, op, q); std::swap(x.w[0], x.w[1]); std::swap(x.u[0], x.u[1]);
    if (y != base) fail("%s: %s(%#llx,%#llx) gave %#llx at first and %#llx after calls with %#llx,%#llx (%s)", t.name.c_str(), t.ops[op], (unsigned long long)p.w[0], (unsigned long long)p.w[1], (unsigned long long)base, (unsigned long long)y, (unsigned long long)q.w[0], (unsigned long long)q.w[1], how);
    if (r0 != r1) fail("%s: %s(%#llx,%#llx) gave %#llx at first and %#llx after a call with %#llx,%#llx (%s)", t.name.c_str(), t.ops[op], (unsigned long long)q.w[0], (unsigned long long)q.w[1], (unsigned long long)r0, (unsigned long long)r1, (unsigned long long)p.w[0], (unsigned long long)p.w[1], how); };
  auto put = [&](int i, u64 w) { if (t.sext && B < 64) w = (u64)((i64)(w << (64 - B)) >> (64 - B)); else if (B < 64) w &= (1ull << B) - 1; q.w[i] = w; };
  q = p; std::swap(q.w[0], q.w[1]); std::swap(q.u[0], q.u[1]); probe("swapped");
  for (int i = 0; i < 3; i++) { q = p; q.w[i] = p.w[3]; q.u[i] = p.u[3]; probe("one operand replaced"); }
  if (B) {
    for (int i = 0; i < 3; i++) for (u64 w : {0 - p.w[i], ~p.w[i], p.w[i] + 1, p.w[i] - 1, (u64)0, p.w[(i + 1) % 3]}) { q = p; put(i, w); probe("a related operand"); }
    int C = 2 * B, all = C * (C + 1) / 2; bool some = all > 300;
    for (int i = 0; i < C; i++) for (int j = i; j < C; j++) { if (some && mix64(pick + n++) % (u64)all >= 150) continue; q = p; for (int k : {i, j}) if (k == i || j != i) put(k / B, q.w[k / B] ^ 1ull << k % B); probe("bits"); }
    for (int k = 0; k < 20; k++) { q = p; put(0, p.w[0] ^ mix64(pick + 3 * k)); put(1, p.w[1] ^ (k % 2 ? mix64(pick + 3 * k) : mix64(pick + 3 * k + 1))); probe("random"); u64 d = mix64(pick + 5 * k) % 40 - 20; q = p; put(0, p.w[0] + d); put(1, p.w[1] - d); probe("same sum"); q = p; put(0, p.w[0] + d); put(1, p.w[1] + d); probe("same difference"); }
  } else for (int k = 0; k < 12; k++) { q = p; u64 h = mix64(pick + k); for (int i = 0; i < 2; i++) { Full& u = q.u[i]; q.w[i] ^= 1ull << (h >> 8 * i & 63); if (h >> (20 + i) & 1) { if (h >> (24 + i) & 1) u.exp += (int)(h >> 32 & 3) - 1; if (h >> (28 + i) & 1) u.neg = !u.neg; if (u.frac && h >> (40 + i) & 1) { u64 low = u.frac & (0 - u.frac); u.frac = u.frac == low ? u.frac : u.frac ^ low; } } } probe("nearby"); }
}
CHECK_MAIN("P36", "the program has at least two steps and its operands are not all equal") {
  setup(); c.forked = true;
  c.bodies.push_back(Body{"threads", threads, QUICK, QUICK * 250, {}, {}});
#ifndef TSAN
  c.bodies.push_back(Body{"history", history, QUICK * 3, QUICK * 3000, {}, {}});
#endif
}
