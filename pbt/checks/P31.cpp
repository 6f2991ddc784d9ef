#include "../lister.hpp"
#include "../gen.hpp"
#include "../text.hpp"
#include <unistd.h>
#include <dlfcn.h>
#include <sys/stat.h>
#include <iostream>
#include <fstream>
#include <cstring>
std::vector<IPosit*> g_cfgs; std::vector<Lister> g_listers; void register_listers(); void register_cfgs() { register_listers(); }
void add_lister(int N, int es, int spec, int holder, int ftb, const char* name, const char* so, const char* dflt) {
  void* h = dlopen(so, RTLD_NOW | RTLD_LOCAL); void* m = h ? dlsym(h, "main") : nullptr; if (!m) { fprintf(stderr, "%s\n", dlerror()); exit(3); }
  g_listers.push_back(Lister{N, es, spec, holder, ftb, name, dflt, (int (*)(int, char const**))m});
}
// one run of the lister in a directory of this process (it writes a file named "tmp")
static std::string run(const Lister& l, const std::string& fmt, int& rc, std::string& file, bool given = true) {
  static pid_t me = 0; if (me != getpid()) { me = getpid(); char self[4096]; ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1); std::string d(self, n > 0 ? n : 0); d = d.substr(0, d.rfind('/') + 1) + strf("cwd_%d", (int)me); mkdir(d.c_str(), 0700); if (chdir(d.c_str())) _exit(3); }
  std::ostringstream o; std::streambuf* b = std::cout.rdbuf(o.rdbuf()); auto fl = std::cout.flags(); char const* argv[] = {"listposits", fmt.c_str(), nullptr};
  if (!given) argv[1] = nullptr; rc = l.fn(given ? 2 : 1, argv); std::cout.rdbuf(b); std::cout.flags(fl); std::cout.clear();
  std::ifstream f("tmp", std::ios::binary); std::ostringstream t; t << f.rdbuf(); file = t.str(); return o.str();
}
static std::vector<std::string> split(const std::string& s, char c) { std::vector<std::string> r; std::string t; for (char x : s) if (x == c) { r.push_back(t); t.clear(); } else t += x; r.push_back(t); return r; }
static double dbl(const Dy& d) { return bits_d(fl_encode(F_DOUBLE, d)); }
static i64 times(const Fmt& f, i64 v, bool div) {   // x*2 and x/2 as the formats' own product and quotient
  Dy x = ref_decode(f, v), two = ref_decode(f, ref_encode(f, dy_from_int(2)));
  if (x.k != FIN) return v;
  return ref_encode(f, div ? dy_div(x, two) : dy_mul(x, two));
}
static i64 recip(const Fmt& f, i64 v) { Dy x = ref_decode(f, v), one = dy_from_int(1); if (x.k == FIN) return ref_encode(f, dy_div(one, x)); return x.k == ZERO ? f.pinf(false) : x.k == INF ? 0 : f.top(); }
static bool isnan_txt(const std::string& t) { return t == "nan" || t == "-nan"; }
// nothing to compare for fields of special values
static bool match(const Lister& l, const Fmt& f, char k, i64 v, const std::string& got, std::string& want) {
  Dy d = ref_decode(f, v); char b[64]; bool fin = d.k == FIN; Fields F; if (fin) F = ref_fields(f, v);
  switch (k) {
    case 'i': want = strf("%lld", (long long)v); break; case 'o': want = strf("%llu", (unsigned long long)((u64)v & f.mask())); break; case 'b': want = bits_str(v, f.N); break;
    case 'k': if (!fin) return true; want = strf("%d", F.k); break; case 'e': if (!fin) return true; want = strf("%lld", (long long)d.e); break;
    case 'r': if (!fin) return true; snprintf(b, sizeof b, "%g", std::ldexp(1.0, F.k << f.es)); want = b; break;
    case 'u': want = unpacked_text(d, l.ftb); if (d.k == INF && f.spec == WITHINF) return got == "up(-infinity)" || got == "up(+infinity)"; break;
    case 'p': if (l.name[0] == 'p') { want = strf("posit(%llu)", (unsigned long long)((u64)v & f.mask())); break; }      // a table class prints its pattern
    case 'v': { double x = k == 'v' ? dbl(d) : (double)bits_f((uint32_t)fl_encode(F_SINGLE, d)); if (x != x) { want = "nan"; return isnan_txt(got); } if (d.k == INF && f.spec == WITHINF) { want = "inf"; return got == "inf" || got == "-inf"; } snprintf(b, sizeof b, "%g", x); want = b; break; }
  }
  return got == want;
}
static const char COLS[] = "iobkervup";
static void make(Src& s, Lister*& l, std::string& fmt, std::string& cols, bool big) {
  size_t i = s.draw(g_listers.size()); l = &g_listers[i]; if (!big) for (int t = 0; l->N > 10 && t < 3; t++) l = &g_listers[s.draw(g_listers.size())];
  int n = 1 + (int)s.draw(6); for (int j = 0; j < n; j++) fmt += COLS[s.draw(9)];
  cols = fmt; static const char FL[] = "UNI2A"; for (int j = 0; j < 5; j++) if (s.chance(35)) fmt.insert(s.draw(fmt.size() + 1), 1, FL[j]);
}
static std::vector<i64> order(const Fmt& f, bool u) { std::vector<i64> r; if (u) for (u64 x = 0; x <= f.mask(); x++) r.push_back(f.sext(x)); else for (i64 v = -f.maxpos(); v <= f.maxpos(); v++) r.push_back(v); return r; }
static std::vector<i64> groups(const Fmt& f, const std::string& fmt, i64 v) { std::vector<i64> g{v}; auto h = [&](char c) { return fmt.find(c) != std::string::npos; }; if (h('I')) g.push_back(recip(f, v)); if (h('2')) g.push_back(times(f, v, false)); if (h('A')) g.push_back(times(f, v, true)); return g; }
static void text(Src& s) {
  Lister* l; std::string fmt, cols; make(s, l, fmt, cols, g_thorough); Fmt f{l->N, l->es, (Spec)l->spec}; u64 h = 0; for (char c : fmt) h = h * 131 + c;
  s.note(cols.size() > 1 || fmt.size() > cols.size(), mix64(l->N * 4096 + l->es * 64 + l->spec), h); SHOW(s, "listposits of %s, format %s", l->name, fmt.c_str());
  bool U = fmt.find('U') != std::string::npos; s.cls(U ? 0 : 1); if (fmt.find('I') != std::string::npos) s.cls(2); if (fmt.find('2') != std::string::npos || fmt.find('A') != std::string::npos) s.cls(3);
  int rc; std::string file, o = run(*l, fmt, rc, file); if (rc) fail("listing %s with %s returns %d", l->name, fmt.c_str(), rc);
  std::vector<std::string> L = split(o, '\n'); if (!L.empty() && L.back().empty()) L.pop_back();
  std::vector<i64> R = order(f, U); if (L.size() < R.size() + 1) fail("listing %s with %s prints %zu lines for %zu posits", l->name, fmt.c_str(), L.size(), R.size());
  size_t base = L.size() - R.size(); std::string w; std::string all; for (char c : fmt) if (strchr(COLS, c)) all += c;
  if (std::count(L[base - 1].begin(), L[base - 1].end(), '\t') != (long)all.size()) fail("listing %s with %s: the heading \"%s\" has not one title per column", l->name, fmt.c_str(), L[base - 1].c_str());
  for (size_t i = 0; i < R.size(); i++) {
    std::vector<std::string> c = split(L[base + i], '\t'); std::vector<i64> G = groups(f, fmt, R[i]);
    if (c.size() != 1 + G.size() * all.size() || !c[0].empty()) fail("listing %s with %s: row %zu \"%s\" has %zu columns, expected %zu", l->name, fmt.c_str(), i, L[base + i].c_str(), c.size() - 1, G.size() * all.size());
    for (size_t g = 0; g < G.size(); g++) for (size_t k = 0; k < all.size(); k++) if (!match(*l, f, all[k], G[g], c[1 + g * all.size() + k], w))
      fail("listing %s with %s: column %c of %s%lld reads \"%s\", expected \"%s\"", l->name, fmt.c_str(), all[k], g ? strf("%lld (derived from %lld) ", (long long)G[g], (long long)R[i]).c_str() : "", (long long)G[g], c[1 + g * all.size() + k].c_str(), w.c_str());
  }
}
static void binary(Src& s) {
  Lister* l; std::string fmt, cols; make(s, l, fmt, cols, g_thorough); fmt.insert(s.draw(fmt.size() + 1), 1, 'B'); Fmt f{l->N, l->es, (Spec)l->spec}; u64 h = 1; for (char c : fmt) h = h * 131 + c;
  s.note(cols.size() > 1, mix64(l->N * 4096 + l->es * 64 + l->spec), h); SHOW(s, "binary listposits of %s, format %s", l->name, fmt.c_str());
  int rc; std::string file; run(*l, fmt, rc, file); std::vector<i64> R = order(f, fmt.find('U') != std::string::npos); std::string all; for (char c : fmt) if (strchr(COLS, c)) all += c;
  std::vector<i64> E; for (i64 v : R) for (i64 g : groups(f, fmt, v)) E.push_back(g);
  if (file.size() != E.size() * all.size() * 8) fail("binary listing of %s with %s: %zu bytes, expected %zu doubles", l->name, fmt.c_str(), file.size(), E.size() * all.size());
  const char* p = file.data();
  for (i64 v : E) for (char k : all) { double x; memcpy(&x, p, 8); p += 8; Dy d = ref_decode(f, v); double w;
    switch (k) { case 'i': w = (double)v; break; case 'o': w = (double)((u64)v & f.mask()); break; case 'v': case 'u': w = dbl(d); if (d.k == INF && f.spec == WITHINF && std::isinf(x)) w = x; break; case 'k': w = d.k == FIN ? ref_fields(f, v).k : x; break; case 'e': w = d.k == FIN ? (double)d.e : x; break; case 'r': w = d.k == FIN ? std::ldexp(1.0, ref_fields(f, v).k << f.es) : x; break; default: w = x; }
    if (!(x == w || (x != x && w != w))) fail("binary listing of %s with %s: column %c of %lld is %.17g, expected %.17g", l->name, fmt.c_str(), k, (long long)v, x, w); }
}
static void head(Src& s) {
  Lister* l = &g_listers[s.draw(g_listers.size())]; Fmt f{l->N, l->es, (Spec)l->spec}; s.note(true, l->N, l->es, l->spec); SHOW(s, "heading of %s", l->name); int rc; std::string file, o = run(*l, "H", rc, file), w;
  auto val = [&](const char* key) { size_t p = o.find(std::string(" ") + key + "="); if (p == std::string::npos) fail("heading of %s does not state %s: %s", l->name, key, o.c_str()); p += strlen(key) + 2; return o.substr(p, o.find_first_of(" \n", p) - p); };
  auto num = [&](const char* key, const Dy& d) { char b[64]; snprintf(b, sizeof b, "%g", dbl(d)); std::string g = val(key); if (g != b) fail("heading of %s: %s is %s, expected %s", l->name, key, g.c_str(), b); };
  num("half", dy_scale(dy_from_int(1), -1)); num("twice", dy_from_int(2)); num("min", ref_decode(f, -f.maxpos())); if (l->name[0] != 'p') num("max", ref_decode(f, f.maxpos())); else if (val("max") != strf("posit(%lld)", (long long)f.maxpos())) fail("heading of %s: max is %s", l->name, val("max").c_str());
  if (o.find(strf("totalbits:%d\n", l->N)) == std::string::npos) fail("heading of %s does not state its total bits", l->name); if (o.find(strf("exponent size bits:%d\n", l->es)) == std::string::npos) fail("heading of %s does not state its exponent bits", l->name);
}
// without a format string: the one chosen when it was built
static void dflt(Src& s) {
  Lister* l = &g_listers[s.draw(g_listers.size())]; s.note(true, l->N, l->es, l->spec); SHOW(s, "listposits of %s without a format", l->name); int r1, r2; std::string f1, f2, o1 = run(*l, "", r1, f1, false), o2 = run(*l, l->dflt, r2, f2);
  if (r1 != r2 || o1 != o2 || f1 != f2) fail("listing %s without a format differs from listing it with %s (%d and %d, %zu and %zu characters, %zu and %zu bytes)", l->name, l->dflt, r1, r2, o1.size(), o2.size(), f1.size(), f2.size());
}
CHECK_MAIN("P31", "more than one column, a second group of columns, or another order is asked for") {
  c.bodies.push_back(Body{"text", text, 3, 40, {}, {"unsigned order", "signed order", "reciprocal", "half or twice"}});
  c.bodies.push_back(Body{"binary", binary, 1.5, 20, {}, {}});
  c.bodies.push_back(Body{"default-format", dflt, 0.2, 0.4, {}, {}});
  c.bodies.push_back(Body{"heading", head, 0.1, 0.3, {}, {}});
}
