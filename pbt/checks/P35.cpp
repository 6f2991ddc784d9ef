#include "../gen.hpp"
#include "../lanes.hpp"
#include <cstring>
std::vector<IPosit*> g_cfgs; void register_cfgs() {}
static ILanes& pick(Src& s) { static bool once = (register_lanes(), true); (void)once; return *g_lanes[s.draw(g_lanes.size())]; }
static u64 mask(const ILanes& w) { return w.bits == 64 ? ~0ull : (1ull << w.bits) - 1; }
static i64 sx(const ILanes& w, u64 v) { return (i64)(v << (64 - w.bits)) >> (64 - w.bits); }
static double fv(const ILanes& w, u64 v) { return w.bits == 32 ? (double)bits_f((uint32_t)v) : bits_d(v); }
static bool lt(const ILanes& w, u64 a, u64 b) { return w.kind == 0 ? sx(w, a) < sx(w, b) : w.kind == 1 ? a < b : fv(w, a) < fv(w, b); }
static bool isnan_(const ILanes& w, u64 a) { return w.kind == 2 && fv(w, a) != fv(w, a); }
static std::string show(const ILanes& w, u64 v) { return w.kind == 2 ? strf("%.17g", fv(w, v)) : w.kind == 1 ? strf("%llu", (unsigned long long)v) : strf("%lld", (long long)sx(w, v)); }
static std::string row(const ILanes& w, const u64* a) { std::string t; for (int i = 0; i < w.n; i++) t += (i ? " " : "") + show(w, a[i]); return t; }
// a lane value; near is a value it may tie with or stand next to
static u64 val(Src& s, const ILanes& w, u64 near) {
  u64 k = s.draw(16), m = mask(w), top = 1ull << (w.bits - 1);
  switch (k) {
    case 0: return 0; case 1: return near; case 2: return (near + 1) & m; case 3: return (near - 1) & m; case 4: return near ^ top; case 5: return top; case 6: return top - 1; case 7: return m;
    case 8: case 9: case 10: { if (w.kind != 2) return (u64)s.range(-6, 6) & m; double d = (double)s.range(-6, 6); if (w.bits == 32) return f_bits((float)d); u64 b; memcpy(&b, &d, 8); return b; }
    case 11: if (w.kind == 2) { static const u64 sp[] = {0x7ff0000000000000ull, 0xfff0000000000000ull, 0x7ff8000000000000ull, 0x8000000000000000ull, 1, 0x7fefffffffffffffull}; static const u64 sf[] = {0x7f800000, 0xff800000, 0x7fc00000, 0x80000000, 1, 0x7f7fffff}; u64 j = s.draw(6); return w.bits == 64 ? sp[j] : sf[j]; } return 1ull << s.draw(w.bits);
    default: return s.draw(0) & m;
  }
}
static const int MX = 40;
static void bad(const ILanes& w, const char* what, const std::string& args, const u64* got, const u64* want) { for (int i = 0; i < w.n; i++) if (got[i] != want[i]) fail("%s: %s of %s: lane %d is %s (%#llx), the scalar gives %s (%#llx)", w.name, what, args.c_str(), i, show(w, got[i]).c_str(), (unsigned long long)got[i], show(w, want[i]).c_str(), (unsigned long long)want[i]); }
static void ops(Src& s) {
  ILanes& w = pick(s); u64 a[MX], b[MX], x[MX], y[MX], g[MX], e[MX]; int ix[MX], iy[MX], go[MX]; int n = w.n, lo = 0, ti = 0; u64 h = 0, h2 = 0;
  for (int i = 0; i < n; i++) { a[i] = val(s, w, i ? a[i - 1] : 0); b[i] = val(s, w, a[i]); x[i] = val(s, w, b[i]); y[i] = val(s, w, x[i]); lo += lt(w, a[i], b[i]); ti += a[i] == b[i]; h = mix64(h ^ a[i]) + b[i]; h2 = mix64(h2 ^ x[i]) + y[i]; }
  for (int i = 0; i < MX; i++) { u64 d = s.draw(0); ix[i] = (int)d; iy[i] = (int)(d >> 32); }
  int off = (int)s.draw(8); s.note(n == 1 ? a[0] != b[0] : lo && lo < n, h, h2); if (ti) s.cls(0); s.cls(1 + w.kind); if (w.hasbi) s.cls(4); SHOW(s, "%s: a = %s; b = %s; x = %s; y = %s", w.name, row(w, a).c_str(), row(w, b).c_str(), row(w, x).c_str(), row(w, y).c_str());
  if ((int)w.size() != n) fail("%s: size() is %u, it has %d lanes", w.name, w.size(), n);
  std::string o = w.store(a, g, off); if (!o.empty()) fail("%s: storing overwrites %s outside of the lanes", w.name, o.c_str()); bad(w, "load and store", row(w, a), g, a);
  w.bcast(a[0], g); for (int i = 0; i < n; i++) e[i] = a[0]; bad(w, "broadcast", show(w, a[0]), g, e);
  if (w.separate(a, g)) bad(w, "one value for each lane", row(w, a), g, a);
  std::string ab = "a = " + row(w, a) + ", b = " + row(w, b);
  w.max(a, b, g); for (int i = 0; i < n; i++) { e[i] = lt(w, b[i], a[i]) ? a[i] : b[i]; if ((isnan_(w, a[i]) || isnan_(w, b[i]) || (!lt(w, a[i], b[i]) && !lt(w, b[i], a[i]))) && (g[i] == a[i] || g[i] == b[i])) e[i] = g[i]; } bad(w, "maximum", ab, g, e);
  w.select(a, b, x, y, g);
  if (w.hasblend) { for (int i = 0; i < n; i++) e[i] = lt(w, a[i], b[i]) ? y[i] : x[i]; bad(w, "blend by a < b", ab + ", x = " + row(w, x) + ", y = " + row(w, y), g, e); }
  else { bool t = lt(w, a[0], b[0]); u64 z = w.kind == 2 ? (w.bits == 32 ? f_bits(t) : 0x3ff0000000000000ull * t) : t; if (g[0] != z) fail("%s: %s < %s gives %s", w.name, show(w, a[0]).c_str(), show(w, b[0]).c_str(), show(w, g[0]).c_str()); }
  if (w.hasbi) { w.selecti(a, b, ix, iy, go); for (int i = 0; i < n; i++) { int z = lt(w, a[i], b[i]) ? iy[i] : ix[i]; if (go[i] != z) fail("%s: blendindex by a < b of %s: index %d is %d, of %d and %d it should be %d", w.name, ab.c_str(), i, go[i], ix[i], iy[i], z); } }
  if (w.hasadd) { w.add(a, b, g); for (int i = 0; i < n; i++) e[i] = (a[i] + b[i]) & mask(w); bad(w, "sum", ab, g, e); }
  if (w.hassub) for (int i = 0; i < n; i++) { u64 v = w.lane(a, i); if (v != a[i] && !isnan_(w, a[i])) fail("%s: element %d of %s reads %s", w.name, i, row(w, a).c_str(), show(w, v).c_str()); }
  u64 st = w.kind == 2 ? a[n - 1] : (u64)(sx(w, a[n - 1]) / (w.kind == 0 && w.bits == 32 ? 64 : 1)) & mask(w); w.incr(st, g);
  for (int i = 0; i < n; i++) { if (w.kind != 2) e[i] = (u64)(i * sx(w, st)) & mask(w); else if (w.bits == 32) { volatile float f = (float)i * bits_f((uint32_t)st); e[i] = f_bits(f); } else { volatile double d = (double)i * bits_d(st); double dd = d; memcpy(&e[i], &dd, 8); } if (isnan_(w, e[i]) && isnan_(w, g[i])) e[i] = g[i]; }
  bad(w, "increments", show(w, st), g, e);
}
static void gather(Src& s) {
  ILanes* w; do w = &pick(s); while (!w->hasg); int es = w->bits / 8, cap = 64 + (int)s.draw(192), mid = (int)s.draw(cap - 8); alignas(64) unsigned char m[256 + 64]; u64 h = 0; for (int i = 0; i < 256; i += 8) { u64 d = s.draw(0); memcpy(m + i, &d, 8); h = mix64(h ^ d); } mid &= ~(es - 1);
  int off[MX]; u64 g[MX], e[MX]; bool nt = false; std::string t; for (int i = 0; i < MX; i++) off[i] = 0; for (int i = 0; i < w->n; i++) { off[i] = (int)s.draw(cap - es + 1) - mid; if (s.draw(2)) off[i] = off[i] / es * es; nt |= off[i] != i * es; e[i] = 0; memcpy(&e[i], m + mid + off[i], es); t += strf(" %d", off[i]); h = h * 31 + off[i]; }
  s.note(nt, h, w->n); SHOW(s, "%s: offsets%s from byte %d of %d", w->name, t.c_str(), mid, cap); w->gather(m + mid, off, g); bad(*w, "gather at", "offsets" + t, g, e);
}
static void strided(Src& s) {
  ILanes& w = pick(s); int n = w.n, c = w.chunk, st = w.hasext ? (int)s.draw(40) : (int)s.range(-9, 9); int k = n / c, span = w.hasext ? (k - 1) * st + c : (n - 1) * (st < 0 ? -st : st) + 1; int pre = (int)s.draw(4), len = span + pre + (int)s.draw(4); std::vector<u64> v(len); u64 h = st;
  for (auto& z : v) { z = s.draw(0) & mask(w); h = mix64(h ^ z); } int first = pre + (!w.hasext && st < 0 ? span - 1 : 0); u64 g[MX], e[MX]; for (int i = 0; i < n; i++) { e[i] = v[w.hasext ? first + i / c * st + i % c : first + i * st]; }
  s.note(n > 1 && st != 1 && st != 0, h, n); SHOW(s, "%s: elements %d and every %d of %d", w.name, first, st, len); w.len = len; w.strided(v.data(), first, st, g); bad(w, "load of every", strf("%d elements", st), g, e);
}
static void argmax(Src& s) {
  ILanes* w; do w = &pick(s); while (!w->hasbi || !w->hasblend); int n = w->n, nr = 1 + (int)s.draw(12); std::vector<u64> r(n * nr); u64 h = nr; for (int k = 0; k < nr; k++) for (int i = 0; i < n; i++) { r[k * n + i] = val(s, *w, k ? r[(k - 1) * n + i] : 0); h = mix64(h ^ r[k * n + i]); }
  u64 b[MX], g[MX]; int bi[MX], gi[MX]; bool up = false; for (int i = 0; i < n; i++) { b[i] = r[i]; bi[i] = 0; for (int k = 1; k < nr; k++) if (lt(*w, b[i], r[k * n + i])) { b[i] = r[k * n + i]; bi[i] = k; up = true; } }
  std::string t; if (s.want) for (int k = 0; k < nr; k++) t += strf(" row %d: ", k) + row(*w, &r[k * n]) + ";"; s.note(up, h, n); SHOW(s, "%s:%s", w->name, t.c_str());
  w->argmax(r.data(), nr, g, gi); for (int i = 0; i < n; i++) if (g[i] != b[i] || gi[i] != bi[i]) fail("%s: the running maximum of %d rows in lane %d is %s from row %d, the scalar loop gives %s from row %d", w->name, nr, i, show(*w, g[i]).c_str(), gi[i], show(*w, b[i]).c_str(), bi[i]);
}
static void print(Src& s) {
  ILanes* w; do w = &pick(s); while (!w->hasprint); u64 a[MX], h = 0; for (int i = 0; i < w->n; i++) { a[i] = val(s, *w, i ? a[i - 1] : 0); h = mix64(h ^ a[i]); } s.note(true, h, w->n); SHOW(s, "printing %s: %s", w->name, row(*w, a).c_str());
  std::string g = w->print(a); size_t p = g.find('['), q = g.rfind(']'); std::vector<std::string> t; if (p != std::string::npos && q != std::string::npos) { std::istringstream is(g.substr(p + 1, q - p - 1)); std::string u; while (is >> u) t.push_back(u); }
  if ((int)t.size() != w->n) fail("%s: %s prints %zu numbers: %s", w->name, row(*w, a).c_str(), t.size(), g.c_str());
  for (int i = 0; i < w->n; i++) { std::string e = w->kind == 2 ? strf("%g", fv(*w, a[i])) : show(*w, a[i]); if (t[i] != e && !isnan_(*w, a[i])) fail("%s: lane %d, %s, prints as %s in %s", w->name, i, show(*w, a[i]).c_str(), t[i].c_str(), g.c_str()); }
}
CHECK_MAIN("P35", "some but not all lanes compare less (one lane: the operands differ); gathers and strided loads: not contiguous; running maximum: replaced at least once") {
  c.bodies.push_back(Body{"lanes", ops, 800, 30000, {}, {"ties", "signed", "unsigned", "floating", "index blend"}});
  c.bodies.push_back(Body{"gather", gather, 300, 10000, {}, {}});
  c.bodies.push_back(Body{"strided", strided, 300, 10000, {}, {}});
  c.bodies.push_back(Body{"running-maximum", argmax, 300, 10000, {}, {}});
  c.bodies.push_back(Body{"printing", print, 200, 2000, {}, {}});
}
