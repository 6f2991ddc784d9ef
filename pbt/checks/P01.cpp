#include "../gen.hpp"
void register_cfgs();
static int EXN() { return g_thorough ? 18 : 13; }
// one pattern through every decoder and encoder
static void pattern(Src& s) {
  IPosit& c = gen_cfg(s); const Fmt& f = c.f; i64 v = gen_pat(s, f);
  Kind k = ref_kind(f, v); s.covered = f.N <= EXN();
  s.note(k == FIN, cfg_id(c), v); s.cls(k);
  SHOW(s, "%s pattern %s", c.name.c_str(), PV(c, v));
  const char* n = c.name.c_str(); long long V = v;
  int want = (k == NAN_) | (k == INF) << 1 | (k == ZERO) << 2 | (v == 1ll << (f.N - 2)) << 3 | (v < 0) << 4 | (f.spec != WITHINF) << 5;
  int got = c.preds(v);
  if (got != want) fail("%s: predicates (nan|inf|zero|one|negative|hasNaN) of pattern %lld are %#x, expected %#x", n, V, got, want);
  Low l = c.low(v), l2 = c.full2low(v); Full u = c.full(v), u2 = c.low2full(v);
  if (l.type != k || l2.type != k || u.type != k || u2.type != k) fail("%s: pattern %lld has kind %d, decoded as %d/%d/%d/%d", n, V, k, l.type, l2.type, u.type, u2.type);
  if (k == INF && f.spec == WITHNANINF && (l.neg != (v < 0) || u.neg != (v < 0) || u2.neg != (v < 0) || l2.neg != (v < 0))) fail("%s: infinity %lld loses its sign when decoded", n, V);
  if (k == FIN) {
    Fields r = ref_fields(f, v);
    u64 fr = r.fs ? r.frac << (64 - r.fs) : 0;
    if (r.fs > 0) s.cls(4);
    if (r.es < f.es) s.cls(5);
    for (int i = 0; i < 2; i++) { const Low& x = i ? l2 : l;
      if (x.neg != (v < 0) || x.regime != r.k || x.exp != r.exp || x.frac != fr)
        fail("%s: pattern %lld decodes to fields sign %d regime %lld exp %llu frac %#llx, expected %d %d %llu %#llx%s", n, V, x.neg, (long long)x.regime, (unsigned long long)x.exp, (unsigned long long)x.frac, v < 0, r.k, (unsigned long long)r.exp, (unsigned long long)fr, i ? " (through the full form)" : ""); }
    for (int i = 0; i < 2; i++) { const Full& x = i ? u2 : u;
      if (x.neg != (v < 0) || x.exp != r.exponent || x.frac != fr)
        fail("%s: pattern %lld unpacks to sign %d exponent %lld frac %#llx, expected %d %lld %#llx", n, V, x.neg, (long long)x.exp, (unsigned long long)x.frac, v < 0, (long long)r.exponent, (unsigned long long)fr); }
  }
  for (int h = 0; h < 2; h++) {
    i64 a = c.relow(v, h), b = c.refull(v, h);
    if (a != v) fail("%s: pattern %lld decoded to fields and encoded gives %lld", n, V, (long long)a);
    if (b != v) fail("%s: pattern %lld unpacked and packed gives %lld", n, V, (long long)b);
  }
}
// the diagnostic breakdown
static void diag(Src& s) {
  IPosit& c = gen_cfg(s); const Fmt& f = c.f; i64 v = gen_pat(s, f);
  Kind k = ref_kind(f, v); s.covered = f.N <= EXN();
  s.note(k == FIN, cfg_id(c), v); s.cls(k);
  SHOW(s, "%s analyze %s", c.name.c_str(), PV(c, v));
  Info i = c.analyze(v); const char* n = c.name.c_str(); long long V = v;
  if (i.nan != (k == NAN_) || i.inf != (k == INF)) fail("%s: analyze(%lld) says nan %d infinity %d, kind is %d", n, V, i.nan, i.inf, k);
  if (k == INF && f.spec == WITHNANINF && i.sign != (v < 0)) fail("%s: analyze(%lld) gives the wrong sign for an infinity", n, V);
  if (k != FIN) return;
  Fields r = ref_fields(f, v); u64 fr = r.fs ? r.frac << (64 - r.fs) : 0;
  if (i.sign != (v < 0) || i.k != r.k || i.rs != r.rs || i.es != r.es || i.fs != r.fs || i.ifrac != fr)
    fail("%s: analyze(%lld) gives sign %d k %d rs %d es %d fs %d frac %#llx, expected %d %d %d %d %d %#llx", n, V, i.sign, i.k, i.rs, i.es, i.fs, (unsigned long long)i.ifrac, v < 0, r.k, r.rs, r.es, r.fs, (unsigned long long)fr);
  if (f.es < 24 && (i.exp != (int)r.exp || i.exponent != (int)r.exponent)) fail("%s: analyze(%lld) gives exp %d exponent %d, expected %llu %lld", n, V, i.exp, i.exponent, (unsigned long long)r.exp, (long long)r.exponent);
}
int main(int argc, char** argv) {
  register_cfgs();
  for (int i = 1; i < argc; i++) if (std::string(argv[i]) == "thorough") g_thorough = true;
  Check c; c.property = "P01"; c.rule = "the pattern denotes a finite non-zero number";
  std::vector<std::string> cl = {"finite", "infinity", "NaN", "zero", "has fraction bits", "exponent bits cut off"};
  c.bodies.push_back(Body{"decode-encode", pattern, 6000, 200000, exh_unary(EXN()), cl});
  c.bodies.push_back(Body{"diagnostics", diag, 3000, 60000, exh_unary(EXN()), cl});
  return engine_main(argc, argv, c);
}
