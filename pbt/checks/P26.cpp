#include "../cex.hpp"
#include "../gen.hpp"
std::vector<IPosit*> g_cfgs; std::vector<CCase> g_cases;
static void cases(Src& s) {
  if (g_cases.empty()) return; u64 i = s.draw(g_cases.size()); const CCase& c = g_cases[i]; s.covered = true; s.note(c.a != 0, i); volatile i64 a = c.a, b = c.b, d = c.c; SHOW(s, "%s %s(%lld, %lld, %lld)", c.cfg, c.op, (long long)a, (long long)b, (long long)d);
  i64 r = c.rt(a, b, d); if (r != c.ct) fail("%s: %s of the patterns %lld, %lld, %lld is %lld at compile time and %lld at run time", c.cfg, c.op, (long long)a, (long long)b, (long long)d, (long long)c.ct, (long long)r);
}
CHECK_MAIN("P26", "the first operand is not zero") { c.bodies.push_back(Body{"constants", cases, 0, 0, {Exh{g_cases.size(), [](u64 i, std::vector<u64>& o) { o = {i}; }}}, {}}); }
