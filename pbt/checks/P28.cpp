#include "../eig.hpp"
#define X(I) IEigen* make_eig_##I();
EIG_LIST
#undef X
static std::vector<IEigen*> g;
static IEigen& pick(Src& s) { return *g[s.draw(g.size())]; }
static void elementwise(Src& s) { pick(s).elementwise(s); }
static void reductions(Src& s) { pick(s).reductions(s); }
static void products(Src& s) { pick(s).products(s); }
static void exact(Src& s) { pick(s).exact(s); }
static void casts(Src& s) { pick(s).casts(s); }
static void history(Src& s) { pick(s).history(s); }
static void unpacked(Src& s) { pick(s).unpacked(s); }
void register_cfgs() {
#define X(I) g.push_back(make_eig_##I());
EIG_LIST
}
CHECK_MAIN("P28", "the matrices have more than one entry (products: inner size above one; histories: two statements or more)") {
  c.bodies.push_back(Body{"elementwise", elementwise, 30, 900, {}, {"finite entries", "special entries"}});
  c.bodies.push_back(Body{"reductions", reductions, 60, 1800, {}, {"finite entries", "special entries"}});
  c.bodies.push_back(Body{"products", products, 60, 1800, {}, {"finite entries", "special entries"}});
  c.bodies.push_back(Body{"exact-products", exact, 15, 400, {}, {"small", "large (blocked kernels)"}});
  c.bodies.push_back(Body{"casts", casts, 60, 1800, {}, {"finite entries", "special entries"}});
  c.bodies.push_back(Body{"history", history, 60, 1800, {}, {"entrywise", "with products or moves"}});
  c.bodies.push_back(Body{"unpacked", unpacked, 30, 900, {}, {"finite entries", "special entries"}});
}
