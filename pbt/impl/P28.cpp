// Eigen matrices of posits against plain loops of posit operations. One format per translation unit (EIG_CFG).
#include "positeigen.h"
#include <Eigen/Dense>
#include "eig.hpp"
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
template <class T, int N, int ES, class FT, PositSpec SP> struct EigenImpl : IEigen {
  using P = Posit<T, N, ES, FT, SP>; using U = typename P::UnpackedT;
  using M = Eigen::Matrix<P, Eigen::Dynamic, Eigen::Dynamic>; using MR = Eigen::Matrix<P, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>; using V = Eigen::Matrix<P, Eigen::Dynamic, 1>; using A = Eigen::Array<P, Eigen::Dynamic, Eigen::Dynamic>; using M3 = Eigen::Matrix<P, 3, 3>;
  EigenImpl(const char* nm) { f.N = N; f.es = ES; f.spec = SP == PositSpec::WithNan ? WITHNAN : SP == PositSpec::WithInf ? WITHINF : WITHNANINF; ftb = sizeof(FT) * 8; name = nm; }
  static P mk(i64 v) { return P(typename P::DeepInit(), (T)v); }
  u64 hh; bool allfin;
  i64 pat(Src& s, bool special) { i64 v = gen_pat(s, f); if (!special && ref_kind(f, v) != FIN && v != 0) v = f.maxpos(); if (ref_kind(f, v) != FIN) allfin = false; hh = mix64(hh ^ (u64)v); return v; }
  template <class X> void fill(Src& s, X& m, bool special = true) { u64 mode = s.draw(3); for (int j = 0; j < m.cols(); j++) for (int i = 0; i < m.rows(); i++) { i64 v = mode == 2 ? ref_encode(f, dy_from_int(s.range(-20, 20))) : pat(s, special); hh = mix64(hh ^ (u64)v); m(i, j) = mk(v); } }
  int dim(Src& s, int mx = 6) { return 1 + (int)s.draw(mx); }
  std::string str(P p) { return strf("%lld", (long long)p.v); }
  template <class X> std::string dump(const X& m) { std::string t = "["; for (int i = 0; i < m.rows(); i++) { for (int j = 0; j < m.cols(); j++) t += str(m(i, j)) + " "; t += ";"; } return t + "]"; }
  void eq(const char* what, P got, P want, int i, int j) { if (got.v != want.v) fail("%s: %s at (%d,%d) gives %lld, the scalar loop gives %lld", name.c_str(), what, i, j, (long long)got.v, (long long)want.v); }
  void eqb(const char* what, bool got, bool want, int i, int j) { if (got != want) fail("%s: %s at (%d,%d) gives %d, the scalar loop gives %d", name.c_str(), what, i, j, got, want); }
  template <class X> void size(const char* what, const X& m, int r, int c) { if (m.rows() != r || m.cols() != c) fail("%s: %s has size %dx%d, expected %dx%d", name.c_str(), what, (int)m.rows(), (int)m.cols(), r, c); }
#define ALL(WHAT, EXPR, WANT) do { M r_ = (EXPR); size(WHAT, r_, R, C); for (int j = 0; j < C; j++) for (int i = 0; i < R; i++) eq(WHAT, r_(i, j), WANT, i, j); } while (0)
#define ALLB(WHAT, EXPR, WANT) do { Eigen::Array<bool, Eigen::Dynamic, Eigen::Dynamic> r_ = (EXPR); for (int j = 0; j < C; j++) for (int i = 0; i < R; i++) eqb(WHAT, r_(i, j), WANT, i, j); } while (0)
  static P pabs_(P x) { return x.v == mk(-(i64)(1ull << (N - 1))).v ? x : x.v < 0 ? mk(-(i64)x.v) : x; }
  void elementwise(Src& s) override {
    hh = cid(); allfin = true; int R = dim(s), C = dim(s); M a(R, C), b(R, C); fill(s, a); fill(s, b); P k = mk(pat(s, true)); 
    s.note(R * C > 1, hh, R, C); SHOW(s, "%s a=%s b=%s k=%lld", name.c_str(), dump(a).c_str(), dump(b).c_str(), (long long)k.v); s.cls(allfin ? 0 : 1);
    ALL("a + b", a + b, a(i, j) + b(i, j)); ALL("a - b", a - b, a(i, j) - b(i, j)); ALL("-a", -a, -a(i, j));
    ALL("a * k", a * k, a(i, j) * k); ALL("k * a", k * a, k * a(i, j)); ALL("a / k", a / k, a(i, j) / k);
    ALL("cwiseProduct", a.cwiseProduct(b), a(i, j) * b(i, j)); ALL("cwiseQuotient", a.cwiseQuotient(b), a(i, j) / b(i, j));
    ALL("array product", (a.array() * b.array()).matrix(), a(i, j) * b(i, j)); ALL("array plus scalar", (a.array() + k).matrix(), a(i, j) + k); ALL("array minus scalar", (a.array() - k).matrix(), a(i, j) - k);
    ALL("cwiseAbs", a.cwiseAbs(), pabs_(a(i, j))); ALL("array inverse", a.array().inverse().matrix(), P(1) / a(i, j)); ALL("array square", a.array().square().matrix(), a(i, j) * a(i, j)); ALL("array cube", a.array().cube().matrix(), a(i, j) * a(i, j) * a(i, j));
    ALL("cwiseMin", a.cwiseMin(b), (std::min)(a(i, j), b(i, j))); ALL("cwiseMax", a.cwiseMax(b), (std::max)(a(i, j), b(i, j)));
    ALL("a*k + b", a * k + b, a(i, j) * k + b(i, j)); ALL("a - b*k", a - b * k, a(i, j) - b(i, j) * k); ALL("a + b + a", a + b + a, a(i, j) + b(i, j) + a(i, j));
    ALL("select", (a.array() < b.array()).select(a, b), a(i, j) < b(i, j) ? a(i, j) : b(i, j));
    ALL("unaryExpr", a.unaryExpr([](const P& x) { return x.half(); }), a(i, j).half());
    ALLB("a < b", a.array() < b.array(), a(i, j) < b(i, j)); ALLB("a <= b", a.array() <= b.array(), a(i, j) <= b(i, j)); ALLB("a == b", a.array() == b.array(), a(i, j) == b(i, j)); ALLB("a != b", a.array() != b.array(), a(i, j) != b(i, j)); ALLB("a > k", a.array() > k, a(i, j) > k); ALLB("a >= b", a.array() >= b.array(), a(i, j) >= b(i, j));
    { MR x(a), y(b); MR z = x + y; for (int j = 0; j < C; j++) for (int i = 0; i < R; i++) eq("row-major a + b", z(i, j), a(i, j) + b(i, j), i, j); M w = x - b; for (int j = 0; j < C; j++) for (int i = 0; i < R; i++) eq("mixed-order a - b", w(i, j), a(i, j) - b(i, j), i, j); }
    { M t = a.transpose(); size("transpose", t, C, R); for (int j = 0; j < C; j++) for (int i = 0; i < R; i++) eq("transpose", t(j, i), a(i, j), i, j); M u = a.adjoint(); for (int j = 0; j < C; j++) for (int i = 0; i < R; i++) eq("adjoint", u(j, i), a(i, j), i, j); }
    { M x = a; x += b; for (int j = 0; j < C; j++) for (int i = 0; i < R; i++) eq("+=", x(i, j), a(i, j) + b(i, j), i, j); x = a; x *= k; for (int j = 0; j < C; j++) for (int i = 0; i < R; i++) eq("*= scalar", x(i, j), a(i, j) * k, i, j); x = a; x /= k; for (int j = 0; j < C; j++) for (int i = 0; i < R; i++) eq("/= scalar", x(i, j), a(i, j) / k, i, j); }
    { M3 x, y; for (int j = 0; j < 3; j++) for (int i = 0; i < 3; i++) x(i, j) = a(i % R, j % C), y(i, j) = b(i % R, j % C); M3 z = x + y, w = x.cwiseProduct(y), q = x * k; for (int j = 0; j < 3; j++) for (int i = 0; i < 3; i++) eq("3x3 sum", z(i, j), x(i, j) + y(i, j), i, j), eq("3x3 cwiseProduct", w(i, j), x(i, j) * y(i, j), i, j), eq("3x3 scaling", q(i, j), x(i, j) * k, i, j); }
  }
  void reductions(Src& s) override {
    hh = cid(); allfin = true; int R = dim(s, 8), C = dim(s, 8); M a(R, C); fill(s, a, s.draw(4) == 3); s.note(R * C > 1, hh, R, C); SHOW(s, "%s %s", name.c_str(), dump(a).c_str()); s.cls(allfin ? 0 : 1);
    P t = a(0, 0); for (int j = 0; j < C; j++) for (int i = 0; i < R; i++) if (i + j) t = t + a(i, j); eq("sum", a.sum(), t, 0, 0);
    t = a(0, 0); for (int j = 0; j < C; j++) for (int i = 0; i < R; i++) if (i + j) t = t * a(i, j); eq("prod", a.prod(), t, 0, 0);
    P n = a(0, 0) * a(0, 0); for (int j = 0; j < C; j++) for (int i = 0; i < R; i++) if (i + j) n = n + a(i, j) * a(i, j); eq("squaredNorm", a.squaredNorm(), n, 0, 0);
    if (allfin) {
      P mn = a(0, 0), mx = a(0, 0); for (int j = 0; j < C; j++) for (int i = 0; i < R; i++) { if (a(i, j).v < mn.v) mn = a(i, j); if (a(i, j).v > mx.v) mx = a(i, j); }
      eq("minCoeff", a.minCoeff(), mn, 0, 0); eq("maxCoeff", a.maxCoeff(), mx, 0, 0); int r, c; eq("maxCoeff with position", a.maxCoeff(&r, &c), mx, 0, 0); eq("entry at the position of the maximum", a(r, c), mx, r, c);
      P la = pabs_(a(0, 0)); for (int j = 0; j < C; j++) for (int i = 0; i < R; i++) if (pabs_(a(i, j)).v > la.v) la = pabs_(a(i, j)); eq("largest magnitude", a.template lpNorm<Eigen::Infinity>(), la, 0, 0);
      t = pabs_(a(0, 0)); for (int j = 0; j < C; j++) for (int i = 0; i < R; i++) if (i + j) t = t + pabs_(a(i, j)); eq("sum of magnitudes", a.template lpNorm<1>(), t, 0, 0);
    }
    { int D = R < C ? R : C; t = a(0, 0); for (int i = 1; i < D; i++) t = t + a(i, i); eq("trace", a.trace(), t, 0, 0); }
    { M cs = a.colwise().sum(); size("colwise sum", cs, 1, C); for (int j = 0; j < C; j++) { t = a(0, j); for (int i = 1; i < R; i++) t = t + a(i, j); eq("colwise sum", cs(0, j), t, 0, j); } }
    { M rs = a.rowwise().sum(); size("rowwise sum", rs, R, 1); for (int i = 0; i < R; i++) { t = a(i, 0); for (int j = 1; j < C; j++) t = t + a(i, j); eq("rowwise sum", rs(i, 0), t, i, 0); } }
    { int r0 = (int)s.draw(R), c0 = (int)s.draw(C), h = 1 + (int)s.draw(R - r0), w = 1 + (int)s.draw(C - c0); M b = a.block(r0, c0, h, w); for (int j = 0; j < w; j++) for (int i = 0; i < h; i++) eq("block", b(i, j), a(r0 + i, c0 + j), i, j); t = a(r0, c0); for (int j = 0; j < w; j++) for (int i = 0; i < h; i++) if (i + j) t = t + a(r0 + i, c0 + j); eq("sum of a block", a.block(r0, c0, h, w).sum(), t, r0, c0); }
    { M m2 = a; m2.setZero(); for (int i = 0; i < R * C; i++) if (m2(i).v) fail("%s: setZero leaves %lld", name.c_str(), (long long)m2(i).v); m2.setOnes(); for (int i = 0; i < R * C; i++) eq("setOnes", m2(i), mk(1ll << (N - 2)), i, 0); m2.setConstant(a(0, 0)); for (int i = 0; i < R * C; i++) eq("setConstant", m2(i), a(0, 0), i, 0); m2.setIdentity(); for (int j = 0; j < C; j++) for (int i = 0; i < R; i++) eq("setIdentity", m2(i, j), i == j ? mk(1ll << (N - 2)) : mk(0), i, j); }
    { size_t sz = sizeof(P) * 64; std::vector<unsigned char> junk(sz, 0x5a); P* raw = (P*)junk.data(); M3* q = new (raw) M3; for (int i = 0; i < 9; i++) if ((*q)(i).v) fail("%s: an entry of a default-constructed 3x3 matrix is %lld, a default posit is 0", name.c_str(), (long long)(*q)(i).v); }
    { // memory that held other values before
      M* p = new M(R, C); p->setConstant(a(0, 0)); delete p; M z(R, C); for (int i = 0; i < R * C; i++) if (z(i).v) fail("%s: an entry of a freshly sized matrix is %lld, a default posit is 0", name.c_str(), (long long)z(i).v); }
    eq("NumTraits epsilon", Eigen::NumTraits<P>::epsilon(), std::numeric_limits<P>::epsilon(), 0, 0); eq("NumTraits highest", Eigen::NumTraits<P>::highest(), mk(f.maxpos()), 0, 0); eq("NumTraits lowest", Eigen::NumTraits<P>::lowest(), mk(f.lowest()), 0, 0);
    if (Eigen::NumTraits<P>::IsComplex || Eigen::NumTraits<P>::IsInteger || !Eigen::NumTraits<P>::IsSigned) fail("%s: the scalar traits describe another kind of number", name.c_str());
    if (!Eigen::NumTraits<P>::RequireInitialization) fail("%s: the scalar traits say that entries need no initialisation", name.c_str());
  }
  void products(Src& s) override {
    hh = cid(); allfin = true; int R = dim(s), C = dim(s), D = dim(s); M a(R, D), b(D, C); fill(s, a, s.draw(6) == 5); fill(s, b, s.draw(6) == 5); s.note(D > 1, hh, R, C); SHOW(s, "%s a=%s b=%s", name.c_str(), dump(a).c_str(), dump(b).c_str()); s.cls(allfin ? 0 : 1);
    auto w = [&](int i, int j) { P t = a(i, 0) * b(0, j); for (int k = 1; k < D; k++) t = t + a(i, k) * b(k, j); return t; };
    { M r = a.lazyProduct(b); for (int j = 0; j < C; j++) for (int i = 0; i < R; i++) eq("lazy product", r(i, j), w(i, j), i, j); }
    { V x = a.row(0).transpose(), y = b.col(0); P t = x(0) * y(0); for (int k = 1; k < D; k++) t = t + x(k) * y(k); eq("dot", x.dot(y), t, 0, 0); eq("sum of products", x.cwiseProduct(y).sum(), t, 0, 0); M o = x.lazyProduct(y.transpose()); for (int j = 0; j < D; j++) for (int i = 0; i < D; i++) eq("outer product", o(i, j), x(i) * y(j), i, j); }
    { M r = b.transpose().lazyProduct(a.transpose()); for (int j = 0; j < C; j++) for (int i = 0; i < R; i++) { P t = b(0, j) * a(i, 0); for (int k = 1; k < D; k++) t = t + b(k, j) * a(i, k); eq("product of transposes", r(j, i), t, j, i); } }
  }
  // integer entries small enough that every order of summation is exact: any product kernel must agree
  void exact(Src& s) override {
    hh = cid(); int R = dim(s, 24), C = dim(s, 24), D = dim(s, 24), lim = prec() >= 18 ? 30 : 1; if (D * lim * lim > (1 << (prec() - 1))) D = (1 << (prec() - 1)) / (lim * lim) < 1 ? 1 : (1 << (prec() - 1)) / (lim * lim);
    std::vector<int> x(R * D), y(D * C), v(D); M a(R, D), b(D, C); V c(D); for (int i = 0; i < R * D; i++) { x[i] = (int)s.range(-lim, lim); hh = mix64(hh ^ x[i]); a(i % R, i / R) = P(x[i]); if (s.nrec > 500) s.nrec = 500; } for (int i = 0; i < D * C; i++) { y[i] = (int)s.range(-lim, lim); hh = mix64(hh ^ y[i]); b(i % D, i / D) = P(y[i]); if (s.nrec > 500) s.nrec = 500; } for (int i = 0; i < D; i++) { v[i] = (int)s.range(-lim, lim); c(i) = P(v[i]); if (s.nrec > 500) s.nrec = 500; }
    s.note(D > 1, hh, R, C); SHOW(s, "%s %dx%d times %dx%d of integers up to %d", name.c_str(), R, D, D, C, lim); s.cls(R + C + D >= 20 ? 1 : 0);
    auto E = [&](i64 n) { return mk(ref_encode(f, dy_from_int(n))); };
    M r = a * b; V g = a * c; M h = c.transpose() * b; M q = M::Constant(R, C, P(1)); q += a * b; q = q - M(a * b);
    for (int i = 0; i < R; i++) { i64 n = 0; for (int k = 0; k < D; k++) n += x[k * R + i] * v[k]; eq("matrix times vector", g(i), E(n), i, 0); }
    for (int j = 0; j < C; j++) { i64 n = 0; for (int k = 0; k < D; k++) n += v[k] * y[j * D + k]; eq("vector times matrix", h(0, j), E(n), 0, j); }
    for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) { i64 n = 0; for (int k = 0; k < D; k++) n += x[k * R + i] * y[j * D + k]; eq("matrix product", r(i, j), E(n), i, j); eq("accumulated product", q(i, j), E(1), i, j); }
    { i64 n = 0; for (int i = 0; i < R * D; i++) n += x[i]; if (n < (1 << (prec() - 1)) && n > -(1 << (prec() - 1)) && R * D * lim < (1 << (prec() - 1))) eq("sum", a.sum(), E(n), 0, 0); }
  }
  int prec() const { int m = f.N - 3 - f.es - (f.N > 16 ? 4 : 2); return m > 22 ? 22 : m < 1 ? 1 : m; }   // integers below 2^(prec-1) and their sums are exact
  void casts(Src& s) override {
    hh = cid(); allfin = true; int R = dim(s), C = dim(s); M a(R, C); fill(s, a); Eigen::MatrixXf xf(R, C); Eigen::MatrixXd xd(R, C);
    for (int i = 0; i < R * C; i++) { xf(i) = bits_f(gen_fbits(s, f)); xd(i) = bits_d(gen_dbits(s, f)); hh = mix64(hh ^ f_bits(xf(i))); }
    s.note(true, hh, R, C); SHOW(s, "%s %s", name.c_str(), dump(a).c_str()); s.cls(allfin ? 0 : 1);
    Eigen::MatrixXf g = a.template cast<float>(); Eigen::MatrixXd d = a.template cast<double>(); Eigen::Matrix<U, Eigen::Dynamic, Eigen::Dynamic> u = a.template cast<U>(); M y = xf.template cast<P>(), z = xd.template cast<P>();
    M back(R, C); for (int i = 0; i < R * C; i++) back(i) = P(u(i));
    for (int i = 0; i < R * C; i++) {
      float wf = (float)a(i); double wd = (double)a(i);
      if (f_bits(g(i)) != f_bits(wf) && !(g(i) != g(i) && wf != wf)) fail("%s: cast<float> of %lld gives 0x%x, expected 0x%x", name.c_str(), (long long)a(i).v, f_bits(g(i)), f_bits(wf));
      if (d_bits(d(i)) != d_bits(wd) && !(d(i) != d(i) && wd != wd)) fail("%s: cast<double> of %lld gives 0x%llx, expected 0x%llx", name.c_str(), (long long)a(i).v, (unsigned long long)d_bits(d(i)), (unsigned long long)d_bits(wd));
      eq("cast to Unpacked and back", back(i), a(i), i, 0); eq("cast from float", y(i), P(xf(i)), i, 0); eq("cast from double", z(i), P(xd(i)), i, 0);
    }
    Dy d0 = ref_decode(f, (i64)a(0).v); U w = u(0); if (d0.k == FIN && (w.type != U::Regular || w.negativeSign != d0.neg || (i64)w.exponent != d0.e || (u64)w.fraction != (d0.m << 1) >> (64 - ftb))) fail("%s: cast<Unpacked> of %lld is not its unpacked form", name.c_str(), (long long)a(0).v);
  }
  // a history of whole-matrix statements on three matrices mirrored by plain arrays
  void history(Src& s) override {
    hh = cid(); allfin = true; int n = dim(s, 4); M m[3]; std::vector<P> w[3]; for (int q = 0; q < 3; q++) { m[q].resize(n, n); fill(s, m[q], false); w[q].resize(n * n); for (int i = 0; i < n * n; i++) w[q][i] = m[q](i); }
    int len = 1 + (int)s.draw(10); std::string t; int swaps = 0;
    for (int st = 0; st < len; st++) {
      int op = (int)s.draw(10), d = (int)s.draw(3), x = (int)s.draw(3), y = (int)s.draw(3); P k = P((int)s.range(-5, 5)); hh = mix64(hh + op * 27 + d * 9 + x * 3 + y); if (s.want) t += strf(" %d(%d,%d,%d)", op, d, x, y);
      std::vector<P> o = w[d], a = w[x], b = w[y]; int S = n * n;
      switch (op) {
        case 0: m[d] = m[x] + m[y]; for (int i = 0; i < S; i++) o[i] = a[i] + b[i]; break;
        case 1: m[d] = m[x] - m[y]; for (int i = 0; i < S; i++) o[i] = a[i] - b[i]; break;
        case 2: m[d] += m[x]; for (int i = 0; i < S; i++) o[i] = o[i] + a[i]; break;
        case 3: m[d] = m[d] - m[x]; for (int i = 0; i < S; i++) o[i] = o[i] - a[i]; break;
        case 4: m[d] *= k; for (int i = 0; i < S; i++) o[i] = o[i] * k; break;
        case 5: m[d] = m[x].transpose().eval(); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) o[j * n + i] = a[i * n + j]; swaps++; break;
        case 6: m[d] = m[x] * m[y]; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { P v = a[i] * b[j * n]; for (int q = 1; q < n; q++) v = v + a[q * n + i] * b[j * n + q]; o[j * n + i] = v; } swaps++; break;   // small: evaluated coefficient by coefficient
        case 7: m[d].row(0).swap(m[d].row(n - 1)); for (int j = 0; j < n; j++) std::swap(o[j * n], o[j * n + n - 1]); swaps++; break;
        case 8: m[d].col(0) = m[x].col(n - 1); for (int i = 0; i < n; i++) o[i] = a[(n - 1) * n + i]; break;
        default: m[d] = m[x].cwiseProduct(m[y]); for (int i = 0; i < S; i++) o[i] = a[i] * b[i];
      }
      w[d] = o;
      for (int q = 0; q < 3; q++) for (int i = 0; i < S; i++) if (m[q](i).v != w[q][i].v) fail("%s: after statement %d (operation %d), matrix %d entry %d is %lld, the scalar loops give %lld", name.c_str(), st, op, q, i, (long long)m[q](i).v, (long long)w[q][i].v);
    }
    s.note(len >= 2 && n >= 2, hh, n, len); SHOW(s, "%s %dx%d:%s", name.c_str(), n, n, t.c_str()); s.cls(swaps ? 1 : 0);
  }
  // matrices of the unpacked form, as a wide accumulator would use them
  static std::string ustr(const U& u) { return strf("(%d %c 2^%lld %#llx)", (int)u.type, u.negativeSign ? '-' : '+', (long long)u.exponent, (unsigned long long)u.fraction); }
  void equ(const char* what, const U& g, const U& w, int i, int j) {
    bool same = g.type == w.type && (g.type == U::Regular ? g.negativeSign == w.negativeSign && g.exponent == w.exponent && g.fraction == w.fraction : g.type == U::Infinity ? g.negativeSign == w.negativeSign : true);
    if (!same) fail("%s: %s of unpacked at (%d,%d) gives %s, the scalar loop gives %s", name.c_str(), what, i, j, ustr(g).c_str(), ustr(w).c_str());
  }
#define ALLU(WHAT, EXPR, WANT) do { MU r_ = (EXPR); size(WHAT, r_, R, C); for (int j = 0; j < C; j++) for (int i = 0; i < R; i++) equ(WHAT, r_(i, j), WANT, i, j); } while (0)
  void unpacked(Src& s) override {
    using MU = Eigen::Matrix<U, Eigen::Dynamic, Eigen::Dynamic>; hh = cid(); allfin = true; int R = dim(s), C = dim(s); M pa(R, C), pb(R, C); fill(s, pa); fill(s, pb); P pk = mk(pat(s, true));
    s.note(R * C > 1, hh, R, C); SHOW(s, "%s unpacked a=%s b=%s k=%lld", name.c_str(), dump(pa).c_str(), dump(pb).c_str(), (long long)pk.v); s.cls(allfin ? 0 : 1);
    MU a = pa.template cast<U>(), b(R, C); for (int i = 0; i < R * C; i++) b(i) = pb(i).unpack(); const U k = pk.unpack();
    ALLU("cast", a, pa(i, j).unpack()); ALLU("a + b", a + b, a(i, j) + b(i, j)); ALLU("a - b", a - b, a(i, j) - b(i, j)); ALLU("-a", -a, -a(i, j)); ALLU("a * k", a * k, a(i, j) * k); ALLU("a / k", a / k, a(i, j) / k);
    ALLU("cwiseProduct", a.cwiseProduct(b), a(i, j) * b(i, j)); ALLU("cwiseQuotient", a.cwiseQuotient(b), a(i, j) / b(i, j)); ALLU("a*k + b", a * k + b, a(i, j) * k + b(i, j));
    { MU x = a; x += b; ALLU("+=", x, a(i, j) + b(i, j)); x = a; x -= b; ALLU("-=", x, a(i, j) - b(i, j)); }
    { MU t = a.transpose(); size("transpose", t, C, R); for (int j = 0; j < C; j++) for (int i = 0; i < R; i++) equ("transpose", t(j, i), a(i, j), i, j); }
    U t = a(0, 0); for (int j = 0; j < C; j++) for (int i = 0; i < R; i++) if (i + j) t = t + a(i, j); equ("sum", a.sum(), t, 0, 0);
    t = a(0, 0); for (int j = 0; j < C; j++) for (int i = 0; i < R; i++) if (i + j) t = t * a(i, j); equ("prod", a.prod(), t, 0, 0);
    t = a(0, 0) * b(0, 0); for (int i = 1; i < R; i++) t = t + a(i, 0) * b(i, 0); equ("dot", a.col(0).dot(b.col(0)), t, 0, 0);
    { MU r = a.lazyProduct(b.transpose()); size("product", r, R, R); for (int j = 0; j < R; j++) for (int i = 0; i < R; i++) { t = a(i, 0) * b(j, 0); for (int q = 1; q < C; q++) t = t + a(i, q) * b(j, q); equ("product", r(i, j), t, i, j); } }
    { MU* p = new MU(R, C); p->setConstant(a(0, 0)); delete p; MU z(R, C); const U d0{}; for (int i = 0; i < R * C; i++) equ("fresh entry", z(i), d0, i, 0); }
    if (Eigen::NumTraits<U>::IsComplex || Eigen::NumTraits<U>::IsInteger || !Eigen::NumTraits<U>::IsSigned) fail("%s: the scalar traits of the unpacked form describe another kind of number", name.c_str());
  }
  u64 cid() const { return mix64((u64)N * 4096 + ES * 32 + (int)SP); }
};
template <class T, int N, int ES, class FT, PositSpec SP> static IEigen* make_() { return new EigenImpl<T, N, ES, FT, SP>(EIG_NAME); }
IEigen* CAT(make_eig_, EIG_ID)() { return make_<EIG_CFG>(); }
