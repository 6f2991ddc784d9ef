// Stateful check: random histories over a pool of live posit objects against a model that keeps only patterns.
#include "../gen.hpp"
static const char* OPN[] = {"int", "float", "double", "pattern", "copy", "default", "+", "-", "*", "/", "+=", "*=", "/=", "neg", "abs", "inv", "half", "twice", "next", "prev", "fma", "dot", "min", "max", "swap", "via fields", "via wide", "compare", "chain +=", "to double"};
static std::string st(const HStep& h) { return strf("[%s d%d a%d b%d c%d %llx]", OPN[h.op], h.d, h.a, h.b, h.c, (unsigned long long)h.bits); }
static void run(Src& s, int maxlen) {
  IPosit& c = gen_cfg(s); const Fmt& f = c.f; int n = 1 + (int)s.draw(maxlen);
  HStep h[64]; i64 init[POOL], m[POOL], out[64 * POOL], aux[64], out2[64 * POOL], aux2[64];
  for (int i = 0; i < POOL; i++) m[i] = init[i] = gen_pat(s, f);
  int arith = 0; u64 hh = n; bool alias = false; std::string t;
  for (int i = 0; i < POOL; i++) hh = mix64(hh ^ init[i]);
  for (int i = 0; i < n; i++) {
    HStep& q = h[i]; q.op = (int)s.draw(H_NOPS); q.d = (int)s.draw(POOL); q.a = (int)s.draw(POOL); q.b = (int)s.draw(POOL); q.c = (int)s.draw(POOL); q.bits = 0;
    if (q.op == H_INT) q.bits = (uint32_t)gen_int(s); else if (q.op == H_FLOAT) q.bits = gen_fbits(s, f); else if (q.op == H_DOUBLE) q.bits = gen_dbits(s, f);
    else if (q.op == H_PAT) q.bits = (u64)gen_pat(s, f); else if (q.op == H_DOT) q.bits = s.draw(POOL + 1);
    if (q.op >= H_ADD && q.op <= H_DOT) arith++;
    if ((q.op >= H_IADD && q.op <= H_IDIV && q.d == q.a) || (q.op == H_CHAIN && (q.d == q.a || q.d == q.b))) alias = true;
    hh = mix64(hh ^ (q.op | q.d << 8 | q.a << 12 | q.b << 16 | q.c << 20)) + q.bits; if (s.want) t += st(q) + " ";
  }
  s.note(arith >= 2, cfg_id(c), hh); if (alias) s.cls(0); if (n >= 10) s.cls(1); if (arith >= 5) s.cls(2);
  if (s.want) { std::string p; for (int i = 0; i < POOL; i++) p += pv(c, init[i]) + " "; SHOW(s, "%s from %s: %s", c.name.c_str(), p.c_str(), t.c_str()); }
  c.history(h, n, init, out, aux);
  c.history(h, n, init, out2, aux2);
  for (int i = 0; i < n; i++) {
    const HStep& q = h[i]; i64 a = m[q.a], b = m[q.b], z = m[q.c], d = m[q.d], w = d, x = 0; bool wr = true;
    Dy A = ref_decode(f, a), B = ref_decode(f, b);
    switch (q.op) {
      case H_INT: w = ref_encode(f, dy_from_int((int)(uint32_t)q.bits)); break;
      case H_FLOAT: w = ref_encode(f, fl_decode(F_SINGLE, q.bits)); break;
      case H_DOUBLE: if (c.ftb >= 52 || f.N - 3 - f.es <= c.ftb) w = ref_encode(f, fl_decode(F_DOUBLE, q.bits)); else w = c.from_d(bits_d(q.bits)); break;
      case H_PAT: w = (i64)q.bits; break;
      case H_COPY: case H_LOW: case H_FULL: w = a; break;
      case H_DEFAULT: w = 0; break;
      case H_ADD: w = c.add(a, b); break;
      case H_SUB: w = c.sub(a, b); break;
      case H_MUL: w = c.mul(a, b); break;
      case H_DIV: w = c.div(a, b); break;
      case H_IADD: x = w = c.add(d, a); break;
      case H_IMUL: x = w = c.mul(d, a); break;
      case H_IDIV: x = w = c.div(d, a); break;
      case H_NEG: w = f.sext((0 - (u64)a) & f.mask()); break;
      case H_ABS: w = a < 0 && !(f.spec == WITHNANINF && a == f.top()) ? f.sext((0 - (u64)a) & f.mask()) : a; break;
      case H_INV: w = c.inv(a, 0); break;
      case H_HALF: w = c.half(a); break;
      case H_TWICE: w = c.twice(a); break;
      case H_NEXT: w = c.next(a); break;
      case H_PREV: w = c.prev(a); break;
      case H_FMA: w = c.fma_(a, b, z); break;
      case H_DOT: { int k = (int)(q.bits % (POOL + 1)); w = c.dot(m, m + (POOL - k), k, 0); break; }
      case H_MIN: w = c.mn(a, b); break;
      case H_MAX: w = c.mx(a, b); break;
      case H_SWAP: m[q.a] = b; m[q.b] = a; wr = false; break;
      case H_CMP: x = c.cmp(a, b); wr = false; break;
      case H_CHAIN: { i64 u = c.add(d, a); i64 bb = q.b == q.d ? u : b; w = c.add(u, bb); break; }
      case H_TODOUBLE: x = (i64)c.to_dbits(a); wr = false; break;
    }
    if (wr) m[q.d] = w;
    for (int k = 0; k < POOL; k++) {
      i64 g = out[i * POOL + k];
      if (!f.canonical(g)) fail("%s: after step %d %s object %d holds %lld, not a valid pattern", c.name.c_str(), i, st(q).c_str(), k, (long long)g);
      if (g != m[k]) fail("%s: after step %d %s object %d is %s, expected %s", c.name.c_str(), i, st(q).c_str(), k, PV(c, g), PV(c, m[k]));
      if (out2[i * POOL + k] != g) fail("%s: repeating the history gives another result at step %d %s", c.name.c_str(), i, st(q).c_str());
    }
    if (x != aux[i]) fail("%s: step %d %s returns %lld, expected %lld", c.name.c_str(), i, st(q).c_str(), (long long)aux[i], (long long)x);
    if (aux2[i] != aux[i]) fail("%s: repeating the history returns another value at step %d %s", c.name.c_str(), i, st(q).c_str());
    // one independent oracle per step where the result is fully determined
    if (A.k == FIN && B.k == FIN) {
      if (q.op == H_MUL) expect(c, "product", m[q.d], ref_encode(f, dy_mul(A, B)));
      if (q.op == H_DIV) expect(c, "quotient", m[q.d], ref_encode(f, dy_div(A, B)));
      if (q.op == H_ADD && !ref_faithful(f, dy_add(A, B), m[q.d])) fail("%s: %s + %s gives %s", c.name.c_str(), PV(c, a), PV(c, b), PV(c, m[q.d]));
      if (q.op == H_HALF) expect(c, "half", m[q.d], ref_encode(f, dy_scale(A, -1)));
      if (q.op == H_TWICE) expect(c, "twice", m[q.d], ref_encode(f, dy_scale(A, 1)));
      if (q.op == H_MIN) expect(c, "min", m[q.d], a < b ? a : b);
      if (q.op == H_MAX) expect(c, "max", m[q.d], a > b ? a : b);
    }
  }
}
static void shorth(Src& s) { run(s, 6); }
static void longh(Src& s) { run(s, 40); }
CHECK_MAIN("P13", "the history contains at least two arithmetic steps") {
  std::vector<std::string> cl = {"compound assignment to itself", "ten or more steps", "five or more arithmetic steps"};
  c.bodies.push_back(Body{"short", shorth, 1200, 40000, {}, cl});
  c.bodies.push_back(Body{"long", longh, 250, 8000, {}, cl});
}
