// term orders: agreement with their definitions and the order axioms
#include "lib.h"
#include "gen.h"
using namespace ref; using pbt::Case; using namespace lib;
static void prop(Case& c) {
  int n = c.chance(1, 8) ? c.in(5, 20) : c.in(1, 4), npos = c.in(0, 3);
  Allocator A[1];
  auto base = [&]() { Mon m(n, npos ? (int)c.draw(npos + 1) - 1 : -1); int d = c.chance(1, 10) ? c.in(0, 300) : c.in(0, 6); for (int i = 0; i < d; i++) m.e[c.draw(n)]++; return m; };
  Mon a = base(), b = base(), t = base(); Mon q = base(); q.pos = -1;
  int rel = c.in(0, 3);     // nearby monomials: the deciding comparisons
  if (rel == 1) { b = a; if (npos) b.pos = (int)c.draw(npos + 1) - 1; }
  if (rel >= 2) { b = a; int i = c.draw(n), j = c.draw(n); b.e[i]++; if (b.e[j] > 0 && rel == 3) b.e[j]--; if (npos && c.coin()) b.pos = (int)c.draw(npos + 1) - 1; }
  if (c.chance(1, 3)) { t = b; int i = c.draw(n), j = c.draw(n); t.e[i]++; if (t.e[j] > 0) t.e[j]--; }
  c.note("a=" + a.str() + " b=" + b.str() + " c=" + t.str() + " m=" + q.str() + "\n");
  MonomBox ma(A, a), mb(A, b), mt(A, t), mq(A, q);
  Ord lex; lex.kind = LEX; Ord dl; dl.kind = DEGREVLEX; Ord al; al.kind = ALEX;
  auto eq = [&](int got, int want, const char* what) { if (got != want) c.fail(what, std::string(what) + " gives " + std::to_string(got) + ", expected " + std::to_string(want)); };
  eq(ma.m.lex(mb.m), lex.cmpE(a, b), "lex"); eq(ma.m.deglex(mb.m), dl.cmpE(a, b), "deglex"); eq(ma.m.alex(mb.m), al.cmpE(a, b), "alex");
  // comparison with a product
  Mon bq = mul(b, q);
  eq(ma.m.lex(mb.m, mq.m), lex.cmpE(a, bq), "lex-product"); eq(ma.m.deglex(mb.m, mq.m), dl.cmpE(a, bq), "deglex-product"); eq(ma.m.alex(mb.m, mq.m), al.cmpE(a, bq), "alex-product");
  if (dividesE(q, a)) {   // product close to a
    Mon r = quo(a, q); int i = c.draw(n); if (c.coin()) r.e[i]++; MonomBox mr(A, r); Mon rq = mul(r, q);
    eq(ma.m.lex(mr.m, mq.m), lex.cmpE(a, rq), "lex-product"); eq(ma.m.deglex(mr.m, mq.m), dl.cmpE(a, rq), "deglex-product"); eq(ma.m.alex(mr.m, mq.m), al.cmpE(a, rq), "alex-product");
  }
  for (int kind : {LEX, DEGREVLEX, ALEX}) for (int pot = 0; pot < 2; pot++) {
    Ord o; o.kind = kind; o.pot = pot;
    PolyInt p(A, ordCode(o), n);
    std::string w = o.str() + " ";
    auto cmp = [&](MonomBox& x, MonomBox& y) { return p.GInv::Poly::cmp(x.m, y.m); };
    int ab = cmp(ma, mb), ba = cmp(mb, ma), bt = cmp(mb, mt), at = cmp(ma, mt);
    if (ab != o(a, b) || bt != o(b, t) || at != o(a, t)) c.fail("definition", w + "differs from the definition");
    if (ab != -ba) c.fail("antisymmetry", w); if ((ab == 0) != (a == b)) c.fail("totality", w);
    if (ab >= 0 && bt >= 0 && at < 0) c.fail("transitivity", w);
    Monom am(A, ma.m, mq.m), bm(A, mb.m, mq.m);
    if (p.GInv::Poly::cmp(am, bm) != ab) c.fail("multiplicative", w + "not compatible with multiplication");
    if (kind != ALEX && q.deg() > 0 && p.GInv::Poly::cmp(am, ma.m) != 1) c.fail("well-order", w + "a proper multiple is not larger");
    if (kind == ALEX && q.deg() > 0 && p.GInv::Poly::cmp(am, ma.m) != -1) c.fail("local-order", w);
    // the order in which a polynomial keeps its terms
    PolyInt s(A, ordCode(o), n); PolyInt x(A, ordCode(o), mb.m), y(A, ordCode(o), mt.m), z(A, ordCode(o), ma.m);
    s.add(x); s.add(y); s.add(z); std::string bad = canonical(s, o); if (!bad.empty()) c.fail("term-order", w + bad);
    const Mon& top = o(a, b) >= 0 ? (o(a, t) >= 0 ? a : t) : (o(b, t) >= 0 ? b : t);
    if (mon(s.lm()) != top) c.fail("leading", w + "leading monomial is not the largest");
  }
  if (a != b) c.nontrivial(); c.label("rel:" + std::to_string(rel)); if (npos) c.label("positions");
}
PBT_MAIN("C10", prop)
