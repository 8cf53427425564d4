// single reduction steps, primitive part, normal form against an arbitrary finder
#include "lib.h"
#include "gen.h"
using namespace ref; using pbt::Case; using namespace lib;

// primitive combination alpha*p - beta*m*a that cancels the coefficient of monomial w
static Poly cancel(const Poly& p, const Poly& a, const Mon& w) {
  Z cp = p.t.find(w)->second, ca = a.lc(), g; mpz_gcd(g.get_mpz_t(), cp.get_mpz_t(), ca.get_mpz_t());
  Poly r = p; r.scale(ca / g); r.addMul(a, quo(w, a.lm()), -(cp / g)); return r;
}
static Poly neg(Poly p) { p.scale(-1); return p; }
struct Finder {   // first listed divisor wins
  std::vector<GInv::WrapPolyInt*> w; std::vector<Poly> r; long budget = 400; bool over = false;
  GInv::WrapPolyInt* find(const Monom& m) {
    Mon x = mon(m);
    for (size_t i = 0; i < r.size(); i++) if (divides(r[i].lm(), x)) { if (--budget < 0) { over = true; return nullptr; } return w[i]; }
    return nullptr;
  }
};
static void prop(Case& c) {
  Ord o; int mode = c.weighted({4, 2, 2, 4}); bool nfMode = mode == 3;
  o.kind = nfMode ? (c.coin() ? LEX : DEGREVLEX) : c.pick(std::vector<int>{LEX, DEGREVLEX, ALEX}); o.pot = c.coin();
  int n = c.chance(1, 12) ? c.in(5, 24) : c.in(1, 4), npos = c.chance(2, 5) ? c.in(1, 3) : 0; bool big = c.chance(1, 3);
  c.note(o.str() + " n=" + std::to_string(n) + " rank=" + std::to_string(npos) + "\n");
  pbt::CerrCapture cap;
  Allocator A[1], B[1]; size_t left = 0;
  {
  PolyInt P(A, ordCode(o), n), Q(B, ordCode(o), n);
  Poly p = gen::sparse(c, o, n, 6, 5, big, npos);
  if (mode == 0) {
    bool plainQ = npos && c.chance(1, 4);   // a scalar polynomial reduces a vector
    Poly a = gen::sparse(c, o, n, 5, 3, big, plainQ ? 0 : npos);
    if (a.zero()) c.discard("zero divisor");
    // give p the leading monomial m*lm(a), larger than its other terms
    Mon m = gen::mono(c, n, 3); Mon w = mul(a.lm(), m); if (plainQ) w.pos = (int)c.draw(npos);
    Poly q(o); for (auto& t : p.t) if (o(t.first, w) < 0) q.addTerm(t.first, t.second);
    if (c.coin()) { Mon mm = m; if (plainQ) mm.pos = w.pos; Poly ov(o); ov.addMul(a, mm, gen::coeff(c, big)); for (auto& t : ov.t) if (o(t.first, w) < 0) q.addTerm(t.first, t.second); }  // overlapping tails
    q.addTerm(w, c.coin() ? gen::coeff(c, big) : Z(a.lc() * gen::coeff(c, false))); p = q;
    c.note("reduce " + p.str() + "\n by " + a.str() + "\n");
    assign(P, p); assign(Q, a);
    Poly want(o); { Z cp = p.lc(), ca = a.lc(), g; mpz_gcd(g.get_mpz_t(), cp.get_mpz_t(), ca.get_mpz_t()); want = p; want.scale(ca/g); Mon d = quo(w, a.lm()); if (a.lm().pos == -1) d.pos = w.pos; want.addMul(a, d, -(cp/g)); }
    P.reduction(Q);
    std::string bad = canonical(P, o); if (!bad.empty()) c.fail("canonical", bad);
    Poly got = poly(P, o);
    if (got != want && got != neg(want)) c.fail("reduction", "result " + got.str() + ", expected (up to sign) " + want.str());
    if (poly(Q, o) != a) c.fail("divisor", "the divisor changed");
    c.label(plainQ ? "vector by scalar" : "reduction"); if (p.t.size() >= 2 && a.t.size() >= 2) c.nontrivial();
  } else if (mode == 1) {
    Poly a = gen::sparse(c, o, n, 5, 4, big, npos); if (a.zero()) c.discard("zero divisor");
    bool hit = c.chance(3, 4); if (hit) p.addTerm(a.lm(), gen::coeff(c, big));
    if (p.zero()) c.discard("zero");
    c.note("redMaybe " + p.str() + "\n by " + a.str() + "\n");
    assign(P, p); assign(Q, a);
    bool has = p.t.count(a.lm()); Poly want = has ? cancel(p, a, a.lm()) : p;
    P.redMaybe(Q);
    std::string bad = canonical(P, o); if (!bad.empty()) c.fail("canonical", bad);
    Poly got = poly(P, o);
    if (got != want && !(has && got == neg(want))) c.fail("redMaybe", "result " + got.str() + ", expected " + want.str());
    if (poly(Q, o) != a) c.fail("divisor", "the divisor changed");
    c.label(has ? "term eliminated" : "no such term"); if (has && p.t.size() >= 2) c.nontrivial();
  } else if (mode == 2) {
    if (c.chance(1, 20)) p = Poly(o);
    if (c.chance(3, 4)) p.scale(gen::coeff(c, true));
    c.note("pp " + p.str() + "\n");
    assign(P, p);
    if (P.isPp() != (p.zero() || p.content() == 1)) c.fail("isPp", "isPp() wrong before");
    P.pp(); Poly want = p; if (!p.zero()) { Z g = p.content(); for (auto& t : want.t) t.second /= g; }
    Poly got = poly(P, o);
    if (got != want && got != neg(want)) c.fail("pp", "primitive part is " + got.str() + ", expected " + want.str());
    if (!P.isPp()) c.fail("isPp", "isPp() false after pp()");
    c.label("pp"); if (!p.zero() && p.content() != 1) c.nontrivial();
  } else {
    Finder F; int k = c.in(1, 4);
    for (int i = 0; i < k; i++) { Poly g = gen::sparse(c, o, n, 4, 3, big && c.coin(), npos); if (g.zero()) continue; c.note("divisor " + g.str() + "\n");
      Allocator al[1]; { PolyInt t(al, ordCode(o), n); assign(t, g); F.w.push_back(new GInv::WrapPolyInt(t)); } F.r.push_back(g); }
    if (c.coin()) for (size_t i = 0; i < F.r.size(); i++) { Poly m = gen::sparse(c, o, n, 2, 2, false); Poly q = mul(m, F.r[i]); p = add(p, q); }
    c.note("nf " + p.str() + "\n");
    assign(P, p);
    Poly want = p; Budget bud{3000}; bool ok = reduceFull(want, F.r, bud);
    std::string fail, key; Poly got(o);
    if (ok) {
      int r1 = P.nf(F); if (r1 < 0) { key = "count"; fail = "negative"; }
      std::string bad = canonical(P, o); if (!bad.empty()) { key = "canonical"; fail = bad; }
      if (!F.over && fail.empty() && !P.isZero() && [&] { for (auto& g : F.r) if (divides(g.lm(), mon(P.lm()))) return true; return false; }()) { key = "head"; fail = "head reduction left a reducible leading monomial"; }
      P.nfTail(F); P.pp();
      if (!F.over && fail.empty()) {
        bad = canonical(P, o); if (!bad.empty()) { key = "canonical"; fail = bad; }
        got = poly(P, o); if (want.zero() == false) want.primitive(); Poly g2 = got; if (!g2.zero()) g2.primitive();
        if (fail.empty() && g2 != want) { key = "normal-form"; fail = "normal form " + got.str() + ", expected (up to sign) " + want.str(); }
        F.budget = 100000; if (fail.empty() && !P.isNf(F)) { key = "isNf"; fail = "isNf() false for " + got.str(); }
      }
    }
    for (auto w : F.w) delete w;
    if (!fail.empty()) c.fail(key, fail);
    if (!ok || F.over) c.discard("budget");
    c.label("nf"); if (want != p) c.nontrivial();
  }
  }
  left = A->size() + B->size();
  if (left) c.fail("memory", "memory still accounted for at the end");
}
PBT_MAIN("C08", prop)
