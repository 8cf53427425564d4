// Shared body: run the library's basis construction on a system and check the result.
#ifndef VERIF_BASIS_H
#define VERIF_BASIS_H
#include "lib.h"
#include "gen.h"
using namespace ref; using pbt::Case; using namespace lib;

struct Basis {
  std::vector<Poly> G; std::vector<Mon> lm; bool one = false;
  std::vector<Mon> anc;
};
inline Basis readBasis(const JanetPolyInt& J, const Ord& o) {
  Basis b; b.one = J.isOne();
  if (!b.one) for (auto i = J.begin(); i; ++i) { b.G.push_back(poly(i.data()->poly(), o)); b.lm.push_back(mon(i.data()->lm())); b.anc.push_back(mon(i.data()->ansector())); }
  return b;
}
inline void pushAll(JanetPolyInt& J, const std::vector<Poly>& F, const Ord& o, int n) {
  for (auto& f : F) { Allocator al[1]; { PolyInt p(al, ordCode(o), n); assign(p, f); J.push(p); } }
}
inline bool hasUnit(const std::vector<Poly>& R, int npos) { return npos == 0 && R.size() == 1 && R[0].lm().deg() == 0; }

// is b a Groebner basis of the module with reduced Groebner basis R?
inline void checkGroebner(Case& c, const Basis& b, const std::vector<Poly>& R, const gen::Sys& s, const char* key, Budget& bud) {
  if (hasUnit(R, s.npos)) { if (!b.one) c.fail(key, "the ideal is the whole ring but the result is not reported as 1"); return; }
  if (b.one) c.fail(key, "the result is reported as 1 but the ideal is proper");
  for (auto& g : b.G) {
    if (g.zero()) c.fail(key, "zero polynomial in the basis");
    Poly q = g; if (!reduceFull(q, R, bud)) c.discard("budget");
    if (!q.zero()) c.fail(key, "basis element not in the ideal: " + g.str());
  }
  std::vector<Mon> L; for (auto& g : b.G) L.push_back(g.lm());
  for (auto& r : R) if (!inIdeal(r.lm(), L)) c.fail(key, "leading monomial " + r.lm().str() + " of the ideal is not divisible by any leading monomial of the basis");
}
inline void checkInvolutive(Case& c, const Basis& b, const JanetPolyInt& J, const gen::Sys& s, const char* key, bool primitive = true) {
  if (b.one) return;
  auto& U = b.lm;
  for (size_t i = 0; i < b.G.size(); i++) {
    if (b.G[i].lm() != U[i]) c.fail(key, "recorded leading monomial differs from the polynomial's: " + U[i].str() + " vs " + b.G[i].lm().str());
    if (i && s.o(U[i-1], U[i]) >= 0) c.fail(key, "leading monomials not strictly ascending");
    if (primitive && b.G[i].content() != 1) c.fail(key, "basis element not primitive: " + b.G[i].str());
  }
  std::vector<std::vector<bool>> nm; for (auto& u : U) nm.push_back(janetNM(u, U));
  for (size_t i = 0; i < U.size(); i++)
    for (int v = 0; v < s.n; v++) if (nm[i][v]) {
      Mon m = U[i]; m.e[v]++;
      if (janetFind(m, U, nm) < 0) c.fail(key, "not involutive: prolongation of " + U[i].str() + " by variable " + std::to_string(v) + " has no Janet divisor");
    }
  for (size_t i = 0; i < U.size(); i++) {
    bool first = true;
    for (auto& k : b.G[i].t) {
      if (first) { first = false; continue; }
      if (janetFind(k.first, U, nm) >= 0) c.fail(key, "tail term " + k.first.str() + " of " + b.G[i].str() + " is reducible");
    }
  }
}
#endif
