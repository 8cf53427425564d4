// Larger systems: decided modulo two 61-bit primes (mref.h).
#ifndef VERIF_BIG_H
#define VERIF_BIG_H
#include "p_basis.h"
#include "mref.h"

namespace gen {
inline Poly fromTerms(const Ord& o, const std::vector<std::pair<Mon,int>>& v) { Poly p(o); for (auto& k : v) p.addTerm(k.first, k.second); return p; }
inline Z hugeCoeff(Case& c) { Z v = c.in(1, 9); int k = c.in(0, 12); for (int i = 0; i < k; i++) { v <<= 61; v += (unsigned long)c.draw(1ul << 61); } return c.coin() ? Z(-v) : v; }

inline Sys bigIdeal(Case& c) {
  Sys s; s.o = order(c, false);
  static const char* names[] = {"cyclic", "katsura", "dense-quadrics", "binomials", "minors", "edge-ideal", "boolean", "colouring", "high-degree", "linear", "long", "huge-coeff", "eco", "monomial-curve"};
  int kind = c.weighted({2, 3, 4, 4, 3, 3, 3, 2, 4, 2, 3, 3, 2, 3}); s.kind = names[kind];
  auto v = [&](int i, int k = 1) { Mon m(s.n); m.e[((i % s.n) + s.n) % s.n] = k; return m; };
  auto term = [&](Poly& p, const Mon& m, Z k) { p.addTerm(m, k); };
  bool lex = s.o.kind == LEX;
  switch (kind) {
  case 0: { s.n = lex ? 4 : c.in(4, 5);
    for (int d = 1; d <= s.n; d++) { Poly p(s.o); for (int i = 0; i < (d == s.n ? 1 : s.n); i++) { Mon m(s.n); for (int j = 0; j < d; j++) m = mul(m, v(i+j)); term(p, m, 1); } if (d == s.n) term(p, Mon(s.n), c.coin() ? -1 : c.in(1, 3)); s.F.push_back(p); } break; }
  case 1: { s.n = lex ? 4 : c.in(4, 6);
    for (int m = 0; m + 1 < s.n; m++) { Poly p(s.o); for (int l = -(s.n-1); l <= s.n-1; l++) { int k = std::abs(m-l); if (k < s.n) term(p, mul(v(std::abs(l)), v(k)), 1); } term(p, v(m), -1); s.F.push_back(p); }
    Poly p(s.o); for (int l = -(s.n-1); l <= s.n-1; l++) term(p, v(std::abs(l)), 1); term(p, Mon(s.n), -1); s.F.push_back(p); break; }
  case 2: { s.n = lex ? 3 : c.in(3, 5); int k = c.in(s.n - 1, s.n + 2); bool hom = c.coin(); int per = c.in(3, 12);
    for (int i = 0; i < k; i++) { Poly p(s.o); for (int j = 0; j < per; j++) term(p, mul(v(c.draw(s.n)), v(c.draw(s.n))), coeff(c, false)); if (!hom) { term(p, v(c.draw(s.n)), coeff(c, false)); term(p, Mon(s.n), c.in(-3, 3)); } s.F.push_back(p); } break; }
  case 3: { s.n = c.in(4, 10); int k = c.in(2, s.n); int d = c.in(2, 4); if (lex) { s.n = std::min(s.n, 6); k = std::min(k, 4); }
    for (int i = 0; i < k; i++) { Poly p(s.o); Mon a(s.n), b(s.n); for (int j = 0; j < d; j++) a.e[c.draw(s.n)]++; int db = c.chance(1, 3) ? c.in(1, d) : d; for (int j = 0; j < db; j++) b.e[c.draw(s.n)]++; term(p, a, 1); term(p, b, c.chance(1, 4) ? c.in(2, 3) : -1); s.F.push_back(p); } break; }
  case 4: { int rows = 2, cols = c.in(3, 4); if (!lex && c.chance(1, 3)) { rows = 3; cols = 3; } s.n = rows * cols; bool toep = c.chance(1, 3); if (toep) s.n = rows + cols - 1;
    auto x = [&](int i, int j) { return toep ? v(i + j) : v(i * cols + j); };
    for (int i = 0; i < rows; i++) for (int k = i+1; k < rows; k++) for (int j = 0; j < cols; j++) for (int l = j+1; l < cols; l++) { Poly p(s.o); term(p, mul(x(i,j), x(k,l)), 1); term(p, mul(x(i,l), x(k,j)), -1); s.F.push_back(p); } break; }
  case 5: { s.n = c.in(5, 12); int k = c.in(4, 14); for (int i = 0; i < k; i++) { Poly p(s.o); int a = c.draw(s.n), b = c.draw(s.n); term(p, mul(v(a), v(b)), 1); if (c.chance(1, 6)) term(p, v(c.draw(s.n)), coeff(c, false)); s.F.push_back(p); } break; }
  case 6: { s.n = c.in(4, 8); for (int i = 0; i < s.n; i++) { Poly p(s.o); term(p, v(i, 2), 1); term(p, v(i), -1); s.F.push_back(p); }
    int k = c.in(1, 4); for (int i = 0; i < k; i++) { Poly p(s.o); int t = c.in(2, 4); for (int j = 0; j < t; j++) { Mon m(s.n); int d = c.in(1, 3); for (int q = 0; q < d; q++) m.e[c.draw(s.n)] = 1; term(p, m, coeff(c, false)); } if (c.coin()) term(p, Mon(s.n), c.in(-2, 2)); s.F.push_back(p); } break; }
  case 7: { s.n = c.in(3, 6); for (int i = 0; i < s.n; i++) { Poly p(s.o); term(p, v(i, 3), 1); term(p, Mon(s.n), -1); s.F.push_back(p); }
    for (int i = 0; i < s.n; i++) for (int j = i+1; j < s.n; j++) if (c.coin()) { Poly p(s.o); term(p, v(i, 2), 1); term(p, mul(v(i), v(j)), 1); term(p, v(j, 2), 1); s.F.push_back(p); } break; }
  case 8: { s.n = c.in(1, 3); int k = s.n == 1 ? c.in(1, 3) : c.in(2, 3), top = s.n == 1 ? 120 : s.n == 2 ? (lex ? 12 : 30) : (lex ? 5 : 10);
    for (int i = 0; i < k; i++) { Poly p(s.o); int t = c.in(1, 3); for (int j = 0; j < t; j++) { Mon m(s.n); for (int q = 0; q < s.n; q++) m.e[q] = c.in(0, top); if (m.deg() == 0) m.e[0] = 1; term(p, m, coeff(c, false)); } s.F.push_back(p); } break; }
  case 9: { s.n = c.in(5, 12); int k = c.in(3, s.n + 2); for (int i = 0; i < k; i++) { Poly p(s.o); int t = c.in(2, 5); for (int j = 0; j < t; j++) term(p, v(c.draw(s.n)), coeff(c, false)); if (c.coin()) term(p, Mon(s.n), c.in(-5, 5)); s.F.push_back(p); } break; }
  case 10: { s.n = c.in(2, 3); int k = c.in(1, 2), d = s.n == 2 ? (lex ? 6 : 9) : (lex ? 3 : 5); for (int i = 0; i < k; i++) s.F.push_back(sparse(c, s.o, s.n, 60, d, false)); break; }
  case 11: { s.n = c.in(1, 3); int k = c.in(1, 3); for (int i = 0; i < k; i++) { Poly p(s.o); int t = c.in(1, 4); for (int j = 0; j < t; j++) term(p, mono(c, s.n, s.n == 1 ? 6 : 2), hugeCoeff(c)); s.F.push_back(p); } break; }
  case 12: { s.n = lex ? 4 : c.in(4, 6); int n = s.n;
    for (int k = 0; k < n - 1; k++) { Poly p(s.o); term(p, mul(v(k), v(n-1)), 1); for (int i = 0; i + k + 1 < n - 1; i++) term(p, mul(mul(v(i), v(i+k+1)), v(n-1)), 1); term(p, Mon(n), -(k+1)); s.F.push_back(p); }
    Poly p(s.o); for (int i = 0; i < n - 1; i++) term(p, v(i), 1); term(p, Mon(n), 1); s.F.push_back(p); break; }
  default: { int m = c.in(2, 4); s.n = m + 1; int e = 1; for (int i = 0; i < m; i++) { e += c.in(0, 2); Poly p(s.o); term(p, v(i + 1), 1); term(p, v(0, e), -1); s.F.push_back(p); } if (c.coin()) { Poly p(s.o); term(p, v(0, 2), 1); term(p, v(s.n - 1), -1); s.F.push_back(p); } break; }
  }
  if (c.chance(1, 4) && kind != 11) { Poly& p = s.F[c.draw(s.F.size())]; term(p, mono(c, s.n, 2), coeff(c, false)); }
  if (c.chance(1, 5) && s.F.size() > 1) s.F.erase(s.F.begin() + c.draw(s.F.size()));
  for (size_t i = s.F.size(); i > 1; i--) if (c.coin()) std::swap(s.F[i-1], s.F[c.draw(i)]);
  return s;
}

inline Sys bigModule(Case& c) {
  Sys s; s.o = order(c, true);
  static const char* names[] = {"sparse-rank", "syzygies", "jacobian", "lifted-ideal", "diagonal", "high-degree"};
  int kind = c.weighted({4, 3, 2, 3, 2, 3}); s.kind = names[kind]; bool lex = s.o.kind == LEX;
  auto at = [&](const Poly& f, int pos, Poly& into) { for (auto& k : f.t) into.addTerm(Mon(k.first.e, pos), k.second); };
  switch (kind) {
  case 0: { s.n = c.in(1, 4); s.npos = c.in(3, 12); int k = c.in(2, 6), d = s.n == 1 ? 5 : s.n == 2 ? (lex ? 3 : 4) : 2;
    for (int i = 0; i < k; i++) s.F.push_back(sparse(c, s.o, s.n, 4, d, false, s.npos)); break; }
  case 1: { s.n = c.in(2, 4); s.npos = c.in(3, 5); std::vector<Poly> f; for (int i = 0; i < s.npos; i++) f.push_back(sparse(c, s.o, s.n, 2, 2, false));
    for (int i = 0; i < s.npos; i++) for (int j = i+1; j < s.npos; j++) if (c.chance(3, 4)) { Poly p(s.o); at(f[j], i, p); Poly q = f[i]; q.scale(-1); at(q, j, p); s.F.push_back(p); } break; }
  case 2: { s.n = c.in(2, 4); s.npos = s.n; int k = c.in(1, 3); for (int i = 0; i < k; i++) { Poly f = sparse(c, s.o, s.n, 5, 4, false); Poly p(s.o); for (int j = 0; j < s.n; j++) for (auto& t : f.t) if (t.first.e[j]) { Mon m(t.first.e, j); m.e[j]--; p.addTerm(m, t.second * t.first.e[j]); } s.F.push_back(p); for (int j = 0; j < s.npos; j++) if (c.chance(1, 3)) { Poly q(s.o); at(f, j, q); s.F.push_back(q); } } break; }
  case 3: { s.n = c.in(2, 4); s.npos = c.in(2, 5); Sys t = ideal(c, 3, true, 0); s.n = t.n; s.o.kind = t.o.kind; for (auto& f : t.F) for (int j = 0; j < s.npos; j++) if (c.coin()) { Poly p(s.o); at(f, j, p); if (c.chance(1, 3)) p.addTerm(mono(c, s.n, 2, c.draw(s.npos)), coeff(c, false)); s.F.push_back(p); } break; }
  case 4: { s.n = c.in(1, 4); s.npos = c.in(5, 40); for (int j = 0; j < s.npos; j++) { Poly p(s.o); Mon m = mono(c, s.n, 3, j); p.addTerm(m, coeff(c, false)); if (c.coin()) p.addTerm(mono(c, s.n, 1, c.draw(s.npos)), coeff(c, false)); s.F.push_back(p); } break; }
  default: { s.n = c.in(1, 2); s.npos = 2; int k = c.in(2, 3), top = s.n == 1 ? 60 : lex ? 8 : 14; for (int i = 0; i < k; i++) { Poly p(s.o); int t = c.in(1, 3); for (int j = 0; j < t; j++) { Mon m(s.n, c.draw(2)); for (int q = 0; q < s.n; q++) m.e[q] = c.in(0, top); p.addTerm(m, coeff(c, false)); } s.F.push_back(p); } break; }
  }
  for (size_t i = s.F.size(); i > 1; i--) if (c.coin()) std::swap(s.F[i-1], s.F[c.draw(i)]);
  return s;
}
}

// the ideal or submodule generated by F, modulo the two primes (the second one only on demand)
struct MRef {
  std::vector<Poly> F; mref::Ctx x[2]; std::vector<mref::P> R[2]; bool have[2] = {false, false};
  MRef(const gen::Sys& s, long steps): F(s.F) { for (int k = 0; k < 2; k++) { x[k].n = s.n; x[k].o = s.o; x[k].p = mref::PRIMES[k]; x[k].steps = steps; } }
  bool get(int k) { if (!have[k]) { if (!mref::groebner(F, R[k], x[k])) return false; have[k] = true; } return true; }
  // does the predicate hold modulo either prime?  (a relation over Q fails modulo both only if it fails)
  bool either(Case& c, const std::function<bool(mref::Ctx&, std::vector<mref::P>&)>& ok) {
    for (int k = 0; k < 2; k++) {
      if (!get(k)) c.discard("reference budget");
      x[k].steps += 3000000;
      bool r = ok(x[k], R[k]);
      if (x[k].hit) c.discard("budget");
      if (r) return true;
    }
    return false;
  }
  bool unit(Case& c, int npos) { if (npos) return false; return either(c, [&](mref::Ctx&, std::vector<mref::P>& R) { return R.size() == 1 && R[0][0].m.deg == 0; }); }
  size_t size() { return R[0].size(); }
};
inline void checkGroebnerMod(Case& c, const Basis& b, MRef& r, const gen::Sys& s) {
  auto isUnit = [&](std::vector<mref::P>& R) { return s.npos == 0 && R.size() == 1 && R[0][0].m.deg == 0; };
  if (!r.either(c, [&](mref::Ctx&, std::vector<mref::P>& R) { return isUnit(R) == b.one; })) c.fail("groebner", b.one ? "the result is reported as 1 but the ideal is proper" : "the ideal is the whole ring but the result is not reported as 1");
  if (b.one) return;
  for (auto& g : b.G) {
    if (g.zero()) c.fail("groebner", "zero polynomial in the basis");
    if (!r.either(c, [&](mref::Ctx& x, std::vector<mref::P>& R) { mref::P f = mref::conv(g, x); return mref::reduce(f, R, x, false) && f.empty(); })) c.fail("groebner", "basis element not in the ideal: " + g.str());
  }
  std::string bad;
  if (!r.either(c, [&](mref::Ctx& x, std::vector<mref::P>& R) {
    std::vector<mref::M> L; for (auto& m : b.lm) L.push_back(x.conv(m));
    for (auto& f : R) { bool in = false; for (auto& l : L) if (x.divides(l, f[0].m)) { in = true; break; } if (!in) { bad = x.back(f[0].m).str(); return false; } }
    return true; })) c.fail("groebner", "leading monomial " + bad + " of the ideal is not divisible by any leading monomial of the basis");
}
#endif
