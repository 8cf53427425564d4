// Structured generators shared by the algebra harnesses.
#ifndef VERIF_GEN_H
#define VERIF_GEN_H
#include "pbt.h"
#include "ref.h"

namespace gen {
using namespace ref;
using pbt::Case;

inline Z coeff(Case& c, bool big = true) {
  Z v;
  switch (big ? c.weighted({10, 4, 1}) : c.weighted({10, 4})) {
    case 0: v = c.in(1, 3); break;
    case 1: v = c.in(1, 30); break;
    default: { v = 1; int k = c.in(1, 3); for (int i = 0; i < k; i++) { v <<= 40; v += (unsigned long)c.draw(1ul << 40); } }
  }
  return c.coin() ? Z(-v) : v;
}
// degree-bounded monomial
inline Mon mono(Case& c, int n, int maxDeg, int pos = -1) {
  Mon m(n, pos); int d = c.in(0, maxDeg);
  for (int i = 0; i < d; i++) m.e[c.draw(n)]++;
  return m;
}
inline Poly sparse(Case& c, const Ord& o, int n, int terms, int maxDeg, bool big = true, int npos = 0) {
  Poly p(o);
  int k = c.in(1, terms);
  for (int i = 0; i < k; i++) p.addTerm(mono(c, n, maxDeg, npos ? (int)c.draw(npos) : -1), coeff(c, big));
  return p;
}
inline Z evalAt(const Poly& p, const std::vector<int>& x) {
  Z s = 0;
  for (auto& k : p.t) { Z v = k.second; for (int i = 0; i < k.first.n(); i++) for (int j = 0; j < k.first.e[i]; j++) v *= x[i]; s += v; }
  return s;
}
struct Sys { int n; Ord o; int npos = 0; std::vector<Poly> F; std::string kind; };

inline Ord order(Case& c, bool modules) {
  Ord o; o.kind = c.coin() ? LEX : DEGREVLEX; o.pot = modules ? c.coin() : c.chance(1, 4); return o;
}

// structured benchmark-like families
inline void family(Case& c, Sys& s) {
  int n = s.n;
  int which = c.in(0, 2);
  auto var = [&](int i) { Mon m(n); m.e[((i % n) + n) % n] = 1; return m; };
  if (which == 0) {            // cyclic n-roots
    s.kind = "cyclic";
    for (int d = 1; d <= n; d++) {
      Poly p(s.o);
      for (int i = 0; i < (d == n ? 1 : n); i++) { Mon m(n); for (int j = 0; j < d; j++) m = mul(m, var(i+j)); p.addTerm(m, 1); }
      if (d == n) p.addTerm(Mon(n), c.coin() ? -1 : c.in(1, 5));
      s.F.push_back(p);
    }
  } else if (which == 1) {     // katsura-like: quadratic convolution
    s.kind = "katsura";
    for (int m = 0; m + 1 < n; m++) {
      Poly p(s.o);
      for (int l = -(n-1); l <= n-1; l++) { int k = std::abs(m-l); if (k < n) p.addTerm(mul(var(std::abs(l)), var(k)), 1); }
      p.addTerm(var(m), -1); s.F.push_back(p);
    }
    Poly p(s.o); for (int l = -(n-1); l <= n-1; l++) p.addTerm(var(std::abs(l)), 1); p.addTerm(Mon(n), -1); s.F.push_back(p);
  } else {                     // symmetric functions minus constants
    s.kind = "symmetric";
    for (int d = 1; d <= n; d++) {
      Poly p(s.o);
      std::function<void(int,int,Mon)> go = [&](int i, int left, Mon m) { if (!left) { p.addTerm(m, 1); return; } if (n - i < left) return; go(i+1, left-1, mul(m, var(i))); go(i+1, left, m); };
      go(0, d, Mon(n)); p.addTerm(Mon(n), c.in(-3, 3)); s.F.push_back(p);
    }
  }
  // perturb
  if (c.chance(1, 3)) { Poly& p = s.F[c.draw(s.F.size())]; p.addTerm(mono(c, n, 1), coeff(c, false)); }
  if (c.chance(1, 4)) s.F.erase(s.F.begin() + c.draw(s.F.size()));
  for (size_t i = s.F.size(); i > 1; i--) if (c.coin()) std::swap(s.F[i-1], s.F[c.draw(i)]);
}

// the same system among more variables, with far-apart positions or with powers of the variables: sizes that small systems never reach
inline void stretch(Case& c, Sys& s, int mode) {
  if (mode == 0 || !c.chance(1, 10)) return;
  std::vector<int> at, pw(s.n, 1), ps; int n = s.n, N = n;
  bool power = mode > 1 && c.coin();
  if (power) { if (n == 1) pw[0] = s.F.size() == 1 && !s.npos ? c.pick(std::vector<int>{30, 130, 1000, 40000}) : c.pick(std::vector<int>{2, 3, 5, 9, 30}); else if (n == 2 && c.coin()) { pw[0] = c.in(1, 3); pw[1] = c.in(2, 3); } else pw[c.draw(n)] = n == 2 ? c.in(2, 10) : c.in(2, 3); }
  if (!power || c.chance(1, 3)) N = n + (c.chance(1, 4) ? c.in(7, 40) : c.in(1, 6));
  for (int i = 0, p = 0, gap = N - n; i < n; i++) { int g = i == n - 1 && c.coin() ? gap : gap ? (int)c.draw(gap + 1) : 0; p += g; gap -= g; at.push_back(p++); }
  int np = 0; if (s.npos) { bool far = c.coin(); for (int q = 0; q < s.npos; q++) { np += far ? (c.chance(1, 6) ? c.in(20, 150) : c.in(0, 6)) : 0; ps.push_back(np++); } }
  for (auto& f : s.F) { Poly g(s.o); for (auto& t : f.t) { Mon m(N, t.first.pos < 0 ? -1 : ps[t.first.pos]); for (int i = 0; i < n; i++) m.e[at[i]] = t.first.e[i] * pw[i]; g.addTerm(m, t.second); } f = g; }
  s.n = N; if (s.npos) s.npos = np; s.kind += power ? "^" : "+"; c.label(power ? "stretched:powers" : "stretched:variables");
}

// a polynomial system in n variables with generators that interact
inline Sys ideal(Case& c, int maxN = 4, bool small = false, int mode = 2) {
  Sys s; s.n = maxN >= 4 ? 1 + c.weighted({2, 6, 6, 2}) : c.in(1, maxN); s.o = order(c, false);
  int n = s.n;
  int maxDeg = n == 1 ? c.in(1, 7) : n == 2 ? c.in(1, 5) : n == 3 ? c.in(1, 4) : c.in(1, 3);
  if (small) maxDeg = std::min(maxDeg, 3);
  int kind = c.weighted({5, 6, 5, 4, 4, 3, 2, 3});
  static const char* names[] = {"sparse", "planted-root", "binomial", "homogeneous", "common-factor", "monomial", "family", "nilpotent"};
  s.kind = names[kind];
  if (kind == 6 && n >= 2 && !small && (n < 4 || s.o.kind != LEX)) { family(c, s); }
  else {
    int k = n >= 2 ? 1 + c.weighted({1, 6, 5, n >= 4 ? 1 : 3}) : c.in(1, 3);
    int terms = kind == 0 ? 3 : 4;
    std::vector<std::vector<int>> roots;
    if (kind == 1) { std::vector<int> r; for (int i = 0; i < n; i++) r.push_back(c.in(-2, 2)); roots.push_back(r); }
    Poly fac(s.o); if (kind == 4) { fac = sparse(c, s.o, n, 2, 1, false); if (fac.zero() || fac.lm().deg() == 0) { Mon m(n); m.e[c.draw(n)] = 1; fac.addTerm(m, 1); } }
    for (int i = 0; i < k; i++) {
      Poly p(s.o);
      if (kind == 2) {
        Mon a = mono(c, n, maxDeg), b = mono(c, n, maxDeg);
        if (a.deg() == 0) a.e[c.draw(n)] = 1;
        if (b.deg() == 0 && !c.chance(1, 5)) b.e[c.draw(n)] = 1;
        p.addTerm(a, 1); p.addTerm(b, c.coin() ? -1 : c.in(1, 2));
      }
      else if (kind == 3) {
        int d = c.in(1, maxDeg), t = c.in(1, 4);
        for (int j = 0; j < t; j++) { Mon m(n); for (int q = 0; q < d; q++) m.e[c.draw(n)]++; p.addTerm(m, coeff(c, false)); }
      }
      else if (kind == 5) { Mon m = mono(c, n, maxDeg + 2); if (m.deg() == 0) m.e[0] = 1; p.addTerm(m, coeff(c, false)); }
      else if (kind == 7) {   // no constant terms: proper ideal supported at the origin
        int t = c.in(1, 4);
        for (int j = 0; j < t; j++) { Mon m = mono(c, n, maxDeg); if (m.deg() == 0) m.e[c.draw(n)] = 1; p.addTerm(m, coeff(c, c.chance(1, 8))); }
      }
      else p = sparse(c, s.o, n, terms, kind == 4 ? std::max(1, maxDeg-1) : maxDeg, c.chance(1, 6));
      if (kind == 1) p.addTerm(Mon(n), -evalAt(p, roots[0]));
      if (kind == 4) p = mul(p, fac);
      s.F.push_back(p);
    }
  }
  // generators that are redundant or degenerate
  if (c.chance(1, 5) && !s.F.empty()) {
    Poly q = s.F[c.draw(s.F.size())];
    if (c.coin()) q.scale(coeff(c, false)); else { Poly r(s.o); r.addMul(q, mono(c, n, 1), 1); q = r; }
    s.F.push_back(q);
  }
  if (c.chance(1, 20)) s.F.push_back(Poly(s.o));
  stretch(c, s, mode);
  return s;
}

// a submodule of a free module of rank npos
inline Sys module(Case& c, int mode = 2) {
  Sys s; s.n = c.in(1, 3); s.npos = c.in(2, 3); s.o = order(c, true);
  int n = s.n, maxDeg = n == 1 ? c.in(1, 4) : n == 2 ? c.in(1, 3) : c.in(1, 2);
  int k = 1 + c.weighted({1, 3, 4, 3});
  int kind = c.weighted({5, 3, 2});
  static const char* names[] = {"sparse", "binomial", "syzygy-like"};
  s.kind = names[kind];
  bool lift = c.chance(3, 5);   // no unit vectors among the terms
  for (int i = 0; i < k; i++) {
    Poly p(s.o);
    if (kind == 1) { p.addTerm(mono(c, n, maxDeg, c.draw(s.npos)), 1); p.addTerm(mono(c, n, maxDeg, c.draw(s.npos)), c.coin() ? -1 : c.in(1, 2)); }
    else if (kind == 2) { for (int q = 0; q < s.npos; q++) if (c.chance(3, 4)) { Poly f = sparse(c, s.o, n, 2, maxDeg, false); f.t.size(); for (auto& x : f.t) p.addTerm(Mon(x.first.e, q), x.second); } }
    else p = sparse(c, s.o, n, 4, maxDeg, c.chance(1, 8), s.npos);
    if (lift && p.t.size()) { Poly q(s.o); for (auto& x : p.t) { Mon m = x.first; if (m.deg() == 0) m.e[c.draw(n)]++; q.addTerm(m, x.second); } p = q; }
    s.F.push_back(p);
  }
  stretch(c, s, mode);
  return s;
}
inline std::string show(const Sys& s) {
  std::string r = s.o.str() + " n=" + std::to_string(s.n) + (s.npos ? " rank=" + std::to_string(s.npos) : "") + " kind=" + s.kind + "\n";
  for (auto& f : s.F) r += "  " + f.str() + "\n";
  return r;
}
}
#endif
