// Independent reference algebra: monomials with module positions, term orders,
// polynomials over Z, Buchberger reduced Groebner bases, Janet division by
// definition. Written from the mathematical definitions only.
#ifndef VERIF_REF_H
#define VERIF_REF_H
#include <gmpxx.h>
#include <vector>
#include <map>
#include <set>
#include <string>
#include <sstream>
#include <algorithm>
#include <functional>

namespace ref {

typedef mpz_class Z;
typedef mpq_class Q;

struct Mon {
  std::vector<int> e; int pos = -1;
  Mon() {}
  Mon(int n, int p = -1): e(n, 0), pos(p) {}
  Mon(const std::vector<int>& v, int p): e(v), pos(p) {}
  int n() const { return (int)e.size(); }
  int deg() const { int s = 0; for (int x : e) s += x; return s; }
  bool operator==(const Mon& o) const { return e == o.e && pos == o.pos; }
  bool operator!=(const Mon& o) const { return !(*this == o); }
  bool operator<(const Mon& o) const { return pos != o.pos ? pos < o.pos : e < o.e; }
  std::string str() const {
    std::ostringstream s; s << '['; if (pos >= 0) s << pos << ':';
    for (int i = 0; i < n(); i++) s << (i ? " " : "") << e[i]; s << ']'; return s.str();
  }
};
// product; at most one factor carries a position
inline Mon mul(const Mon& a, const Mon& b) {
  Mon r = a; for (int i = 0; i < a.n(); i++) r.e[i] += b.e[i];
  r.pos = a.pos == -1 ? b.pos : a.pos; return r;
}
inline bool dividesE(const Mon& d, const Mon& m) { for (int i = 0; i < m.n(); i++) if (d.e[i] > m.e[i]) return false; return true; }
inline bool divides(const Mon& d, const Mon& m) { return d.pos == m.pos && dividesE(d, m); }
inline Mon quo(const Mon& m, const Mon& d) { Mon r(m.n(), -1); for (int i = 0; i < m.n(); i++) r.e[i] = m.e[i] - d.e[i]; return r; }
inline Mon lcm(const Mon& a, const Mon& b) { Mon r = a; for (int i = 0; i < a.n(); i++) r.e[i] = std::max(a.e[i], b.e[i]); return r; }

enum Kind { LEX = 1, DEGREVLEX = 2, ALEX = 4 };
struct Ord {
  int kind = DEGREVLEX; bool pot = false;
  static int sgn(int x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }
  int cmpE(const Mon& a, const Mon& b) const {
    int n = a.n();
    if (kind == LEX) { for (int i = 0; i < n; i++) if (a.e[i] != b.e[i]) return sgn(a.e[i] - b.e[i]); return 0; }
    int d = sgn(a.deg() - b.deg());
    if (kind == DEGREVLEX) {
      if (d) return d;
      for (int i = n-1; i >= 0; i--) if (a.e[i] != b.e[i]) return sgn(b.e[i] - a.e[i]);
      return 0;
    }
    if (d) return -d;
    for (int i = 0; i < n; i++) if (a.e[i] != b.e[i]) return sgn(a.e[i] - b.e[i]);
    return 0;
  }
  int operator()(const Mon& a, const Mon& b) const {
    int p = sgn(a.pos - b.pos);
    if (pot) return p ? p : cmpE(a, b);
    int r = cmpE(a, b); return r ? r : p;
  }
  std::string str() const { return std::string(pot ? "POT" : "TOP") + (kind == LEX ? "lex" : kind == DEGREVLEX ? "deglex" : "alex"); }
};
struct Desc { Ord o; bool operator()(const Mon& a, const Mon& b) const { return o(a, b) > 0; } };

// descending map: begin() is the leading term
struct Poly {
  typedef std::map<Mon, Z, Desc> Map;
  Map t;
  explicit Poly(const Ord& o): t(Desc{o}) {}
  const Ord& ord() const { return ordRef(); }
  Ord ordRefv() const { return t.key_comp().o; }
  const Ord& ordRef() const { static thread_local Ord x; x = t.key_comp().o; return x; }
  bool zero() const { return t.empty(); }
  const Mon& lm() const { return t.begin()->first; }
  const Z& lc() const { return t.begin()->second; }
  void addTerm(const Mon& m, const Z& c) {
    if (c == 0) return;
    auto it = t.find(m);
    if (it == t.end()) t.emplace(m, c);
    else { it->second += c; if (it->second == 0) t.erase(it); }
  }
  void addMul(const Poly& a, const Mon& m, const Z& c) { for (auto& k : a.t) addTerm(mul(k.first, m), k.second * c); }
  void scale(const Z& c) { if (c == 0) t.clear(); else for (auto& k : t) k.second *= c; }
  Z content() const { Z g = 0; for (auto& k : t) { mpz_gcd(g.get_mpz_t(), g.get_mpz_t(), k.second.get_mpz_t()); } return g; }
  void primitive() { if (zero()) return; Z g = content(); if (lc() < 0) g = -g; for (auto& k : t) mpz_divexact(k.second.get_mpz_t(), k.second.get_mpz_t(), g.get_mpz_t()); }
  bool operator==(const Poly& o) const {
    if (t.size() != o.t.size()) return false;
    for (auto& k : t) { auto it = o.t.find(k.first); if (it == o.t.end() || it->second != k.second) return false; }
    return true;
  }
  bool operator!=(const Poly& o) const { return !(*this == o); }
  int maxDeg() const { int d = 0; for (auto& k : t) d = std::max(d, k.first.deg()); return d; }
  std::string str() const {
    if (zero()) return "0";
    std::string s; for (auto& k : t) s += (s.empty() ? "" : " + ") + k.second.get_str() + "*" + k.first.str();
    return s;
  }
};
inline Poly add(const Poly& a, const Poly& b) { Poly r = a; for (auto& k : b.t) r.addTerm(k.first, k.second); return r; }
inline Poly sub(const Poly& a, const Poly& b) { Poly r = a; for (auto& k : b.t) r.addTerm(k.first, -k.second); return r; }
inline Poly mul(const Poly& a, const Poly& b) { Poly r(a.ordRefv()); for (auto& x : a.t) for (auto& y : b.t) r.addTerm(mul(x.first, y.first), x.second*y.second); return r; }
inline Poly one(const Ord& o, int n) { Poly r(o); r.addTerm(Mon(n, -1), 1); return r; }
inline Poly power(const Poly& a, int k, int n) { Poly r = one(a.ordRefv(), n); for (int i = 0; i < k; i++) r = mul(r, a); return r; }
inline Poly reorder(const Poly& a, const Ord& o) { Poly r(o); for (auto& k : a.t) r.addTerm(k.first, k.second); return r; }

struct Budget { long steps; bool hit = false; bool use(long k = 1) { steps -= k; if (steps < 0) hit = true; return !hit; } };

// p is replaced by a multiple of its full normal form modulo G; false if the budget ran out
inline bool reduceFull(Poly& p, const std::vector<Poly>& G, Budget& b, Z* mult = nullptr) {
  Poly done(p.ordRefv());
  if (mult) *mult = 1;
  while (!p.zero()) {
    const Mon m = p.lm(); const Poly* d = nullptr;
    for (auto& g : G) if (!g.zero() && divides(g.lm(), m)) { d = &g; break; }
    if (!d) { done.t.insert(*p.t.begin()); p.t.erase(p.t.begin()); continue; }
    if (!b.use(1 + (long)d->t.size() + (long)(mpz_size(p.lc().get_mpz_t())))) return false;
    Z g; mpz_gcd(g.get_mpz_t(), p.lc().get_mpz_t(), d->lc().get_mpz_t());
    Z k1 = d->lc()/g, k2 = -p.lc()/g;
    p.scale(k1); done.scale(k1); if (mult) *mult *= k1;
    p.addMul(*d, quo(m, d->lm()), k2);
    if (mult == nullptr) {
      Z c = p.content(), c2 = done.content(); Z h; mpz_gcd(h.get_mpz_t(), c.get_mpz_t(), c2.get_mpz_t());
      if (h > 1) { for (auto& k : p.t) k.second /= h; for (auto& k : done.t) k.second /= h; }
      if (!p.zero() && mpz_size(p.lc().get_mpz_t()) > 60) { b.hit = true; return false; }
    }
  }
  p.t.swap(done.t);
  return true;
}

// reduced Groebner basis (primitive integer polynomials with positive leading coefficient)
inline bool groebner(std::vector<Poly> F, std::vector<Poly>& out, Budget& b) {
  std::vector<Poly> G;
  struct Pair { int i, j; Mon l; };
  std::vector<Pair> P;
  bool ideal = true;
  for (auto& f : F) for (auto& k : f.t) if (k.first.pos != -1) ideal = false;
  Ord o; if (!F.empty()) o = F[0].ordRefv();
  auto push = [&](const Poly& f) {
    int j = (int)G.size(); G.push_back(f);
    for (int i = 0; i < j; i++) if (G[i].lm().pos == f.lm().pos) {
      Mon l = lcm(G[i].lm(), f.lm());
      if (ideal && l.deg() == G[i].lm().deg() + f.lm().deg()) continue;
      P.push_back(Pair{i, j, l});
    }
  };
  std::vector<Poly> S;
  for (auto f : F) if (!f.zero()) { f.primitive(); S.push_back(f); }
  std::sort(S.begin(), S.end(), [&](const Poly& a, const Poly& c) { return o(a.lm(), c.lm()) < 0; });
  for (auto& f : S) { if (!reduceFull(f, G, b)) return false; if (!f.zero()) { f.primitive(); push(f); } }
  while (!P.empty()) {
    size_t best = 0;
    for (size_t i = 1; i < P.size(); i++) {
      int d1 = P[i].l.deg(), d2 = P[best].l.deg();
      if (d1 < d2 || (d1 == d2 && o(P[i].l, P[best].l) < 0)) best = i;
    }
    Pair p = P[best]; P[best] = P.back(); P.pop_back();
    const Poly &f = G[p.i], &g = G[p.j];
    Poly s(o);
    s.addMul(f, quo(p.l, f.lm()), g.lc());
    s.addMul(g, quo(p.l, g.lm()), -f.lc());
    if (!b.use(1 + (long)s.t.size()) || !reduceFull(s, G, b)) return false;
    if (!s.zero()) { s.primitive(); push(s); if (G.size() > 120) { b.hit = true; return false; } }
  }
  // minimal, then reduced
  std::vector<Poly> M;
  for (size_t i = 0; i < G.size(); i++) {
    bool red = false;
    for (size_t j = 0; j < G.size() && !red; j++)
      if (i != j && divides(G[j].lm(), G[i].lm()) && (G[j].lm() != G[i].lm() || j < i)) red = true;
    if (!red) M.push_back(G[i]);
  }
  out.clear();
  for (size_t i = 0; i < M.size(); i++) {
    std::vector<Poly> R; for (size_t j = 0; j < M.size(); j++) if (j != i) R.push_back(M[j]);
    Poly f = M[i]; if (!reduceFull(f, R, b)) return false;
    f.primitive(); out.push_back(f);
  }
  std::sort(out.begin(), out.end(), [&](const Poly& a, const Poly& c) { return o(a.lm(), c.lm()) < 0; });
  return true;
}

// Janet division by definition: variable i is non-multiplicative for u in U iff some v in U with the
// same position agrees with u in variables 0..i-1 and has a larger exponent of variable i.
inline std::vector<bool> janetNM(const Mon& u, const std::vector<Mon>& U) {
  std::vector<bool> nm(u.n(), false);
  for (auto& v : U) if (v.pos == u.pos)
    for (int i = 0; i < u.n(); i++) {
      if (v.e[i] > u.e[i]) { nm[i] = true; break; }
      if (v.e[i] != u.e[i]) break;
    }
  return nm;
}
inline bool janetDivides(const Mon& u, const std::vector<bool>& nm, const Mon& m) {
  if (u.pos != m.pos) return false;
  for (int i = 0; i < u.n(); i++) if (u.e[i] > m.e[i] || (u.e[i] < m.e[i] && nm[i])) return false;
  return true;
}
// index of the Janet divisor of m in U, -1 if none, -2 if not unique
inline int janetFind(const Mon& m, const std::vector<Mon>& U, const std::vector<std::vector<bool>>& nm) {
  int r = -1;
  for (size_t i = 0; i < U.size(); i++) if (janetDivides(U[i], nm[i], m)) { if (r >= 0) return -2; r = (int)i; }
  return r;
}
inline std::vector<Mon> minimalGens(const std::vector<Mon>& U) {
  std::vector<Mon> r;
  for (size_t i = 0; i < U.size(); i++) {
    bool red = false;
    for (size_t j = 0; j < U.size() && !red; j++) if (i != j && divides(U[j], U[i]) && (U[j] != U[i] || j < i)) red = true;
    if (!red) r.push_back(U[i]);
  }
  std::sort(r.begin(), r.end());
  return r;
}
inline bool inIdeal(const Mon& m, const std::vector<Mon>& U) { for (auto& u : U) if (divides(u, m)) return true; return false; }

// enumerate all exponent vectors of exactly degree d in n variables
inline void monsOfDegree(int n, int d, const std::function<void(const Mon&)>& f, int pos = -1) {
  Mon m(n, pos);
  std::function<void(int,int)> go = [&](int i, int left) {
    if (i == n-1) { m.e[i] = left; f(m); return; }
    for (int k = left; k >= 0; k--) { m.e[i] = k; go(i+1, left-k); }
  };
  go(0, d);
}

}  // namespace ref
#endif
