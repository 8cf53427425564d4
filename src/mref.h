// Reference Groebner bases modulo a large prime: fast enough for systems that the
// exact reference cannot decide. A result over Q agrees with its image modulo p
// for all but finitely many p; callers report a disagreement only when it shows
// modulo two different 61-bit primes.
#ifndef VERIF_MREF_H
#define VERIF_MREF_H
#include "ref.h"
#include <array>
#include <cstdint>
#include <queue>

namespace mref {
typedef uint64_t U; typedef unsigned __int128 UU;
static const U PRIMES[2] = {2305843009213693951ull, 2305843009213693921ull};
enum { MAXN = 16 };

struct M { std::array<int16_t, MAXN> e{}; int deg = 0, pos = -1;
  bool operator==(const M& o) const { return pos == o.pos && deg == o.deg && e == o.e; } };
struct Ctx {
  int n; ref::Ord o; U p; long steps; bool hit = false;
  bool use(long k) { steps -= k; if (steps < 0) hit = true; return !hit; }
  U mul(U a, U b) const { return (U)((UU)a * b % p); }
  U add(U a, U b) const { U s = a + b; return s >= p ? s - p : s; }
  U neg(U a) const { return a ? p - a : 0; }
  U inv(U a) const { U r = 1, k = p - 2; while (k) { if (k & 1) r = mul(r, a); a = mul(a, a); k >>= 1; } return r; }
  int cmpE(const M& a, const M& b) const {
    if (o.kind == ref::LEX) { for (int i = 0; i < n; i++) if (a.e[i] != b.e[i]) return a.e[i] > b.e[i] ? 1 : -1; return 0; }
    if (a.deg != b.deg) return a.deg > b.deg ? 1 : -1;
    for (int i = n-1; i >= 0; i--) if (a.e[i] != b.e[i]) return a.e[i] < b.e[i] ? 1 : -1;
    return 0;
  }
  int cmp(const M& a, const M& b) const {
    int q = (a.pos > b.pos) - (a.pos < b.pos);
    if (o.pot) return q ? q : cmpE(a, b);
    int r = cmpE(a, b); return r ? r : q;
  }
  M conv(const ref::Mon& m) const { M r; for (int i = 0; i < n; i++) r.e[i] = (int16_t)m.e[i]; r.deg = m.deg(); r.pos = m.pos; return r; }
  ref::Mon back(const M& m) const { ref::Mon r(n, m.pos); for (int i = 0; i < n; i++) r.e[i] = m.e[i]; return r; }
  bool divides(const M& d, const M& m) const { if (d.pos != m.pos || d.deg > m.deg) return false; for (int i = 0; i < n; i++) if (d.e[i] > m.e[i]) return false; return true; }
  M quo(const M& m, const M& d) const { M r; for (int i = 0; i < n; i++) r.e[i] = m.e[i] - d.e[i]; r.deg = m.deg - d.deg; return r; }
  M times(const M& a, const M& b) const { M r; for (int i = 0; i < n; i++) r.e[i] = a.e[i] + b.e[i]; r.deg = a.deg + b.deg; r.pos = a.pos == -1 ? b.pos : a.pos; return r; }
  M lcm(const M& a, const M& b) const { M r; r.pos = a.pos; for (int i = 0; i < n; i++) { r.e[i] = std::max(a.e[i], b.e[i]); r.deg += r.e[i]; } return r; }
};
struct Term { M m; U c; };
typedef std::vector<Term> P;   // descending, leading coefficient first

inline P conv(const ref::Poly& f, const Ctx& x) {
  P r; for (auto& k : f.t) { U v = mpz_fdiv_ui(k.second.get_mpz_t(), x.p); if (v) r.push_back(Term{x.conv(k.first), v}); }
  return r;
}
inline void monic(P& f, const Ctx& x) { if (f.empty()) return; U k = x.inv(f[0].c); for (auto& t : f) t.c = x.mul(t.c, k); }
// f[from..] + c*m*g
inline void axpy(P& f, size_t from, const P& g, const M& m, U c, const Ctx& x, P& tmp) {
  tmp.clear(); size_t i = from, j = 0;
  M gm; if (!g.empty()) gm = x.times(m, g[0].m);
  while (i < f.size() && j < g.size()) {
    int r = x.cmp(f[i].m, gm);
    if (r > 0) tmp.push_back(f[i++]);
    else {
      U v = x.mul(c, g[j].c);
      if (r < 0) tmp.push_back(Term{gm, v});
      else { v = x.add(v, f[i].c); if (v) tmp.push_back(Term{gm, v}); ++i; }
      if (++j < g.size()) gm = x.times(m, g[j].m);
    }
  }
  for (; i < f.size(); ++i) tmp.push_back(f[i]);
  while (j < g.size()) { tmp.push_back(Term{gm, x.mul(c, g[j].c)}); if (++j < g.size()) gm = x.times(m, g[j].m); }
  f.resize(from); f.insert(f.end(), tmp.begin(), tmp.end());
}
// normal form modulo monic G; full = tails too
inline bool reduce(P& f, const std::vector<P>& G, Ctx& x, bool full = true) {
  P tmp; size_t k = 0;
  while (k < f.size()) {
    const P* d = nullptr; for (auto& g : G) if (!g.empty() && x.divides(g[0].m, f[k].m)) { d = &g; break; }
    if (!d) { if (!full) return true; ++k; continue; }
    if (!x.use((long)(d->size() + f.size()))) return false;
    axpy(f, k, *d, x.quo(f[k].m, (*d)[0].m), x.neg(f[k].c), x, tmp);
  }
  return true;
}
// reduced Groebner basis, monic; Gebauer-Moeller criteria
inline bool groebner(const std::vector<ref::Poly>& F, std::vector<P>& out, Ctx& x) {
  bool ideal = true; for (auto& f : F) for (auto& k : f.t) if (k.first.pos != -1) ideal = false;
  std::vector<P> G; std::vector<bool> dead;
  struct Pair { int i, j; M l; };
  std::vector<Pair> B;
  auto push = [&](P f) {
    monic(f, x); int h = (int)G.size(); const M lh = f[0].m;
    std::vector<Pair> C;
    for (int i = 0; i < h; i++) if (!dead[i] && G[i][0].m.pos == lh.pos) C.push_back(Pair{i, h, x.lcm(G[i][0].m, lh)});
    // B criterion on the old pairs
    std::vector<Pair> nb;
    for (auto& q : B) if (!(x.divides(lh, q.l) && !(x.lcm(G[q.i][0].m, lh) == q.l) && !(x.lcm(G[q.j][0].m, lh) == q.l))) nb.push_back(q);
    // M and F criteria on the new ones
    std::vector<bool> cop(C.size());
    for (size_t a = 0; a < C.size(); a++) cop[a] = ideal && C[a].l.deg == lh.deg + G[C[a].i][0].m.deg;
    for (size_t a = 0; a < C.size(); a++) {
      bool drop = false;
      for (size_t b = 0; b < C.size() && !drop; b++) if (a != b && x.divides(C[b].l, C[a].l)) {
        if (!(C[b].l == C[a].l)) drop = true;
        else if (cop[b] && !cop[a]) drop = true;
        else if (b < a && cop[b] == cop[a]) drop = true;
      }
      if (!drop && !cop[a]) nb.push_back(C[a]);
    }
    B.swap(nb);
    for (int i = 0; i < h; i++) if (!dead[i] && x.divides(lh, G[i][0].m)) dead[i] = true;
    G.push_back(f); dead.push_back(false);
  };
  std::vector<P> live;
  auto refresh = [&]() { live.clear(); for (size_t i = 0; i < G.size(); i++) if (!dead[i]) live.push_back(G[i]); };
  std::vector<P> S; for (auto& f : F) { P q = conv(f, x); if (!q.empty()) S.push_back(q); }
  std::sort(S.begin(), S.end(), [&](const P& a, const P& b) { return x.cmp(a[0].m, b[0].m) < 0; });
  for (auto& f : S) { refresh(); if (!reduce(f, live, x)) return false; if (!f.empty()) push(f); }
  refresh();
  P tmp;
  while (!B.empty()) {
    size_t best = 0;
    for (size_t i = 1; i < B.size(); i++) if (B[i].l.deg < B[best].l.deg || (B[i].l.deg == B[best].l.deg && x.cmp(B[i].l, B[best].l) < 0)) best = i;
    Pair q = B[best]; B[best] = B.back(); B.pop_back();
    P s; M mi = x.quo(q.l, G[q.i][0].m);
    for (auto& t : G[q.i]) s.push_back(Term{x.times(mi, t.m), t.c});
    axpy(s, 0, G[q.j], x.quo(q.l, G[q.j][0].m), x.p - 1, x, tmp);
    if (!x.use((long)s.size()) || !reduce(s, live, x)) return false;
    if (!s.empty()) { if (ideal && s[0].m.deg == 0) { monic(s, x); out.assign(1, s); return true; } push(s); refresh(); if (live.size() > 600) { x.hit = true; return false; } }
  }
  out.clear();
  for (size_t i = 0; i < live.size(); i++) {
    std::vector<P> R; for (size_t j = 0; j < live.size(); j++) if (j != i) R.push_back(live[j]);
    P f = live[i]; if (!reduce(f, R, x)) return false;
    out.push_back(f);
  }
  std::sort(out.begin(), out.end(), [&](const P& a, const P& b) { return x.cmp(a[0].m, b[0].m) < 0; });
  return true;
}
// equal up to a non-zero factor
inline bool proportional(P a, P b, const Ctx& x) {
  if (a.size() != b.size()) return false;
  monic(a, x); monic(b, x);
  for (size_t i = 0; i < a.size(); i++) if (!(a[i].m == b[i].m) || a[i].c != b[i].c) return false;
  return true;
}
}
#endif
