// Boolean monomials: operation histories against sets of variables
#include "lib.h"
#include "ginv/bmonom.h"
#include <set>
using pbt::Case; using GInv::BMonom; using GInv::Allocator;
typedef std::set<int> V;
struct Slot { BMonom* m; V r; Allocator* own; };
static V uni(const V& a, const V& b) { V r = a; r.insert(b.begin(), b.end()); return r; }
static bool sub(const V& d, const V& m) { return std::includes(m.begin(), m.end(), d.begin(), d.end()); }
static std::string show(const V& v) { if (v.empty()) return "1"; std::string s = "["; for (auto i = v.rbegin(); i != v.rend(); ++i) s += (i == v.rbegin() ? "" : " ") + std::to_string(*i); return s + "]"; }
// degree first; then the one whose smallest differing tail variable is larger
static int cmp(const V& a, const V& b) {
  if (a.size() != b.size()) return a.size() > b.size() ? 1 : -1;
  auto i = a.begin(), j = b.begin(); for (; i != a.end(); ++i, ++j) if (*i != *j) return *i > *j ? 1 : -1; return 0;
}
static void prop(Case& c) {
  int n = c.chance(1, 6) ? c.in(20, 400) : c.in(1, 9), ns = c.in(2, 5), done = 0;
  Allocator A[1], B[1];
  {
  std::vector<Slot> S;
  auto rnd = [&]() { V r; int d = c.chance(1, 8) ? c.in(0, n) : c.in(0, 5); for (int i = 0; i < d; i++) r.insert(c.draw(n)); return r; };
  auto build = [&](Allocator* al, const V& r, bool up) {   // from single variables, in either direction
    BMonom* m = new(al) BMonom(al); std::vector<int> v(r.begin(), r.end()); if (!up) std::reverse(v.begin(), v.end());
    for (int x : v) { BMonom* k = new(al) BMonom(*m, x, al); al->destroy(m); m = k; }
    return m;
  };
  for (int i = 0; i < ns; i++) { Slot s; s.own = c.coin() ? A : B; s.r = rnd(); s.m = build(s.own, s.r, c.coin()); S.push_back(s); c.note("m" + std::to_string(i) + " = " + show(s.r) + "\n"); }
  auto same = [&](const BMonom& m, const V& r, const std::string& what) {
    if (m.degree() != (int)r.size() || m.isZero() != r.empty() || (bool)m == r.empty()) c.fail("degree", what);
    int k = 0; for (auto i = r.rbegin(); i != r.rend(); ++i, ++k) if (m[k] != *i) { std::ostringstream o; o << what << ": " << m << ", expected " << show(r); c.fail("value", o.str()); }
    std::ostringstream o; o << m; if (o.str() != show(r)) c.fail("print", what + ": " + o.str());
  };
  auto verify = [&](const std::string& what) { for (int i = 0; i < ns; i++) same(*S[i].m, S[i].r, "after " + what + ": m" + std::to_string(i)); };
  verify("construction");
  int ops = c.in(1, 12);
  for (int k = 0; k < ops; k++) {
    int i = c.draw(ns), j = c.draw(ns); Slot &x = S[i], &y = S[j]; Allocator* al = c.coin() ? A : B;
    std::string d = "m" + std::to_string(i), e = "m" + std::to_string(j);
    auto put = [&](BMonom* m, const V& r) { x.own->destroy(x.m); x.m = m; x.r = r; x.own = al; };
    switch (c.in(0, 8)) {
      case 0: { d += " := " + d + " * " + e; put(new(al) BMonom(*x.m, *y.m, al), uni(x.r, y.r)); break; }
      case 1: { int v = c.draw(n); d += " := " + e + " * x" + std::to_string(v); V r = y.r; r.insert(v); put(new(al) BMonom(*y.m, v, al), r); break; }
      case 2: { int v = c.draw(n); d += " := x" + std::to_string(v); put(new(al) BMonom(v, al), V{v}); break; }
      case 3: { d += " := copy of " + e; put(new(al) BMonom(*y.m, al), V(y.r)); break; }
      case 4: if (i == j) continue; d += " := " + e; *x.m = *y.m; x.r = y.r; break;
      case 5: if (i == j) continue; d += " <-> " + e; x.m->swap(*y.m); std::swap(x.r, y.r); break;
      case 6: { d += " divisible by " + e + "?"; if (x.m->divisible(*y.m) != sub(y.r, x.r)) c.fail("divisible", d); BMonom p(*x.m, *y.m, al); if (!p.divisible(*x.m) || !p.divisible(*y.m)) c.fail("divisible", d + " the product"); break; }
      case 7: { // a quotient of the product, possibly in place
        BMonom p(*x.m, *y.m, al); V pr = uni(x.r, y.r), q; for (int v : pr) if (!y.r.count(v)) q.insert(v);
        d += " := (" + d + " * " + e + ") / " + e;
        if (c.coin()) { if (i == j) continue; x.m->div(p, *y.m); x.r = q; } else { p.div(p, *y.m); same(p, q, "quotient in place"); if (i != j) { *x.m = p; x.r = q; } } break; }
      case 8: { d += " compare " + e; int w = cmp(x.r, y.r), g = x.m->compare(*y.m); auto sg = [](int v) { return (v > 0) - (v < 0); };
        if (sg(g) != w || sg(y.m->compare(*x.m)) != -w) c.fail("compare", d + ": " + std::to_string(g) + ", expected " + std::to_string(w));
        int v = c.draw(n); if (!x.r.count(v) && !y.r.count(v)) { BMonom a(*x.m, v, al), b(*y.m, v, al); if (sg(a.compare(b)) != w) c.fail("admissible", d + " times x" + std::to_string(v)); }
        break; }
    }
    c.note(d + "\n"); ++done; verify(d);
  }
  for (auto& s : S) s.own->destroy(s.m);
  }
  if (A->size() + B->size()) c.fail("memory", std::to_string(A->size() + B->size()) + " bytes stay allocated after every monomial is gone");
  if (done >= 2) c.nontrivial();
}
PBT_MAIN("C31", prop)
