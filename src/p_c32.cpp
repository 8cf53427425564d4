// random monomials: always in the stated range, degrees uniform, every variable equally likely for every factor
#include "lib.h"
#include "gen.h"
#include <cmath>
using namespace ref; using pbt::Case; using namespace lib;
using GInv::Monom;
// far beyond any chance fluctuation (probability below 1e-15)
static void fair(Case& c, std::vector<std::pair<double, double>> cells, const std::string& what) {   // observed, expected
  std::sort(cells.begin(), cells.end(), [](const std::pair<double, double>& a, const std::pair<double, double>& b) { return a.second < b.second; });
  std::vector<std::pair<double, double>> m; double o = 0, e = 0;
  for (auto& x : cells) { o += x.first; e += x.second; if (e >= 20) { m.push_back({o, e}); o = e = 0; } }
  if (e > 0) { if (m.empty()) return; m.back().first += o; m.back().second += e; }
  double x = 0, d = m.size() - 1.0; for (auto& k : m) x += (k.first - k.second) * (k.first - k.second) / k.second;
  if (x > d + 12 * sqrt(2 * d) + 70) { std::string s; for (size_t i = 0; i < m.size() && i < 25; i++) s += " " + std::to_string((long)m[i].first) + "/" + std::to_string((long)(m[i].second + .5)); c.fail("distribution", what + ": chi-square " + std::to_string(x) + " with " + std::to_string((int)d) + " degrees of freedom, observed/expected" + s); }
}
static Mon check(Case& c, const Monom& m, int n, int d1, int d2) {
  Mon r = mon(m);
  if (m.size() != n) c.fail("size", "a monomial in " + std::to_string(m.size()) + " variables instead of " + std::to_string(n));
  int s = 0; for (int i = 0; i < n; i++) { if (r.e[i] < 0) c.fail("value", "negative exponent: " + r.str()); s += r.e[i]; }
  if ((int)m.degree() != s) c.fail("degree", r.str() + " reports degree " + std::to_string(m.degree()));
  if (s < d1 || s > d2) c.fail("range", r.str() + " is outside degrees " + std::to_string(d1) + ".." + std::to_string(d2));
  return r;
}
static Mon draw(Case& c, Allocator* A, Monom*& keep, int n, int d1, int d2, bool fresh) {
  if (fresh) { Monom* m = Monom::rand_next(A); Mon r = check(c, *m, n, d1, d2); if (m->pos() != -1) c.fail("position", "a random monomial has a position"); delete m; return r; }
  Monom::rand_next(*keep); return check(c, *keep, n, d1, d2);
}
static void prop(Case& c) {
  Allocator A[1]; int what = c.weighted({3, 4, 3});
  auto range = [&](int& n, int& d1, int& d2, bool small) { n = small ? c.in(1, 4) : c.chance(1, 4) ? c.in(20, 300) : c.in(1, 20); d1 = small ? c.in(1, 4) : c.chance(1, 6) ? c.in(50, 400) : c.in(1, 12); d2 = d1 + (small ? c.in(0, 3) : c.in(0, 20)); };
  if (what == 0) {          // parameters change in between
    int rounds = c.in(1, 5); bool many = false;
    for (int q = 0; q < rounds; q++) {
      int n, d1, d2; range(n, d1, d2, c.coin()); Monom::rand_init(n, d1, d2); c.note("init " + std::to_string(n) + " " + std::to_string(d1) + ".." + std::to_string(d2) + "\n");
      { Monom k(A, n, -1); Monom* keep = &k; Mon junk(n); for (int i = 0; i < n; i++) junk.e[i] = c.in(0, 3); { MonomBox b(A, junk); k = b.m; }
        std::vector<Monom*> held; std::vector<Mon> was; int steps = c.in(1, 12); many = many || steps > 2;
        for (int s = 0; s < steps; s++) { if (c.chance(1, 3)) { Monom* m = Monom::rand_next(A); was.push_back(check(c, *m, n, d1, d2)); held.push_back(m); } else draw(c, A, keep, n, d1, d2, c.coin()); }
        for (size_t i = 0; i < held.size(); i++) { if (mon(*held[i]) != was[i]) c.fail("independence", "drawing changed an earlier monomial"); delete held[i]; } }
      if (A->size()) c.fail("memory", std::to_string(A->size()) + " bytes still accounted for");
    }
    c.label("history"); if (many) c.nontrivial(); return;
  }
  int n, d1, d2; range(n, d1, d2, what == 1); bool fresh = c.chance(1, 3);
  if (what == 1 && n == 4) { d1 = std::min(d1, 3); d2 = std::min(d2, d1 + 1); }
  Monom::rand_init(n, d1, d2); c.note((what == 1 ? "joint " : "marginal ") + std::to_string(n) + " variables, degrees " + std::to_string(d1) + ".." + std::to_string(d2) + "\n");
  { Monom k(A, n, -1); Monom* keep = &k;
    if (what == 1) {          // the exact distribution of whole monomials, and of neighbouring degrees
      std::map<Mon, double> p; long cells = 0; for (int d = d1; d <= d2; d++) monsOfDegree(n, d, [&](const Mon& m) { double w = 1; int t = 0; for (int i = 0; i < n; i++) for (int j = 1; j <= m.e[i]; j++) w *= (double)++t / j / n; p[m] = w / (d2 - d1 + 1); ++cells; });
      long N = std::max(4000l, 150 * cells); std::map<Mon, long> cnt; int D = d2 - d1 + 1; std::vector<long> pair(D * D); int last = -1;
      for (long i = 0; i < N; i++) { Mon m = draw(c, A, keep, n, d1, d2, fresh); ++cnt[m]; int d = m.deg() - d1; if (last >= 0) ++pair[last * D + d]; last = d; }
      std::vector<std::pair<double, double>> x; for (auto& q : p) { auto it = cnt.find(q.first); x.push_back({it == cnt.end() ? 0. : (double)it->second, q.second * N}); } fair(c, x, "monomials");
      x.clear(); for (long q : pair) x.push_back({(double)q, (N - 1.) / (D * D)}); fair(c, x, "degrees of neighbours");
      c.label("joint"); if (cells > 1) c.nontrivial();
    } else {                  // large: degrees, and how often each variable is chosen
      int D = d2 - d1 + 1; long N = std::max(1500l, 40l * D); std::vector<long> deg(D), first(n); std::vector<double> tot(n); double units = 0, same = 0, sameE = 0, sameV = 0;
      for (long i = 0; i < N; i++) { Mon m = draw(c, A, keep, n, d1, d2, fresh); int d = m.deg(); ++deg[d - d1]; for (int v = 0; v < n; v++) { tot[v] += m.e[v]; same += m.e[v] * (m.e[v] - 1.) / 2; } units += d; double P = d * (d - 1.) / 2; sameE += P / n; sameV += P / n * (1 - 1. / n); }
      std::vector<std::pair<double, double>> x; for (long q : deg) x.push_back({(double)q, (double)N / D}); fair(c, x, "degrees");
      x.clear(); for (double q : tot) x.push_back({q, units / n}); fair(c, x, "choices of each variable");
      // pairs of factors that agree: factors are pairwise independent, so the variance is that of independent pairs
      if (std::abs(same - sameE) > 12 * sqrt(sameV) + 70) c.fail("distribution", "factors are not drawn independently: " + std::to_string((long)same) + " agreeing pairs, expected " + std::to_string((long)sameE));
      c.label("marginal"); if (n > 1) c.nontrivial();
    } }
  if (A->size()) c.fail("memory", std::to_string(A->size()) + " bytes still accounted for");
}
PBT_MAIN("C32", prop)
