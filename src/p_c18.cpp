// random permutations: always a permutation, and uniformly distributed
#include "pbt.h"
#include <cmath>
#include "util/randpermutation.h"
using pbt::Case; using GInv::RandPermutation;
static std::vector<int> get(const RandPermutation& p) { std::vector<int> r(p.size()); for (int i = 0; i < p.size(); i++) r[i] = p[i]; return r; }
static std::string show(const std::vector<int>& v) { std::string s; for (int x : v) s += " " + std::to_string(x); return s; }
static void isPerm(Case& c, const std::vector<int>& v) { std::vector<char> seen(v.size()); for (int x : v) { if (x < 0 || x >= (int)v.size() || seen[x]) c.fail("permutation", "not a permutation:" + show(v).substr(0, 300)); seen[x] = 1; } }
// far beyond any chance fluctuation of a fair source (probability below 1e-15), for a fixed generator
static void fair(Case& c, const std::vector<long>& cnt, double n, const std::string& what) {
  double e = n / cnt.size(), x = 0; for (long k : cnt) x += (k - e) * (k - e) / e; double d = cnt.size() - 1;
  if (x > d + 12 * sqrt(2 * d) + 70) { std::string s; for (size_t i = 0; i < cnt.size() && i < 30; i++) s += " " + std::to_string(cnt[i]); c.fail("uniformity", what + ": chi-square " + std::to_string(x) + " with " + std::to_string((int)d) + " degrees of freedom, counts" + s); }
}
static int rankOf(const std::vector<int>& v) { int r = 0, n = v.size(); for (int i = 0; i < n; i++) { int k = 0; for (int j = i + 1; j < n; j++) k += v[j] < v[i]; r = r * (n - i) + k; } return r; }
// a fair source whose range is not a power of two: rejection makes it exactly as fair as the source below it
struct Odd { typedef unsigned result_type; std::mt19937 g;
  explicit Odd(unsigned seed): g(seed) {}
  static constexpr unsigned min() { return 3; } static constexpr unsigned max() { return 13; }
  unsigned operator()() { unsigned x; do x = g() >> 28; while (x >= 11); return 3 + x; } };
struct Wide { typedef unsigned long result_type; std::mt19937_64 g; explicit Wide(unsigned seed): g(seed) {} static constexpr unsigned long min() { return 0; } static constexpr unsigned long max() { return ~0ul; } unsigned long operator()() { return g(); } };
template <class Gen> static void prop1(Case& c, unsigned seed);
static void prop(Case& c) {
  unsigned seed = (unsigned)c.draw(1u << 31);
  switch (c.weighted({4, 2, 1})) { case 0: prop1<std::mt19937>(c, seed); break; case 1: c.note("source of eleven values\n"); c.label("source:11"); prop1<Odd>(c, seed); break; default: c.note("64-bit source\n"); c.label("source:64"); prop1<Wide>(c, seed); }
}
template <class Gen> static void prop1(Case& c, unsigned seed) {
  int what = c.weighted({3, 3, 4, 2});
  Gen g(seed);
  if (what == 2) {
    int n = c.chance(1, 5) ? c.in(1, 3000) : c.in(1, 40), steps = c.in(1, 30); c.note("size " + std::to_string(n) + ", " + std::to_string(steps) + " steps\n");
    GInv::RandPermutation_mt19937 r(n); RandPermutation p(n), p2(n); Gen g2(seed);
    std::vector<int> v = get(p); for (int i = 0; i < n; i++) if (v[i] != i) c.fail("start", "does not start as the identity");
    if (p.size() != n) c.fail("size", "size()");
    int moved = 0;
    for (int s = 0; s < steps; s++) { p.next(g); p2.next(g2); r.next(); auto w = get(p); isPerm(c, w); isPerm(c, get(r)); if (get(p2) != w) c.fail("determinism", "the same generator gives different permutations"); moved += w != v; v = w; std::ostringstream o; o << p; std::string t = "(" + (show(w).empty() ? "" : show(w).substr(1)) + ")"; if (o.str() != t) c.fail("print", o.str().substr(0, 200)); }
    c.label("valid"); if (n > 2) c.nontrivial(); return;
  }
  if (what == 0) {      // every permutation equally likely, absolutely and relative to the previous one
    int n = c.in(2, 5); double f = 1; for (int i = 2; i <= n; i++) f *= i; long N = (long)(f * 250); if (N < 6000) N = 6000;
    c.note("all permutations of " + std::to_string(n) + ", " + std::to_string(N) + " draws, seed " + std::to_string(seed) + "\n");
    RandPermutation p(n); std::vector<long> abs((size_t)f), rel((size_t)f); auto v = get(p);
    for (long i = 0; i < N; i++) { p.next(g); auto w = get(p); isPerm(c, w); std::vector<int> inv(n), q(n); for (int k = 0; k < n; k++) inv[v[k]] = k; for (int k = 0; k < n; k++) q[k] = inv[w[k]]; ++abs[rankOf(w)]; ++rel[rankOf(q)]; v = w; }
    fair(c, abs, N, "permutations"); fair(c, rel, N, "steps"); c.label("small"); c.nontrivial(); return;
  }
  if (what == 3) {      // long permutations: where a few elements go, and how many stay
    int n = c.in(25, c.chance(1, 4) ? 3000 : 400); long N = 400; c.note("long: " + std::to_string(n) + " elements, " + std::to_string(N) + " draws, seed " + std::to_string(seed) + "\n");
    RandPermutation p(n); int K = 6, B = 8; std::vector<int> pl; for (int k = 0; k < K; k++) pl.push_back(k == 0 ? 0 : k == 1 ? n - 1 : k == 2 ? n / 2 : (int)c.draw(n));
    std::vector<std::vector<long>> at(K, std::vector<long>(B)), mv = at; double stay = 0; auto v = get(p);
    for (long i = 0; i < N; i++) { p.next(g); auto w = get(p); isPerm(c, w); std::vector<int> inv(n); for (int k = 0; k < n; k++) { inv[v[k]] = k; stay += v[k] == w[k]; } for (int k = 0; k < K; k++) { ++at[k][(long)w[pl[k]] * B / n]; ++mv[k][(long)inv[w[pl[k]]] * B / n]; } v = w; }
    auto fairBins = [&](const std::vector<long>& cnt, const std::string& what) { double x = 0, d = B - 1; for (int b = 0; b < B; b++) { long lo = ((long)b * n + B - 1) / B, hi = ((long)(b + 1) * n + B - 1) / B; double e = (double)N * (hi - lo) / n; x += (cnt[b] - e) * (cnt[b] - e) / e; } if (x > d + 12 * sqrt(2 * d) + 70) c.fail("uniformity", what + ": chi-square " + std::to_string(x)); };
    for (int k = 0; k < K; k++) { fairBins(at[k], "element at place " + std::to_string(pl[k])); fairBins(mv[k], "move from place " + std::to_string(pl[k])); }
    if (std::abs(stay - N) > 12 * sqrt(N) + 70) c.fail("uniformity", std::to_string((long)stay) + " elements stayed in place over " + std::to_string(N) + " steps, as many are expected");
    c.label("long"); c.nontrivial(); return;
  }
  int n = c.in(6, 24); long N = 400 * n; c.note("places of " + std::to_string(n) + " elements, " + std::to_string(N) + " draws, seed " + std::to_string(seed) + "\n");
  RandPermutation p(n); std::vector<std::vector<long>> at(n, std::vector<long>(n)), mv = at; std::vector<long> parity(2); auto v = get(p);
  for (long i = 0; i < N; i++) { p.next(g); auto w = get(p); isPerm(c, w); std::vector<int> inv(n); for (int k = 0; k < n; k++) inv[v[k]] = k; int par = 0; std::vector<char> seen(n); for (int k = 0; k < n; k++) { ++at[k][w[k]]; ++mv[k][inv[w[k]]]; if (!seen[k]) { int len = 0; for (int z = k; !seen[z]; z = w[z]) { seen[z] = 1; ++len; } par ^= (len + 1) & 1; } } ++parity[par]; v = w; }
  for (int k = 0; k < n; k++) { fair(c, at[k], N, "element at place " + std::to_string(k)); fair(c, mv[k], N, "move from place " + std::to_string(k)); }
  fair(c, parity, N, "parity"); c.label("places"); c.nontrivial();
}
PBT_MAIN("C18", prop)
