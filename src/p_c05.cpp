// Hilbert polynomial of a basis against counted standard monomials
#include "p_basis.h"
#include "util/hilbertpoly.h"
static Q evalHP(const GInv::HilbertPoly& h, long s) { Q r = 0, pw = 1; for (int k = 0; k <= h.dim(); k++) { Q x(h[k]); r += x * pw; pw *= s; } return r; }
// variables that occur in no leading monomial are counted by a binomial
static Z standard(const std::vector<Mon>& L, int n, int s, int pos) {
  std::vector<int> act; for (int v = 0; v < n; v++) for (auto& m : L) if (m.e[v]) { act.push_back(v); break; }
  int k = n - act.size(); std::vector<Mon> A; for (auto& m : L) { Mon r(std::max<size_t>(1, act.size()), pos); for (size_t i = 0; i < act.size(); i++) r.e[i] = m.e[act[i]]; A.push_back(r); }
  Z total = 0; for (int d = 0; d <= s; d++) { long cnt = 0; if (act.empty()) cnt = d == 0 && A.empty(); else monsOfDegree(act.size(), d, [&](const Mon& m) { if (!inIdeal(m, A)) ++cnt; }, pos); if (cnt) { Z b; mpz_bin_uiui(b.get_mpz_t(), s - d + k, k); total += b * cnt; } }
  return total; }
static void prop(Case& c) {
  bool mod = c.chance(1, 3);
  gen::Sys s = mod ? gen::module(c, 1) : gen::ideal(c, c.chance(1, 4) ? 4 : 3, false, 1);
  c.note(gen::show(s));
  Budget bud{40000}; std::vector<Poly> R;
  if (!groebner(s.F, R, bud)) c.discard("reference budget");
  if (bud.steps < 40000 - 2500) c.lenientHang();
  if (R.empty()) c.discard("zero ideal");
  if (hasUnit(R, s.npos)) c.discard("unit ideal");
  pbt::CerrCapture cap;
  JanetPolyInt J; pushAll(J, s.F, s.o, s.n); J.build();
  if (J.isOne()) c.fail("unit", "proper ideal reported as 1");
  int n = s.n, zeroDim = 0;
  auto test = [&](const GInv::HilbertPoly& hp, int pos, int maxDeg, const char* who) {
    std::vector<Mon> L; for (auto& r : R) if (r.lm().pos == pos) L.push_back(r.lm());
    if (hp.dim() != n) c.fail("dim", std::string(who) + ": wrong dimension");
    int pts = n >= 4 ? 1 : n >= 3 ? 2 : 3;
    for (int k = 0; k < pts; k++) {
      int d = maxDeg + k; Q v = evalHP(hp, d); Z w = standard(L, n, d, pos);
      if (v != Q(w)) { std::ostringstream o; o << who << " position " << pos << ": value at s=" << d << " is " << v << ", but " << w << " standard monomials have degree <= s; polynomial " << hp; c.fail("hilbert", o.str()); }
    }
    int top = -1; for (int k = 0; k <= n; k++) if (!hp.isZero(k)) top = k;
    if (top <= 0) ++zeroDim;
    c.label("degree:" + std::to_string(top));
  };
  if (!mod) {
    int md = 0; for (auto i = J.begin(); i; ++i) md = std::max(md, i.data()->lm().degree());
    GInv::HilbertPoly hp; J.buildHP(hp); test(hp, -1, md, "basis");
  }
  for (int pos = mod ? 0 : -1; pos <= J.maxPos(); pos++) {
    int md = 0, cnt = 0; for (auto i = J.begin(); i; ++i) if (i.data()->lm().pos() == pos) { md = std::max(md, i.data()->lm().degree()); ++cnt; }
    if (J.janet(pos).size() != cnt) c.fail("tree-size", "tree size differs from the number of basis elements at the position");
    if (cnt == 0) continue;
    GInv::HilbertPoly hp; J.janet(pos).buildHP(hp); test(hp, pos, md, "tree");
  }
  c.label(mod ? "module" : "ideal"); if (zeroDim) c.label("zero-dimensional");
  if (R.size() >= 2) c.nontrivial();
}
PBT_MAIN("C05", prop)
