// Hilbert polynomials of larger ideals: brute-force counting, leading monomials from a modular basis
#include "p_big.h"
#include "util/hilbertpoly.h"
static Q evalHP(const GInv::HilbertPoly& h, long s) { Q r = 0, pw = 1; for (int k = 0; k <= h.dim(); k++) { Q x(h[k]); r += x * pw; pw *= s; } return r; }
static long standard(const std::vector<Mon>& L, int n, int s, int pos) {
  // depth-first over exponent vectors; a prefix whose monomial is already divisible has no standard extension
  long cnt = 0; Mon m(n, pos);
  std::function<void(int,int)> go = [&](int i, int left) {
    if (inIdeal(m, L)) return;
    if (i == n) { ++cnt; return; }
    for (int k = 0; k <= left; k++) { m.e[i] = k; go(i+1, left-k); }
    m.e[i] = 0;
  };
  go(0, s); return cnt;
}
static void prop(Case& c) {
  bool mod = c.chance(1, 4);
  gen::Sys s = mod ? gen::bigModule(c) : gen::bigIdeal(c);
  c.note(gen::show(s));
  MRef r(s, c.thorough ? 60000000 : 6000000);
  if (!r.get(0)) c.discard("reference budget");
  if (r.unit(c, s.npos)) c.discard("unit");
  if (r.R[0].empty()) c.discard("zero");
  c.lenientHang();
  pbt::CerrCapture cap;
  JanetPolyInt J; pushAll(J, s.F, s.o, s.n); J.build();
  if (J.isOne()) { if (r.either(c, [&](mref::Ctx&, std::vector<mref::P>& R) { return !(R.size() == 1 && R[0][0].m.deg == 0); })) c.fail("unit", "proper ideal reported as 1"); }
  bool decided = false;
  auto test = [&](const GInv::HilbertPoly& hp, int pos, int md, const char* who) {
    double cells = 1; for (int i = 1; i <= s.n; i++) cells = cells * (md + 1 + i) / i;
    if (cells > 400000) { c.label("too-many-monomials"); return; }
    std::string what;
    for (int d = md; d <= md + 1; d++) if (!r.either(c, [&](mref::Ctx& x, std::vector<mref::P>& R) {
      std::vector<Mon> L; for (auto& f : R) if (f[0].m.pos == pos) L.push_back(x.back(f[0].m));
      Q v = evalHP(hp, d); long w = standard(L, s.n, d, pos);
      std::ostringstream o; o << who << " position " << pos << ": value at s=" << d << " is " << v << ", but " << w << " standard monomials have degree <= s; polynomial " << hp; what = o.str();
      return v == Q(w); })) c.fail("hilbert", what);
    decided = true;
  };
  if (!mod) { int md = 0; for (auto i = J.begin(); i; ++i) md = std::max(md, i.data()->lm().degree()); GInv::HilbertPoly hp; J.buildHP(hp); if (hp.dim() != s.n) c.fail("dim", "wrong dimension"); test(hp, -1, md, "basis"); }
  else for (int pos = 0; pos <= J.maxPos(); pos++) {
    int md = 0, cnt = 0; for (auto i = J.begin(); i; ++i) if (i.data()->lm().pos() == pos) { md = std::max(md, i.data()->lm().degree()); ++cnt; }
    if (J.janet(pos).size() != cnt) c.fail("tree-size", "tree size differs from the number of basis elements at the position");
    if (!cnt) continue;
    GInv::HilbertPoly hp; J.janet(pos).buildHP(hp); test(hp, pos, md, "tree");
  }
  if (decided && r.size() >= 3) c.nontrivial();
}
PBT_MAIN("C05", prop)
