// histories over larger systems: generators arrive in groups, with builds and queries between
#include "p_big.h"
static void prop(Case& c) {
  bool mod = c.chance(1, 3);
  gen::Sys s = mod ? gen::bigModule(c) : gen::bigIdeal(c);
  c.note(gen::show(s));
  MRef r(s, c.thorough ? 60000000 : 6000000);
  if (!r.get(0)) c.discard("reference budget");
  c.lenientHang();
  pbt::CerrCapture cap;
  JanetPolyInt J; size_t i = 0; int builds = 0; gen::Sys part = s; part.F.clear();
  while (i < s.F.size()) {
    size_t k = 1 + c.draw(std::min<size_t>(4, s.F.size() - i));
    std::vector<Poly> g(s.F.begin() + i, s.F.begin() + i + k); i += k;
    if (c.chance(1, 3)) { Poly m(s.o); for (auto& f : part.F) if (c.coin()) m = add(m, mul(gen::sparse(c, s.o, s.n, 2, 1, false), f)); g.insert(g.begin() + c.draw(g.size() + 1), m); }
    pushAll(J, g, s.o, s.n); for (auto& f : g) part.F.push_back(f);
    c.note("push " + std::to_string(g.size()) + "\n");
    if (i < s.F.size() && c.chance(2, 3)) {
      J.build(); ++builds; c.note("build\n");
      if (c.chance(1, 3)) {
        MRef q(part, 4000000); if (!q.get(0)) continue;
        Basis b = readBasis(J, s.o); checkGroebnerMod(c, b, q, part); checkInvolutive(c, b, J, s, "involutive-midway"); c.label("midway");
      }
    }
  }
  J.build(); ++builds;
  Basis b = readBasis(J, s.o);
  checkGroebnerMod(c, b, r, s);
  checkInvolutive(c, b, J, s, "involutive");
  J.build(); Basis b2 = readBasis(J, s.o);
  if (b2.one != b.one || b2.lm != b.lm) c.fail("rebuild", "a build without new generators changes the basis");
  for (size_t j = 0; j < b.G.size(); j++) if (b.G[j] != b2.G[j]) c.fail("rebuild", "a build without new generators changes the basis");
  c.label(mod ? "module" : b.one ? "unit" : "ideal"); if (builds >= 2 && r.size() >= 3) c.nontrivial();
}
PBT_MAIN("C06", prop)
