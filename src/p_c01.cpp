#include "p_basis.h"
static void prop(Case& c) {
  gen::Sys s = gen::ideal(c);
  c.note(gen::show(s));
  Budget bud{30000}; std::vector<Poly> R;
  if (!groebner(s.F, R, bud)) c.discard("reference budget");
  if (bud.steps < 30000 - 1500) c.lenientHang();
  c.label("kind:" + s.kind); c.label(s.o.str()); c.label("gb-size:" + std::to_string(std::min<size_t>(R.size(), 8)));
  if (hasUnit(R, 0)) c.label("unit");
  if (R.size() >= 2 && !hasUnit(R, 0)) c.nontrivial();
  pbt::CerrCapture cap;
  JanetPolyInt J;
  pushAll(J, s.F, s.o, s.n);
  J.build();
  Basis b = readBasis(J, s.o);
  checkGroebner(c, b, R, s, "groebner", bud);
  checkInvolutive(c, b, J, s, "involutive");
  if (b.G.size() > R.size()) c.label("involutive>reduced");
}
PBT_MAIN("C01", prop)
