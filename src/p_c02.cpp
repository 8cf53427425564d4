#include "p_basis.h"
static void prop(Case& c) {
  gen::Sys s = gen::module(c);
  c.note(gen::show(s));
  Budget bud{20000}; std::vector<Poly> R;
  if (!groebner(s.F, R, bud)) c.discard("reference budget");
  if (bud.steps < 20000 - 1500) c.lenientHang();
  c.label("kind:" + s.kind); c.label(s.o.str()); c.label("gb-size:" + std::to_string(std::min<size_t>(R.size(), 8)));
  std::set<int> ps; for (auto& r : R) ps.insert(r.lm().pos);
  if (R.size() >= 2 && ps.size() >= 2) c.nontrivial();
  bool unitVec = false; for (auto& r : R) if (r.lm().deg() == 0) unitVec = true;
  if (unitVec) c.label("contains-unit-vector");
  pbt::CerrCapture cap;
  JanetPolyInt J;
  pushAll(J, s.F, s.o, s.n);
  J.build();
  Basis b = readBasis(J, s.o);
  checkGroebner(c, b, R, s, "groebner", bud);
  checkInvolutive(c, b, J, s, "involutive");
}
PBT_MAIN("C02", prop)
