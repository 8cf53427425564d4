// larger systems: ideals decided modulo primes
#include "p_big.h"
static void prop(Case& c) {
  gen::Sys s = gen::bigIdeal(c);
  c.note(gen::show(s));
  MRef r(s, c.thorough ? 60000000 : 6000000);
  if (!r.get(0)) c.discard("reference budget");
  c.lenientHang();
  c.label("kind:" + s.kind); c.label(s.o.str()); c.label("gb-size:" + std::string(r.size() < 4 ? "<4" : r.size() < 10 ? "<10" : r.size() < 20 ? "<20" : r.size() < 50 ? "<50" : ">=50"));
  pbt::CerrCapture cap;
  JanetPolyInt J; pushAll(J, s.F, s.o, s.n); J.build();
  Basis b = readBasis(J, s.o);
  checkGroebnerMod(c, b, r, s);
  checkInvolutive(c, b, J, s, "involutive");
  if (r.size() >= 4) c.nontrivial();
}
PBT_MAIN("C01", prop)
