// larger submodules: decided modulo primes
#include "p_big.h"
static void prop(Case& c) {
  gen::Sys s = gen::bigModule(c);
  c.note(gen::show(s));
  MRef r(s, c.thorough ? 60000000 : 6000000);
  if (!r.get(0)) c.discard("reference budget");
  c.lenientHang();
  c.label("kind:" + s.kind); c.label(s.o.str());
  pbt::CerrCapture cap;
  JanetPolyInt J; pushAll(J, s.F, s.o, s.n); J.build();
  Basis b = readBasis(J, s.o);
  checkGroebnerMod(c, b, r, s);
  checkInvolutive(c, b, J, s, "involutive");
  if (r.size() >= 4) c.nontrivial();
}
PBT_MAIN("C02", prop)
