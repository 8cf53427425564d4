// the other completion strategies on larger systems
#include "p_big.h"
static void prop(Case& c) {
  bool mod = c.chance(1, 3);
  gen::Sys s = mod ? gen::bigModule(c) : gen::bigIdeal(c);
  c.note(gen::show(s));
  MRef r(s, c.thorough ? 30000000 : 2000000);
  if (!r.get(0)) c.discard("reference budget");
  c.lenientHang();
  std::vector<Poly> F; for (auto& f : s.F) if (!f.zero()) F.push_back(f);
  if (F.empty()) c.discard("zero");
  static const char* names[] = {"TQ", "TQ1", "TQ2"}; int k = c.draw(3); c.note(std::string(names[k]) + "\n");
  size_t cut = F.size() >= 2 && c.chance(1, 3) ? c.in(1, F.size() - 1) : F.size();
  pbt::CerrCapture cap; JanetPolyInt J;
  auto go = [&](int w) { if (w == 0) J.algorithmTQ(); else if (w == 1) J.algorithmTQ1(); else J.algorithmTQ2(); };
  pushAll(J, std::vector<Poly>(F.begin(), F.begin() + cut), s.o, s.n); go(k);
  if (cut < F.size()) { pushAll(J, std::vector<Poly>(F.begin() + cut, F.end()), s.o, s.n); go(k); c.label("incremental"); }
  Basis b = readBasis(J, s.o);
  checkGroebnerMod(c, b, r, s);
  checkInvolutive(c, b, J, s, "involutive", false);
  c.label(names[k]); if (r.size() >= 4) c.nontrivial();
}
PBT_MAIN("C26", prop)
