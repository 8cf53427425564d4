// the alternative completion strategies yield an involutive basis of the same ideal
#include "p_basis.h"
static void prop(Case& c) {
  bool mod = c.chance(1, 3);
  gen::Sys s = mod ? gen::module(c) : gen::ideal(c, 4, c.coin());
  c.note(gen::show(s));
  std::vector<Poly> F; for (auto& f : s.F) if (!f.zero()) F.push_back(f);
  Budget bud{30000}; std::vector<Poly> R;
  if (!groebner(F, R, bud)) c.discard("reference budget");
  c.lenientHang();   // these strategies can be far slower than the system is hard
  std::vector<int> which; if (const char* e = getenv("C26_ONLY")) which.push_back(atoi(e)); else which = {0, 1, 2};
  static const char* names[] = {"TQ", "TQ1", "TQ2"};
  int k = which[c.draw(which.size())]; bool split = F.size() >= 2 && c.chance(1, 3); size_t cut = split ? c.in(1, F.size() - 1) : F.size();
  pbt::CerrCapture cap; JanetPolyInt J;
  auto go = [&](int w) { c.note(std::string(names[w]) + "\n"); if (w == 0) J.algorithmTQ(); else if (w == 1) J.algorithmTQ1(); else J.algorithmTQ2(); };
  pushAll(J, std::vector<Poly>(F.begin(), F.begin() + cut), s.o, s.n); go(k);
  if (split) { pushAll(J, std::vector<Poly>(F.begin() + cut, F.end()), s.o, s.n); go(k); c.label("incremental"); }
  Basis b = readBasis(J, s.o);
  checkGroebner(c, b, R, s, "groebner", bud);
  checkInvolutive(c, b, J, s, "involutive", false);
  c.label(names[k]); if (R.size() >= 2) c.nontrivial();
}
PBT_MAIN("C26", prop)
