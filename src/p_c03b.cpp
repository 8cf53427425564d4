// normal forms modulo larger ideals and submodules: compared modulo primes
#include "p_big.h"
static void prop(Case& c) {
  bool mod = c.chance(1, 3);
  gen::Sys s = mod ? gen::bigModule(c) : gen::bigIdeal(c);
  c.note(gen::show(s));
  MRef r(s, c.thorough ? 60000000 : 6000000);
  if (!r.get(0)) c.discard("reference budget");
  c.lenientHang();
  bool unit = r.unit(c, s.npos);
  pbt::CerrCapture cap;
  JanetPolyInt J; pushAll(J, s.F, s.o, s.n); J.build();
  if (J.isOne() != unit) c.fail("unit", "isOne() disagrees with the ideal");
  int k = c.in(1, 3), dec = 0;
  for (int q = 0; q < k; q++) {
    Poly p(s.o); bool member = false; int kind = c.weighted({3, 4, 4, 2});
    int d = s.n <= 2 ? 12 : s.n <= 4 ? 6 : 4;
    if (kind != 1) { member = true; for (auto& f : s.F) if (c.chance(1, 2)) p = add(p, mul(gen::sparse(c, s.o, s.n, 3, 2, c.chance(1, 6)), f)); }
    if (kind == 1 || kind == 2) { p = add(p, gen::sparse(c, s.o, s.n, c.chance(1, 3) ? 40 : 5, d, c.chance(1, 4), s.npos)); member = false; }
    if (kind == 3) { Poly f = gen::sparse(c, s.o, s.n, 3, 2, false); Poly g = f; int e = c.in(2, s.n <= 2 ? 6 : 3); for (int i = 1; i < e; i++) g = mul(g, f); if (s.npos) { Poly h(s.o); int at = c.draw(s.npos); for (auto& t : g.t) h.addTerm(Mon(t.first.e, at), t.second); g = h; } p = g; member = false; }
    c.note("nf " + p.str() + "\n");
    Allocator al[1];
    { PolyInt x(al, ordCode(s.o), s.n); assign(x, p); J.nf(x);
      std::string bad = canonical(x, s.o); if (!bad.empty()) c.fail("canonical", "normal form: " + bad);
      Poly got = poly(x, s.o);
      if (member && !got.zero()) c.fail("membership", "normal form of a member is " + got.str());
      if (!got.zero() && got.content() != 1) c.fail("primitive", "normal form is not primitive: " + got.str());
      if (!x.isZero() && !x.isNf(J)) c.fail("isNf", "isNf() is false for the normal form " + got.str());
      if (!r.either(c, [&](mref::Ctx& y, std::vector<mref::P>& R) {
        mref::P w = mref::conv(p, y), g = mref::conv(got, y); if (unit) w.clear(); else if (!mref::reduce(w, R, y)) return false;
        return mref::proportional(w, g, y); })) c.fail("normal-form", "the normal form " + got.str() + " is not the reduced remainder");
      ++dec; if (!got.zero()) c.label("nonzero-nf"); else c.label("zero-nf");
      J.nf(x); if (poly(x, s.o) != got) c.fail("idempotent", "normal form of a normal form differs");
    }
  }
  c.label(mod ? "module" : unit ? "unit" : "ideal"); if (!unit && dec && r.size() >= 3) c.nontrivial();
}
PBT_MAIN("C03", prop)
