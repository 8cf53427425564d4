// normal forms and membership
#include "p_basis.h"
static Poly canon(Poly p) { p.primitive(); return p; }
static void prop(Case& c) {
  bool mod = c.chance(2, 5);
  gen::Sys s = mod ? gen::module(c) : gen::ideal(c, 4, c.coin());
  bool empty = c.chance(1, 40);
  if (empty) s.F.clear();
  c.note(gen::show(s));
  Budget bud{40000}; std::vector<Poly> R;
  if (!groebner(s.F, R, bud)) c.discard("reference budget");
  if (bud.steps < 40000 - 2500) c.lenientHang();
  bool unit = hasUnit(R, s.npos);
  pbt::CerrCapture cap;
  JanetPolyInt J;
  pushAll(J, s.F, s.o, s.n);
  J.build();
  if (J.isOne() != unit) c.fail("unit", "isOne() disagrees with the ideal");
  int k = c.in(1, 4), maxDeg = s.n <= 2 ? 7 : 5, zeros = 0, nonzero = 0;
  int rk = s.npos ? s.npos + (c.chance(1, 8) ? 1 : 0) : 0;   // a component no generator uses
  for (int q = 0; q < k; q++) {
    Poly p(s.o); bool member = false;
    int kind = c.weighted({4, 4, 4, 1});
    if (kind != 1 && kind != 3) {         // member of the ideal
      member = true;
      for (auto& f : s.F) if (c.chance(2, 3)) { Poly m = gen::sparse(c, s.o, s.n, 3, 2, c.chance(1, 6)); p = add(p, mul(m, f)); }
    }
    if (kind == 1 || kind == 2) {
      Poly r = gen::sparse(c, s.o, s.n, 5, maxDeg, c.chance(1, 4), rk);
      if (kind == 2 && c.coin()) r.scale(gen::coeff(c, true));
      p = add(p, r); member = false;
    }
    c.note("nf " + p.str() + "\n");
    Poly want = p;
    if (unit) want = Poly(s.o);
    else { if (!reduceFull(want, R, bud)) c.discard("budget"); want = canon(want); }
    if (member && !want.zero()) c.fail("oracle", "reference says a combination of the generators is no member");
    Allocator al[1];
    {
      PolyInt x(al, ordCode(s.o), s.n); assign(x, p);
      J.nf(x);
      std::string bad = canonical(x, s.o);
      if (!bad.empty()) c.fail("canonical", "normal form: " + bad);
      Poly got = poly(x, s.o);
      if (got.zero() != want.zero()) c.fail("membership", "normal form is " + got.str() + ", expected " + want.str());
      if (canon(got) != want) c.fail("normal-form", "normal form is " + got.str() + ", expected (up to sign) " + want.str());
      if (!got.zero() && got.content() != 1) c.fail("primitive", "normal form is not primitive: " + got.str());
      if (!x.isZero()) { ++nonzero;
        if (!x.isPp()) c.fail("isPp", "isPp() is false for the normal form");
        if (!x.isNf(J)) c.fail("isNf", "isNf() is false for the normal form " + got.str()); }
      else ++zeros;
      J.nf(x);
      if (poly(x, s.o) != got) c.fail("idempotent", "normal form of a normal form differs: " + poly(x, s.o).str() + " vs " + got.str());
    }
  }
  // every basis element reduces to zero, and remains unchanged by the queries
  if (!unit && c.chance(1, 4)) for (auto i = J.begin(); i; ++i) {
    Allocator al[1]; { PolyInt x(al, i.data()->poly()); J.nf(x); if (!x.isZero()) c.fail("basis-nf", "a basis element does not reduce to zero"); }
  }
  c.label(mod ? "module" : unit ? "unit" : "ideal"); c.label(s.o.str());
  if (nonzero) c.label("nonzero-nf"); if (zeros) c.label("zero-nf");
  if (!unit && R.size() >= 1 && (nonzero || zeros)) c.nontrivial();
}
PBT_MAIN("C03", prop)
