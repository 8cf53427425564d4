// the unit ideal is reported iff 1 is in the ideal; certificates / common roots planted by construction
#include "p_basis.h"
static void prop(Case& c) {
  gen::Sys s; s.n = c.in(1, 5); s.o = gen::order(c, false);
  int n = s.n, deg = n == 1 ? 5 : n == 2 ? 3 : 2;
  if (s.o.kind == LEX && n >= 4) deg = n == 4 ? 2 : 1;
  int mode = c.weighted({5, 4, 3, 2});
  bool unit = mode == 0 || mode == 3;
  int k = c.in(1, n + 1);
  if (mode == 0) {
    // f0 = c - sum q_i f_i: the generators combine to the constant c
    s.kind = "certificate";
    Poly f0(s.o); f0.addTerm(Mon(n), gen::coeff(c, c.chance(1, 4)));
    for (int i = 0; i < k; i++) {
      Poly f = gen::sparse(c, s.o, n, 3, deg, false), q = gen::sparse(c, s.o, n, 2, c.coin() ? 1 : 0, false);
      s.F.push_back(f); f0 = sub(f0, mul(q, f));
    }
    s.F.push_back(f0);
    int h = c.in(0, 2);
    for (int i = 0; i < h; i++) {   // hide it
      size_t a = c.draw(s.F.size()), b = c.draw(s.F.size()); if (a == b) continue;
      Poly q = gen::sparse(c, s.o, n, 1, 1, false); s.F[a] = add(s.F[a], mul(q, s.F[b]));
    }
  } else if (mode == 1) {
    // common rational root: f(x/d) with denominators cleared
    s.kind = "common-root";
    std::vector<int> num(n), den(n); for (int i = 0; i < n; i++) { num[i] = c.in(-3, 3); den[i] = c.chance(1, 3) ? c.in(2, 3) : 1; }
    for (int i = 0; i < k; i++) {
      Poly f = gen::sparse(c, s.o, n, 4, deg, false);
      Q v = 0; for (auto& t : f.t) { Q w = t.second; for (int j = 0; j < n; j++) for (int e = 0; e < t.first.e[j]; e++) w *= Q(num[j], den[j]); v += w; }
      v.canonicalize();
      f.scale(v.get_den()); f.addTerm(Mon(n), -v.get_num()); s.F.push_back(f);
    }
  } else if (mode == 2) {
    // common factor that is no constant
    s.kind = "common-factor";
    Poly g = gen::sparse(c, s.o, n, 2, 2, false); if (g.zero() || g.maxDeg() == 0) { Mon m(n); m.e[0] = 1; g.addTerm(m, 1); }
    for (int i = 0; i < k; i++) { Poly f = gen::sparse(c, s.o, n, 3, std::max(1, deg-1), false); s.F.push_back(mul(f, g)); }
  } else {
    // disjoint fibres: h, h - c (times things that do not vanish together)
    s.kind = "disjoint";
    Poly h = gen::sparse(c, s.o, n, 3, deg, false); Mon u(n); u.e[c.draw(n)] = 1; if (h.zero()) h.addTerm(u, 1);
    Poly g = h; g.addTerm(Mon(n), gen::coeff(c, false));
    s.F.push_back(h); s.F.push_back(g);
    Poly a(s.o); Mon v(n); v.e[c.draw(n)] = 1; a.addTerm(v, 1); a.addTerm(Mon(n), c.in(-2, 2));
    Poly b = a; b.addTerm(Mon(n), c.in(1, 2));
    if (c.coin()) { s.F[0] = mul(h, a); s.F.push_back(mul(h, b)); }
  }
  for (size_t i = s.F.size(); i > 1; i--) std::swap(s.F[i-1], s.F[c.draw(i)]);
  c.note(gen::show(s));
  bool allzero = true; for (auto& f : s.F) if (!f.zero()) allzero = false;
  if (allzero) unit = false;
  c.lenientHang();
  c.label("kind:" + s.kind); c.label(unit ? "unit" : "proper");
  pbt::CerrCapture cap;
  JanetPolyInt J; bool incremental = c.chance(1, 3);
  for (size_t i = 0; i < s.F.size(); i++) {
    std::vector<Poly> one(1, s.F[i]); pushAll(J, one, s.o, n);
    if (incremental && c.coin()) J.build();
  }
  J.build();
  if (J.isOne() != unit) c.fail("unit", unit ? "1 is in the ideal but isOne() is false" : "isOne() is true for a proper ideal");
  if (unit) {
    // the answer is stable: more generators, another build, any normal form is zero
    Poly e = gen::sparse(c, s.o, n, 3, 3, false); std::vector<Poly> one(1, e); pushAll(J, one, s.o, n); J.build();
    if (!J.isOne()) c.fail("unit-stable", "isOne() is lost after another push and build");
    if (J.size() != 1) c.fail("unit-size", "size() of the unit basis is not 1");
    int seen = 0;
    for (auto i = static_cast<const JanetPolyInt&>(J).begin(); i; ++i, ++seen) {
      Poly q = poly(i.data()->poly(), s.o);
      if (q.t.size() != 1 || q.lm().deg() != 0 || q.lm() != mon(i.data()->lm()) || abs(q.t.begin()->second) != 1) c.fail("unit-iterate", "iterating the unit basis shows " + q.str());
    }
    if (seen != 1) c.fail("unit-iterate", "iterating the unit basis shows " + std::to_string(seen) + " elements");
    Poly p = gen::sparse(c, s.o, n, 5, 6, true);
    Allocator al[1]; { PolyInt x(al, ordCode(s.o), n); assign(x, p); J.nf(x); if (!x.isZero()) c.fail("unit-nf", "normal form modulo the unit ideal is not zero: " + poly(x, s.o).str()); }
  }
  if (s.F.size() >= 2 && !allzero) c.nontrivial();
}
PBT_MAIN("C04", prop)
