// histories: pushes, builds and normal forms interleaved; different generators of the same ideal
#include "p_basis.h"
// does J reduce every polynomial of F to zero?
static void contains(Case& c, JanetPolyInt& J, const std::vector<Poly>& F, const Ord& o, int n, const char* what) {
  for (auto& f : F) { Allocator al[1]; { PolyInt x(al, ordCode(o), n); assign(x, f); J.nf(x); if (!x.isZero()) c.fail("same-ideal", std::string(what) + ": " + f.str() + " has normal form " + poly(x, o).str()); } }
}
static void prop(Case& c) {
  bool mod = c.chance(1, 3), small = c.coin();
  gen::Sys s = mod ? gen::module(c) : gen::ideal(c, 4, small);
  std::vector<Poly> F; for (auto& f : s.F) if (!f.zero()) F.push_back(f);
  c.note(gen::show(s));
  if (F.empty()) c.discard("no generators");
  Budget bud{30000}; std::vector<Poly> R;
  if (!groebner(F, R, bud)) c.discard("reference budget");
  if (bud.steps < 30000 - 1500) c.lenientHang();
  // A: a history over the generators and their consequences
  struct Op { int kind; Poly p; };
  std::vector<size_t> todo; for (size_t i = 0; i < F.size(); i++) todo.push_back(i);
  pbt::CerrCapture cap;
  JanetPolyInt A; int builds = 0, extra = 0; bool pending = true;
  std::vector<Poly> pushed;
  int guard = 0;
  while ((!todo.empty() || guard < 2) && guard < 24) {
    ++guard;
    int op = c.weighted({5, 3, 2, 2});
    if (op == 0 && !todo.empty()) {
      size_t k = c.draw(todo.size()); Poly p = F[todo[k]]; todo.erase(todo.begin()+k);
      c.note("push " + p.str() + "\n"); std::vector<Poly> one(1, p); pushAll(A, one, s.o, s.n); pushed.push_back(p); pending = true;
    } else if (op == 1) {   // what has been pushed so far may be much harder than the whole
      if (todo.size() && !pushed.empty()) { std::vector<Poly> Rp; Budget b2{1500}; if (!groebner(pushed, Rp, b2)) c.lenientHang(); }
      c.note("build\n"); A.build(); ++builds; pending = false; }
    else if (op == 2 && !pushed.empty()) {   // a consequence of what is there already, duplicated, scaled or combined
      Poly p = pushed[c.draw(pushed.size())];
      if (c.coin()) p.scale(gen::coeff(c, false));
      if (c.coin()) { Poly q = mul(gen::sparse(c, s.o, s.n, 2, 1, false), pushed[c.draw(pushed.size())]); p = add(p, q); }
      c.note("push consequence " + p.str() + "\n"); std::vector<Poly> one(1, p); pushAll(A, one, s.o, s.n); ++extra; pending = true;
    } else if (op == 3 && builds && !pending) {  // query between builds
      Poly p = gen::sparse(c, s.o, s.n, 3, 4, false, s.npos);
      c.note("nf " + p.str() + "\n");
      std::vector<Poly> Rp; Budget b2{8000};
      if (!groebner(pushed, Rp, b2)) continue;
      Poly want = p; bool u = hasUnit(Rp, s.npos); if (u) want = Poly(s.o); else if (!reduceFull(want, Rp, b2)) continue;
      want.primitive();
      Allocator al[1]; { PolyInt x(al, ordCode(s.o), s.n); assign(x, p); A.nf(x); Poly got = poly(x, s.o); got.primitive();
        if (got != want) c.fail("nf-midway", "after the pushes so far the normal form is " + got.str() + ", expected " + want.str()); }
      c.label("nf-midway");
    }
  }
  for (size_t k : todo) { std::vector<Poly> one(1, F[k]); pushAll(A, one, s.o, s.n); }
  c.note("push rest, build\n"); A.build(); ++builds;
  Basis a = readBasis(A, s.o);
  checkGroebner(c, a, R, s, "history-groebner", bud);
  checkInvolutive(c, a, A, s, "history-involutive");
  // B: other generators of the same ideal, in one go
  std::vector<Poly> G = F;
  for (size_t i = G.size(); i > 1; i--) std::swap(G[i-1], G[c.draw(i)]);
  for (int k = c.in(0, 2); k > 0 && G.size() >= 2; k--) { size_t x = c.draw(G.size()), y = c.draw(G.size()); if (x != y) G[x] = add(G[x], mul(gen::sparse(c, s.o, s.n, 1, 1, false), G[y])); }
  if (c.coin()) G.push_back(G[c.draw(G.size())]);
  for (auto& g : G) c.note("B " + g.str() + "\n");
  JanetPolyInt B; pushAll(B, G, s.o, s.n); B.build();
  if (A.isOne() != B.isOne()) c.fail("same-ideal", "two generating sets of one ideal disagree about 1");
  if (!B.isOne()) {
    Basis b = readBasis(B, s.o);
    contains(c, A, b.G, s.o, s.n, "element of the second basis not in the first ideal");
    contains(c, B, a.G, s.o, s.n, "element of the first basis not in the second ideal");
  }
  // rebuilding without pushes changes nothing
  int sz = B.size(); B.build(); Basis b1 = readBasis(B, s.o);
  if (B.size() != sz) c.fail("rebuild", "a second build without pushes changed the basis size");
  c.label(mod ? "module" : "ideal"); c.label("builds:" + std::to_string(std::min(builds, 5))); if (extra) c.label("redundant pushes");
  if (builds >= 2 && R.size() >= 2) c.nontrivial();
}
PBT_MAIN("C06", prop)
