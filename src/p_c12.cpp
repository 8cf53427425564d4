// completion of monomial sets: every monomial of the ideal gets an involutive divisor
#include "lib.h"
#include "gen.h"
#include "ginv/mcompletion.h"
using namespace ref; using pbt::Case; using namespace lib;
using GInv::MCompletion; using GInv::MJanet; using GInv::Wrap; using GInv::Janet;
typedef int (*Cmp)(const Wrap&, const Wrap&);
static void collect(Janet::ConstIterator j, std::vector<const Wrap*>& out) { while (j) { if (j.wrap()) out.push_back(j.wrap()); if (j.nextVar()) collect(j.nextVar(), out); j.deg(); } }
static bool cone(const Wrap* w, const Mon& m) { Mon u = mon(w->lm()); for (int v = 0; v < m.n(); v++) if (u.e[v] > m.e[v] || (u.e[v] < m.e[v] && w->NM(v))) return false; return true; }
static void prop(Case& c) {
  static const struct { const char* name; Cmp f; } cmps[] = {{"lex", MCompletion::lex}, {"deglex", MCompletion::deglex}, {"lexGB", MCompletion::lexGB}, {"deglexGB", MCompletion::deglexGB}, {"GB", MCompletion::GB}, {"alex", MCompletion::alex}, {"alexGB", MCompletion::alexGB}};
  int k0 = c.in(1, 4), n = k0; int which = c.weighted({6, 4, 2, 2, 2, 2, 2, 2}) - 1;
  if (getenv("C12_ONLY")) which = atoi(getenv("C12_ONLY"));
  bool tree = which < 0; std::string name = tree ? "tree" : cmps[which].name;
  // The comparators that do not extend divisibility (or rank by generation first) are only claimed to
  // complete a set of minimal generators; admissible orders take any generators at any time.
  bool anti = which >= 2;
  int maxE = n <= 2 ? 4 : n == 3 ? 3 : 2;
  if (c.chance(1, 6)) n += c.chance(1, 5) ? c.in(8, 30) : c.in(1, 8);     // the variables that matter, scattered among more
  std::vector<int> act; { int gap = n - k0, p = 0; for (int i = 0; i < k0; i++) { int g = i == k0 - 1 && c.coin() ? gap : gap ? (int)c.draw(gap + 1) : 0; p += g; gap -= g; act.push_back(p++); } }
  // in one variable a large degree costs nothing more
  int unit = k0 == 1 && c.chance(1, 3) ? c.pick(std::vector<int>{7, 30, 70, 150}) : 1;
  auto av = [&]() -> int { return act[c.draw(k0)]; };
  bool wide = which <= 1 && k0 >= 3 && c.chance(1, 12); if (wide) { maxE = k0 == 3 ? 8 : 4; c.label("large"); }    // completions of a hundred elements and more
  if (n > 8) c.label("many variables");
  c.note(name + " n=" + std::to_string(n) + "\n");
  Allocator A[1]; size_t left = 0; bool lateDup = false;
  {
  MCompletion* M = tree ? nullptr : new MCompletion(A, cmps[which].f); MJanet* J = tree ? new MJanet(A) : nullptr;
  std::vector<Mon> G; int builds = 0, ops = c.in(1, 12);
  auto verify = [&]() {
    std::vector<const Wrap*> W; if (tree) collect(J->tree().begin(), W); else for (GInv::ListWrap::ConstIterator i(M->T().begin()); i; ++i) W.push_back(i.data());
    if ((int)W.size() != (tree ? J->tree().size() : M->length())) c.fail("size", "size differs from the number of elements");
    std::vector<Mon> U; for (auto w : W) { U.push_back(mon(w->lm())); if (!inIdeal(U.back(), G)) c.fail("soundness", "element " + U.back().str() + " is not in the ideal"); }
    int D = 0; for (auto& g : G) D = std::max(D, g.deg());
    if (!tree) { for (auto& g : G) if (std::find(U.begin(), U.end(), g) == U.end()) c.fail("kept", "pushed monomial " + g.str() + " is gone");
      for (size_t i = 1; i < W.size(); i++) if (cmps[which].f(*W[i-1], *W[i]) >= 0) c.fail("sorted", "elements not strictly ascending at " + U[i].str()); }
    if (which <= 0) for (size_t i = 0; i < W.size(); i++) { auto nm = janetNM(U[i], U); for (int v = 0; v < n; v++) if (nm[v] != W[i]->NM(v)) c.fail("janet-flags", "flag of " + U[i].str() + " variable " + std::to_string(v)); }
    // local involutivity: every non-multiplicative prolongation has a divisor
    for (size_t i = 0; i < W.size(); i++) for (int v = 0; v < n; v++) if (W[i]->NM(v)) { Mon m = U[i]; m.e[v]++; bool ok = false; for (auto w : W) if (cone(w, m)) ok = true; if (!ok) c.fail("involutive", "prolongation of " + U[i].str() + " by variable " + std::to_string(v) + " has no divisor"); }
    int top = D + (k0 <= 2 ? 4 : k0 == 3 ? 3 : 2);
    Allocator al[1];
    auto probe = [&](const Mon& m0) {
      Mon m(n); for (int i = 0; i < k0; i++) m.e[act[i]] = m0.e[i]; if (n > k0 && c.chance(1, 20)) m.e[c.draw(n)]++;
      MonomBox b(al, m); const Wrap* w = tree ? J->tree().find(b.m) : M->find(b.m); bool want = inIdeal(m, G);
      if ((w != nullptr) != want) c.fail("complete", "monomial " + m.str() + (want ? " of the ideal has no divisor" : " outside the ideal has a divisor"));
      if (w) { if (std::find(W.begin(), W.end(), w) == W.end()) c.fail("find", "divisor is not an element"); if (!cone(w, m)) c.fail("cone", m.str() + " is not in the cone of " + mon(w->lm()).str());
        if (which <= 0) { int k = 0; for (auto x : W) k += cone(x, m); if (k != 1) c.fail("disjoint", m.str() + " lies in " + std::to_string(k) + " cones"); } }
    };
    if (!wide) for (int d = 0; d <= top; d++) monsOfDegree(k0, d, probe);
    else for (int q = 0; q < 150; q++) { Mon m0(k0); if (c.coin()) { Mon u = U[c.draw(U.size())]; for (int i = 0; i < k0; i++) m0.e[i] = u.e[act[i]]; int t = c.in(0, 4); for (int j = 0; j < t; j++) m0.e[c.draw(k0)]++; if (c.chance(1, 4)) { int v = c.draw(k0); if (m0.e[v]) m0.e[v]--; } } else for (int i = 0; i < k0; i++) m0.e[i] = c.in(0, maxE + 1); probe(m0); }
    if (W.size() > 60) c.label("large:60"); if (W.size() > 250) c.label("large:250");
    if (W.size() > G.size()) c.nontrivial();
  };
  for (int k = 0; k < ops; k++) {
    if (c.chance(2, 3) || G.empty()) {
      Mon m(n); if (!G.empty() && c.chance(1, 3)) { m = G[c.draw(G.size())]; if (c.coin()) m.e[av()]++; if (c.coin()) { int v = av(); if (m.e[v]) m.e[v]--; } } else for (int v : act) m.e[v] = c.chance(1, 3) ? 0 : unit * c.in(0, maxE);
      if (m.deg() == 0) m.e[av()] = 1;
      if (anti && [&] { for (auto& g : G) if (dividesE(g, m) || dividesE(m, g)) return true; return false; }()) continue;
      if (anti && builds) continue;
      if (std::find(G.begin(), G.end(), m) != G.end()) c.label("duplicate");
      c.note("push " + m.str() + "\n"); Allocator al[1]; MonomBox b(al, m); if (tree) J->push(b.m); else M->push(b.m); G.push_back(m);
    } else { c.note("build\n"); if (tree) J->build(); else M->build(); ++builds; verify(); if (c.chance(1, 4)) { if (tree) J->build(); else M->build(); verify(); } }
  }
  c.note("build\n"); if (tree) J->build(); else M->build(); verify();
  // a copy of a completed tree answers the same
  if (tree && c.chance(1, 3)) { Allocator B[1]; { Janet K(B, J->tree()); Allocator al[1]; for (int d = 0; d <= 6 && k0 <= 3; d++) monsOfDegree(k0, d, [&](const Mon& m0) { Mon m(n); for (int i = 0; i < k0; i++) m.e[act[i]] = m0.e[i]; MonomBox b(al, m); if (K.find(b.m) != J->tree().find(b.m)) c.fail("copy", "copy disagrees about " + m.str()); }); } if (B->size()) c.fail("memory", "copied tree leaks"); }
  delete M; delete J;
  if (builds) c.label("history");
  }
  left = A->size(); (void)lateDup;
  if (left) c.fail("memory", std::to_string(left) + " bytes still accounted for at the end");
  c.label(name);
}
PBT_MAIN("C12", prop)
