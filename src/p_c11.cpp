// Janet trees and forests: insertions and lookups against the definition of Janet division
#include "lib.h"
#include "gen.h"
#include "ginv/janet.h"
#include "ginv/gb.h"
using namespace ref; using pbt::Case; using namespace lib;
using GInv::Janet; using GInv::Wrap;
typedef std::vector<std::vector<bool>> Flags;

// monomials stored in a tree, in iteration order; checks the path invariants on the way
static void walk(Case& c, Janet::ConstIterator j, Mon prefix, int var, std::vector<const Wrap*>& out) {
  int last = -1;
  while (j) {
    if ((int)j.degree() <= last) c.fail("shape", "degrees along a chain do not ascend");
    last = j.degree(); if (var >= prefix.n()) c.fail("shape", "path longer than the number of variables");
    prefix.e[var] = last;
    if (j.wrap()) { if (mon(j.wrap()->lm()) != prefix) c.fail("shape", "path " + prefix.str() + " holds " + mon(j.wrap()->lm()).str()); out.push_back(j.wrap()); }
    if (j.nextVar()) walk(c, j.nextVar(), prefix, var + 1, out);
    else if (!j.wrap()) c.fail("shape", "a leaf without an element");
    j.deg();
  }
}
static void verifyTree(Case& c, const Janet& T, const std::vector<Mon>& U, const std::vector<const Wrap*>& W, const std::vector<Mon>& probes, int n, const char* who) {
  std::string w0 = std::string(who) + ": ";
  if (T.size() != (int)U.size()) c.fail("size", w0 + "size() is " + std::to_string(T.size()) + ", " + std::to_string(U.size()) + " elements were inserted");
  std::vector<const Wrap*> L; walk(c, T.begin(), Mon(n), 0, L);
  std::set<const Wrap*> a(L.begin(), L.end()), b(W.begin(), W.end());
  if (a != b || L.size() != W.size()) c.fail("content", w0 + "the tree does not hold exactly the inserted elements");
  for (size_t i = 1; i < L.size(); i++) { Ord o; o.kind = LEX; if (o(mon(L[i-1]->lm()), mon(L[i]->lm())) >= 0) c.fail("content", w0 + "iteration is not in ascending order"); }
  Flags nm; for (auto& u : U) nm.push_back(janetNM(u, U));
  for (size_t i = 0; i < U.size(); i++) for (int v = 0; v < n; v++)
    if (W[i]->NM(v) != nm[i][v]) c.fail("multiplicative", w0 + "variable " + std::to_string(v) + " of " + U[i].str() + (nm[i][v] ? " is not" : " is") + " marked non-multiplicative");
  for (auto& p : probes) {
    Allocator al[1]; MonomBox m(al, p);
    int k = janetFind(p, U, nm); const Wrap* got = T.find(m.m);
    if (got != (k < 0 ? nullptr : W[k])) c.fail("find", w0 + "divisor of " + p.str() + " is " + (got ? mon(got->lm()).str() : std::string("none")) + ", expected " + (k < 0 ? std::string("none") : U[k].str()));
  }
}
static void prop(Case& c) {
  int k0 = c.in(1, 5), n = k0, maxE = c.in(1, 4); bool forest = c.chance(1, 3);
  // the interesting variables may sit anywhere among many, and degrees may be far apart
  if (c.chance(1, 6)) n += c.chance(1, 5) ? c.in(8, 60) : c.in(1, 8);
  std::vector<int> act; { int gap = n - k0, p = 0; for (int i = 0; i < k0; i++) { int g = i == k0 - 1 && c.coin() ? gap : gap ? (int)c.draw(gap + 1) : 0; p += g; gap -= g; act.push_back(p++); } }
  int unit = !forest && c.chance(1, 6) ? c.pick(std::vector<int>{7, 64, 100, 127, 255, 1000, 16384, 30000, 100000}) : 1;
  auto av = [&]() -> int { return n > k0 && c.chance(1, 12) ? c.draw(n) : act[c.draw(k0)]; };
  auto rnd = [&](int lift) { Mon m(n); for (int i : act) { m.e[i] = c.chance(1, 3) ? 0 : unit * c.in(0, maxE + lift); if (unit > 1 && c.chance(1, 3)) m.e[i] += c.in(0, 2); } return m; };
  auto probesFor = [&](const std::vector<Mon>& U) {
    std::vector<Mon> P; for (auto& u : U) { P.push_back(u); for (int k = 0; k < 2; k++) { Mon m = u; int t = c.in(0, 3); for (int q = 0; q < t; q++) m.e[av()]++; P.push_back(m); } Mon m = u; int v = av(); if (m.e[v]) m.e[v]--; P.push_back(m); }
    for (int k = 0; k < 4; k++) P.push_back(rnd(1)); P.push_back(Mon(n)); return P; };
  c.note("n=" + std::to_string(n) + (forest ? " forest\n" : " tree\n"));
  size_t left = 0; Allocator A[1], B[1];
  std::vector<Wrap*> owned;
  if (!forest) {
    std::vector<Mon> U; std::vector<const Wrap*> W;
    {
    Janet T(A);
    int k = c.chance(1, 60) ? c.in(30, 90) : c.in(1, 16), sorted = c.weighted({2, 1, 3});
    static const char* how[] = {"", "ascending\n", "large degrees first\n"}; c.note(how[sorted]);
    std::vector<Mon> cand; for (int i = 0; i < k; i++) { if (!cand.empty() && c.coin()) { Mon m = cand[c.draw(cand.size())]; int t = c.in(1, 2); for (int q = 0; q < t; q++) { m.e[av()]++; int v = av(); if (m.e[v]) m.e[v]--; } cand.push_back(m); } else cand.push_back(rnd(0)); }
    Ord o; o.kind = LEX;
    if (sorted == 1) std::sort(cand.begin(), cand.end(), [&](const Mon& x, const Mon& y) { return o(x, y) < 0; });
    if (sorted == 2) std::stable_sort(cand.begin(), cand.end(), [&](const Mon& x, const Mon& y) { return x.deg() > y.deg(); });
    bool many = k > 16; int step = 0;
    for (auto& m : cand) {
      if (m.deg() == 0 && !U.empty()) continue;
      Flags nm; for (auto& u : U) nm.push_back(janetNM(u, U));
      if (janetFind(m, U, nm) >= 0) continue;    // insertion requires that there is no divisor yet
      Allocator al[1]; MonomBox b(al, m); Wrap* w = new Wrap(b.m); owned.push_back(w);
      c.note("insert " + m.str() + "\n"); T.insert(w); U.push_back(m); W.push_back(w);
      if (!many || ++step % 8 == 0 || U.size() > 85) verifyTree(c, T, U, W, probesFor(U), n, "tree");
    }
    if (many) verifyTree(c, T, U, W, probesFor(U), n, "tree");
    if (c.coin()) {    // a copy is a tree of its own
      c.note("copy\n"); Janet S(B, T); auto P = probesFor(U); verifyTree(c, S, U, W, P, n, "copy");
      Janet E(A); E.swap(T); if (T.size() != 0 || T.begin()) c.fail("swap", "swapping with an empty tree left something behind");
      for (auto& p : P) { Allocator al[1]; MonomBox m(al, p); if (T.find(m.m)) c.fail("swap", "empty tree finds a divisor"); }
      verifyTree(c, E, U, W, P, n, "swapped"); verifyTree(c, S, U, W, P, n, "copy after swap"); E.swap(T); verifyTree(c, T, U, W, P, n, "swapped back");
    }
    if (c.coin()) {    // same set, inserted anew in ascending order after clearing the flags
      std::vector<size_t> ix; for (size_t i = 0; i < U.size(); i++) { ix.push_back(i); W[i]->clearNM(); }
      std::sort(ix.begin(), ix.end(), [&](size_t x, size_t y) { return o(U[x], U[y]) < 0; });
      std::vector<Mon> V; Flags nm; bool ok = true; for (size_t i : ix) { nm.clear(); for (auto& u : V) nm.push_back(janetNM(u, V)); if (janetFind(U[i], V, nm) >= 0) ok = false; V.push_back(U[i]); }
      if (ok) { c.note("reinsert ascending\n"); Janet R(B); for (size_t i : ix) if (U[i].deg() || R.size() == 0) R.insert((Wrap*)W[i]); if (R.size() == (int)U.size()) verifyTree(c, R, U, W, probesFor(U), n, "reinserted"); }
    }
    if (U.size() >= 3) c.nontrivial(); c.label("elements:" + std::to_string(std::min<size_t>(U.size(), 6))); if (U.size() > 16) c.label("many elements"); if (unit > 1) c.label("high degree"); if (n > 8) c.label("many variables");
    }
  } else {
    struct E { Mon m; int layer; std::vector<bool> nmd; Wrap* w; }; std::vector<E> all;
    {
    GInv::GB F(A); int k = c.in(1, 10), base = c.chance(1, 10) ? c.in(15, 60) : 0;
    struct Cand { Mon m; int layer; int parent, var; }; std::vector<Cand> cand;
    for (int i = 0; i < k; i++) { Mon m = rnd(0); if (base) m.e[av()] += c.in(0, base); if (m.deg() == 0) m.e[av()] = 1; cand.push_back({m, m.deg(), -1, 0}); }
    std::stable_sort(cand.begin(), cand.end(), [](const Cand& x, const Cand& y) { return x.layer < y.layer; });   // insertion proceeds layer by layer
    auto find = [&](const Mon& m) -> int {
      std::map<int, std::vector<size_t>> layers; for (size_t i = 0; i < all.size(); i++) layers[all[i].layer].push_back(i);
      for (auto& l : layers) {
        std::vector<Mon> U; for (size_t i : l.second) U.push_back(all[i].m); Flags nm; for (auto& u : U) nm.push_back(janetNM(u, U));
        int q = janetFind(m, U, nm); if (q < 0) continue;
        const E& e = all[l.second[q]]; bool ok = true; for (int v = 0; v < n; v++) if (m.e[v] > e.m.e[v] && e.nmd[v]) ok = false;
        if (ok) return (int)l.second[q];
      }
      return -1; };
    int inserted = 0;
    for (size_t q = 0; q < cand.size(); q++) {
      E e; e.m = cand[q].m; e.layer = cand[q].layer;
      if (find(e.m) >= 0) continue;
      Allocator al[1];
      if (cand[q].parent < 0) { MonomBox b(al, e.m); e.w = new Wrap(b.m); } else e.w = new Wrap(cand[q].var, all[cand[q].parent].w);
      owned.push_back(e.w);
      e.nmd.assign(n, false);
      for (auto& u : all) if (u.layer < e.layer) for (int v = 0; v < n; v++) { if (u.m.e[v] > e.m.e[v]) { e.nmd[v] = true; break; } }
      c.note("insert " + e.m.str() + " at " + std::to_string(e.layer) + "\n"); F.insert(e.w); all.push_back(e); ++inserted;
      if (F.size() != (int)all.size()) c.fail("size", "forest size wrong");
      std::map<int, std::vector<Mon>> byLayer; for (auto& x : all) byLayer[x.layer].push_back(x.m);
      for (auto& x : all) { auto nm = janetNM(x.m, byLayer[x.layer]);
        for (int v = 0; v < n; v++) { if (x.w->NM(v) != nm[v]) c.fail("multiplicative", "layer flag of " + x.m.str() + " variable " + std::to_string(v)); if (x.w->NMd(v) != x.nmd[v]) c.fail("layered", "cross-layer flag of " + x.m.str() + " variable " + std::to_string(v)); } }
      std::vector<Mon> U; for (auto& x : all) U.push_back(x.m);
      for (auto& p : probesFor(U)) { MonomBox m(al, p); int w = find(p); const Wrap* got = F.find(m.m);
        if (got != (w < 0 ? nullptr : all[w].w)) c.fail("find", "forest divisor of " + p.str() + " is " + (got ? mon(got->lm()).str() : std::string("none")) + ", expected " + (w < 0 ? std::string("none") : all[w].m.str())); }
      // prolong by a non-multiplicative variable: same layer
      if (c.coin()) for (int v = 0; v < n; v++) if ((e.w->NM(v) || e.w->NMd(v)) && !e.w->build(v)) { Mon m = e.m; m.e[v]++; cand.insert(cand.begin() + q + 1, {m, e.layer, (int)all.size() - 1, v}); break; }
      if (cand.size() > 24) break;
    }
    if (inserted >= 3) c.nontrivial(); c.label("forest"); if (base) c.label("high degree");
    }
  }
  left = A->size() + B->size();
  for (auto w : owned) delete w;
  if (left) c.fail("memory", std::to_string(left) + " bytes still accounted for after the trees were destroyed");
}
PBT_MAIN("C11", prop)
