// ordered set: model-based histories against std::set
#include "pbt.h"
#include "util/rbtree.h"
using pbt::Case; using GInv::Allocator;
static int cmpInt(const int a, const int b) { return a < b ? -1 : a > b; }
static int cmpRev(const int a, const int b) { return a < b ? 1 : -(a > b); }
static int cmpMod(const int a, const int b) { int x = (unsigned)a * 2654435761u % 1000003, y = (unsigned)b * 2654435761u % 1000003; return x != y ? (x < y ? -3 : 3) : a < b ? -1 : a > b; }

template <int cmp(const int, const int)> static void run(Case& c) {
  typedef GInv::RBTree<int, cmp> Tree;
  struct Less { bool operator()(int a, int b) const { return cmp(a, b) < 0; } };
  typedef std::set<int, Less> Ref;
  pbt::CerrCapture cap;
  size_t curr0 = Allocator::currMemory();
  {
    Allocator al[3];
    struct S { Tree* t; int a; Ref r; };
    std::vector<S> V; int k = c.in(1, 3), range = c.pick(std::vector<int>{8, 20, 60, 400, 1000000});
    for (int i = 0; i < k; i++) V.push_back({new Tree(al + i), i, Ref()});
    int ops = c.in(1, c.thorough ? 120 : 60); size_t biggest = 0; bool removed = false;
    auto dump = [&](const S& s) { std::string r; for (int v : s.r) r += " " + std::to_string(v); return r; };
    for (int q = 0; q < ops; q++) {
      int i = c.draw(k), j = c.draw(k); S& x = V[i]; S& y = V[j]; int key = c.in(-range / 2, range / 2);
      std::string d = "t" + std::to_string(i);
      bool full = true;
      switch (c.weighted({10, 3, 3, 3, 2, 1, 1, 1, 1, 1, 2})) {
        case 0: d += ".insert " + std::to_string(key); if (x.r.count(key)) continue; c.note(d + "\n"); x.t->insert(key); x.r.insert(key); break;
        case 1: case 2: {
          if (x.r.empty()) continue; auto it = x.r.begin(); std::advance(it, c.draw(x.r.size())); key = *it; bool byIt = c.coin(); removed = true;
          d += byIt ? ".remove(iterator) " : ".remove "; d += std::to_string(key); c.note(d + "\n");
          if (byIt) x.t->remove(x.t->find(key)); else x.t->remove(key); x.r.erase(it); break; }
        case 3: {   // queries, keys inside and outside
          full = false; if (c.coin() && !x.r.empty()) { auto it = x.r.begin(); std::advance(it, c.draw(x.r.size())); key = *it; }
          d += ".find* " + std::to_string(key); c.note(d + "\n");
          auto f = x.t->find(key); if ((bool)f != (bool)x.r.count(key) || (f && f.key() != key)) c.fail("find", d + " in" + dump(x));
          auto p = x.t->findPrev(key); auto lo = x.r.lower_bound(key); bool has = lo != x.r.begin();
          if ((bool)p != has || (p && p.key() != *std::prev(lo))) c.fail("findPrev", d + " in" + dump(x));
          auto n = x.t->findNext(key); auto hi = x.r.upper_bound(key);
          if ((bool)n != (hi != x.r.end()) || (n && n.key() != *hi)) c.fail("findNext", d + " in" + dump(x));
          break; }
        case 4: {   // ascending or descending run
          bool up = c.coin(); int len = c.chance(1, 6) ? c.chance(1, 60) ? c.in(65000, 80000) : c.in(100, 600) : c.in(1, 40); if (x.r.size() > 2000) continue; if (len > 5000) ops = std::min(ops, q + 4); d += up ? ".insert run up from " : ".insert run down from "; d += std::to_string(key) + " x" + std::to_string(len); c.note(d + "\n");
          for (int z = 0; z < len; z++) { int v = up ? key + z : key - z; if (!x.r.count(v)) { x.t->insert(v); x.r.insert(v); } } break; }
        case 5: d += ".clear"; c.note(d + "\n"); x.t->clear(); x.r.clear(); break;
        case 6: { if (i == j) continue; d += " = t" + std::to_string(j); c.note(d + "\n"); *x.t = *y.t; x.r = y.r; break; }
        case 7: { if (i == j) continue; d += ".swap t" + std::to_string(j); c.note(d + "\n"); x.t->swap(*y.t); std::swap(x.r, y.r); std::swap(x.a, y.a); break; }
        case 8: { int a = c.draw(3); d += " replaced by its copy in arena " + std::to_string(a); c.note(d + "\n"); Tree* t = new Tree(*x.t, al + a); delete x.t; x.t = t; x.a = a; break; }
        case 9: { d += " moved out and back"; c.note(d + "\n"); Tree* t = new Tree(std::move(*x.t)); if (*x.t || x.t->length()) c.fail("move", "the source of a move is not empty"); delete x.t; x.t = t; break; }
        default: {  // drain from one end
          bool up = c.coin(); int len = c.chance(1, 4) ? c.in(20, 300) : c.in(1, 20); d += up ? ".drain smallest x" : ".drain largest x"; d += std::to_string(len); c.note(d + "\n"); removed = true;
          while (len-- && !x.r.empty()) { int v = up ? *x.r.begin() : *x.r.rbegin(); if ((up ? x.t->minimumKey() : x.t->maximumKey()) != v) c.fail("extremes", d + ": wrong end"); x.t->remove(up ? x.t->minimum() : x.t->maximum()); x.r.erase(v); } }
      }
      biggest = std::max(biggest, x.r.size());
      if (!full) continue;
      for (auto& s : V) {
        std::string w = "after " + d + ": contents" ;
        if (s.t->length() != (int)s.r.size() || (bool)*s.t != !s.r.empty()) c.fail("length", w + " length " + std::to_string(s.t->length()) + ", expected" + dump(s));
        auto it = s.t->minimum(); for (int v : s.r) { if (!it || it.key() != v) c.fail("order", w + " ascending, expected" + dump(s)); ++it; } if (it) c.fail("order", w + " too long, expected" + dump(s));
        auto jt = s.t->maximum(); for (auto v = s.r.rbegin(); v != s.r.rend(); ++v) { if (!jt || jt.key() != *v) c.fail("order", w + " descending, expected" + dump(s)); --jt; } if (jt) c.fail("order", w + " too long downwards");
        if (biggest > 255) c.label("long"); for (int v : s.r) if (!s.t->find(v)) c.fail("find", w + " key " + std::to_string(v) + " not found");
        if (!s.r.empty() && (s.t->minimumKey() != *s.r.begin() || s.t->maximumKey() != *s.r.rbegin())) c.fail("extremes", w);
        // balance: red-black invariants measured here, and the height bound they imply
        std::function<int(typename Tree::ConstIterator, bool, int)> bh = [&](typename Tree::ConstIterator n, bool red, int depth) -> int {
          if (!n) return 0; bool r = n.color() == Tree::Red; if (r && red) c.fail("balance", w + ": red node below a red node");
          if (depth > 2 * 20) c.fail("balance", w + ": too deep");
          int a = bh(n.left(), r, depth + 1), b = bh(n.right(), r, depth + 1); if (a != b) c.fail("balance", w + ": unequal black heights"); return a + !r; };
        if (s.t->root() && s.t->root().color() == Tree::Red) c.fail("balance", w + ": red root");
        bh(s.t->root(), false, 0);
        if (!s.t->assertValid()) c.fail("balance", w + ": assertValid() is false");
      }
    }
    for (auto& s : V) delete s.t;
    for (auto& a : al) if (a.size()) c.fail("memory", "nodes not returned to the arena");
    if (biggest >= 4 && removed) c.nontrivial();
  }
  if (Allocator::currMemory() != curr0) c.fail("memory", "current memory does not return to its start");
  if (!cap.str().empty()) c.fail("memory", "arena complains: " + cap.str());
}
static void prop(Case& c) {
  switch (c.in(0, 2)) { case 0: c.label("ascending"); run<cmpInt>(c); break; case 1: c.label("descending"); run<cmpRev>(c); break; default: c.label("scrambled"); run<cmpMod>(c); }
}
PBT_MAIN("C15", prop)
