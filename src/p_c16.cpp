// list and stack: model-based histories against std::vector
#include "pbt.h"
#include "util/list.h"
#include "util/stack.h"
using pbt::Case; using GInv::Allocator;
typedef GInv::List<int> L; typedef GInv::Stack<long> St;
static void lists(Case& c) {
  Allocator al[3]; struct S { L* l; int a; std::vector<int> r; }; std::vector<S> V; int k = c.in(1, 3);
  for (int i = 0; i < k; i++) V.push_back({new L(al + i), i, {}});
  int ops = c.in(1, 40), edits = 0;
  for (int q = 0; q < ops; q++) {
    int i = c.draw(k), j = c.draw(k), v = c.in(-50, 50); S &x = V[i], &y = V[j]; std::string d = "l" + std::to_string(i);
    auto at = [&](S& s, size_t p) { L::Iterator it = s.l->begin(); while (p--) ++it; return it; };
    switch (c.weighted({4, 2, 5, 4, 3, 1, 1, 1, 1, 1, 1, 1, 1})) {
      case 0: d += ".push " + std::to_string(v); c.note(d + "\n"); x.l->push(v); x.r.insert(x.r.begin(), v); break;
      case 1: if (x.r.empty()) continue; d += ".pop"; c.note(d + "\n"); if (x.l->head() != x.r[0] || x.l->pop() != x.r[0]) c.fail("pop", d); x.r.erase(x.r.begin()); ++edits; break;
      case 2: { size_t p = c.draw(x.r.size() + 1); d += ".insert " + std::to_string(v) + " at " + std::to_string(p); c.note(d + "\n"); auto it = at(x, p); it.insert(v); if (!it || it.data() != v) c.fail("insert", d + ": the iterator does not name the new element"); x.r.insert(x.r.begin() + p, v); ++edits; break; }
      case 3: { if (x.r.empty()) continue; size_t p = c.draw(x.r.size()); d += ".del at " + std::to_string(p); c.note(d + "\n"); auto it = at(x, p); it.del(); x.r.erase(x.r.begin() + p); if ((bool)it != (p < x.r.size()) || (it && it.data() != x.r[p])) c.fail("del", d + ": the iterator does not name the next element"); ++edits; break; }
      case 4: {   // move one element between lists of the same arena
        if (x.r.empty() || x.a != y.a) continue; size_t p = c.draw(x.r.size()), z = c.draw(y.r.size() + (i == j ? 0 : 1));
        d += " element " + std::to_string(p) + " to l" + std::to_string(j) + " at " + std::to_string(z); c.note(d + "\n");
        auto it = at(x, p); L::ConstIterator e = it.get(); int w = x.r[p]; x.r.erase(x.r.begin() + p); if (e.data() != w) c.fail("get", d);
        auto to = at(y, z); to.insert(e); y.r.insert(y.r.begin() + z, w); ++edits; break; }
      case 5: d += ".clear"; c.note(d + "\n"); x.l->clear(); x.r.clear(); break;
      case 6: if (i == j) continue; d += " = l" + std::to_string(j); c.note(d + "\n"); *x.l = *(const L*)y.l; x.r = y.r; break;
      case 7: if (i == j) continue; d += ".swap l" + std::to_string(j); c.note(d + "\n"); x.l->swap(*y.l); std::swap(x.r, y.r); std::swap(x.a, y.a); break;
      case 8: { int a = c.draw(3); d += " replaced by its copy in arena " + std::to_string(a); c.note(d + "\n"); L* t = new L(al + a, *x.l); delete x.l; x.l = t; x.a = a; break; }
      case 9: { d += " moved out and back"; c.note(d + "\n"); L* t = new L(std::move(*x.l)); if (*x.l || x.l->length()) c.fail("move", "source of a move not empty"); delete x.l; x.l = t; break; }
      case 10: if (i == j) continue; d += " = move l" + std::to_string(j); c.note(d + "\n"); *x.l = std::move(*y.l); x.r = y.r; x.a = y.a; y.r.clear(); break;
      case 12: { if (x.r.size() > 2000) continue; int m = c.chance(1, 8) ? c.chance(1, 40) ? c.in(65000, 140000) : c.in(200, 1200) : c.in(1, 40); bool up = c.coin(); if (x.r.size() + m > 4000) ops = std::min(ops, q + 6);
        d += (up ? ".push x" : ".append x") + std::to_string(m); c.note(d + "\n"); auto it = at(x, x.r.size());
        std::vector<int> w; for (int z = 0; z < m; z++) { w.push_back(v + z % 97); if (up) x.l->push(v + z % 97); else { it.insert(v + z % 97); ++it; } }
        if (up) x.r.insert(x.r.begin(), w.rbegin(), w.rend()); else x.r.insert(x.r.end(), w.begin(), w.end()); if (x.r.size() > 255) c.label("long"); ++edits; break; }
      default: { if (x.r.empty()) continue; size_t p = c.draw(x.r.size()); d += "[" + std::to_string(p) + "] := " + std::to_string(v); c.note(d + "\n"); at(x, p).data() = v; x.r[p] = v; ++edits; }
    }
    for (auto& s : V) {
      if (s.l->length() != s.r.size() || (bool)*s.l != !s.r.empty()) c.fail("length", "after " + d + ": length " + std::to_string(s.l->length()) + ", expected " + std::to_string(s.r.size()));
      size_t n = 0; for (L::ConstIterator it = ((const L*)s.l)->begin(); it; ++it, ++n) if (n >= s.r.size() || it.data() != s.r[n]) c.fail("contents", "after " + d + ": element " + std::to_string(n) + " is wrong");
      if (n != s.r.size()) c.fail("contents", "after " + d + ": iteration ends early");
    }
  }
  for (auto& s : V) delete s.l;
  for (auto& a : al) if (a.size()) c.fail("memory", "list nodes not returned");
  c.label("list"); if (edits >= 3) c.nontrivial();
}
static void stacks(Case& c) {
  Allocator al[3]; struct S { St* s; std::vector<long> r; }; std::vector<S> V; int k = c.in(1, 3);
  for (int i = 0; i < k; i++) { int n = c.in(1, 12); c.note("s" + std::to_string(i) + " capacity " + std::to_string(n) + "\n"); V.push_back({new St(n, al + i), {}}); }
  int ops = c.in(1, 60); size_t deepest = 0;
  for (int q = 0; q < ops; q++) {
    int i = c.draw(k), j = c.draw(k); S &x = V[i], &y = V[j]; std::string d = "s" + std::to_string(i); long v = c.in(-1000, 1000);
    switch (c.weighted({6, 3, 4, 1, 1, 1, 1})) {
      case 0: d += ".push " + std::to_string(v); c.note(d + "\n"); x.s->push(v); x.r.push_back(v); break;
      case 1: { int n = c.chance(1, 12) ? c.chance(1, 30) ? c.in(65000, 90000) : c.in(100, 700) : c.in(1, 30); if (x.r.size() > 100000) n = 1; if (n > 5000) ops = std::min(ops, q + 8); d += ".push x" + std::to_string(n); c.note(d + "\n"); while (n--) { x.s->push(v + n); x.r.push_back(v + n); } break; }
      case 2: { int n = std::min<size_t>(x.r.size(), c.chance(1, 10) ? c.in(50, 600) : c.in(1, 10)); d += ".pop x" + std::to_string(n); c.note(d + "\n"); while (n--) { if (x.s->top() != x.r.back()) c.fail("top", d); x.s->pop(); x.r.pop_back(); } break; }
      case 3: d += ".reset"; c.note(d + "\n"); x.s->reset(); x.r.clear(); break;
      case 4: if (i == j) continue; d += " = s" + std::to_string(j); c.note(d + "\n"); *x.s = *y.s; x.r = y.r; break;
      case 5: if (i == j) continue; d += ".swap s" + std::to_string(j); c.note(d + "\n"); x.s->swap(*y.s); std::swap(x.r, y.r); break;
      default: { int a = c.draw(3); d += " replaced by its copy in arena " + std::to_string(a); c.note(d + "\n"); St* t = new St(*x.s, al + a); delete x.s; x.s = t; }
    }
    deepest = std::max(deepest, x.r.size());
    for (auto& s : V) {
      if (s.s->deep() != s.r.size() || (bool)*s.s != !s.r.empty() || s.s->size() < s.r.size()) c.fail("depth", "after " + d);
      for (size_t n = 0; n < s.r.size(); n++) if ((*s.s)[n] != s.r[n]) c.fail("contents", "after " + d + ": element " + std::to_string(n));
      if (!s.r.empty() && s.s->top() != s.r.back()) c.fail("top", "after " + d);
    }
  }
  for (auto& s : V) delete s.s;
  for (auto& a : al) if (a.size()) c.fail("memory", "stack arrays not returned");
  c.label("stack"); if (deepest > 12) c.nontrivial();
}
static void prop(Case& c) {
  pbt::CerrCapture cap; size_t curr0 = Allocator::currMemory();
  if (c.coin()) stacks(c); else lists(c);
  if (Allocator::currMemory() != curr0) c.fail("memory", "current memory does not return to its start");
  if (!cap.str().empty()) c.fail("memory", "arena complains: " + cap.str());
}
PBT_MAIN("C16", prop)
