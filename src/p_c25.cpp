// whole histories of the basis API on heap blocks: nothing is read after being freed, nothing is leaked
#include <gmp.h>
#include "p_basis.h"
// everything the library allocates by operator new or through GMP while "counting" is on
static bool counting = false; static long news = 0, gmps = 0;
void* operator new(size_t n) { if (counting) ++news; return malloc(n ? n : 1); }
void operator delete(void* p) noexcept { if (p) { if (counting) --news; free(p); } }
void operator delete(void* p, size_t) noexcept { if (p) { if (counting) --news; free(p); } }
void* operator new[](size_t n) { if (counting) ++news; return malloc(n ? n : 1); }
void operator delete[](void* p) noexcept { if (p) { if (counting) --news; free(p); } }
void operator delete[](void* p, size_t) noexcept { if (p) { if (counting) --news; free(p); } }
static void* gAlloc(size_t n) { if (counting) ++gmps; return malloc(n); }
static void* gRe(void* p, size_t, size_t n) { return realloc(p, n); }
static void gFree(void* p, size_t) { if (counting) --gmps; free(p); }
struct NullBuf: std::streambuf { int overflow(int ch) override { return ch == EOF ? 0 : ch; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
struct Count { Count() { counting = true; } ~Count() { counting = false; } };
static void prop(Case& c) {
  static bool once = (mp_set_memory_functions(gAlloc, gRe, gFree), true); (void)once;
  NullBuf nb; auto* old = std::cerr.rdbuf(&nb); struct Restore { std::streambuf* o; ~Restore() { std::cerr.rdbuf(o); counting = false; } } restore{old};
  size_t curr0 = GInv::Allocator::currMemory(); news = gmps = 0;
  const int K = c.in(1, 2); struct S { JanetPolyInt* J = nullptr; gen::Sys s; std::vector<Poly> F; bool built = false; }; std::vector<S> V(K);
  int ops = c.in(2, 14), builds = 0, queries = 0; bool one = false;
  for (int q = 0; q < ops; q++) {
    int i = c.draw(K); S& x = V[i]; std::string d = "J" + std::to_string(i);
    if (!x.J) {
      x.s = c.chance(1, 3) ? gen::module(c) : gen::ideal(c, 3, true); if (x.s.kind == "family") c.discard("family"); x.F.clear(); x.built = false;
      c.note(d + " new, " + gen::show(x.s)); { Count k; x.J = new JanetPolyInt; }
    }
    switch (c.weighted({5, 4, 3, 2, 2, 1})) {
      case 0: {   // push a generator, a repeated one, or one that makes the ideal trivial
        Poly p = x.s.F[c.draw(x.s.F.size())];
        if (c.chance(1, 12)) { p = Poly(x.s.o); p.addTerm(Mon(x.s.n), c.in(1, 3)); if (x.s.npos) p = x.s.F[0]; }
        std::vector<Poly> F = x.F; if (!p.zero()) F.push_back(p); Budget bud{2500}; std::vector<Poly> R = F; if (!F.empty() && !groebner(F, R, bud)) c.discard("reference budget");
        x.F = F; c.note(d + ".push " + p.str() + "\n");
        { Count k; Allocator al[1]; { PolyInt t(al, ordCode(x.s.o), x.s.n); assign(t, p); x.J->push(t); } } x.built = false; break; }
      case 1: {
        int st = c.weighted({6, 1, 1, 1}); static const char* nm[] = {".build", ".algorithmTQ", ".algorithmTQ1", ".algorithmTQ2"}; if (st) c.lenientHang();
        c.note(d + nm[st] + "\n"); { Count k; if (st == 0) x.J->build(); else if (st == 1) x.J->algorithmTQ(); else if (st == 2) x.J->algorithmTQ1(); else x.J->algorithmTQ2(); }
        ++builds; x.built = true; one |= x.J->isOne(); break; }
      case 2: {
        if (x.J->isOne() && x.s.npos) continue;
        Poly p = gen::sparse(c, x.s.o, x.s.n, 4, 4, c.chance(1, 5), x.s.npos); c.note(d + ".nf " + p.str() + "\n"); ++queries;
        { Count k; Allocator al[1]; { PolyInt t(al, ordCode(x.s.o), x.s.n); assign(t, p); x.J->nf(t); } } break; }
      case 3: {   // read everything there is to read
        c.note(d + " read\n"); ++queries; if (x.J->isOne()) { if (x.J->size() != 1) c.fail("size", "size() of the whole ring"); continue; }
        int n = 0; for (auto it = x.J->begin(); it; ++it, ++n) { poly(it.data()->poly(), x.s.o); mon(it.data()->ansector()); for (int v = 0; v < x.s.n; v++) (void)it.data()->NM(v); bool found; { Count k; Allocator al[1]; { Monom m(al, it.data()->lm()); found = x.J->find(m); } } if (!found) c.fail("find", "a leading monomial of the basis is not found"); { Count k; std::ostringstream o; o << it.data()->poly(); } }
        if (n != x.J->size()) c.fail("size", "size() disagrees with iteration");
        if (n && x.J->maxPos() < (x.s.npos ? 0 : -1)) c.fail("position", "maxPos()");
        break; }
      case 4: if (x.J->isOne() || !x.built || x.s.npos || x.J->size() == 0) continue; c.note(d + " Hilbert polynomial\n"); { Count k; GInv::HilbertPoly hp; x.J->buildHP(hp); for (int z = 0; z <= hp.dim(); z++) (void)hp[z]; } break;
      default: c.note(d + " destroyed\n"); { Count k; delete x.J; } x.J = nullptr;
    }
  }
  for (int i = K - 1; i >= 0; i--) if (V[i].J) { Count k; delete V[i].J; }
  if (GInv::Allocator::currMemory() != curr0) c.fail("current", "currMemory() does not return to its start: " + std::to_string((long)GInv::Allocator::currMemory() - (long)curr0));
  if (news) c.fail("leak", std::to_string(news) + " objects from operator new are not returned");
  if (gmps) c.fail("leak", std::to_string(gmps) + " GMP numbers are not returned");
  if (one) c.label("whole ring"); if (K == 2) c.label("two bases");
  if (builds && queries) c.nontrivial();
}
PBT_MAIN("C25", prop)
