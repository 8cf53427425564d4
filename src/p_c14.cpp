// arenas: live blocks never overlap or change, the accounting balances, compaction keeps values, the limit holds
#include "lib.h"
#include "gen.h"
#include "util/list.h"
#include "util/stack.h"
using pbt::Case; using GInv::Allocator;
static long built = 0, destroyed = 0;
struct G: GInv::GCPolyInt {   // opens the arena's counters to the check
  G(const GInv::PolyInt& a): GInv::GCPolyInt(a) {}
  G(const G& a): GInv::GCPolyInt(a) {}
  size_t alloc() const { return AllocatorPtr::allocator()->alloc(); }
  size_t used() const { return AllocatorPtr::allocator()->size(); }
  bool due() const { return AllocatorPtr::allocator()->isGC(); }
};
struct Obj { unsigned char tag[24]; Obj() { ++built; memset(tag, 7, sizeof tag); } ~Obj() { ++destroyed; } };
struct Block { int arena; unsigned char* p; size_t n; unsigned char fill; int kind; size_t count; };
static void prop(Case& c) {
  pbt::CerrCapture cap;
  size_t curr0 = Allocator::currMemory();
  int mode = c.weighted({8, 3, 1});
  if (mode == 2) {    // the memory limit ends the process, neither earlier nor later than it must
    size_t slack = c.in(0, 20) * 1000, lim = Allocator::maxMemory() + 1 + slack; int step = c.in(1, 9000);
    c.note("limit: slack " + std::to_string(slack) + " step " + std::to_string(step) + "\n");
    int fd[2]; if (pipe(fd)) abort();
    static int out; static size_t before;
    pid_t pid = fork();
    if (pid == 0) {
      out = fd[1]; static size_t limit = lim;
      atexit(+[]() { char r = Allocator::maxMemory() > limit ? 'L' : 'E'; if (before > limit) r = 'B'; ssize_t k = write(out, &r, 1); (void)k; _exit(0); });
      Allocator::setLimitMemory(lim);
      Allocator* a = new Allocator;
      for (int i = 0; i < 1000000; i++) { before = Allocator::currMemory(); a->allocate(step); if (Allocator::currMemory() > lim) { char r = 'O'; ssize_t k = write(out, &r, 1); (void)k; _exit(0); } }
      char r = 'N'; ssize_t k = write(out, &r, 1); (void)k; _exit(0);
    }
    close(fd[1]); char r = '?'; ssize_t k = read(fd[0], &r, 1); (void)k; close(fd[0]); int st; waitpid(pid, &st, 0);
    if (r == 'E') c.fail("limit", "the process was ended although the limit was not exceeded");
    if (r != 'L') c.fail("limit", std::string("memory beyond the limit was handed out: ") + r);
    c.label("limit"); c.nontrivial(); return;
  }
  if (mode == 1) {    // compaction of collected values
    ref::Ord o; o.kind = c.coin() ? ref::LEX : ref::DEGREVLEX; int n = c.in(1, 4), ops = c.in(1, 12), compactions = 0;
    {
      struct S { G* p; ref::Poly r; }; std::vector<S> V; int k = c.in(1, 3);
      for (int i = 0; i < k; i++) { S s{nullptr, gen::sparse(c, o, n, 10, 5, true)}; Allocator al[1]; { GInv::PolyInt t(al, lib::ordCode(o), n); lib::assign(t, s.r); s.p = new G(t); } V.push_back(s); c.note("g" + std::to_string(i) + " = " + s.r.str() + "\n"); }
      for (int q = 0; q < ops; q++) {
        int i = c.draw(k), j = c.draw(k); S &x = V[i], &y = V[j]; std::string d = "g" + std::to_string(i), e = "g" + std::to_string(j);
        switch (c.in(0, 5)) {
          case 0: d += " += " + e; x.p->add(*y.p); x.r = ref::add(x.r, ref::Poly(y.r)); break;
          case 1: { int w = c.in(1, 20); d += " *= 3, " + std::to_string(w) + " times"; for (int t = 0; t < w; t++) x.p->mult("0x1fffffffffff"); ref::Z f = 1, b = 0x1fffffffffff; for (int t = 0; t < w; t++) f *= b; x.r.scale(f); break; }
          case 2: { size_t a0 = x.p->alloc(); bool gc = x.p->due(); d += gc ? " compacted" : " compaction not due"; x.p->reallocate(); if (x.p->alloc() > a0) c.fail("compaction", d + ": the arena grew"); if (gc) ++compactions; break; }
          case 3: if (i == j) continue; d += " <-> " + e; x.p->swap(*y.p); std::swap(x.r, y.r); break;
          case 4: { d += " := copy, old one destroyed"; G* t = new G(*x.p); delete x.p; x.p = t; break; }
          case 5: if (i == j) continue; d += " := " + e; (GInv::GCPolyInt&)*x.p = *y.p; x.r = y.r; break;
        }
        if (x.r.t.size() && mpz_size(x.r.lc().get_mpz_t()) > 80) { x.p->mult("0"); x.r = ref::Poly(o); }
        c.note(d + "\n");
        for (auto& s : V) { ref::Poly g = lib::poly(*s.p, o); if (g != s.r) c.fail("value", "after " + d + ": " + g.str().substr(0, 300) + ", expected " + s.r.str().substr(0, 300)); if (s.p->used() > s.p->alloc()) c.fail("accounting", "more memory used than allocated"); }
      }
      for (auto& s : V) delete s.p;
    }
    if (Allocator::currMemory() != curr0) c.fail("current", "currMemory() does not return to its start after compaction histories");
    c.label("gc"); if (compactions) c.nontrivial(); return;
  }
  std::vector<Allocator*> A; int na = c.in(1, 3); for (int i = 0; i < na; i++) A.push_back(c.chance(1, 4) && i ? new Allocator(*A[0]) : new Allocator);
  std::vector<Block> live; int ops = c.in(1, 40); size_t maxSeen = Allocator::maxMemory(); long b0 = built, d0 = destroyed, made = 0;
  auto fillOf = [](const Block& b, size_t i) { return (unsigned char)(b.fill + i * 7); };
  auto release = [&](size_t i) {
    Block b = live[i]; live.erase(live.begin() + i); Allocator* a = A[b.arena];
    for (size_t q = 0; q < b.n && b.kind != 3; q++) if (b.p[q] != fillOf(b, q)) c.fail("overlap", "a live block changed");
    if (b.kind == 0) a->deallocate(b.p, b.n); else if (b.kind == 1) a->dealloc((double*)b.p, b.count); else if (b.kind == 2) a->dealloc((long*)b.p); else if (b.count > 1) a->destroy((Obj*)b.p, b.count); else a->destroy((Obj*)b.p);
  };
  for (int q = 0; q < ops; q++) {
    int what = c.weighted({6, 3, 1});
    if (what == 0 && live.size() < 60) {
      Block b; b.arena = c.draw(na); b.fill = c.draw(256); b.kind = c.weighted({5, 2, 1, 2, 1}); Allocator* a = A[b.arena];
      size_t szs[] = {1, 8, 15, 16, 17, 4096, 4128, 4127, 8192}; size_t s0 = a->size();
      b.n = c.chance(1, 3) ? szs[c.draw(9)] : c.chance(1, 6) ? c.in(1, 20000) : c.in(1, 200); b.count = 1;
      if (b.kind == 0) b.p = (unsigned char*)a->allocate(b.n);
      else if (b.kind == 1) { b.count = c.in(1, 30); b.n = b.count * sizeof(double); b.p = (unsigned char*)new(a) double[b.count]; }
      else if (b.kind == 2) { b.n = sizeof(long); b.p = (unsigned char*)new(a) long; }
      else if (b.kind == 4) { b.kind = 3; b.count = c.in(2, 12); b.n = sizeof(Obj) * b.count; b.p = (unsigned char*)new(a) Obj[b.count]; made += b.count; }
      else { b.n = sizeof(Obj); b.p = (unsigned char*)new(a) Obj; ++made; }
      c.note("arena " + std::to_string(b.arena) + " block of " + std::to_string(b.n) + "\n");
      if ((size_t)b.p % (b.count > 1 && b.kind == 3 ? 8 : 16)) c.fail("alignment", "block not aligned to 16 bytes");
      for (auto& x : live) if (b.p < x.p + x.n && x.p < b.p + b.n) c.fail("overlap", "a new block overlaps a live one");
      if (b.kind != 3) for (size_t i = 0; i < b.n; i++) b.p[i] = fillOf(b, i);
      if (a->size() < s0 + b.n) c.fail("accounting", "size() grew by less than the block");
      live.push_back(b);
    } else if (what == 1 && !live.empty()) { size_t i = c.draw(live.size()); c.note("release block of " + std::to_string(live[i].n) + " in " + std::to_string(live[i].arena) + "\n"); release(i); }
    else if (na >= 2) { int i = c.draw(na), j = c.draw(na); if (i == j) continue; c.note("swap arenas\n"); A[i]->swap(*A[j]); for (auto& b : live) if (b.arena == i) b.arena = j; else if (b.arena == j) b.arena = i; }
    size_t allocs = 0;
    for (int i = 0; i < na; i++) {
      size_t want = 0, cnt = 0; for (auto& b : live) if (b.arena == i) { want += b.n; ++cnt; }
      if (A[i]->size() < want) c.fail("accounting", "size() is smaller than the live blocks"); if (!cnt && A[i]->size()) c.fail("accounting", "size() is not 0 for an empty arena");
      if (A[i]->size() > A[i]->alloc()) c.fail("accounting", "size() exceeds alloc()"); allocs += A[i]->alloc();
    }
    if (Allocator::currMemory() != curr0 + allocs) c.fail("current", "currMemory() is not the sum over the arenas");
    if (Allocator::maxMemory() < Allocator::currMemory() || Allocator::maxMemory() < maxSeen) c.fail("maximum", "maxMemory() is not the running maximum");
    if (Allocator::maxMemory() > std::max(maxSeen, Allocator::currMemory())) c.fail("maximum", "maxMemory() overshoots"); maxSeen = Allocator::maxMemory();
    for (auto& b : live) if (b.kind != 3) for (size_t i = 0; i < b.n; i++) if (b.p[i] != fillOf(b, i)) c.fail("overlap", "a live block changed");
  }
  while (!live.empty()) release(c.draw(live.size()));
  for (auto a : A) { if (a->size()) c.fail("accounting", "size() is not 0 at the end"); delete a; }
  if (built - b0 != made || destroyed - d0 != made) c.fail("destructors", "constructors and destructors do not balance");
  if (Allocator::currMemory() != curr0) c.fail("current", "currMemory() does not return to its start");
  if (!cap.str().empty()) c.fail("message", "destroying an empty arena complains: " + cap.str());
  if (ops >= 4) c.nontrivial(); c.label("arena");
}
PBT_MAIN("C14", prop)
