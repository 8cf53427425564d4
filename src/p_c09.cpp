// monomial algebra: operation histories against exponent vectors
#include "lib.h"
#include "gen.h"
#include "util/randpermutation.h"
using namespace ref; using pbt::Case; using namespace lib;
struct Slot { Monom* m; Mon r; Allocator* own; };
static int minDeg(const Mon& a, const Mon& b) { int s = 0; for (int i = 0; i < a.n(); i++) s += std::min(a.e[i], b.e[i]); return s; }
static void prop(Case& c) {
  int n = c.chance(1, 8) ? c.chance(1, 10) ? c.in(41, 300) : c.in(5, 40) : c.in(1, 4), npos = c.in(0, 3), far = c.chance(1, 10) ? c.pick(std::vector<int>{100, 200, 1000, 40000, 100000, 2000000000}) : 0;
  Allocator A[1], B[1];
  std::vector<Slot> S; int ns = c.in(2, 4), done = 0;
  auto exps = [&]() { Mon m(n, (npos && c.coin()) ? far + (int)c.draw(npos) : -1); int d = c.chance(1, 10) ? c.in(0, 2000) : c.in(0, 8);
    if (d > 20) { for (int i = 0; i < n; i++) if (c.coin()) m.e[i] = c.in(0, d); } else for (int i = 0; i < d; i++) m.e[c.draw(n)]++; return m; };
  {
  c.note("n=" + std::to_string(n) + "\n");
  for (int i = 0; i < ns; i++) {
    Slot s; s.r = exps(); int how = c.in(0, 2); Allocator* al = s.own = c.coin() ? A : B;
    MonomBox x(al, s.r);
    if (how == 0) s.m = new(al) Monom(al, x.m);
    else if (how == 1) { s.m = new(al) Monom(al, n, s.r.pos); *s.m = x.m; }
    else { Monom t(al, x.m); s.m = new(al) Monom(std::move(t)); }
    c.note("m" + std::to_string(i) + " = " + s.r.str() + "\n"); S.push_back(s);
  }
  auto verify = [&](const std::string& what) {
    for (int i = 0; i < ns; i++) {
      Monom& m = *S[i].m; const Mon& r = S[i].r;
      if (mon(m) != r) c.fail("value", "after " + what + ": m" + std::to_string(i) + " is " + mon(m).str() + ", expected " + r.str());
      if (m.degree() != r.deg() || m.isZero() != (r.deg() == 0) || (bool)m != (r.deg() > 0) || m.size() != n || m.pos() != r.pos) c.fail("fields", "after " + what);
      std::ostringstream o; o << m; if (o.str() != r.str()) c.fail("print", "after " + what + ": " + o.str());
    }
  };
  verify("construction");
  int ops = c.in(1, 10);
  for (int k = 0; k < ops; k++) {
    int i = c.draw(ns), j = c.draw(ns); Slot &x = S[i], &y = S[j];
    std::string d = "m" + std::to_string(i), e = "m" + std::to_string(j);
    if (x.r.deg() > 1000000) continue;
    Allocator* al = c.coin() ? A : B;
    switch (c.in(0, 14)) {
      case 0: if (x.r.pos != -1 && y.r.pos != -1) continue; d += " *= " + e; x.m->mult(*y.m); x.r = mul(x.r, Mon(y.r)); break;
      case 1: { if (i == j) continue; int v = c.draw(n); d += " := x" + std::to_string(v) + " * " + e; x.m->mult(v, *y.m); x.r = y.r; x.r.e[v]++; break; }
      case 2: { // x := y*z then divided by z
        Mon z = exps(); if (z.pos != -1 && y.r.pos != -1) z.pos = -1; if (i == j) continue;
        d += " := " + e + " * " + z.str() + " / " + (c.coin() ? "z" : e);
        MonomBox zb(al, z); Monom t(al, *y.m, zb.m); Mon tr = mul(y.r, z);
        if (mon(t) != tr) c.fail("product", d + ": " + mon(t).str());
        if (!t.divisiable(zb.m) || !t.divisiable(*y.m)) c.fail("divisible", d);
        bool byz = d.back() == 'z';
        t.div(byz ? zb.m : *y.m); Mon q = quo(tr, byz ? z : y.r); q.pos = (byz ? z.pos : y.r.pos) == -1 ? tr.pos : -1;
        if (mon(t) != q) c.fail("quotient", d + ": " + mon(t).str() + " expected " + q.str());
        x.m->operator=(t); x.r = q; break; }
      case 3: { d += " divisible by " + e + "?"; bool want = (y.r.pos == -1 || x.r.pos == y.r.pos) && dividesE(y.r, x.r);
        if (x.m->divisiable(*y.m) != want) c.fail("divisible", d); break; }
      case 4: { if (x.r.pos != -1 && y.r.pos != -1) continue; int g = x.m->gcd(*y.m), l = x.m->lcm(*y.m); d += " gcd/lcm " + e;
        if (g != minDeg(x.r, y.r)) c.fail("gcd", d); if (l != lcm(x.r, y.r).deg()) c.fail("lcm", d); if (g + l != x.r.deg() + y.r.deg()) c.fail("gcd+lcm", d); break; }
      case 5: d += " == " + e + "?"; if ((*x.m == *y.m) != (x.r == y.r) || (*x.m != *y.m) != (x.r != y.r)) c.fail("equal", d); break;
      case 6: if (i == j) continue; d += " := " + e; *x.m = *y.m; x.r = y.r; break;
      case 7: if (i == j) continue; d += " <-> " + e; x.m->swap(*y.m); std::swap(x.r, y.r); break;
      case 8: { if (i == j) continue; d += " := move(copy of " + e + ")"; Monom t(al, *y.m); *x.m = std::move(t); x.r = y.r; break; }
      case 9: { int q = c.in(0, 5); d += " := " + e + "^" + std::to_string(q); if (y.r.deg() > 1000000) continue; Monom t(al, *y.m, q); Mon r = y.r; for (int& v : r.e) v *= q; if (mon(t) != r) c.fail("power", d); *x.m = std::move(t); x.r = r; break; }
      case 10: { int v = c.draw(n), p = c.in(-1, 3); if (p >= 0) p += far; d += " := x" + std::to_string(v) + " at " + std::to_string(p); Monom t(al, v, n, p); *x.m = std::move(t); x.r = Mon(n, p); x.r.e[v] = 1; break; }
      case 11: { int v = c.draw(n); d += " := new x" + std::to_string(v) + "*" + e; Monom t(al, v, *y.m); Mon r = y.r; r.e[v]++; if (mon(t) != r) c.fail("var-product", d); *x.m = std::move(t); x.r = r; break; }
      case 12: { int p = c.in(-1, 3); if (p >= 0) p += far; d += ".setPos(" + std::to_string(p) + ")"; x.m->setPos(p); x.r.pos = p; break; }
      case 13: { if (i == j || n < 2) continue; d += " := permuted " + e; GInv::RandPermutation_mt19937 p(n); int w = c.in(0, 3); for (int q = 0; q < w; q++) p.next(); x.m->permutation(*y.m, p); Mon r = y.r; r.pos = x.r.pos; for (int v = 0; v < n; v++) r.e[v] = y.r.e[p[v]];
        if (mon(*x.m) != r) c.fail("permutation", d); std::vector<int> a = r.e, b = y.r.e; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); if (a != b) c.fail("permutation", d + ": not a rearrangement"); x.r = r; break; }
      case 14: { if (x.r.pos != -1 && y.r.pos != -1) continue; d += " := move(x) * " + e; if (i == j) continue; Monom t(al, *x.m); Monom u = std::move(t) * *y.m; *x.m = std::move(u); x.r = mul(x.r, y.r); break; }
    }
    c.note(d + "\n"); ++done; verify(d);
  }
  for (auto& s : S) s.own->destroy(s.m);
  }
  if (A->size() + B->size()) c.fail("memory", std::to_string(A->size() + B->size()) + " bytes stay allocated after every monomial is gone");
  if (done >= 2) c.nontrivial();
}
PBT_MAIN("C09", prop)
