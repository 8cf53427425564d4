// integers: operation histories against GMP, with the memory of both accounted for
#include "lib.h"
#include "gen.h"
#include "util/config.h"
using pbt::Case; using ref::Z; using GInv::Integer; using GInv::Allocator;
static long gmpLive = 0; static bool counting = false;
static void* ga(size_t n) { if (counting) gmpLive += n; return malloc(n); }
static void* gr(void* p, size_t o, size_t n) { if (counting) gmpLive += (long)n - (long)o; return realloc(p, n); }
static void gf(void* p, size_t n) { if (counting) gmpLive -= n; free(p); }
static void prop(Case& c) {
  mp_set_memory_functions(ga, gr, gf);
  long live0; Allocator A[1], B[1]; size_t left;
  auto value = [&]() -> Z {
    Z v; switch (c.weighted({2, 4, 4, 4, 1})) {
      case 0: v = c.in(0, 2); break;
      case 1: v = c.in(0, 1000); break;
      case 2: { int k = c.in(1, 3) * 64 + c.in(-2, 2); v = 1; v <<= k; v += c.in(-2, 2); break; }    // limb boundaries
      case 3: { v = 0; int k = c.in(1, 4); for (int i = 0; i < k; i++) { v <<= 64; v += (unsigned long)c.bits(); } break; }
      default: { v = 1; v <<= c.in(1, 40) * 64; v -= (unsigned long)c.draw(1000); } }
    return c.coin() ? Z(-v) : v; };
  auto text = [&](const Z& z) { Z a = abs(z); std::string s; switch (c.in(0, 3)) { case 0: s = a.get_str(10); break; case 1: s = "0x" + a.get_str(16); break; case 2: s = "0b" + a.get_str(2); break; default: s = "0" + a.get_str(8); } return (z < 0 ? "-" : "") + s; };
  counting = true; live0 = gmpLive;
  {
    struct Slot { Integer* i; Z r; }; std::vector<Slot> S; int ns = c.in(2, 4), done = 0;
    auto show = [](const Z& z) { std::string s = z.get_str(16); return s.size() > 80 ? s.substr(0, 80) + "..." : s; };
    auto num = [](const Integer& i, int base) { return std::string(i.get_str(base)); };
    for (int k = 0; k < ns; k++) {
      Slot s; s.r = value(); Allocator* al = c.coin() ? A : B; int how = c.in(0, 3);
      if (how == 0) s.i = new Integer(al, text(s.r).c_str());
      else if (how == 1) { Integer t(al, text(s.r).c_str()); s.i = new Integer(c.coin() ? A : B, t); }
      else if (how == 2) { Integer t(al, text(s.r).c_str()); s.i = new Integer(std::move(t)); }
      else { long v = (long)c.bits(); if (c.chance(1, 4)) v = c.pick(std::vector<long>{LONG_MIN, LONG_MAX, -1, 0}); s.r = v; s.i = new Integer(al); s.i->set_si(v); }
      c.note("i" + std::to_string(k) + " = " + show(s.r) + "\n"); S.push_back(s);
    }
    auto verify = [&](const std::string& d) {
      for (int k = 0; k < ns; k++) { Integer& x = *S[k].i; const Z& r = S[k].r; std::string w = "after " + d + ": i" + std::to_string(k);
        if (num(x, 16) != r.get_str(16)) c.fail("value", w + " is " + num(x, 16).substr(0, 200) + ", expected " + show(r));
        if (x.isZero() != (r == 0) || x.isOne() != (r == 1) || x.isAbsOne() != (abs(r) == 1) || x.sgn() != sgn(r)) c.fail("predicate", w);
        if (x.norm() != (int)mpz_size(r.get_mpz_t())) c.fail("norm", w);
      } };
    verify("construction");
    int ops = c.in(1, 12);
    for (int q = 0; q < ops; q++) {
      int i = c.draw(ns), j = c.draw(ns), k = c.draw(ns); Slot &x = S[i], &y = S[j], &z = S[k]; std::string d = "i" + std::to_string(i), e = "i" + std::to_string(j), f = "i" + std::to_string(k);
      if (mpz_size(x.r.get_mpz_t()) > 200 || mpz_size(y.r.get_mpz_t()) > 200) { x.i->set_si(7); x.r = 7; y.i->set_si(-5); y.r = -5; if (i == j) x.r = -5; continue; }
      switch (c.in(0, 15)) {
        case 0: d += " += " + e; x.i->add(*y.i); x.r += Z(y.r); break;
        case 1: d += " -= " + e; x.i->sub(*y.i); x.r -= Z(y.r); break;
        case 2: d += " *= " + e; x.i->mult(*y.i); x.r *= Z(y.r); break;
        case 3: if (i == j || i == k) continue; d += " := " + e + " + " + f; x.i->add(*y.i, *z.i); x.r = y.r + z.r; break;
        case 4: if (i == j || i == k) continue; d += " := " + e + " - " + f; x.i->sub(*y.i, *z.i); x.r = y.r - z.r; break;
        case 5: if (i == j || i == k) continue; d += " := " + e + " * " + f; x.i->mult(*y.i, *z.i); x.r = y.r * z.r; break;
        case 6: { if (x.r == 0 || y.r == 0) continue; d += " := gcd(" + d + ", " + e + ")"; x.i->gcd(*y.i); Z g; mpz_gcd(g.get_mpz_t(), x.r.get_mpz_t(), y.r.get_mpz_t()); x.r = g; break; }
        case 7: { if (y.r == 0 || z.r == 0 || i == j || i == k) continue; d += " := gcd(" + e + ", " + f + ")"; x.i->gcd(*y.i, *z.i); Z g; mpz_gcd(g.get_mpz_t(), y.r.get_mpz_t(), z.r.get_mpz_t()); x.r = g; break; }
        case 8: { if (y.r == 0 || i == j) continue; d += " := (" + d + " * " + e + ") / " + e; x.i->mult(*y.i); if (!x.i->divisible(*y.i)) c.fail("divisible", d); x.i->div(*y.i); break; }
        case 9: { if (y.r == 0 || z.r == 0 || i == j || i == k) continue; bool div = mpz_divisible_p(y.r.get_mpz_t(), z.r.get_mpz_t()); d += " := " + e + " / " + f; if (y.i->divisible(*z.i) != div) c.fail("divisible", d); if (!div) continue; x.i->div(*y.i, *z.i); x.r = y.r / z.r; break; }
        case 10: if (i == j) continue; d += " := " + e; *x.i = *y.i; x.r = y.r; break;
        case 11: if (i == j) continue; d += " <-> " + e; x.i->swap(*y.i); std::swap(x.r, y.r); break;
        case 12: { d += " := move(copy of " + e + ")"; Integer t(c.coin() ? A : B, *y.i); *x.i = std::move(t); x.r = y.r; break; }
        case 13: d += " := -" + d; x.i->set_neg(); x.r = -x.r; break;
        case 14: { unsigned long v = c.coin() ? c.bits() : c.draw(3); d += " := " + std::to_string(v); x.i->set_ui(v); x.r = v; break; }
        case 15: { int b = c.in(2, 62); d += " in base " + std::to_string(b); if (c.chance(1, 30)) { // longer than the print buffer
            Z big = 1; big <<= c.in(60000, 90000); big -= 1; Integer t(A, big.get_str(10).c_str()); if (num(t, 2) != big.get_str(2) || num(t, 10) != big.get_str(10)) c.fail("long-text", d); }
          if (num(*x.i, b) != x.r.get_str(b)) c.fail("text", d + ": " + num(*x.i, b)); Integer back(B, num(*x.i, 10).c_str()); if (num(back, 10) != x.r.get_str(10)) c.fail("round-trip", d); break; }
      }
      c.note(d + "\n"); ++done; verify(d);
    }
    for (auto& s : S) delete s.i;
    if (done >= 2) c.nontrivial();
  }
  counting = false;
  left = A->size() + B->size();
  if (left) c.fail("memory", std::to_string(left) + " bytes still accounted for after every integer was destroyed");
  if (gmpLive != live0) c.fail("gmp-memory", std::to_string(gmpLive - live0) + " bytes of number storage were never returned");
}
PBT_MAIN("C13", prop)
