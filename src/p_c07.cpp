// polynomial ring arithmetic: random operation histories against the reference polynomials
#include "lib.h"
#include "gen.h"
using namespace ref; using pbt::Case; using namespace lib;

static std::string hexOf(const Z& z, int style) {
  Z a = abs(z); std::string s;
  if (style == 0) s = "0x" + a.get_str(16); else if (style == 1) s = a.get_str(10); else s = "0b" + a.get_str(2);
  return (z < 0 ? "-" : "") + s;
}
struct Slot { Allocator* a; PolyInt* p; Poly r; };

static void prop(Case& c) {
  Ord o; o.kind = c.pick(std::vector<int>{LEX, DEGREVLEX, ALEX}); o.pot = c.coin();
  int n = c.chance(1, 12) ? c.in(5, 24) : c.in(1, 4), npos = c.chance(1, 3) ? c.in(1, 3) : 0;
  bool unitGuard = false; (void)unitGuard;
  std::vector<Allocator*> arenas; int na = c.in(1, 3);
  for (int i = 0; i < na; i++) arenas.push_back(new Allocator);
  std::vector<Slot> S; int ns = c.in(2, 4);
  c.note(o.str() + " n=" + std::to_string(n) + " rank=" + std::to_string(npos) + "\n");
  pbt::CerrCapture cap;
  auto fresh = [&](bool plain) { return gen::sparse(c, o, n, c.chance(1, 6) ? 12 : 4, n == 1 ? 8 : 4, true, plain ? 0 : npos); };
  for (int i = 0; i < ns; i++) {
    Slot s{arenas[c.draw(na)], nullptr, fresh(c.coin())};
    s.p = new(s.a) PolyInt(s.a, ordCode(o), n); assign(*s.p, s.r);
    c.note("p" + std::to_string(i) + " = " + s.r.str() + "\n"); S.push_back(s);
  }
  auto verify = [&](const char* what) {
    for (int i = 0; i < ns; i++) {
      std::string bad = canonical(*S[i].p, o);
      if (!bad.empty()) c.fail("canonical", std::string(what) + ": p" + std::to_string(i) + ": " + bad);
      Poly g = poly(*S[i].p, o);
      if (g != S[i].r) c.fail("value", std::string("after ") + what + ": p" + std::to_string(i) + " is " + g.str() + ", expected " + S[i].r.str());
      if (S[i].p->isZero() != S[i].r.zero() || (bool)*S[i].p == S[i].r.zero()) c.fail("isZero", what);
    }
  };
  verify("construction");
  auto plain = [&](const Poly& p) { for (auto& t : p.t) if (t.first.pos != -1) return false; return true; };
  int ops = c.in(1, 10), mul_ = 0, done = 0;
  for (int k = 0; k < ops; k++) {
    int i = c.draw(ns), j = c.draw(ns); Slot &x = S[i], &y = S[j];
    std::string d = "p" + std::to_string(i), e = "p" + std::to_string(j);
    if (x.r.t.size() > 60 || x.r.maxDeg() > 60) { x.p->mult("0"); x.r = Poly(o); d += " := 0 (too big)"; c.note(d + "\n"); continue; }
    int op = c.weighted({6, 6, 6, 3, 3, 2, 3, 2, 2, 3, 3, 2, 2});
    switch (op) {
      case 0: d += " += " + e; x.p->add(*y.p); x.r = add(x.r, Poly(y.r)); break;
      case 1: d += " -= " + e; x.p->sub(*y.p); x.r = sub(x.r, Poly(y.r)); break;
      case 2: if (!plain(x.r) && !plain(y.r)) continue;
        if (x.r.t.size() * y.r.t.size() > 200) continue;
        d += " *= " + e; if (y.p->order() != x.p->order()) c.fail("order", d);
        x.p->mult(*y.p); x.r = mul(x.r, y.r); ++mul_; break;
      case 3: { Z z = c.chance(1, 8) ? Z(0) : gen::coeff(c); std::string h = hexOf(z, c.in(0, 2)); d += " *= " + h; x.p->mult(h.c_str()); x.r.scale(z); break; }
      case 4: { if (x.r.zero()) continue; Z z = c.chance(1, 8) ? Z(0) : gen::coeff(c);
        auto it = x.r.t.find(Mon(n, -1)); if (it != x.r.t.end() && c.coin()) z = -it->second;   // cancels the constant
        bool plus = c.coin(); if (!plus) z = -z; std::string h = hexOf(z, c.in(0, 2)); d += (plus ? " += " : " -= ") + h;
        if (plus) x.p->add(h.c_str()); else x.p->sub(h.c_str()); x.r.addTerm(Mon(n, -1), plus ? z : Z(-z)); break; }
      case 5: d += " := -" + d; x.p->minus(); x.r.scale(-1); break;
      case 6: { int q = c.in(0, 4); if (!plain(x.r) && q != 1) continue; if (x.r.t.size() > 8 || x.r.maxDeg() > 12) continue;
        d += " := " + d + "^" + std::to_string(q); x.p->pow(q); x.r = power(x.r, q, n); ++mul_; break; }
      case 7: if (i == j) continue; d += " := " + e; *x.p = *y.p; x.r = y.r; break;
      case 8: if (i == j) continue; d += " <-> " + e; x.p->swap(*y.p); std::swap(x.r, y.r); break;
      case 9: { d += " := fresh copy of " + e; PolyInt t(x.a, *y.p); if (c.coin()) *x.p = std::move(t); else { PolyInt u(std::move(t)); *x.p = u; } x.r = y.r; break; }
      case 10: { int v = c.draw(n); d += " := x" + std::to_string(v) + "*" + e; PolyInt t(x.a, v, *y.p); *x.p = std::move(t); Mon m(n); m.e[v] = 1; Poly q(o); q.addMul(y.r, m, 1); x.r = q; break; }
      case 11: { // cancellation: x := x + y - y with an intermediate copy
        if (i == j) continue; d += " := (" + d + " + " + e + ") - " + e; PolyInt t(x.a, *x.p); PolyInt u = std::move(t) + *y.p; PolyInt v = std::move(u) - *y.p; *x.p = std::move(v); break; }
      case 12: { if (!plain(y.r) || x.r.t.size() * y.r.t.size() > 200 || i == j) continue;  // distributivity through the operators
        d += " := -(" + d + ") * " + e; PolyInt t(x.a, *x.p); PolyInt u = -std::move(t); PolyInt v = std::move(u) * *y.p; *x.p = std::move(v); x.r.scale(-1); x.r = mul(x.r, y.r); ++mul_; break; }
    }
    c.note(d + "\n"); ++done;
    verify(d.c_str());
    if (!x.r.zero()) {
      if (mon(x.p->lm()) != x.r.lm() || num(x.p->lc()) != x.r.lc() || x.p->degree() != x.r.lm().deg()) c.fail("leading", d + ": leading term wrong");
      int mp = -1; for (auto& t : x.r.t) mp = std::max(mp, t.first.pos);
      if (x.p->maxPos() != mp) c.fail("maxPos", d);
      int nrm = 0; for (auto& t : x.r.t) nrm += (int)mpz_size(t.second.get_mpz_t());
      if (x.p->norm() != nrm) c.fail("norm", d + ": norm() is " + std::to_string(x.p->norm()));
      if (!y.r.zero() && x.p->cmp(*y.p) != o(x.r.lm(), y.r.lm())) c.fail("cmp", d);
      Poly q = x.r; if (x.p->isPp() != (q.content() == 1)) c.fail("isPp", d);
    }
    std::ostringstream out; out << *x.p; std::string want;
    for (auto& t : x.r.t) want += (want.empty() ? "" : " + ") + t.first.str() + "*" + t.second.get_str();
    if (out.str() != (x.r.zero() ? std::string("0") : want)) c.fail("print", d + " prints as " + out.str());
  }
  for (auto& s : S) s.a->destroy(s.p);
  size_t left = 0; for (auto a : arenas) left += a->size();
  if (left) c.fail("memory", std::to_string(left) + " bytes still accounted for after every polynomial was destroyed");
  for (auto a : arenas) delete a;
  c.label(o.str()); if (mul_) c.label("multiplication"); if (npos) c.label("module");
  if (done >= 2) c.nontrivial();
}
PBT_MAIN("C07", prop)
