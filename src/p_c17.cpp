// rational polynomials of one variable: binomials, sums, scalings, printing, against exact arithmetic
#include "pbt.h"
#include <memory>
#include <gmpxx.h>
#include "util/hilbertpoly.h"
using pbt::Case; using GInv::HilbertPoly;
typedef std::vector<mpq_class> Q;
static Q binom(long a, unsigned b, int dim) {
  Q r(dim + 1); r[0] = 1;
  for (unsigned i = 0; i < b; i++) { Q t(dim + 1); for (int k = 0; k <= dim; k++) { t[k] += r[k] * mpq_class(mpz_class(a - (long)i)); if (k < dim) t[k + 1] += r[k]; } for (auto& x : t) x /= (i + 1); r = t; }
  return r;
}
static std::string show(const Q& q) { std::string s = "["; for (auto& x : q) s += (s.size() > 1 ? ", " : "") + x.get_str(); return s + "]"; }
// value of the printed text as a polynomial
static bool parse(const std::string& s, int dim, Q& r) {
  r.assign(dim + 1, 0); size_t i = 0; int sign = 1; bool first = true;
  if (s.empty()) return true;
  while (i < s.size()) {
    if (!first) { if (s.compare(i, 3, " + ") == 0) sign = 1; else if (s.compare(i, 3, " - ") == 0) sign = -1; else return false; i += 3; }
    else if (s[i] == '-') { sign = -1; ++i; }
    size_t j = i; while (j < s.size() && (isdigit(s[j]) || s[j] == '/')) ++j; if (j == i) return false;
    mpq_class v; if (v.set_str(s.substr(i, j - i), 10)) return false; v.canonicalize(); i = j; int k = 0;
    if (i < s.size() && s[i] == 's') { if (s.compare(i, 2, "s^")) return false; i += 2; j = i; while (j < s.size() && isdigit(s[j])) ++j; if (j == i) return false; k = atoi(s.substr(i, j - i).c_str()); i = j; }
    if (k > dim || r[k] != 0) return false; r[k] = sign < 0 ? mpq_class(-v) : v; first = false;
  }
  return true;
}
static long live = 0;
static void* gAlloc(size_t n) { ++live; return malloc(n); }
static void* gRe(void* p, size_t, size_t n) { return realloc(p, n); }
static void gFree(void* p, size_t) { --live; free(p); }
static void body(Case& c) {
  int dim = c.weighted({1, 6, 1}) ; dim = dim == 0 ? 0 : dim == 1 ? c.in(1, 8) : c.in(9, 40);
  int k = c.in(1, 3), ops = c.in(1, 16); std::vector<std::unique_ptr<HilbertPoly>> H; std::vector<Q> R;
  c.note("degree bound " + std::to_string(dim) + "\n"); bool two = false; int nz = 0;
  for (int i = 0; i < k; i++) { if (c.coin()) H.emplace_back(new HilbertPoly(dim)); else { H.emplace_back(new HilbertPoly()); H.back()->setDim(dim); } R.push_back(Q(dim + 1)); }
  for (int q = 0; q < ops; q++) {
    int i = c.draw(k), j = c.draw(k); std::string d = "h" + std::to_string(i);
    switch (c.weighted({6, 4, 4, 3})) {
      case 0: { int b = c.in(0, dim); long a = c.chance(1, 8) ? (long)c.draw(1ul << 60) - (1l << 59) : c.in(-20, 20); d += " = C(s+" + std::to_string(a) + "," + std::to_string(b) + ")"; c.note(d + "\n"); H[i]->binomial(a, b); R[i] = binom(a, b, dim); if (b >= 2) two = true; break; }
      case 1: d += " += h" + std::to_string(j); c.note(d + "\n"); H[i]->add(*H[j]); for (int p = 0; p <= dim; p++) R[i][p] += mpq_class(R[j][p]); break;
      case 2: d += " -= h" + std::to_string(j); c.note(d + "\n"); H[i]->sub(*H[j]); { Q t = R[j]; for (int p = 0; p <= dim; p++) R[i][p] -= t[p]; } break;
      default: { int a = c.chance(1, 6) ? (c.coin() ? 2147483647 : -2147483647 - 1) : c.in(-6, 6), n = 1; if (c.chance(1, 2000) && dim < 4) n = 7500; d += " *= " + std::to_string(a) + (n > 1 ? " x7500" : ""); c.note(d + "\n"); mpz_class f; mpz_ui_pow_ui(f.get_mpz_t(), a < 0 ? -(long)a : a, n); if (a < 0 && n % 2) f = -f; for (int t = 0; t < n; t++) H[i]->mult(a); for (auto& x : R[i]) x *= f; if (n > 1) c.label("huge"); }
    }
    for (int h = 0; h < k; h++) {
      if (H[h]->dim() != dim) c.fail("degree", "dim() changed");
      for (int p = 0; p <= dim; p++) {
        std::string s = (*H[h])[p]; mpq_class v; if (v.set_str(s, 10)) c.fail("coefficient", "not a number: " + s.substr(0, 200)); mpq_class w = v; w.canonicalize();
        if (w != R[h][p]) c.fail("coefficient", "after " + d + ": h" + std::to_string(h) + " has " + s.substr(0, 200) + " at s^" + std::to_string(p) + ", expected " + show(R[h]).substr(0, 400));
        if (w.get_str() != s) c.fail("canonical", "after " + d + ": coefficient printed as " + s.substr(0, 200) + ", not in lowest terms");
        if (H[h]->isZero(p) != (R[h][p] == 0)) c.fail("isZero", "after " + d + ": isZero(" + std::to_string(p) + ")"); if (R[h][p] != 0) ++nz;
      }
      std::ostringstream o; o << *H[h]; Q t; if (!parse(o.str(), dim, t) || t != R[h]) c.fail("print", "after " + d + ": printed as '" + o.str().substr(0, 300) + "', expected " + show(R[h]).substr(0, 300));
    }
  }
  if (two && nz) c.nontrivial();
}
static void prop(Case& c) {
  static bool once = (mp_set_memory_functions(gAlloc, gRe, gFree), true); (void)once;
  long l0 = live; body(c); if (live != l0) c.fail("leak", std::to_string(live - l0) + " GMP numbers are not returned");
}
PBT_MAIN("C17", prop)
