// Glue between the reference algebra and the library's public API.
#ifndef VERIF_LIB_H
#define VERIF_LIB_H
#include "pbt.h"
#include "ref.h"
#include "ginv/monom.h"
#include "ginv/poly_int.h"

namespace lib {
using GInv::Allocator; using GInv::Monom; using GInv::PolyInt; using GInv::JanetPolyInt;

inline int ordCode(const ref::Ord& o) { return (o.pot ? GInv::Poly::POT : GInv::Poly::TOP) | (o.kind == ref::LEX ? GInv::Poly::lex : o.kind == ref::DEGREVLEX ? GInv::Poly::deglex : GInv::Poly::alex); }

inline ref::Mon mon(const Monom& m) { ref::Mon r(m.size(), m.pos()); for (int i = 0; i < m.size(); i++) r.e[i] = m[i]; return r; }
inline ref::Z num(const GInv::Integer& c) { return ref::Z(c.get_str(10), 10); }

// owned monomial
struct MonomBox {
  Allocator* a; Monom m;
  MonomBox(Allocator* al, const ref::Mon& r): a(al), m(al, r.n(), r.pos) {
    for (int i = 0; i < r.n(); i++) if (r.e[i]) {
      Monom x(al, i, r.n(), -1); Monom p(al, x, r.e[i]); m.mult(p);
    }
  }
};
inline void assign(PolyInt& p, const ref::Poly& r) {
  Allocator al[1];
  for (auto& k : r.t) {
    MonomBox m(al, k.first);
    PolyInt t(al, p.order(), m.m);
    t.mult(k.second.get_str(10).c_str());
    p.add(t);
  }
}
inline ref::Poly poly(const PolyInt& p, const ref::Ord& o) {
  ref::Poly r(o);
  for (PolyInt::ConstIterator i(p.begin()); i; ++i) r.addTerm(mon(i.monom()), num(i.coeff()));
  return r;
}
// canonical form: terms strictly descending, no zero coefficient
inline std::string canonical(const PolyInt& p, const ref::Ord& o) {
  bool first = true; ref::Mon prev; int n = 0;
  for (PolyInt::ConstIterator i(p.begin()); i; ++i, ++n) {
    if (num(i.coeff()) == 0) return "zero coefficient stored";
    ref::Mon m = mon(i.monom());
    if (m.deg() != i.monom().degree()) return "monomial degree field wrong in " + m.str();
    if (!first && o(prev, m) <= 0) return "terms not strictly descending: " + prev.str() + " then " + m.str();
    prev = m; first = false;
  }
  if (n != p.length()) return "length() disagrees with the number of terms";
  return "";
}
}
#endif
