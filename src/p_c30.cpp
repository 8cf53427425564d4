// Drawings: the graph that is written shows exactly the structure it was asked to draw
#include "lib.h"
#include "gen.h"
#include "ginv/janet.h"
#include "ginv/gb.h"
#include "ginv/mcompletion.h"
#include "util/rbtree.h"
using namespace ref; using pbt::Case; using namespace lib;
using GInv::Janet; using GInv::Wrap;
typedef std::vector<std::vector<bool>> Flags;

struct Node { std::string name, label, shape, color; bool html = false; std::vector<std::pair<std::string, bool>> out; int in = 0; };   // edges in order, true = dotted
struct Graph { std::map<std::string, Node> n; std::vector<std::string> order; int edges = 0; };

static std::string attr(void* o, const char* k, bool* html = nullptr) { char* s = agget(o, (char*)k); if (!s) return ""; if (html) *html = aghtmlstr(s); return s; }
// draw into a scratch file in the given format and parse the result
template <class D> static Graph drawn(Case& c, const char* format, const char* title, D draw) {
  char path[] = "/tmp/pbt_dot_XXXXXX"; int fd = mkstemp(path); if (fd < 0) c.discard("no scratch file"); close(fd);
  Graph r; std::string bad; FILE* f = nullptr;
  try { draw(format, path); } catch (...) { unlink(path); throw; }
  f = fopen(path, "r"); Agraph_t* g = f ? agread(f, nullptr) : nullptr; if (f) fclose(f); unlink(path);
  if (!g) c.fail("format", std::string("the drawing is not a readable graph (") + format + ")");
  if (std::string(agnameof(g)) != title) bad = std::string("the graph is called ") + agnameof(g);
  for (Agnode_t* v = agfstnode(g); v; v = agnxtnode(g, v)) {
    Node& x = r.n[agnameof(v)]; x.name = agnameof(v); r.order.push_back(x.name);
    x.label = attr(v, "label", &x.html); x.shape = attr(v, "shape"); x.color = attr(v, "color");
    for (Agedge_t* e = agfstout(g, v); e; e = agnxtout(g, e)) { std::string s = attr(e, "style"); if (s != "solid" && s != "dotted") bad = "an edge has the style '" + s + "'"; x.out.push_back({agnameof(aghead(e)), s == "dotted"}); ++r.edges; }
  }
  for (auto& k : r.n) for (auto& e : k.second.out) r.n[e.first].in++;
  agclose(g);
  if (bad.size()) c.fail("format", bad);
  return r;
}
struct Row { std::vector<std::string> cell; };
static std::vector<Row> table(Case& c, const std::string& s) {
  std::vector<Row> R; size_t p = 0;
  for (;;) { size_t a = s.find("<tr>", p); if (a == std::string::npos) break; size_t b = s.find("</tr>", a); if (b == std::string::npos) c.fail("format", "unterminated row in " + s);
    Row r; size_t q = a + 4; while (q < b) { if (s.compare(q, 4, "<td>")) c.fail("format", "no cell in " + s); size_t e = s.find("</td>", q); r.cell.push_back(s.substr(q + 4, e - q - 4)); q = e + 5; } R.push_back(r); p = b + 5; }
  return R;
}
// what must be shown for an element
struct Elem { Mon m; bool gb; std::vector<bool> nm, nmd, build; };
static std::string show(const Elem& e) {
  std::string s = e.m.str() + (e.gb ? " GB" : ""); auto fl = [&](const char* t, const std::vector<bool>& f) { s += t; for (bool b : f) s += b ? '1' : '0'; };
  fl(" NM=", e.nm); fl(" NMd=", e.nmd); fl(" build=", e.build); return s;
}
static Elem element(Case& c, const Node& x, int n, bool nmd) {
  if (!x.html) c.fail("format", "the label of an element is not a table: " + x.label);
  auto R = table(c, x.label); if (R.size() != (nmd ? 4u : 3u)) c.fail("format", "table with " + std::to_string(R.size()) + " rows: " + x.label);
  for (auto& r : R) if ((int)r.cell.size() != n) c.fail("format", "row with " + std::to_string(r.cell.size()) + " cells: " + x.label);
  Elem e; e.m = Mon(n); e.nm.resize(n); e.nmd.resize(n); e.build.resize(n); int bold = 0;
  auto mark = [&](const std::string& s, const char* t) { if (s.empty()) return false; if (s != t) c.fail("format", "mark '" + s + "' where '" + t + "' or nothing belongs"); return true; };
  for (int i = 0; i < n; i++) {
    std::string s = R[0].cell[i]; if (s.size() > 7 && s.substr(0, 3) == "<B>" && s.substr(s.size() - 4) == "</B>") { ++bold; s = s.substr(3, s.size() - 7); }
    if (s.empty() || s.find_first_not_of("0123456789") != std::string::npos) c.fail("format", "exponent '" + s + "'");
    e.m.e[i] = atoi(s.c_str()); e.nm[i] = mark(R[1].cell[i], "*"); if (nmd) e.nmd[i] = mark(R[2].cell[i], "#"); e.build[i] = mark(R.back().cell[i], "&amp;");
  }
  if (bold && bold != n) c.fail("format", "partly bold: " + x.label);
  e.gb = bold; return e;
}
static void walk(Case& c, Graph& g, std::string name, Mon prefix, int var, bool nmd, std::vector<Elem>& out, std::set<std::string>& seen) {
  int n = prefix.n(), last = -1; std::string next = name;
  while (next.size()) {
    Node& x = g.n[next]; if (!seen.insert(next).second) c.fail("shape", "a node is reached twice");
    if (var >= n) c.fail("shape", "path longer than the number of variables");
    if (x.shape != "plaintext") c.fail("format", "node drawn with the shape '" + x.shape + "'");
    int deg; Elem e; bool el = x.html;
    if (el) { e = element(c, x, n, nmd); deg = e.m.e[var]; } else { if (x.label.empty() || x.label.find_first_not_of("0123456789") != std::string::npos) c.fail("format", "inner node labelled '" + x.label + "'"); deg = atoi(x.label.c_str()); }
    if (deg <= last) c.fail("shape", "degrees along a chain do not ascend");
    last = deg; prefix.e[var] = deg;
    if (el) { if (e.m != prefix) c.fail("shape", "the path " + prefix.str() + " leads to " + e.m.str()); out.push_back(e); }
    std::string nv, nd; for (auto& k : x.out) { std::string& t = k.second ? nv : nd; if (t.size()) c.fail("shape", "two edges of one kind leave a node"); t = k.first; }
    if (nv.size()) walk(c, g, nv, prefix, var + 1, nmd, out, seen); else if (!el) c.fail("shape", "a leaf shows no element");
    next = nd;
  }
}
static void compare(Case& c, std::vector<Elem> got, std::vector<Elem> want, bool nmd) {
  Ord o; o.kind = LEX; auto less = [&](const Elem& a, const Elem& b) { return o(a.m, b.m) < 0; };
  for (auto& e : want) if (!nmd) e.nmd.assign(e.m.n(), false);
  for (size_t i = 1; i < got.size(); i++) if (o(got[i-1].m, got[i].m) >= 0) c.fail("shape", "elements are not drawn in ascending order");
  std::sort(want.begin(), want.end(), less);
  std::string a, b; for (auto& e : got) a += "\n  " + show(e); for (auto& e : want) b += "\n  " + show(e);
  if (a != b) c.fail("content", "drawn:" + a + "\nheld:" + b);
}
// the polynomial printed after "#HP = ", evaluated
static mpq_class value(Case& c, std::string s, int at) {
  mpq_class sum = 0; size_t p = 0; bool any = false; int sign = 1;
  if (s.empty()) return 0;
  while (p < s.size()) {
    if (any) { if (s.compare(p, 3, " + ") == 0) sign = 1; else if (s.compare(p, 3, " - ") == 0) sign = -1; else c.fail("hilbert", "cannot read '" + s + "'"); p += 3; }
    else if (s[p] == '-') { sign = -1; ++p; }
    size_t q = p; while (q < s.size() && (isdigit(s[q]) || s[q] == '/')) ++q; if (q == p) c.fail("hilbert", "cannot read '" + s + "'");
    mpq_class v(s.substr(p, q - p)); v.canonicalize(); int e = 0;
    if (q < s.size() && s[q] == 's') { if (s[q+1] != '^') c.fail("hilbert", "cannot read '" + s + "'"); q += 2; size_t z = q; while (z < s.size() && isdigit(s[z])) ++z; e = atoi(s.substr(q, z - q).c_str()); q = z; }
    for (int i = 0; i < e; i++) v *= at;
    sum += sign * v; p = q; any = true; sign = 1;
  }
  return sum;
}
static long standard(const std::vector<Elem>& W, int n, int s) {   // monomials up to degree s outside all Janet cones
  std::vector<Mon> U; for (auto& e : W) U.push_back(e.m); Flags nm; for (auto& u : U) nm.push_back(janetNM(u, U));
  long k = 0; for (int d = 0; d <= s; d++) monsOfDegree(n, d, [&](const Mon& m) { if (janetFind(m, U, nm) < 0) ++k; }); return k;
}
static long binomial(int a, int b) { long r = 1; for (int i = 1; i <= b; i++) r = r * (a - b + i) / i; return r; }

static void checkJanet(Case& c, const Janet& T, const std::vector<Elem>& want, int n, const char* format) {
  Graph g = drawn(c, format, "Janet", [&](const char* f, const char* p) { T.draw(f, p); });
  std::string head; std::vector<std::string> roots;
  for (auto& s : g.order) if (s.compare(0, 1, "#") == 0) { if (head.size()) c.fail("format", "two captions"); head = s; } else if (!g.n[s].in) roots.push_back(s);
  std::string pre = "#Janet = " + std::to_string(want.size()) + "\n#HP = ";
  if (head.compare(0, pre.size(), pre)) c.fail("caption", "'" + head + "' for " + std::to_string(want.size()) + " elements");
  if (g.n[head].out.size() || g.n[head].in) c.fail("shape", "the caption is linked to the tree");
  if (roots.size() != (want.empty() ? 0u : 1u)) c.fail("shape", std::to_string(roots.size()) + " roots");
  std::vector<Elem> got; std::set<std::string> seen; for (auto& r : roots) walk(c, g, r, Mon(n), 0, false, got, seen);
  if (seen.size() + 1 != g.n.size()) c.fail("shape", "nodes that are not reached from the root");
  compare(c, got, want, false);
  if (want.size()) {
    int d = 0; for (auto& e : want) d = std::max(d, e.m.deg());
    for (int s = d; s <= d + 1; s++) if (binomial(n + s, n) <= 5000) { mpq_class v = value(c, head.substr(pre.size()), s); long k = standard(want, n, s); if (v != k) c.fail("hilbert", "'" + head.substr(pre.size()) + "' at " + std::to_string(s) + " is " + v.get_str() + ", " + std::to_string(k) + " monomials lie outside the cones"); }
  }
}

static int cmpInt(int a, int b) { return (a > b) - (a < b); }
namespace { inline int cmpI(int a, int b) { return cmpInt(a, b); } }
static void rbtree(Case& c) {
  typedef GInv::RBTree<int, cmpI> T; Allocator A[1]; T t(A); std::set<int> keys; int range = c.chance(1, 4) ? 1000000 : 40;
  int ops = c.in(0, 40); bool asc = c.chance(1, 4); c.note("red-black tree\n");
  for (int i = 0; i < ops; i++) {
    int k = asc ? i - 5 : c.in(-range, range);
    if (keys.size() && c.chance(1, 4)) { auto it = keys.begin(); std::advance(it, c.draw(keys.size())); k = *it; if (c.coin()) { c.note("remove " + std::to_string(k) + "\n"); t.remove(k); keys.erase(k); continue; } }
    if (keys.count(k)) continue; c.note("insert " + std::to_string(k) + "\n"); t.insert(k); keys.insert(k);
  }
  int draws = c.in(1, 2);
  for (int q = 0; q < draws; q++) {
    Graph g = drawn(c, c.coin() ? "canon" : "dot", "RBTree", [&](const char* f, const char* p) { t.draw(f, p); });
    std::vector<std::string> roots; for (auto& s : g.order) if (!g.n[s].in) roots.push_back(s);
    if (roots.size() != 1) c.fail("shape", std::to_string(roots.size()) + " roots");
    std::vector<int> inorder; size_t leaves = 0; std::set<std::string> seen;
    std::function<int(const std::string&, bool)> go = [&](const std::string& s, bool redParent) -> int {
      Node& x = g.n[s]; if (!seen.insert(s).second) c.fail("shape", "a node is reached twice");
      if (s.compare(0, 7, "nullptr") == 0) { ++leaves; if (x.label != "nullptr" || x.shape != "box") c.fail("format", "leaf drawn as '" + x.label + "', '" + x.shape + "'"); if (x.out.size()) c.fail("shape", "a leaf has children"); return 1; }
      bool red = x.color == "firebrick1"; if (!red && x.color.size()) c.fail("format", "color '" + x.color + "'");
      if (red && redParent) c.fail("colors", "red node " + s + " below a red node");
      if (x.out.size() != 2 || x.out[0].second || x.out[1].second) c.fail("shape", "node " + s + " has " + std::to_string(x.out.size()) + " children");
      int l = go(x.out[0].first, red); inorder.push_back(atoi(s.c_str())); if (std::to_string(inorder.back()) != s) c.fail("format", "node called " + s); int r = go(x.out[1].first, red);
      if (l != r) c.fail("colors", "unequal black heights below " + s);
      return l + !red; };
    if (g.n[roots[0]].color == "firebrick1") c.fail("colors", "the root is red");
    go(roots[0], false);
    if (seen.size() != g.n.size()) c.fail("shape", "nodes that are not reached from the root");
    if (inorder != std::vector<int>(keys.begin(), keys.end())) { std::string s; for (int k : inorder) s += " " + std::to_string(k); c.fail("content", "keys drawn:" + s); }
    if (leaves != keys.size() + 1) c.fail("content", std::to_string(leaves) + " leaves for " + std::to_string(keys.size()) + " keys");
  }
  if (keys.size() >= 3) c.nontrivial(); c.label("red-black");
}
static Elem elem(const Wrap* w, const Mon& m, const Mon& anc) { Elem e; e.m = m; e.gb = m.deg() == anc.deg(); int n = m.n(); e.nm.resize(n); e.nmd.resize(n); e.build.resize(n); for (int v = 0; v < n; v++) e.build[v] = w->build(v); return e; }
static void setNM(std::vector<Elem>& W) { std::vector<Mon> U; for (auto& e : W) U.push_back(e.m); for (auto& e : W) e.nm = janetNM(e.m, U); }

static Mon rnd(Case& c, int n, int maxE) { Mon m(n); for (int i = 0; i < n; i++) m.e[i] = c.chance(1, 3) ? 0 : c.in(0, maxE); return m; }
static void tree(Case& c, const char* format) {
  int n = c.in(1, 5), maxE = c.in(1, 4), k = c.in(0, 14); Allocator A[1]; std::vector<Wrap*> owned; std::vector<Mon> anc; std::vector<Mon> U;
  c.note("tree n=" + std::to_string(n) + "\n");
  {
    Janet T(A);
    auto verify = [&] { std::vector<Elem> W; for (size_t i = 0; i < U.size(); i++) W.push_back(elem(owned[i], U[i], anc[i])); setNM(W); checkJanet(c, T, W, n, format); };
    if (k == 0 || c.chance(1, 8)) verify();
    for (int i = 0; i < k; i++) {
      Flags nm; for (auto& u : U) nm.push_back(janetNM(u, U));
      Wrap* w = nullptr; Mon m(n); Mon a;
      if (!U.empty() && c.coin()) {          // a prolongation
        size_t q = c.draw(U.size()); int v = c.draw(n); if (!owned[q]->NM(v) || owned[q]->build(v)) continue;
        m = U[q]; m.e[v]++; if (janetFind(m, U, nm) >= 0) { if (c.coin()) { c.note("mark " + U[q].str() + " by " + std::to_string(v) + "\n"); owned[q]->setBuild(v); } continue; }
        w = new Wrap(v, owned[q]); a = anc[q]; c.note("prolong " + U[q].str() + " by " + std::to_string(v) + "\n");
      } else {
        m = rnd(c, n, maxE); if (m.deg() == 0 && !U.empty()) continue; if (janetFind(m, U, nm) >= 0) continue;
        Allocator al[1]; MonomBox b(al, m); w = new Wrap(b.m); a = m; c.note("insert " + m.str() + "\n");
      }
      T.insert(w); owned.push_back(w); U.push_back(m); anc.push_back(a);
      if (m.deg() == 0) break;
    }
    verify(); if (c.chance(1, 3)) { Allocator B[1]; Janet S(B, T); c.note("copy\n"); std::vector<Elem> W; for (size_t i = 0; i < U.size(); i++) W.push_back(elem(owned[i], U[i], anc[i])); setNM(W); checkJanet(c, S, W, n, format); }
  }
  for (auto w : owned) delete w;
  if (U.size() >= 3) c.nontrivial(); if (U.empty()) c.label("empty"); c.label("tree");
}
static void forest(Case& c, const char* format) {
  int n = c.in(1, 4), maxE = c.in(1, 4), k = c.in(0, 8); Allocator A[1];
  struct E { Mon m, anc; int layer; std::vector<bool> nmd; Wrap* w; }; std::vector<E> all; c.note("forest n=" + std::to_string(n) + "\n");
  {
    GInv::GB F(A); struct Cand { Mon m; int layer, parent, var; }; std::vector<Cand> cand;
    for (int i = 0; i < k; i++) { Mon m = rnd(c, n, maxE); if (!m.deg()) m.e[c.draw(n)] = 1; cand.push_back({m, m.deg(), -1, 0}); }
    std::stable_sort(cand.begin(), cand.end(), [](const Cand& x, const Cand& y) { return x.layer < y.layer; });
    for (size_t q = 0; q < cand.size() && all.size() < 14; q++) {
      { Allocator al[1]; MonomBox b(al, cand[q].m); if (F.find(b.m)) continue; }    // lookups are the subject of another check
      { std::vector<Mon> U; for (auto& x : all) if (x.layer == cand[q].layer) U.push_back(x.m); Flags nm; for (auto& u : U) nm.push_back(janetNM(u, U)); if (janetFind(cand[q].m, U, nm) >= 0) continue; }
      E e; e.m = cand[q].m; e.layer = cand[q].layer; Allocator al[1];
      if (cand[q].parent < 0) { MonomBox b(al, e.m); e.w = new Wrap(b.m); e.anc = e.m; } else { if (all[cand[q].parent].w->build(cand[q].var)) continue; e.w = new Wrap(cand[q].var, all[cand[q].parent].w); e.anc = all[cand[q].parent].anc; }
      e.nmd.assign(n, false); for (auto& u : all) if (u.layer < e.layer) for (int v = 0; v < n; v++) if (u.m.e[v] > e.m.e[v]) { e.nmd[v] = true; break; }
      c.note("insert " + e.m.str() + " at " + std::to_string(e.layer) + "\n"); F.insert(e.w); all.push_back(e);
      if (c.coin()) for (int v = 0; v < n; v++) if ((e.w->NM(v) || e.w->NMd(v)) && !e.w->build(v)) { Mon m = e.m; m.e[v]++; cand.insert(cand.begin() + q + 1, {m, e.layer, (int)all.size() - 1, v}); break; }
    }
    Graph g = drawn(c, format, "GB", [&](const char* f, const char* p) { F.draw(f, p); });
    std::string head = "#GB = " + std::to_string(all.size()); if (!g.n.count(head)) c.fail("caption", "no '" + head + "'");
    if (g.n[head].out.size() || g.n[head].in) c.fail("shape", "the caption is linked to a tree");
    std::map<int, std::vector<Elem>> want; for (auto& e : all) { Elem x = elem(e.w, e.m, e.anc); x.nmd = e.nmd; want[e.layer].push_back(x); }
    std::set<std::string> seen; std::map<std::string, std::vector<Elem>> byRoot; for (auto& s : g.order) if (s != head && !g.n[s].in) walk(c, g, s, Mon(n), 0, true, byRoot[s], seen);
    if (seen.size() + 1 != g.n.size()) c.fail("shape", "nodes that are not reached from a root");
    if (byRoot.size() != want.size()) c.fail("shape", std::to_string(byRoot.size()) + " trees drawn for " + std::to_string(want.size()) + " layers");
    for (auto& l : want) { setNM(l.second); const std::vector<Elem>* got = nullptr; for (auto& b : byRoot) for (auto& x : b.second) if (x.m == l.second[0].m) got = &b.second; if (!got) c.fail("content", "no tree shows " + l.second[0].m.str()); compare(c, *got, l.second, true); }
  }
  for (auto& e : all) delete e.w;
  if (all.size() >= 3) c.nontrivial(); c.label("forest");
}
static void basis(Case& c, const char* format) {       // what is drawn for a computed basis
  gen::Sys s = c.chance(1, 3) ? gen::module(c, 1) : gen::ideal(c, 3, true, 1); c.note("basis of\n" + gen::show(s)); c.lenientHang();
  { bool any = false; for (auto& f : s.F) any = any || !f.zero(); if (!any) c.discard("no generators"); }
  JanetPolyInt J; for (auto& f : s.F) { Allocator al[1]; PolyInt p(al, ordCode(s.o), s.n); assign(p, f); J.push(p); }
  J.build(); if (J.isOne()) c.discard("unit ideal");
  std::map<int, std::vector<Elem>> W; long size = 0;
  for (auto i = J.begin(); i; ++i) { const Wrap* w = i.data(); W[w->lm().pos()].push_back(elem(w, mon(w->lm()), mon(w->ansector()))); if (++size > 60) c.discard("large"); }
  for (int p = -1; p <= J.maxPos(); p++) { auto V = W[p]; for (auto& e : V) e.m.pos = -1; setNM(V); checkJanet(c, J.janet(p), V, s.n, format); }
  if (size >= 3) c.nontrivial(); c.label("basis"); if (s.npos) c.label("module basis");
}
static void prop(Case& c) {
  const char* format = c.chance(1, 4) ? "dot" : "canon"; c.note(std::string("format ") + format + "\n");
  switch (c.weighted({3, 5, 4, 3})) { case 0: rbtree(c); break; case 1: tree(c, format); break; case 2: forest(c, format); break; default: basis(c, format); }
}
PBT_MAIN("C30", prop)
