"""pyginv Janet trees and forests: histories of insertions, lookups and prolongations against
the definition of Janet division."""
import os, sys
from math import comb
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from harness import *
from fractions import Fraction
import ref

NAMES, FUNS = ["x", "y", "z", "t", "x5", "x6", "x7", "x8", "x9"], ["u", "v", "w"] + ["f%d" % i for i in range(3, 13)]
ORDERS = ["POTlex", "TOPlex", "POTdeglex", "TOPdeglex"]


class C23(Harness):
    hang = 30

    def setup(self):
        import warnings
        warnings.simplefilter("ignore")
        sys.path.insert(0, os.path.join(self.cfg["repo"], "pyginv"))
        import janet
        self.j = janet

    def strategy(self):
        from hypothesis import strategies as st

        def shape(t):
            n, rank, kind, far = t
            ex = st.sampled_from([0, 0, 0, 1, 1, 2, 3, 5, 9, 14, 15, 16, 33]) if far else st.sampled_from([0, 0, 1, 1, 2, 3, 4])
            mono = st.tuples(st.integers(0, rank - 1) if rank else st.just(-1), st.lists(ex, min_size=n, max_size=n)).map(list)
            tail = st.lists(st.tuples(st.integers(-3, 3).filter(bool), mono).map(list), max_size=2) if kind == "cache" else st.just([])
            op = st.one_of(st.tuples(st.just("insert"), st.lists(st.tuples(mono, tail).map(list), min_size=1, max_size=4)), st.tuples(st.just("insert"), st.lists(st.tuples(mono, tail).map(list), min_size=1, max_size=2)),
                           st.tuples(st.just("find"), mono), st.tuples(st.just("deg"), st.integers(0, 6)), st.tuples(st.just("monom"), mono), st.tuples(st.just("all")),
                           st.tuples(st.just("wrap"), st.integers(0, 20), st.integers(0, n - 1)), st.tuples(st.just("mindeg")), st.tuples(st.just("back"), st.integers(0, 5)),
                           st.tuples(st.just("insert"), st.lists(st.tuples(mono, tail).map(list), min_size=3, max_size=16 if far else 6)), st.tuples(st.just("find"), mono)).map(list)
            last = st.one_of(st.just([]), st.just([]), st.just([]), st.tuples(st.just("setnm"), st.tuples(st.just(-1 if not rank else 0), st.lists(st.integers(3, 36 if far else 6), min_size=n, max_size=n)).map(list)).map(lambda x: [list(x)]))
            return st.fixed_dictionaries(dict(n=st.just(n), rank=st.just(rank), far=st.just(far), kind=st.just(kind), forest=st.booleans() if rank == 1 else st.just(rank > 1), cmp=st.sampled_from(ORDERS),
                                              ops=st.tuples(st.lists(op, min_size=3, max_size=25 if self.thorough else 14), last).map(lambda x: x[0] + x[1])))
        usual = st.tuples(st.integers(1, 4), st.sampled_from([0, 0, 1, 2, 3]), st.sampled_from(["plain", "plain", "cache"]), st.just(False))
        far = st.tuples(st.integers(1, 9), st.sampled_from([0, 0, 1, 2, 3, 12]), st.sampled_from(["plain", "plain", "cache"]), st.just(True))
        return st.one_of(usual, usual, usual, far).flatmap(shape)

    def mono(self, r):
        return self.j.Monom(r[1], pos=r[0]) if r[0] >= 0 else self.j.Monom(r[1])

    @staticmethod
    def rd(m):
        return (m.position(), tuple(int(x) for x in tuple(m)))

    def run(self, v):
        J, n, rank = self.j, v["n"], v["rank"]
        if not 1 <= n <= 9 or not 0 <= rank <= 13 or v["cmp"] not in ORDERS or (rank == 0 and v["forest"]) or (rank > 1 and not v["forest"]):
            raise Discard()
        J.Monom.cmp = getattr(J.Monom, v["cmp"])
        o = self.o = ref.Order(v["cmp"][:3], v["cmp"][3:], False)
        J.Poly.init(NAMES[:n], FUNS[:rank]) if rank else J.Poly.init(NAMES[:n])
        cls = J.JanetCache if v["kind"] == "cache" else J.Janet
        tree = J.Forest(cls) if v["forest"] else cls()
        need(tree.is_forest() == v["forest"], "is_forest")
        parts = [tree[p] for p in range(rank)] if v["forest"] else [tree]
        self.tree, self.n, self.rank, self.v = tree, n, rank, v
        E = []               # model: dict(w, lm, pro, anc, poly)
        out, seen, labels = [], [], set()
        lookups = 0
        removed_total = 0
        far = bool(v.get("far"))
        cap = 200 if far else 10

        def mult():
            return ref.janet_divisors([e["lm"] for e in E])

        def check(what):
            got = list(tree)
            need(sorted(id(w) for w in got) == sorted(id(e["w"]) for e in E), "elements", lambda: "%s: %s, expected %s" % (what, [w.lm for w in got], [e["lm"] for e in E]))
            M = mult()
            for e in E:
                w = e["w"]
                need(self.rd(w.lm) == e["lm"], "leading monomial", lambda: "%s: %r is %s" % (what, w.lm, e["lm"]))
                nm = [not x for x in M[e["lm"]]]
                if not e.get("forced"):
                    need(list(w.nonmult) == nm, "non-multiplicative variables", lambda: "%s: %s has %s, by definition %s; tree %s" % (what, e["lm"], w.nonmult, nm, [x["lm"] for x in E]))
                need(list(w.prolong) == e["pro"], "prolongation marks", lambda: "%s: %s has %s, expected %s" % (what, e["lm"], w.prolong, e["pro"]))
                need(self.rd(w.ansector) == e["anc"], "ancestor", lambda: "%s: %s has %r, expected %s" % (what, e["lm"], w.ansector, e["anc"]))
                need(w.isGB() == (e["lm"] == e["anc"]) and w.degree() == sum(e["lm"][1]) and w.multi() == sum(1 for x in w.nonmult if not x), "element reading", str(e["lm"]))
            gb = [id(w) for w in tree.GB()]
            need(sorted(gb) == sorted(id(e["w"]) for e in E if e["lm"] == e["anc"]), "GB", lambda: "%s: %s" % (what, [w.lm for w in tree.GB()]))
            need(tree.count() == len(E), "count", lambda: "%s: %d, expected %d" % (what, tree.count(), len(E)))

        def hp():
            for k, part in enumerate(parts):
                pos = k if v["forest"] else -1 if not rank else 0
                mine = [e["lm"] for e in E if e["lm"][0] == pos] if v["forest"] else [e["lm"] for e in E]
                if any(e.get("forced") for e in E):
                    return
                M = ref.janet_divisors(mine)
                d0 = max([sum(m[1]) for m in mine], default=0)
                for s in range(d0, d0 + 2):
                    # Janet cones do not meet
                    cnt = comb(n + s, n) - sum(comb(s - sum(m[1]) + sum(M[m]), sum(M[m])) for m in mine)
                    if comb(n + s, n) < 1200:
                        need(cnt == sum(1 for e in ref.exps(n, s) if not ref.janet_find(mine, M, (mine[0][0] if mine else pos, e))), "harness", "cones")
                    need(part.HP().subs(s) == cnt, "Hilbert polynomial", lambda: "%s at %d, standard monomials %d, set %s" % (part.HP(), s, cnt, mine))
            if v["forest"]:
                for k in range(-1, rank + 1):
                    h = [parts[i].HP().subs(11) for i in range(rank)]
                    need((tree.HP() if k == -1 else tree.HP(verge=k)).subs(11) == sum(h if k == -1 else h[:k]), "Hilbert polynomial of the forest", "verge %d" % k)

        def place(w, lm, anc, pro, poly):
            i = next((k for k in range(n) if sum(lm[1][:k + 1]) == sum(lm[1])), 0)
            gone = [e for e in E if e["lm"][0] == lm[0] and e["lm"][1][:i] == lm[1][:i] and e["lm"][1][i] >= lm[1][i]]
            E[:] = [e for e in E if e not in gone]
            E.append(dict(w=w, lm=lm, anc=anc, pro=pro, poly=poly))
            return gone

        def new(lm, tail):
            p = J.Poly(self.mono(lm))
            for c, t in tail:
                t = (t[0], tuple(t[1]))
                if o.cmp(t, lm) < 0:
                    p = p + J.Poly(self.mono(t)) * c
            return p

        for op in v["ops"]:
            k = op[0]
            if k in ("insert", "back"):
                batch, ids, gone = [], set(), []
                if k == "back":          # what an earlier insertion threw out, when its place is free again
                    if not out:
                        continue
                    e = out.pop(op[1] % len(out))
                    if ref.janet_find([x["lm"] for x in E], mult(), e["lm"]):
                        continue
                    batch.append(e["w"])
                    e["w"].nonmult = [False] * n
                    gone += place(e["w"], e["lm"], e["anc"], e["pro"], e["poly"])
                else:
                    for m, tail in op[1]:
                        lm = (m[0], tuple(m[1]))
                        if len(lm[1]) != n or (lm[0] == -1) != (rank == 0) or lm[0] >= rank or any(x < 0 for x in lm[1]) or any((t[0] == -1) != (rank == 0) or t[0] >= rank or len(t[1]) != n for _, t in tail):
                            raise Discard()
                        if ref.janet_find([x["lm"] for x in E], mult(), lm):
                            continue
                        if any(x["lm"] == lm for x in E) or sum(lm[1]) > cap:
                            continue
                        if v["forest"] is False and rank == 1 and lm[0] != 0:
                            raise Discard()
                        p = new(lm, tail)
                        R = {(self.rd(a)): Fraction(int(b)) for a, b in p}
                        w = J.Wrap(p)
                        need(self.rd(w.lm) == lm and self.rd(w.ansector) == lm and not any(w.prolong) and not any(w.nonmult) and w.poly == p, "new element", str(lm))
                        seen.append(R)
                        batch.append(w)
                        g = place(w, lm, lm, [False] * n, R)
                        gone += g
                if not batch:
                    continue
                got = tree.insert(batch if k == "insert" else iter(batch))
                need(sorted(id(w) for w in got) == sorted(id(e["w"]) for e in gone), "thrown out", lambda: "%s inserted: %s thrown out, expected %s" % ([w.lm for w in batch], [w.lm for w in got], [e["lm"] for e in gone]))
                # an element inserted and thrown out by the same call is returned as well
                out += gone
                removed_total += len(gone)
                if gone:
                    labels.add("thrown out")
            elif k == "setnm":
                m = (op[1][0], tuple(op[1][1]))
                if not E or v["forest"] or len(m[1]) != n or any(x["lm"][0] != m[0] or all(a >= b for a, b in zip(x["lm"][1], m[1])) for x in E):
                    continue
                tree.setNonmut(self.mono(m))
                for e in E:
                    i = next(i for i in range(n) if e["lm"][1][i] < m[1][i])
                    need(e["w"].nonmult[i], "setNonmut", "%s by %s" % (e["lm"], m))
                    e["forced"] = True
                labels.add("setNonmut")
                break
            elif k == "find":
                m = (op[1][0], tuple(op[1][1]))
                box = [m] + self.around(m, E, far) if len(m[1]) == n and (m[0] == -1) == (rank == 0) and m[0] < rank else []
                M, lms = mult(), [e["lm"] for e in E]
                for q in box:
                    f = ref.janet_find(lms, M, q)
                    need(len(f) <= 1, "two Janet divisors", lambda: "%s of %s" % (f, q))
                    c0 = tree.reduction()
                    w = tree.findWrap(self.mono(q))
                    need((w is None) == (not f) and (w is None or self.rd(w.lm) == f[0]), "lookup", lambda: "%s: found %s, Janet divisors %s of %s" % (q, w and w.lm, f, lms))
                    need(c0 <= tree.reduction() <= c0 + 1, "lookup counter", "%d to %d" % (c0, tree.reduction()))
                    if v["kind"] == "plain":
                        p = tree.find(self.mono(q))
                        need((p is None) == (not f) and (p is None or p is w.poly), "find", str(q))
                    lookups += 1
                if v["kind"] == "cache" and box:
                    self.cached(m, E, M, lms, seen)
                if rank:
                    if v["forest"]:
                        need(tree.find(J.Monom((0,) * n)) is None, "find", "a monomial without position")
            elif k == "mindeg":
                d = [sum(e["lm"][1]) for e in E for i in range(n) if e["w"].nonmult[i] and not e["pro"][i]]
                need(tree.degMinProlong() == min(d, default=0), "degMinProlong", lambda: "%d, expected %d" % (tree.degMinProlong(), min(d, default=0)))
            elif k in ("deg", "monom", "all"):
                if len(E) > (40 if far else 25):
                    continue
                if k == "deg" and far and op[1] and E:
                    op = [k, sum(E[op[1] % len(E)]["lm"][1])]
                lim = (op[1][0], tuple(op[1][1])) if k == "monom" else None
                if lim and (len(lim[1]) != n or (lim[0] == -1) != (rank == 0) or lim[0] >= rank):
                    raise Discard()
                want = []
                for e in E:
                    for i in range(n):
                        x = ref.mmul(e["lm"], (-1, tuple(int(s == i) for s in range(n))))
                        if e["w"].nonmult[i] and not e["pro"][i] and (k == "all" or k == "deg" and op[1] in (0, sum(e["lm"][1])) or lim and o.cmp(x, lim) <= 0):
                            want.append((x, e["anc"], frozenset(ref.pshift(self.poly(e["w"].poly), (-1, tuple(int(s == i) for s in range(n)))).items())))
                            e["pro"][i] = True
                ws = tree.prolongAll() if k == "all" else tree.prolongDeg(op[1]) if k == "deg" else tree.prolongMonom(self.mono(lim))
                got = [(self.rd(w.lm), self.rd(w.ansector), frozenset(self.poly(w.poly).items())) for w in ws]
                need(sorted(map(str, got)) == sorted(map(str, want)), "prolongations", lambda: "%s: %s, expected %s" % (op, [g[0] for g in got], [g[0] for g in want]))
                need(all(not any(w.prolong) and not any(w.nonmult) for w in ws), "prolongation marks", "of new elements")
                if ws:
                    labels.add("prolonged")
                # enter those without divisor
                for w in ws[:6]:
                    lm = self.rd(w.lm)
                    if not ref.janet_find([x["lm"] for x in E], mult(), lm) and sum(lm[1]) <= cap:
                        seen.append(self.poly(w.poly))
                        gone = place(w, lm, self.rd(w.ansector), [False] * n, self.poly(w.poly))
                        got = tree.insert([w])
                        need(sorted(map(id, got)) == sorted(id(e["w"]) for e in gone), "thrown out", lambda: "%s" % (lm,))
                        out += gone
            elif k == "wrap":
                if not E:
                    continue
                e = E[op[1] % len(E)]
                i = op[2] % n
                try:
                    w = J.Wrap(e["w"], i)
                except AssertionError:
                    need(e["pro"][i] or not e["w"].nonmult[i], "prolongation refused", "%s by %d" % (e["lm"], i))
                    continue
                need(not e["pro"][i] and e["w"].nonmult[i], "prolongation twice or by a multiplicative variable", "%s by %d" % (e["lm"], i))
                e["pro"][i] = True
            check(op)
        hp()
        if len(E) >= 3 and lookups:
            labels.add("nontrivial")
        labels.add("large") if far else 0; labels.add(v["kind"]); labels.add("forest" if v["forest"] else "tree")
        return list(labels)

    def around(self, m, E, far):
        n = self.n
        if not far:
            return [(m[0], e) for e in ref.exps(n, 3 if n < 4 else 2)]
        r = []
        for e in E[:24]:
            p, a = e["lm"]
            for i in range(n):
                for d in (-1, 1, 2):
                    b = list(a); b[i] += d
                    if b[i] >= 0:
                        r.append((p, tuple(b)))
            r.append((p, tuple(map(max, a, m[1])))); r.append((p, tuple(x + y for x, y in zip(a, m[1]))))
        return r

    def poly(self, p):
        return {self.rd(m): Fraction(int(c.p), int(c.q)) for m, c in p}

    def cached(self, m, E, M, lms, seen):
        """JanetCache.find: an element of the ideal with that leading monomial and a reduced tail"""
        f = ref.janet_find(lms, M, m)
        r = self.tree.find(self.mono(m))
        need((r is None) == (not f), "find", str(m))
        if r is None:
            return
        P = self.poly(r)
        need(self.o.lm(P) == m, "find", lambda: "%s gives an element with leading monomial %s" % (m, self.o.lm(P)))
        if f[0] == m:
            need(r is self.tree.findWrap(self.mono(m)).poly, "find", "the element itself")
        for t in P if f[0] != m else ():
            need(t == m or not ref.janet_find(lms, M, t), "reduced tail", lambda: "%s in %s" % (t, P))
        try:
            G = ref.groebner(seen, self.o, 60)
        except ref.TooBig:
            return
        need(not ref.remainder(P, G, self.o), "find", lambda: "%s is not in the ideal" % r)
        r2 = self.tree.find(self.mono(m))
        need(self.poly(r2) == P, "find twice", str(m))


main(C23, os.path.abspath(__file__))
