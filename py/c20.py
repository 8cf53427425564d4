"""The basis interface of the Python extension against reference Groebner bases."""
import gc, os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from harness import *
from fractions import Fraction
import ref


def katsura(n):
    def e(*i):
        return tuple(sum(k == a for a in i) for k in range(n + 1))
    F = [[[1, e(0)]] + [[2, e(i)] for i in range(1, n + 1)] + [[-1, e()]]]
    for m in range(n):
        d = {}
        for i in range(-n, n + 1):
            if -n <= m - i <= n:
                k = e(abs(i), abs(m - i)); d[k] = d.get(k, 0) + 1
        d[e(m)] = d.get(e(m), 0) - 1
        F.append([[c, k] for k, c in d.items() if c])
    return F


class C20(Harness):
    crash = True
    hang = 20
    slow_is_failure = False

    def setup(self):
        sys.path.insert(0, self.cfg["cyroot"])
        import ginv
        self.g = ginv

    def strategy(self):
        from hypothesis import strategies as st

        def shape(t):
            n, mod, kind, rank = t
            maxd = {2: 4, 3: 3, 4: 2}[n]
            term = st.tuples(st.integers(-5, 5).filter(bool), st.lists(st.integers(0, maxd), min_size=n, max_size=n).map(lambda e: self.cap(e, maxd)),
                             st.integers(0, rank - 1) if rank else st.just(-1)).map(list)
            poly = st.lists(term, min_size=1, max_size=4)
            op = st.one_of(st.tuples(st.just("push"), poly), st.tuples(st.just("push"), poly), st.tuples(st.just("combo"), st.integers(0, 9), st.integers(0, 9), poly),
                           st.tuples(st.just("build")), st.tuples(st.just("nf"), poly), st.tuples(st.just("member"), st.integers(0, 9), poly),
                           st.tuples(st.just("find"), st.lists(st.integers(0, 5), min_size=n, max_size=n), st.integers(-1, 3)),
                           st.tuples(st.just("hp")), st.tuples(st.just("keep"), st.integers(0, 9)), st.tuples(st.just("refuse"))).map(list)
            return st.fixed_dictionaries(dict(n=st.just(n), mod=st.just(mod), kind=st.just(kind), rank=st.just(rank),
                                              ops=st.lists(op, min_size=4, max_size=20 if self.thorough else 12)))
        usual = st.tuples(st.sampled_from([2, 3, 2, 3, 4]), st.sampled_from(["TOP", "POT"]), st.sampled_from(["lex", "deglex"]), st.sampled_from([0, 0, 2, 3])).flatmap(shape)
        timed = st.sampled_from(["TOP", "POT"]).map(lambda m: dict(timed=m))
        return st.integers(0, 199).flatmap(lambda x: timed if x == 77 else usual)

    @staticmethod
    def cap(e, d):
        e = list(e)
        while sum(e) > d + 1:
            i = e.index(max(e)); e[i] -= 1
        return e

    def model(self, terms, n):
        r = {}
        for c, e, p in terms:
            m = (p, tuple(e))
            r[m] = r.get(m, 0) + c
        return {m: c for m, c in r.items() if c}

    def make(self, r):
        """library polynomial of a model, built from monomials"""
        g, out = self.g, None
        for (p, e), c in r.items():
            m = g.monom.zero(len(e), -1)
            for i, k in enumerate(e):
                if k:
                    m = m * g.monom.variable(i, len(e), -1) ** k
            m.setPos(p)
            t = g.poly_int.to_monom(self.mod, self.kind, m) * c
            out = t if out is None else out + t
        return out

    @staticmethod
    def read(p):
        return {(m.pos(), tuple(m)): int(str(c)) for m, c in p}

    def run(self, v):
        g = self.g
        gc.collect()
        base = g.allocator.currMemory()
        try:
            return self.timed(v["timed"]) if "timed" in v else self.history(v)
        finally:
            if sys.exc_info()[0] is None:
                left = g.allocator.currMemory() - base
                need(left == 0, "memory", "%d bytes stay allocated after every object is gone" % left)

    def timed(self, mod):
        """the timer of a basis shows the time its build took"""
        k = 6 if self.cfg.get("variant") == "heap" else 7
        self.n, self.mod, self.kind = k + 1, mod, "deglex"
        j = self.g.janet_poly_int()
        for f in katsura(k):
            j.push(self.make({(-1, e): c for c, e in f}))
        c0 = os.times()
        j.build()
        c1 = os.times()
        used = c1.user - c0.user + c1.system - c0.system
        t = j.timer()
        del j
        gc.collect()
        shown = t.userTime() + t.sysTime()
        need(abs(shown - used) <= 0.1 + 0.25 * used, "timer", "a build that used %.2f s of CPU shows %.2f s" % (used, shown))
        return ["timed", "timed, over 0.3 s" if used > 0.2 else "timed, short"]

    def history(self, v):
        g, n, rank = self.g, v["n"], v["rank"]
        if n < 2 or v["kind"] not in ("lex", "deglex"):
            raise Discard()
        self.n, self.mod, self.kind = n, v["mod"], v["kind"]
        o = self.o = ref.Order(self.mod, self.kind, True)
        j = g.janet_poly_int()
        gens, built, G, dirty = [], 0, None, False
        keep, labels = [], set()
        nf_seen = 0
        todo = []
        for op in v["ops"]:
            if op[0] in ("push", "combo"):
                fresh = False
            elif op[0] == "build":
                fresh = True
            elif not todo or not fresh:      # queries need a built basis
                todo.append(["build"]); fresh = True
            todo.append(op)
        for op in todo + [["build"], ["hp"]]:
            k = op[0]
            if k in ("push", "combo"):
                if k == "push":
                    r = self.model(op[1], n)
                else:                     # redundant: a multiple of what is there already
                    if not gens:
                        continue
                    q = {(-1, m[1]): c for m, c in self.model(op[3], n).items()}
                    r = ref.padd(ref.pmul(gens[op[1] % len(gens)], q), gens[op[2] % len(gens)])
                    if len(r) > 12:
                        continue
                if any((m[0] == -1) != (rank == 0) or len(m[1]) != n for m in r):
                    raise Discard()
                if not r or len(gens) > 5:
                    continue
                p = self.make(r)
                need(j.comparable(p), "comparable", "a polynomial of the same ring")
                need(j.push(p) is j, "push", "push does not return the basis")
                need(self.read(p) == r, "push changes its argument", str(r))
                gens.append(r); dirty = True
            elif k == "build":
                if not gens:
                    j.build()
                    need(len(j) == 0 and not j and list(j) == [] and not j.isOne(), "empty basis")
                    continue
                c0 = os.times().user
                try:
                    G = ref.groebner(gens, o, 120)
                except ref.TooBig:
                    raise Discard()
                easy = os.times().user - c0 < 0.5
                if sum(len(x) for x in G) > 60:
                    raise Discard()
                self.must_finish(easy)
                j.build()
                built += 1; dirty = False
                self.basis(j, G)
            elif k in ("nf", "member"):
                if G is None or dirty:
                    continue
                if k == "nf":
                    r = self.model(op[1], n)
                else:
                    q = {(-1, m[1]): c for m, c in self.model(op[2], n).items()}
                    r = ref.pmul(gens[op[1] % len(gens)], q)
                if not r:
                    continue
                p = self.make(r)
                x = j.nf(p)
                need(x is p, "nf", "nf does not return its argument")
                got = self.read(p)
                exp = ref.primitive(ref.remainder(r, G, o), o)
                need(got == exp or got == ref.pscale(exp, -1), "normal form", lambda: "of %s is %s, expected %s" % (r, got, exp))
                need([(m.pos(), tuple(m)) for m, c in p] == o.sorted(got), "term order", lambda: str(got))
                need(self.read(j.nf(p)) == got, "normal form twice", lambda: str(got))
                self.basis(j, G, light=True)
                nf_seen += 1
            elif k == "find":
                if G is None or dirty or j.isOne():
                    continue
                m = (op[2] if rank else -1, tuple(op[1]))
                mm = g.monom.zero(n, -1)
                for i, e in enumerate(op[1]):
                    mm = mm * g.monom.variable(i, n, -1) ** e
                mm.setPos(m[0])
                lms = [(w.lm().pos(), tuple(w.lm())) for w in j]
                f = ref.janet_find(lms, ref.janet_divisors(lms), m)
                w = j.find(mm)
                need((w is None) == (not f), "find", lambda: "%s: %s, Janet divisors %s" % (m, w, f))
                if w is not None:
                    need((w.lm().pos(), tuple(w.lm())) == f[0], "find", lambda: "%s: %s, Janet divisor %s" % (m, w, f))
            elif k == "hp":
                if G is None or dirty or j.isOne() or not G:
                    continue
                self.hilbert(j, G)
                labels.add("hilbert")
            elif k == "keep":
                if G is None or dirty or not len(j):
                    continue
                w = list(j)
                if w:
                    w = w[op[1] % len(w)]
                    keep.append((w.poly(), w.lm(), w.poly().lc(), self.read(w.poly())))
            elif k == "refuse":
                if G is None or not len(j):
                    continue
                other = g.poly_int.to_monom(self.mod, self.kind, g.monom.zero(n + 1, -1))
                need(not j.comparable(other), "comparable", "a polynomial of another ring")
                for f in (lambda: j.push(other), lambda: j.nf(other)):
                    try:
                        f()
                    except AssertionError:
                        continue
                    raise Violation("refuse", "a polynomial of another ring is accepted")
                unset = [g.wrap_poly_int(), g.const_janet(), g.const_timer()]
                w9, v9 = g.monom.zero(n + 6, -1), g.monom.zero(n - 1 if n > 2 else n + 1, -1)
                for what, f in ([("%s of None" % x, lambda x=x: getattr(j, x)(None)) for x in ("push", "nf", "find", "comparable")]
                                + [("%s of an unset polynomial" % x, lambda x=x: getattr(j, x)(g.poly_int())) for x in ("push", "nf", "comparable")]
                                + [("find of an unset monomial", lambda: j.find(g.monom()))]
                                + [("find in %d variables" % len(x), lambda x=x: j.find(x)) for x in (w9, v9)]
                                + [("unset element %s" % x, lambda x=x: getattr(unset[0], x)()) for x in ("lm", "ansector", "isGB", "poly", "__str__")]
                                + [("unset element NM", lambda: unset[0].NM(0)), ("unset element build", lambda: unset[0].build(0))]
                                + [("unset tree %s" % x, lambda x=x: getattr(unset[1], x)()) for x in ("size", "HilbertPoly")]
                                + [("unset timer %s" % x, lambda x=x: getattr(unset[2], x)()) for x in ("userTime", "sysTime", "realTime", "__str__")]):
                    try:
                        f()
                    except (AssertionError, TypeError):
                        continue
                    raise Violation("refuse", what + " is accepted")
                for w in j:
                    try:
                        j.nf(w.poly())
                    except TypeError:
                        pass
                    for bad in (-1, n, n + 3):
                        for f in (w.NM, w.build):
                            try:
                                f(bad)
                            except (AssertionError, IndexError):
                                continue
                            raise Violation("index", "variable %d of %d" % (bad, n))
                    break
                if j.isOne():
                    for f in (lambda: j.janet(-1), lambda: j.HilbertPoly()):
                        try:
                            f()
                        except AssertionError:
                            continue
                        raise Violation("unit ideal", "shows a tree")
                elif not dirty:
                    self.basis(j, G, light=True)
            else:
                raise Discard()
            if keep and k in ("push", "combo", "build"):
                keep = []                  # the basis may have changed: old views are void
        # what is kept stays readable without the basis
        del j
        gc.collect()
        for p, m, c, r in keep:
            need(self.read(p) == r and (m.pos(), tuple(m)) == o.lm(r) and int(str(c)) == r[o.lm(r)], "kept element", lambda: str(r))
        if G is not None and len(G) >= 2 and built:
            labels.add("nontrivial")
        if rank:
            labels.add("module")
        if built > 1:
            labels.add("several builds")
        if G and G[0] == {(-1, (0,) * n): 1}:
            labels.add("unit ideal")
        if keep:
            labels.add("kept views")
        if nf_seen:
            labels.add("normal forms")
        return sorted(labels)

    def basis(self, j, G, light=False):
        o, n = self.o, self.n
        one = bool(G) and any(m[0] == -1 and sum(m[1]) == 0 for g in G for m in [o.lm(g)])
        need(j.isOne() == one, "isOne", "isOne() is %s, reduced basis %s" % (j.isOne(), G))
        need(bool(j) == (len(j) > 0), "truth of a basis")
        for c in ("reduction", "maxEqualLm", "critI", "critII", "isZeroNf"):
            need(getattr(j, c)() >= 0, "counter", c)
        if one:
            need(len(j) == 1, "size", "of the unit ideal is %d" % len(j))
            el = [(w.lm().pos(), tuple(w.lm()), self.read(w.poly())) for w in j]
            u = (-1, (0,) * n)
            need(el in ([u + ({u: 1},)], [u + ({u: -1},)]), "unit ideal", "iterates as %s" % el)
            return
        el = list(j)
        need(len(el) == len(j), "size", "len is %d, %d elements" % (len(j), len(el)))
        lms = []
        for w in el:
            p, l = w.poly(), (w.lm().pos(), tuple(w.lm()))
            r = self.read(p)
            need(o.lm(r) == l and [(m.pos(), tuple(m)) for m, _ in p] == o.sorted(r), "element", lambda: "%s with lm %s" % (r, l))
            need(not ref.remainder(r, G, o), "element", lambda: "%s is not in the ideal" % r)
            a = w.ansector()
            need(a.pos() == l[0] and all(x <= y for x, y in zip(a, l[1])), "ancestor", "%s of %s" % (a, l))
            need(w.isGB() == (tuple(a) == l[1]), "isGB", str(w))
            s = "%s%s[%s]" % (w.lm(), a, "".join("*" if w.NM(i) else " " for i in range(n)))
            need(str(w) == s, "element text", str(w))
            lms.append(l)
        need(len(set(lms)) == len(lms), "leading monomials", lambda: "repeat: %s" % lms)
        red = [o.lm(x) for x in G]
        for l in red:
            need(l in lms, "Groebner basis", lambda: "no element with leading monomial %s among %s" % (l, lms))
        if light:
            return
        mult = ref.janet_divisors(lms)
        for w, l in zip(el, lms):
            for i in range(n):
                need(w.NM(i) == (not mult[l][i]), "multiplicative variables", lambda: "variable %d of %s is marked %s among %s" % (i, l, w.NM(i), lms))
                if not mult[l][i]:
                    m = (l[0], tuple(x + (q == i) for q, x in enumerate(l[1])))
                    need(ref.janet_find(lms, mult, m), "involutive", lambda: "%s has no Janet divisor among %s" % (m, lms))
        top = max([l[0] for l in lms] + [-1])
        need(j.maxPos() >= top, "maxPos", "%d, positions up to %d" % (j.maxPos(), top))
        need(sum(j.janet(p).size() for p in range(-1, j.maxPos() + 1)) == len(lms), "janet sizes", lambda: str(lms))
        for bad in (-2, j.maxPos() + 1):
            try:
                j.janet(bad)
            except AssertionError:
                continue
            raise Violation("janet", "position %d is accepted" % bad)

    @staticmethod
    def value(c, s):
        return sum(Fraction(x) * s ** i for i, x in enumerate(c))

    def hilbert(self, j, G):
        o, n = self.o, self.n
        lms = [o.lm(x) for x in G]
        all_lms = [(w.lm().pos(), tuple(w.lm())) for w in j]
        d = max(map(ref.deg, all_lms))
        for p in sorted({l[0] for l in lms}):
            hp = j.HilbertPoly() if p == -1 else j.janet(p).HilbertPoly()
            need(len(hp) == n + 1, "hilbert", "%d coefficients for %d variables" % (len(hp), n))
            for s in (d, d + 1):
                if (s + 1) ** n > 12000:
                    break
                need(self.value(hp, s) == ref.count_standard([l for l in lms if l[0] == p], n, s, (p,)), "hilbert",
                     lambda: "%s at %d, leading monomials %s" % (hp, s, lms))
            if p == -1:
                need(j.janet(-1).HilbertPoly() == hp, "hilbert", "of the basis %s, of its tree %s" % (hp, j.janet(-1).HilbertPoly()))

    def show(self, v):
        if "timed" in v:
            return "timed katsura, " + v["timed"]

        def pl(t):
            return " + ".join("%d*%s%s" % (c, "" if p < 0 else "e%d" % p, tuple(e)) for c, e, p in t)
        return "%d variables, rank %d, %s %s: " % (v["n"], v["rank"], v["mod"], v["kind"]) + "; ".join(" ".join(pl(x) if isinstance(x, list) and x and isinstance(x[0], list) else str(x) for x in op) for op in v["ops"])


if __name__ == "__main__":
    main(C20, os.path.abspath(__file__))
