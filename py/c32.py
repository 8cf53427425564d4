"""Random monomials of the Python extension: in range, degrees uniform, every variable equally likely."""
import math, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from harness import *

READY = False


def fair(obs, exp, what):
    """far beyond any chance fluctuation (probability below 1e-15)"""
    if len(obs) < 2 or min(exp) < 20:
        return
    x = sum((o - e) ** 2 / e for o, e in zip(obs, exp)); d = len(obs) - 1
    need(x <= d + 12 * math.sqrt(2 * d) + 70, "distribution", "%s: chi-square %.0f with %d degrees of freedom, observed %r" % (what, x, d, obs[:20]))


class C32(Harness):
    crash = True
    hang = 20

    def setup(self):
        sys.path.insert(0, self.cfg["cyroot"])
        import ginv
        self.g = ginv

    def strategy(self):
        from hypothesis import strategies as st
        rng = st.tuples(st.one_of(st.integers(2, 6), st.integers(2, 60)), st.integers(1, 12), st.integers(1, 12), st.integers(1, 40), st.booleans()).map(list)
        return st.fixed_dictionaries(dict(rounds=st.lists(rng, min_size=1, max_size=4), bad=st.lists(st.sampled_from([0, 1, 2, 3]), max_size=2), perm=st.integers(-3, 30)))

    def refused(self, f, what):
        try:
            f()
        except AssertionError:
            return
        need(False, "domain", what + " was accepted")

    def run(self, v):
        global READY
        g = self.g; labels = []
        if not all(len(r) == 5 and r[0] >= 2 and r[1] >= 1 and r[2] >= 1 and r[3] >= 1 for r in v["rounds"]):
            raise Discard()
        if not READY:
            self.refused(g.monom.next, "a random monomial before rand_init")
        if v["perm"] <= 0:
            self.refused(lambda: g.randpermutation(v["perm"]), "a permutation of %d elements" % v["perm"])
        else:
            p = g.randpermutation(v["perm"]); p.next()
            need(len(p) == v["perm"] and sorted(p[i] for i in range(len(p))) == list(range(v["perm"])), "permutation", "not a permutation")
        kept = []
        for n, d1, w, steps, stat in v["rounds"]:
            d2 = d1 + w
            for b in v["bad"]:      # refused, and what was set before still holds
                self.refused(lambda: g.monom.rand_init(*[(0, 1, 2), (3, 0, 2), (3, -2, 2), (3, 5, 4)][b]), "rand_init with bad arguments")
            g.monom.rand_init(n, d1, d2); READY = True
            N = max(1200, 40 * (w + 1)) if stat else steps
            deg = [0] * (w + 1); tot = [0] * n; units = 0
            for i in range(N):
                m = g.monom.next(); e = list(m)
                need(len(m) == n and len(e) == n and m.pos() == -1 and m.degree() == sum(e) and min(e) >= 0, "monomial", "%r in %d variables" % (m, n))
                need(d1 <= sum(e) <= d2, "range", "%s is outside degrees %d..%d" % (m, d1, d2))
                deg[sum(e) - d1] += 1; units += sum(e)
                for k in range(n):
                    tot[k] += e[k]
                if i % 50 == 0:
                    kept.append((m, e))
            if stat:
                fair(deg, [N / (w + 1)] * (w + 1), "degrees"); fair(tot, [units / n] * n, "choices of each variable")
                labels.append("statistics")
        for m, e in kept:
            need(list(m) == e, "independence", "drawing changed an earlier monomial")
        if len(v["rounds"]) > 1:
            labels.append("re-initialised")
        return labels + ["nontrivial"]

    def show(self, v):
        return "rounds (variables, least degree, width, draws, statistics): %r, permutation of %d" % (v["rounds"], v["perm"])


if __name__ == "__main__":
    main(C32, os.path.abspath(__file__))
