"""Independent reference algebra for the Python harnesses, from the definitions only.

A monomial is (pos, (e0, ..., en-1)), pos -1 for none.  A polynomial is a dict
monomial -> non-zero Fraction/int."""
from fractions import Fraction
from itertools import product
from math import gcd


def mmul(a, b):
    return (a[0] if b[0] == -1 else b[0], tuple(x + y for x, y in zip(a[1], b[1])))


def divides(d, m):
    return d[0] == m[0] and all(x <= y for x, y in zip(d[1], m[1]))


def quo(m, d):
    return (-1, tuple(x - y for x, y in zip(m[1], d[1])))


def mlcm(a, b):
    return (a[0], tuple(max(x, y) for x, y in zip(a[1], b[1])))


def deg(m):
    return sum(m[1])


def key_e(kind, e):
    """ascending sort key of an exponent vector"""
    if kind == "lex":
        return e
    if kind == "deglex":          # degree, then reverse lexicographic
        return (sum(e),) + tuple(-x for x in reversed(e))
    if kind == "alex":            # local: small degree is large, then lex
        return (-sum(e),) + e
    raise ValueError(kind)


class Order:
    """posup: larger position is larger (C++ core); otherwise smaller position is larger
    and 'no position' is the smallest (pyginv)"""

    def __init__(self, mod, kind, posup):
        self.mod, self.kind, self.posup = mod, kind, posup

    def pk(self, p):
        return p if self.posup else (-10 ** 6 if p == -1 else -p)

    def key(self, m):
        return (self.pk(m[0]),) + key_e(self.kind, m[1]) if self.mod == "POT" else key_e(self.kind, m[1]) + (self.pk(m[0]),)

    def cmp(self, a, b):
        x, y = self.key(a), self.key(b)
        return (x > y) - (x < y)

    def lm(self, p):
        return max(p, key=self.key)

    def sorted(self, p):
        return sorted(p, key=self.key, reverse=True)


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def pscale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}


def pshift(a, m, k=1):
    return {mmul(x, m): c * k for x, c in a.items()}


def pmul(a, b):
    r = {}
    for x, c in a.items():
        for y, d in b.items():
            m = mmul(x, y)
            r[m] = r.get(m, 0) + c * d
    return {m: c for m, c in r.items() if c != 0}


def ppow(a, k, n):
    r = {(-1, (0,) * n): 1}
    for _ in range(k):
        r = pmul(r, a)
    return r


def content(p):
    g = 0
    for c in p.values():
        g = gcd(g, c)
    return g


def monic(p, o):
    if not p:
        return {}
    c = Fraction(p[o.lm(p)])
    return {m: Fraction(x) / c for m, x in p.items()}


def primitive(p, o):
    """integer multiple with content 1 and positive leading coefficient"""
    if not p:
        return {}
    den = 1
    for c in p.values():
        d = Fraction(c).denominator
        den = den * d // gcd(den, d)
    q = {m: int(Fraction(c) * den) for m, c in p.items()}
    g = content(q)
    if q[o.lm(q)] < 0:
        g = -g
    return {m: c // g for m, c in q.items()}


def remainder(p, G, o):
    """full reduction modulo monic G"""
    lms = [(o.lm(g), g) for g in G]
    p = {m: Fraction(c) for m, c in p.items()}
    r = {}
    while p:
        m = o.lm(p)
        for l, g in lms:
            if divides(l, m):
                c = p[m] / g[l]
                p = padd(p, pshift(g, quo(m, l)), -c)
                break
        else:
            r[m] = p.pop(m)
    return r


class TooBig(Exception):
    pass


def groebner(F, o, limit=400):
    """reduced Groebner basis (monic, ascending by leading monomial)"""
    G = [monic(f, o) for f in F if f]
    pairs = [(i, j) for j in range(len(G)) for i in range(j)]
    steps = 0
    while pairs:
        pairs.sort(key=lambda p: -deg(mlcm(o.lm(G[p[0]]), o.lm(G[p[1]]))))
        i, j = pairs.pop()
        a, b = o.lm(G[i]), o.lm(G[j])
        if a[0] != b[0]:
            continue
        l = mlcm(a, b)
        if o is not None and all(f[0] == -1 for g in (G[i], G[j]) for f in g) and deg(l) == deg(a) + deg(b):
            continue
        s = padd(pshift(G[i], quo(l, a)), pshift(G[j], quo(l, b)), -1)
        r = remainder(s, G, o)
        steps += 1
        if steps > limit:
            raise TooBig()
        if r:
            if any(abs(Fraction(c).numerator) > 10 ** 60 for c in r.values()):
                raise TooBig()
            G.append(monic(r, o))
            pairs += [(k, len(G) - 1) for k in range(len(G) - 1)]
    # minimal, reduced
    G = [g for k, g in enumerate(G) if not any(divides(o.lm(h), o.lm(g)) and (o.lm(h) != o.lm(g) or q < k) for q, h in enumerate(G) if q != k)]
    G = [monic(padd({o.lm(g): g[o.lm(g)]}, remainder({m: c for m, c in g.items() if m != o.lm(g)}, [h for h in G if h is not g], o)), o) for g in G]
    return sorted(G, key=lambda g: o.key(o.lm(g)))


def exps(n, d):
    """exponent vectors of degree at most d"""
    return [()] if n == 0 else [(k,) + e for k in range(d + 1) for e in exps(n - 1, d - k)]


def count_standard(lms, n, d, positions=(-1,)):
    return sum(1 for p in positions for e in exps(n, d) if not any(divides(l, (p, e)) for l in lms))


def janet_divisors(lms):
    """the multiplicative variables of each monomial of a set (same position), by definition:
    x_i is multiplicative for u if u_i is maximal among the elements that agree with u in
    the variables before i"""
    r = {}
    for u in lms:
        r[u] = [u[1][i] == max(v[1][i] for v in lms if v[0] == u[0] and v[1][:i] == u[1][:i]) for i in range(len(u[1]))]
    return r


def janet_find(lms, mult, m):
    f = [u for u in lms if divides(u, m) and all(mult[u][i] or u[1][i] == m[1][i] for i in range(len(m[1])))]
    return f
