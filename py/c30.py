"""Drawings made from Python: Janet trees of pyginv (saveImage) and of the extension's bases
(const_janet.draw) show the elements, their place in the tree, their marks and the Hilbert
polynomial."""
import os, re, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from harness import *
from fractions import Fraction
import ref

NAMES, FUNS = ["x", "y", "z", "t"], ["u", "v", "w"]


def hp_value(text, s):
    """the value of a printed polynomial in s: terms k/ls^e or ks^e/l"""
    if not text.strip():
        return None
    total = Fraction(0)
    t = text.replace(" ", "")
    parts = re.findall(r"[+-]?[^+-]+", t)
    need("".join(parts) == t, "hilbert", "cannot read '%s'" % text)
    for p in parts:
        m = re.fullmatch(r"([+-]?)(\d+(?:/\d+)?)?(s(?:\^(\d+))?)?(?:/(\d+))?", p)
        need(m and (m.group(2) or m.group(3)), "hilbert", "cannot read '%s'" % text)
        x = Fraction(m.group(2) or 1) * (s ** int(m.group(4) or 1) if m.group(3) else 1) / Fraction(m.group(5) or 1)
        total += -x if m.group(1) == "-" else x
    return total


class C30(Harness):
    hang = 20
    crash = True
    slow_is_failure = False

    def setup(self):
        import warnings
        warnings.simplefilter("ignore")
        # the graphviz module of the system's python
        sys.path.append("/usr/lib/python3/dist-packages")
        try:
            import gv
        finally:
            sys.path.pop()
        self.gv = gv
        if self.cfg.get("cyroot"):
            sys.path.insert(0, self.cfg["cyroot"])
            import ginv
            self.x = ginv
        sys.path.insert(0, os.path.join(self.cfg["repo"], "pyginv"))
        import janet
        self.j = janet

    def strategy(self):
        from hypothesis import strategies as st

        def shape(t):
            n, pos, kind = t
            n = max(n, 2) if kind == "basis" else n
            mono = st.lists(st.sampled_from([0, 0, 1, 1, 2, 3, 4]), min_size=n, max_size=n)
            if kind == "tree":
                ins = st.tuples(st.just("insert"), mono).map(list)
                op = st.one_of(ins, st.tuples(st.just("prolong"), st.integers(0, 20), st.integers(0, n - 1)), st.tuples(st.just("prolong"), st.integers(0, 20), st.integers(0, n - 1)),
                               st.tuples(st.just("mark"), st.integers(0, 20), st.integers(0, n - 1))).map(list)
                return st.fixed_dictionaries(dict(kind=st.just(kind), n=st.just(n), pos=st.just(pos), level=st.integers(0, 4), ext=st.sampled_from(["canon", "dot"]), ops=st.integers(0, 5).flatmap(lambda k: st.lists(op, max_size=6) if k == 0 else st.tuples(st.lists(ins, min_size=3, max_size=7), st.lists(op, min_size=2, max_size=12)).map(lambda x: x[0] + x[1]))))
            low = st.lists(st.integers(0, 2), min_size=n, max_size=n)
            term = st.tuples(st.integers(-3, 3).filter(bool), low, st.integers(0, 1) if pos >= 0 else st.just(-1)).map(list)
            return st.fixed_dictionaries(dict(kind=st.just(kind), n=st.just(n), pos=st.just(pos), ext=st.sampled_from(["canon", "dot"]), gens=st.lists(st.lists(term, min_size=1, max_size=2), min_size=2, max_size=4)))
        return st.tuples(st.integers(1, 4), st.sampled_from([-1, 0, 2]), st.sampled_from(["tree", "tree", "tree", "basis"])).flatmap(shape)

    def drawn(self, draw, ext):
        """(graph name, {node: (label, shape, [(head, style)])}, order of the nodes)"""
        gv = self.gv
        d = tempfile.mkdtemp(prefix="pbt_dot_")
        f = os.path.join(d, "tree." + ext)
        try:
            draw(f)
            need(os.path.exists(f), "format", "no file was written")
            g = gv.read(f)
        finally:
            if os.path.exists(f):
                os.unlink(f)
            os.rmdir(d)
        need(g is not None and gv.ok(g), "format", "the drawing is not a readable graph")
        nodes, order = {}, []
        v = gv.firstnode(g)
        while gv.ok(v):
            out, e = [], gv.firstout(v)
            while gv.ok(e):
                out.append((gv.nameof(gv.headof(e)), gv.getv(e, "style")))
                e = gv.nextout(v, e)
            nodes[gv.nameof(v)] = (gv.getv(v, "label"), gv.getv(v, "shape"), out)
            order.append(gv.nameof(v))
            v = gv.nextnode(g, v)
        name = gv.nameof(g)
        gv.rm(g)
        return name, nodes, order

    def walk(self, nodes, caption, element):
        """the elements in the order of the tree: element(label) gives None for an inner node,
        and otherwise (exponents, what is shown)"""
        heads = [h for x in nodes.values() for h, _ in x[2]]
        need(len(heads) == len(set(heads)), "shape", "a node has two parents")
        need(caption not in heads and not nodes[caption][2], "shape", "the caption is linked to the tree")
        roots = [x for x in nodes if x not in heads and x != caption]
        need(len(roots) <= 1, "shape", "%d roots" % len(roots))
        got, seen = [], {caption}

        def chain(name, prefix):
            last = -1
            while name:
                seen.add(name)
                label, shape, out = nodes[name]
                need(shape == "plaintext", "format", "node drawn with the shape '%s'" % shape)
                need(len(prefix) < self.n, "shape", "path longer than the number of variables")
                e = element(label)
                if e is None:
                    need(re.fullmatch(r"\d+", label), "format", "inner node labelled '%s'" % label)
                    d = int(label)
                else:
                    d = e[0][len(prefix)]
                    need(tuple(e[0]) == (prefix + (d,) + (0,) * self.n)[:self.n], "shape", lambda: "the path %s leads to %s" % (prefix + (d,), e[0]))
                    got.append(e)
                need(d > last, "shape", "degrees along a chain do not ascend")
                last = d
                by = {}
                for h, s in out:
                    need(s in ("solid", "dotted") and s not in by, "shape", lambda: "edges %s" % out)
                    by[s] = h
                if "dotted" in by:
                    chain(by["dotted"], prefix + (d,))
                else:
                    need(e is not None, "shape", "a leaf shows no element")
                name = by.get("solid")
        if roots:
            chain(roots[0], ())
        need(seen == set(nodes), "shape", "nodes that are not reached from the root")
        return got

    def outside(self, lms, s):
        M = ref.janet_divisors(lms)
        p = lms[0][0] if lms else -1
        return sum(1 for e in ref.exps(self.n, s) if not ref.janet_find(lms, M, (p, e)))

    def hilbert(self, text, lms):
        d = max([sum(l[1]) for l in lms], default=0)
        for s in (d, d + 1):
            if (s + 1) ** self.n < 12000:
                h = hp_value(text, s)
                if lms or self.strict:
                    h = h or 0           # the zero polynomial is printed as nothing
                    need(h == self.outside(lms, s), "hilbert", lambda: "'%s' at %d; %d monomials lie outside the cones of %s" % (text, s, self.outside(lms, s), lms))

    def run(self, v):
        if not 1 <= v["n"] <= 4 or v["pos"] not in (-1, 0, 2):
            raise Discard()
        self.n = v["n"]
        return self.tree(v) if v["kind"] == "tree" else self.basis(v)

    # ------------------------------------------------------------------ pyginv
    def tree(self, v):
        J, n, pos = self.j, self.n, v["pos"]
        self.strict = True
        J.Monom.cmp = J.Monom.TOPdeglex
        J.Poly.init(NAMES[:n], FUNS) if pos >= 0 else J.Poly.init(NAMES[:n])
        t = J.Janet()

        def lm(w):
            return (w.lm.position(), tuple(int(x) for x in tuple(w.lm)))

        def admissible(m):
            L = [lm(w) for w in t]
            return m not in L and not ref.janet_find(L, ref.janet_divisors(L), m) and sum(m[1]) <= 10
        prolonged = False
        for op in v["ops"]:
            if op[0] == "insert":
                if len(op[1]) != n or any(x < 0 for x in op[1]):
                    raise Discard()
                m = (pos, tuple(op[1]))
                if admissible(m):
                    t.insert([J.Wrap(J.Poly(J.Monom(op[1], pos=pos) if pos >= 0 else J.Monom(op[1])))])
            else:
                W = list(t)
                if not W or not 0 <= op[2] < n:
                    continue
                w = W[op[1] % len(W)]
                if not w.nonmult[op[2]] or w.prolong[op[2]]:
                    continue
                if op[0] == "mark":
                    w.prolong[op[2]] = True
                    continue
                m = (pos, tuple(x + (i == op[2]) for i, x in enumerate(lm(w)[1])))
                if admissible(m):
                    prolonged = True
                    t.insert([J.Wrap(w, op[2])])
        W = list(t)
        before = [(id(w), lm(w), list(w.nonmult), list(w.prolong)) for w in W]
        level = v["level"]
        name, nodes, order = self.drawn((lambda f: t.saveImage(f, level=level)) if level else t.saveImage, v["ext"])
        need("mark" in nodes, "caption", "there is none")
        need(before == [(id(w), lm(w), list(w.nonmult), list(w.prolong)) for w in t], "unchanged", "drawing changed the tree")

        def element(label):
            m = re.fullmatch(r"<(.*)>", label, re.S)
            if not m:
                return None
            L = m.group(1).split("<BR/>")
            b = re.fullmatch(r"<B>(.*)</B>", L[0])
            mono = re.fullmatch(r"\[(?:(\d+);)?([\d ]+)\]", b.group(1) if b else L[0])
            need(mono, "format", "label %s" % label)
            return (tuple(int(x) for x in mono.group(2).split()), bool(b), int(mono.group(1)) if mono.group(1) else -1, [x.strip() for x in L[1:]])
        got = self.walk(nodes, "mark", element)

        def marks(f):
            return " ".join("*" if x else "_" for x in f)
        want = []
        for w in W:
            M = ref.janet_divisors([lm(x) for x in W])
            extra = []
            if level >= 1:
                extra.append(marks(not x for x in M[lm(w)]))
            if level >= 2:
                extra.append(marks(w.prolong))
            if level >= 3:
                a = w.ansector
                extra.append("[%s%s]" % ("" if a.position() < 0 else "%d;" % a.position(), " ".join(str(x) for x in tuple(a))))
            want.append((lm(w)[1], lm(w) == (w.ansector.position(), tuple(w.ansector)), pos, extra))
        need([tuple(x) for x in got] == sorted(want, key=lambda x: x[0]), "content", lambda: "drawn %s, held %s" % (got, sorted(want, key=lambda x: x[0])))
        d = max([sum(lm(w)[1]) for w in W], default=0)
        cap = re.fullmatch(r"<<B>#Janet = (\d+)<BR/>HP_\{(\d+)\} = (.*)</B>>", nodes["mark"][0])
        need(cap and int(cap.group(1)) == len(W) and int(cap.group(2)) == d, "caption", lambda: "%s for %d elements up to degree %d" % (nodes["mark"][0], len(W), d))
        self.hilbert(cap.group(3), [lm(w) for w in W])
        labels = ["pyginv", "level %d" % level]
        if prolonged:
            labels.append("prolongations")
        if not W:
            labels.append("empty")
        return labels + (["nontrivial"] if len(W) >= 3 else [])

    # --------------------------------------------------------------- extension
    def basis(self, v):
        if not self.cfg.get("cyroot") or self.n < 2:
            raise Discard()
        x, n = self.x, self.n
        self.strict = False
        md = v["pos"] >= 0
        J = x.janet_poly_int()
        for t in v["gens"]:
            r = {}
            for c, e, q in t:
                if len(e) != n or q not in (-1, 0, 1) or (q == -1) == md or any(k < 0 for k in e) or not c:
                    raise Discard()
                r[q, tuple(e)] = r.get((q, tuple(e)), 0) + c
            p = None
            for (q, e), c in r.items():
                if c:
                    m = x.monom.zero(n, -1)
                    for i, k in enumerate(e):
                        if k:
                            m = m * x.monom.variable(i, n, -1) ** k
                    m.setPos(q)
                    u = x.poly_int.to_monom("TOP", "deglex", m) * c
                    p = u if p is None else p + u
            if p is not None:
                J.push(p)
        J.build()
        if not len(J) or J.isOne():
            raise Discard()
        W = {}
        for w in J:
            m = w.lm()
            a = w.ansector()
            W.setdefault(m.pos(), []).append((tuple(m), tuple(m) == tuple(a), [w.NM(i) for i in range(n)], [w.build(i) for i in range(n)]))
        if sum(map(len, W.values())) > 40:
            raise Discard()
        return self.trees(J, W, v)

    def trees(self, J, W, v):
        n = self.n
        for p in range(-1, J.maxPos() + 1):
            want = sorted(W.get(p, []))
            name, nodes, order = self.drawn(lambda f: J.janet(p).draw(v["ext"], f), v["ext"])
            caps = [k for k in nodes if k.startswith("#Janet = ")]
            need(len(caps) == 1, "caption", "captions %s" % caps)
            m = re.fullmatch(r"#Janet = (\d+)\s#HP = (.*)", caps[0].replace("\\n", "\n"), re.S)
            need(m and int(m.group(1)) == len(want), "caption", lambda: "%r for %d elements" % (caps[0], len(want)))

            def element(label):
                if not label.startswith("<"):
                    return None
                R = [[c for c in re.findall(r"<td>(.*?)</td>", r)] for r in re.findall(r"<tr>(.*?)</tr>", label)]
                need(len(R) == 3 and all(len(r) == n for r in R), "format", label)
                bold = [c.startswith("<B>") for c in R[0]]
                need(len(set(bold)) == 1, "format", label)
                need(set(R[1]) <= {"", "*"} and set(R[2]) <= {"", "&amp;"}, "format", label)
                return (tuple(int(re.sub("</?B>", "", c)) for c in R[0]), bold[0], [bool(c) for c in R[1]], [bool(c) for c in R[2]])
            got = self.walk(nodes, caps[0], element)
            need(got == want, "content", lambda: "drawn %s, held %s" % (got, want))
            self.hilbert(m.group(2), [(p, w[0]) for w in want])
        return ["extension"] + (["nontrivial"] if sum(map(len, W.values())) >= 3 else []) + (["module"] if v["pos"] >= 0 else [])


if __name__ == "__main__":
    main(C30, os.path.abspath(__file__))
