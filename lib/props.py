"""What runs for each property: harnesses, build variants, case budgets."""


def H(name, variant, quick, thorough, **kw):
    return dict(name=name, variant=variant, quick=dict(cases=quick[0], time=quick[1]), thorough=dict(cases=thorough[0], time=thorough[1]), **kw)


def PY(name, quick, thorough, **kw):
    return dict(name=name, quick=dict(cases=quick[0], time=quick[1]), thorough=dict(cases=thorough[0], time=thorough[1]), **kw)


BIG = 2000000000
MREF = "larger systems: reference Groebner bases modulo two 61-bit primes in /verif/src/mref.h; cases over 4 s of CPU are inconclusive (labelled)"
REF = "reference Buchberger implementation and exact polynomials in /verif/src/ref.h (GMP)"
PROPS = {}
PROPS["C01"] = dict(
    cpp=[H("p_c01", "arena", (100000, 100), (BIG, 900)), H("p_c01b", "plain", (100000, 30), (BIG, 600), hang=4)],
    rule="random polynomial systems; non-trivial: proper ideal whose reduced Groebner basis has at least 2 elements",
    assumptions=[REF, MREF],
)
PROPS["C02"] = dict(
    cpp=[H("p_c02", "arena", (100000, 100), (BIG, 900)), H("p_c02b", "plain", (100000, 30), (BIG, 600), hang=4)],
    rule="random generating sets of submodules of rank 2-3; non-trivial: the reduced Groebner basis has at least 2 elements",
    assumptions=[REF, MREF],
)
PROPS["C03"] = dict(
    cpp=[H("p_c03", "arena", (200000, 60), (BIG, 900), hang=10), H("p_c03b", "plain", (100000, 30), (BIG, 600), hang=4)],
    rule="random ideals/submodules with 1-4 reduction targets; non-trivial: proper, at least one generator and one target decided",
    assumptions=[REF, MREF],
)
PROPS["C04"] = dict(
    cpp=[H("p_c04", "arena", (20000, 90), (BIG, 900), hang=10)],
    rule="systems with a planted certificate, root or factor; non-trivial: at least two generators, not all zero",
    assumptions=["cases whose completion exceeds 10 s of CPU are inconclusive (labelled)"],
)
PROPS["C05"] = dict(
    cpp=[H("p_c05", "arena", (60000, 60), (BIG, 900), hang=10), H("p_c05b", "plain", (100000, 30), (BIG, 600), hang=4)],
    rule="random proper ideals/submodules; non-trivial: reduced Groebner basis with at least 2 elements",
    assumptions=[REF, MREF],
)
PROPS["C06"] = dict(
    cpp=[H("p_c06", "arena", (60000, 60), (BIG, 900), hang=10), H("p_c06b", "plain", (100000, 30), (BIG, 600), hang=4)],
    rule="call histories of up to 24 steps; non-trivial: at least two builds and a reduced Groebner basis with at least 2 elements",
    assumptions=[REF, MREF],
)
PROPS["C07"] = dict(
    cpp=[H("p_c07", "arena", (400000, 40), (BIG, 450)), H("p_c07", "heap", (300000, 40), (BIG, 450))],
    rule="operation histories over 2-4 polynomials; non-trivial: at least two operations were applied",
    assumptions=["GMP as exact arithmetic"],
)
PROPS["C08"] = dict(
    cpp=[H("p_c08", "arena", (500000, 40), (BIG, 450)), H("p_c08", "heap", (200000, 30), (BIG, 450))],
    rule="reduction, elimination, primitive part and normal form calls; non-trivial: the operation had to change the polynomial",
    assumptions=["GMP as exact arithmetic"],
)
PROPS["C09"] = dict(
    cpp=[H("p_c09", "arena", (1000000, 40), (BIG, 450)), H("p_c09", "heap", (300000, 30), (BIG, 450))],
    rule="operation histories over 2-4 monomials; non-trivial: at least two operations were applied",
)
PROPS["C10"] = dict(
    cpp=[H("p_c10", "arena", (1000000, 40), (BIG, 600))],
    rule="triples of monomials with a multiplier; non-trivial: the first two differ",
)
PROPS["C11"] = dict(
    cpp=[H("p_c11", "arena", (200000, 30), (BIG, 450)), H("p_c11", "heap", (150000, 30), (BIG, 450))],
    rule="insertion histories; non-trivial: at least 3 elements in the tree or forest",
)
PROPS["C12"] = dict(
    cpp=[H("p_c12", "arena", (150000, 35), (BIG, 450)), H("p_c12", "heap", (80000, 30), (BIG, 450))],
    rule="push/build histories; non-trivial: completion had to add at least one element",
)
PROPS["C13"] = dict(
    cpp=[H("p_c13", "arena", (400000, 30), (BIG, 450)), H("p_c13", "heap", (300000, 30), (BIG, 450))],
    rule="operation histories over 2-4 integers; non-trivial: at least two operations were applied",
    assumptions=["GMP as exact arithmetic"],
)
PROPS["C14"] = dict(
    cpp=[H("p_c14", "arena", (150000, 35), (BIG, 450)), H("p_c14", "heap", (100000, 30), (BIG, 450))],
    rule="allocation histories; non-trivial: at least 4 steps, or a compaction took place, or the limit was exercised",
)
PROPS["C15"] = dict(
    cpp=[H("p_c15", "arena", (400000, 30), (BIG, 450)), H("p_c15", "heap", (400000, 30), (BIG, 450))],
    rule="operation histories; non-trivial: a set reached at least 4 keys and something was removed",
)
PROPS["C16"] = dict(
    cpp=[H("p_c16", "arena", (800000, 30), (BIG, 450)), H("p_c16", "heap", (800000, 30), (BIG, 450))],
    rule="operation histories; non-trivial: at least 3 edits of a list, or a stack deeper than its first capacity",
)
PROPS["C17"] = dict(
    cpp=[H("p_c17", "arena", (200000, 40), (BIG, 450))],
    rule="operation histories; non-trivial: a binomial of degree at least 2 and a non-zero result",
    assumptions=["GMP rationals as exact arithmetic"],
)
PROPS["C18"] = dict(
    cpp=[H("p_c18", "plain", (40000, 40), (BIG, 450))],
    rule="frequency experiments and step histories; non-trivial: at least 2 (frequencies) or 3 (validity) elements",
    assumptions=["std::mt19937 as a fair source"],
)
PYREF = "reference Groebner bases and exact polynomials in /verif/py/ref.py"
PROPS["C19"] = dict(
    py=[PY("c19", (16000, 30), (BIG, 450), cython="plain"), PY("c19", (4000, 20), (BIG, 450), cython="heap")],
    rule="operation histories over monomials and polynomials; non-trivial: at least three arithmetic operations were applied",
    assumptions=["Python integers as exact arithmetic"],
)
PROPS["C20"] = dict(
    py=[PY("c20", (12000, 40), (BIG, 450), cython="plain"), PY("c20", (3000, 25), (BIG, 450), cython="heap")],
    rule="histories of push, build and queries; non-trivial: the reduced Groebner basis has at least 2 elements",
    assumptions=[PYREF, "cases over 20 s of CPU are inconclusive (labelled slow)"],
)
PROPS["C21"] = dict(
    py=[PY("c21", (30000, 30), (BIG, 450))],
    rule="sets of monomials; non-trivial: at least two different monomials in at least two variables",
)
PROPS["C22"] = dict(
    py=[PY("c22", (25000, 45), (BIG, 450))],
    rule="operation histories; non-trivial: at least three operations were applied to polynomials",
    assumptions=["sympy's exact arithmetic on coefficients (checked at rational points of the parameters)"],
)
PROPS["C23"] = dict(
    py=[PY("c23", (40000, 45), (BIG, 450))],
    rule="tree histories; non-trivial: at least three elements and a lookup",
)
PROPS["C24"] = dict(
    py=[PY("c24", (40000, 75), (BIG, 600))],
    rule="random systems and submodules; non-trivial: reduced Groebner basis with at least 2 elements",
    assumptions=[PYREF, "cases over 20 s of CPU are inconclusive (labelled slow)"],
)
PROPS["C25"] = dict(
    cpp=[H("p_c25", "heap", (300000, 45), (BIG, 600), hang=5), H("p_c25", "arena", (200000, 30), (BIG, 450), hang=5)],
    rule="API histories; non-trivial: at least one build and one query",
)
PROPS["C26"] = dict(
    cpp=[H("p_c26", "arena", (400000, 60), (BIG, 900), hang=4), H("p_c26b", "plain", (100000, 30), (BIG, 600), hang=4)],
    rule="random systems and submodules; non-trivial: reduced Groebner basis with at least 2 elements",
    assumptions=[REF, MREF, "runs over 4 s of CPU are inconclusive (labelled)"],
)
PROPS["C27"] = dict(
    cpp=[H("p_c27", "plain", (300000, 30), (BIG, 450))],
    rule="timer histories; non-trivial: at least two stops and the clock advanced",
)
PROPS["C28"] = dict(
    py=[PY("c28", (9000, 60), (BIG, 450))],
    rule="operation histories; non-trivial: at least three operations were checked",
    assumptions=["sympy's field of rational functions as exact arithmetic", "cases over 15 s of CPU are inconclusive (labelled slow)"],
)
PROPS["C29"] = dict(
    py=[PY("c29", (15000, 75), (BIG, 600))],
    rule="random linear systems; non-trivial: reduced Groebner basis with at least 2 elements",
    assumptions=["sympy's field of rational functions as exact arithmetic", "cases over 25 s of CPU are inconclusive (labelled slow)"],
)
PROPS["C30"] = dict(
    cpp=[H("p_c30", "arena", (20000, 30), (BIG, 450))],
    py=[PY("c30", (8000, 40), (BIG, 450), cython="plain")],
    rule="random structures; non-trivial: at least 3 elements shown",
    assumptions=["libgraphviz's writer and parser of its own text formats"],
)
PROPS["C31"] = dict(
    cpp=[H("p_c31", "arena", (300000, 25), (BIG, 300), extra=["ginv/bmonom.cpp"]), H("p_c31", "heap", (200000, 25), (BIG, 300), extra=["ginv/bmonom.cpp"])],
    rule="operation histories over 2-5 Boolean monomials; non-trivial: at least two operations were applied",
)
PROPS["C32"] = dict(
    cpp=[H("p_c32", "arena", (60000, 25), (BIG, 300)), H("p_c32", "heap", (30000, 20), (BIG, 300))],
    py=[PY("c32", (3000, 20), (BIG, 300), cython="plain")],
    rule="draw histories and frequency experiments; non-trivial: at least three draws in a history, more than one possible monomial in an experiment",
    assumptions=["the standard library's generator, seeded from the system, as a fair source"],
)
