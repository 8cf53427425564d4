"""Property texts. tools/gen_meta.py turns this into properties.jsonl and MANIFEST.json."""


def M(name, where):
    return dict(name=name, where=where)


CATALOG = []


def P(id, title, statement, over, qtext, why, files, mech, observe, technique, note, state=None, hook=None):
    a = dict(files=files, mechanism=mech, observe_at=observe, hook_needed=hook)
    if state:
        a["state"] = state
    CATALOG.append(dict(
        prop=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a),
        technique=technique, note=note))


P("C01", "The built basis of an ideal is an involutive Groebner basis",
  "For every finite system of integer polynomials and every supported term order (lex, degree-reverse-lex), building a basis terminates with polynomials that generate the same ideal and form a Groebner basis of it: each lies in the ideal and every leading monomial of the ideal is divisible by one of theirs. "
  "The basis is Janet-involutive (every non-multiplicative prolongation has a Janet divisor among the leading monomials), each element is primitive and no tail term of an element has a Janet divisor, and elements come in strictly ascending order of leading monomial.",
  ["inputs", "configurations"], "all finite systems of polynomials with integer coefficients, in any number of variables, under every supported order; order and duplication of generators included",
  "The tests build a handful of fixed systems and print the result; nothing compares it with the ideal, and an incomplete basis looks just as plausible.",
  ["ginv/poly_int.cpp", "ginv/poly_int.h", "ginv/janet.cpp", "ginv/wrap.cpp"],
  [M("block completion algorithm", "ginv/poly_int.cpp JanetPolyInt::algorithmBlockTQ"), M("Janet tree insert/find", "ginv/janet.cpp Janet"), M("selection of blocks and criteria", "ginv/poly_int.cpp JanetPolyInt::prolong/insert")],
  ["JanetPolyInt::push/build/begin/isOne"],
  "property-based testing: random structured systems against a reference Buchberger implementation and the definition of Janet division",
  "Exploration of generated systems (1-4 variables, low degrees); oracle is an independent Buchberger implementation over Z in /verif/src/ref.h.")

P("C02", "The built basis of a submodule is an involutive Groebner basis",
  "For every finite set of vectors of polynomials (monomials carrying a position, at least rank two) under term-over-position and position-over-term orders, building a basis terminates with vectors that generate the same submodule and form a Groebner basis of it. "
  "The result is Janet-involutive position by position, primitive and tail-reduced, and a unit vector in the submodule never makes the whole result collapse to 1.",
  ["inputs", "configurations"], "all finite generating sets of submodules of free modules of finite rank, under every combination of TOP/POT with lex/degree-reverse-lex",
  "No test of the project builds a basis of a submodule and compares it with anything.",
  ["ginv/poly_int.cpp", "ginv/janet.cpp", "ginv/wrap.h", "ginv/monom.cpp"],
  [M("per-position Janet trees", "ginv/janet.cpp Janet::find/insert"), M("criteria are ideal-only", "ginv/poly_int.cpp")],
  ["JanetPolyInt::push/build/begin/isOne"],
  "property-based testing against a reference module Buchberger implementation",
  "Exploration of generated modules of rank 2-3 in 1-3 variables; oracle as in C01.")

P("C03", "Normal form decides membership",
  "After a build, the normal form of any polynomial (or vector) modulo the basis differs from it, up to a non-zero integer factor, by an element of the ideal and contains no term divisible by a leading monomial of the ideal: it is the unique reduced remainder made primitive. "
  "In particular it is zero exactly for members of the ideal or submodule, and taking the normal form again changes nothing; modulo the unit ideal, everything has normal form zero. The result is a canonical polynomial (terms strictly descending, no zero coefficients), and the basis is not changed by queries.",
  ["inputs", "configurations"], "all generating sets, all polynomials or vectors reduced modulo them, every supported order; empty generating sets included",
  "A wrong normal form is a plausible polynomial; only comparison with an independent remainder over many ideals and targets shows it.",
  ["ginv/poly_int.h", "ginv/poly_int.cpp", "ginv/janet.cpp"],
  [M("normal form by tree lookup", "ginv/poly_int.h PolyInt::nf/nfTail"), M("reduction step", "ginv/poly_int.cpp PolyInt::reduction"), M("Janet divisor lookup", "ginv/janet.cpp Janet::find")],
  ["JanetPolyInt::nf", "PolyInt::isNf/isPp"],
  "property-based testing against reference remainder modulo an independently computed reduced Groebner basis",
  "Generated ideals (1-4 variables) and submodules (rank 2-3); targets are planted members, random polynomials and sums of both.")

P("C04", "The unit ideal is recognised exactly",
  "Building reports the ideal as the whole ring (isOne) if and only if 1 is a rational combination of the generators, whatever the generators look like, however the certificate is hidden, and whether generators arrive before one build or over several. "
  "Once reported it stays reported, size() is 1, and every polynomial then has normal form zero. Systems with a common rational root or a common non-constant factor are never reported as 1.",
  ["inputs", "histories"], "all generating sets with a hidden certificate for 1, with a planted common zero, or with a common factor; every supported order",
  "Collapse to 1 can happen in any cancellation inside the completion loop; a test fixes one route to it.",
  ["ginv/poly_int.cpp", "ginv/poly_int.h"],
  [M("detection of a constant during completion", "ginv/poly_int.cpp JanetPolyInt::algorithmBlockTQ"), M("isOne state", "ginv/poly_int.h JanetPolyInt::isOne")],
  ["JanetPolyInt::isOne/size/nf"],
  "property-based testing with answers planted by construction",
  "No oracle computation is needed: certificates and common zeros are planted; cases that exceed the CPU limit count as inconclusive.")

P("C05", "The Hilbert polynomial counts standard monomials",
  "The Hilbert polynomial computed from a basis, evaluated at every degree s not below the largest degree of a leading monomial, equals the number of monomials of degree at most s that no leading monomial of the ideal divides; for submodules the same holds position by position for the per-position tree. "
  "Its reported dimension is the number of variables, its degree is therefore the dimension of the ideal, and a zero-dimensional ideal gives the number of solutions.",
  ["inputs"], "all proper ideals and, per position, submodules, under every supported order",
  "The tests only print Hilbert polynomials; a miscounted cone shifts the value by a binomial coefficient.",
  ["ginv/janet.cpp", "ginv/poly_int.cpp", "util/hilbertpoly.cpp", "util/hilbertpoly.h"],
  [M("sum over the Janet cones", "ginv/janet.cpp Janet::buildHP"), M("basis wrapper", "ginv/poly_int.cpp JanetPolyInt::buildHP"), M("binomials", "util/hilbertpoly.cpp HilbertPoly::binomial")],
  ["JanetPolyInt::buildHP", "Janet::buildHP", "HilbertPoly::operator[]"],
  "property-based testing against brute-force counting of standard monomials",
  "Values are compared at one to three degrees (from the largest leading degree up), by enumeration of all monomials up to that degree.")

P("C06", "The result depends only on the ideal, not on the history of calls",
  "Pushing generators one by one with builds, normal-form queries and redundant pushes (multiples, combinations, duplicates of earlier generators) in between gives after the last build an involutive basis of exactly the ideal generated by everything pushed; "
  "normal forms queried midway are those of the ideal pushed so far. Two generating sets of one ideal give bases that reduce each other to zero and agree on being 1, and a build without new pushes changes nothing.",
  ["histories", "inputs"], "all interleavings of push, build and normal-form queries over generators of one ideal or submodule",
  "Each test pushes once and builds once; state left behind by an earlier build never meets new generators.",
  ["ginv/poly_int.cpp", "ginv/poly_int.h", "ginv/janet.cpp", "ginv/wrap.cpp"],
  [M("push into the work list", "ginv/poly_int.cpp JanetPolyInt::push"), M("restart of completion on an existing tree", "ginv/poly_int.cpp JanetPolyInt::algorithmBlockTQ"), M("tree rebuild and removal", "ginv/janet.cpp Janet")],
  ["JanetPolyInt::push/build/nf/begin/size"],
  "stateful property-based testing: generated call histories against a reference Buchberger implementation",
  "Histories of up to 24 calls over ideals and submodules as in C01/C02.")

P("C07", "Polynomial ring arithmetic is exact and canonical",
  "Polynomials with integer coefficients of any size form a ring under the library's operations: sum, difference, product, negation, non-negative powers, multiplication by constants, variables and monomials, and addition of constants agree with exact arithmetic for every order, including self-operands, operands in different arenas and cancellation to zero. "
  "After every operation the representation is canonical (terms strictly descending, no zero coefficient, length, leading term, degree, maximal position, norm and printed text consistent), operands are unchanged, and destroying all polynomials returns all memory of their arenas.",
  ["inputs", "histories", "configurations"], "all sequences of ring operations on polynomials under lex, degree-reverse-lex and local lex, scalar and with positions; coefficients beyond machine words; both memory configurations",
  "The project's polynomial test only builds a few polynomials of fixed shape; aliasing, cancellation and multi-limb coefficients are not compared with anything.",
  ["ginv/poly_int.cpp", "ginv/poly_int.h", "util/integer.cpp", "util/integer.h", "util/list.h"],
  [M("merge of sorted term lists", "ginv/poly_int.cpp PolyInt::add/sub/mult"), M("coefficient growth in place", "util/integer.cpp Integer"), M("powers", "ginv/poly_int.cpp PolyInt::pow")],
  ["PolyInt::add/sub/mult/pow/minus/operator=/swap", "operator<<", "Allocator::size"],
  "stateful property-based testing: operation histories against a reference polynomial model (GMP), with AddressSanitizer/UBSan, in the arena and in the heap configuration",
  "Up to 10 operations over 2-4 polynomials spread over 1-3 arenas; coefficients up to ~120 bits.")

P("C08", "One reduction step, primitive part and normal form are exact",
  "Reducing p by q (leading monomial of q divides that of p) replaces p by the combination a*p - b*m*q with coprime a, b that cancels the leading term, nothing else; eliminating a given term does the same for that term and is the identity when the term is absent. "
  "The primitive part divides by exactly the greatest common divisor of the coefficients, and head and tail normal form against any set of divisors give the remainder of full reduction up to sign. The divisor is never changed, and a vector may be reduced by a scalar polynomial.",
  ["inputs"], "all polynomials and vectors p, q with a divisible leading monomial, every order, coefficients of any size",
  "A wrong sign or a wrong cofactor still yields a polynomial with the right leading monomial.",
  ["ginv/poly_int.cpp", "ginv/poly_int.h", "ginv/poly.cpp"],
  [M("pseudo-reduction with cofactors", "ginv/poly_int.cpp PolyInt::reduction"), M("single term elimination", "ginv/poly_int.cpp PolyInt::redMaybe"), M("primitive part", "ginv/poly_int.cpp PolyInt::pp"), M("normal form over a finder", "ginv/poly_int.h PolyInt::nf/nfTail")],
  ["PolyInt::reduction/redMaybe/pp/nf/nfTail/isPp/isNf"],
  "property-based testing against exact reference polynomials (GMP), with AddressSanitizer/UBSan",
  "1-4 variables, up to 12 terms, coefficients up to ~120 bits.")

P("C09", "Monomials form the monoid they represent",
  "Products, powers, quotients of divisible monomials, divisibility, equality, gcd and lcm degrees, assignment, swap, move and variable permutation of monomials agree with componentwise arithmetic of their exponent vectors for any number of variables, and positions behave as module components: a monomial with a position is never equal to or divisible by one at another position, and the quotient by a monomial with the same position has none. "
  "Total degree, size, position and printed form always agree with the exponents, no operation changes another monomial, and every byte is returned when the monomials are gone.",
  ["inputs", "histories"], "all sequences of operations on monomials in 1 to 40 variables with and without positions",
  "The tests print monomials; no algebraic law is compared with a model.",
  ["ginv/monom.cpp", "ginv/monom.h"],
  [M("exponent vector and cached degree", "ginv/monom.cpp Monom"), M("divisibility and positions", "ginv/monom.cpp Monom::divisiable/div")],
  ["Monom public interface", "operator<<"],
  "stateful property-based testing: operation histories against exponent vectors, with AddressSanitizer/UBSan",
  "Up to 10 operations over 2-4 monomials; exponents up to 2000.")

P("C10", "Term orders are what they claim and are admissible",
  "lex, degree-reverse-lex and local lex comparison, their three-way comparisons with a product, and the module orders built on them (term over position, position over term) agree with their definitions: they are total, antisymmetric, transitive and compatible with multiplication, 1 is smallest for the global orders and largest for the local one, and a polynomial keeps its terms in exactly that order.",
  ["inputs", "configurations"], "all triples of monomials in 1 to 20 variables with and without positions, under each of the six orders",
  "Order mistakes concern ties and near-ties between monomials, which a few printed examples do not hit.",
  ["ginv/monom.cpp", "ginv/poly.h", "ginv/poly.cpp"],
  [M("comparison kernels", "ginv/monom.cpp Monom::lex/deglex/alex"), M("module orders", "ginv/poly.cpp Poly::cmp")],
  ["Monom::lex/deglex/alex", "Poly::cmp", "PolyInt::lm"],
  "property-based testing against the definitions and the order axioms",
  "Random and near-tie triples; local lex is compared with the definition the code documents.")

P("C11", "A Janet tree finds exactly the Janet divisor",
  "A Janet tree built by inserting monomials that have no Janet divisor in it yet, in any order, holds exactly the inserted elements in ascending order; after every insertion the multiplicative variables marked on each element are those of the Janet division of the current set, and looking up any monomial returns its unique Janet divisor in the set, or nothing if there is none. "
  "A copy of a tree is equal and independent, swapping exchanges contents, and destroying trees returns all their memory. The layered forest (GB) keeps one tree per degree of origin, finds the divisor in the lowest layer whose cross-layer flags permit it, and marks those flags by the definition.",
  ["histories", "inputs"], "all sequences of insertions (any order, any degrees) and lookups in 1 to 5 variables; copy, swap, clear and reinsertion in between",
  "Tests draw trees and look up the inserted monomials themselves; non-divisors, flags after late insertions and copies are not examined.",
  ["ginv/janet.cpp", "ginv/janet.h", "ginv/gb.cpp", "ginv/gb.h", "ginv/wrap.h", "ginv/wrap.cpp"],
  [M("insertion and flag propagation", "ginv/janet.cpp Janet::insert/setNM"), M("lookup", "ginv/janet.cpp Janet::find"), M("copying", "ginv/janet.cpp Janet::clone/copy"), M("layered forest", "ginv/gb.cpp GB::insert/find")],
  ["Janet::insert/find/begin/size/swap", "GB::insert/find/size", "Wrap::NM/NMd"],
  "stateful property-based testing: insertion histories against the definition of Janet division, with AddressSanitizer/UBSan",
  "Up to 16 insertions, 1-5 variables; the forest is driven in ascending layer order as its users do.")

P("C12", "Monomial completion yields an involutive set for the monomial ideal",
  "Completing a set of monomials terminates with elements of the monomial ideal such that every monomial of the ideal, and no other, has an involutive divisor found by lookup, and every non-multiplicative prolongation of an element has one. "
  "For the tree-based completion and the list completion ordered by lex or by degree, generators (duplicates and multiples included) may be pushed at any time with builds in between, and for the tree and lex the cones are disjoint and the flags are Janet's; for the other comparators this is claimed for minimal generators pushed before the first build. The list keeps every pushed monomial and is strictly sorted, and all memory is returned.",
  ["histories", "inputs", "configurations"], "all histories of pushes and builds over monomials in 1 to 4 variables; every comparator the library offers",
  "The tests complete one fixed set per comparator and draw the result.",
  ["ginv/mcompletion.cpp", "ginv/mcompletion.h", "ginv/janet.cpp", "ginv/wrap.h"],
  [M("list completion", "ginv/mcompletion.cpp MCompletion::push/build/find"), M("comparators", "ginv/mcompletion.cpp MCompletion::lex.."), M("tree completion", "ginv/mcompletion.cpp MJanet::build")],
  ["MCompletion::push/build/find/T/length", "MJanet::push/build/tree"],
  "stateful property-based testing: push/build histories against exhaustive enumeration of the monomial ideal, with AddressSanitizer/UBSan",
  "Enumeration of all monomials up to 2-4 degrees above the largest generator.")

P("C13", "Integers are exact at any size and return their memory",
  "Integers of any size agree with exact arithmetic: construction from text in bases 2, 8, 10, 16 and from machine words (extreme values included), sum, difference, product, exact quotient, gcd, negation, assignment, swap, move, predicates and text in every base 2 to 62, with self-operands and operands living in different arenas. "
  "Text read back gives the same number, and after destroying all integers every byte taken from an arena or from GMP is returned, in the arena and in the heap configuration.",
  ["histories", "inputs", "configurations"], "all operation histories over integers up to thousands of bits, limb boundaries and machine-word extremes included; both memory configurations",
  "Growth at limb boundaries, aliasing and storage hand-over depend on sizes and histories that the fixed tests do not meet.",
  ["util/integer.cpp", "util/integer.h", "util/allocator.cpp"],
  [M("storage growth and reuse", "util/integer.cpp Integer::reallocate/.."), M("arithmetic kernels", "util/integer.cpp Integer::add/sub/mult/div/gcd"), M("hand-over on move", "util/integer.h Integer::operator=(Integer&&)")],
  ["Integer public interface", "Allocator::size"],
  "stateful property-based testing against GMP with memory accounting, AddressSanitizer/UBSan, both memory configurations",
  "Up to 12 operations over 2-4 integers; sizes up to ~13000 bits, printing up to 90000 bits.")

P("C14", "Arenas never hand out overlapping memory and account for every byte",
  "Blocks taken from an arena are aligned, pairwise disjoint and keep their contents until released, across any interleaving of allocations, releases and swaps over several arenas; constructors and destructors of objects and arrays run exactly once each. "
  "An arena's used size never falls below its live blocks nor exceeds what it allocated, and is zero when they are gone; the process-wide current total is the sum over arenas and the maximum its running maximum. A memory limit ends the process as soon as, and only when, the maximum passes it. "
  "Compacting a collected value (when it is due), copying, assigning and swapping collected values never changes a value.",
  ["histories", "inputs", "configurations"], "all interleavings of allocation, release, swap and compaction over several arenas, any block sizes; both memory configurations",
  "Overlap and accounting errors need particular size sequences around page boundaries and particular release orders.",
  ["util/allocator.h", "util/allocator.cpp", "ginv/poly_int.h"],
  [M("bump allocation in pages", "util/allocator.cpp Allocator::allocate"), M("accounting and limit", "util/allocator.cpp Allocator::allocate/deallocate"), M("compaction by copy", "util/allocator.h GC::reallocate")],
  ["Allocator::allocate/deallocate/destroy/swap/alloc/size", "Allocator::currMemory/maxMemory/setLimitMemory", "GCPolyInt::reallocate/operator=/swap"],
  "stateful property-based testing: allocation histories with byte-pattern checks and model accounting; the limit is exercised in forked children",
  "Up to 40 steps over 1-3 arenas; blocks up to 20000 bytes.")

P("C15", "The ordered set behaves as a set and stays balanced",
  "Under any history of insertions of new keys, removals by key or iterator, clearing, copying, assignment, swap and move, the tree holds exactly the keys a mathematical set would: iteration in both directions is in order, lookup, nearest smaller and nearest greater key (for present and absent keys), minimum, maximum and length agree. "
  "It stays a red-black tree after each step, copies are independent, and destroying it returns all memory to its arena.",
  ["histories", "inputs"], "all operation histories over integer keys under several comparison functions, dense and sparse key ranges",
  "Rebalancing after removal has many cases that only particular shapes reach; neighbour queries for absent keys are not tested.",
  ["util/rbtree.h"],
  [M("rebalancing", "util/rbtree.h RBTree::insertFixup/deleteFixup"), M("removal by key replacement", "util/rbtree.h RBTree::deleteNode"), M("neighbour queries", "util/rbtree.h RBTree::findPrev/findNext")],
  ["RBTree public interface"],
  "stateful property-based testing against std::set, with AddressSanitizer/UBSan, both memory configurations",
  "Up to 60 (thorough 120) operations over 1-3 trees in 3 arenas.")

P("C16", "Lists and stacks keep their elements in order",
  "Lists edited at both ends and through iterators (insert, delete, take out and splice into another list of the same arena, assign through an iterator) and stacks (push past the capacity, pop, reset) behave as sequences: contents, order, length, head and top always agree with a model. "
  "After an edit the iterator stands where the interface says, copies are independent, assignment, move and swap transfer contents exactly, and destruction returns all memory.",
  ["histories"], "all operation histories over several lists or stacks in several arenas",
  "Tests push and iterate; editing through iterators, growth and transfers between arenas are not compared with a model.",
  ["util/list.h", "util/stack.h"],
  [M("iterator by link address", "util/list.h List::Iterator"), M("growth", "util/stack.h Stack::resize"), M("assignment across capacities", "util/stack.h Stack::operator=")],
  ["List public interface", "Stack public interface"],
  "stateful property-based testing against std::vector, with AddressSanitizer/UBSan, both memory configurations",
  "Up to 40-60 operations over 1-3 containers in 3 arenas.")

P("C17", "Rational polynomials for Hilbert functions are exact",
  "binomial(a, b) is the polynomial C(s+a, b) in s for every integer a and every b up to the degree bound, replacing whatever was there; sums, differences (self-operands included) and integer multiples are exact, coefficients are printed in lowest terms, isZero agrees with the coefficient, the printed text denotes the same polynomial, and no number storage is leaked.",
  ["inputs", "histories"], "all operation histories on polynomials with degree bound 0 to 40, coefficients of any size",
  "The tests check a few sums that end in a constant.",
  ["util/hilbertpoly.cpp", "util/hilbertpoly.h"],
  [M("binomial recurrence", "util/hilbertpoly.cpp HilbertPoly::binomial"), M("text", "util/hilbertpoly.cpp operator<< / operator[]")],
  ["HilbertPoly public interface"],
  "stateful property-based testing against exact rational arithmetic (GMP)",
  "Up to 16 operations; values far beyond the print buffer included.")

P("C18", "Random permutations are permutations and uniformly distributed",
  "A random permutation starts as the identity and is a permutation of 0..n-1 after every step, for every n >= 1; driven by a fair generator every permutation is equally likely, each element is equally likely at each place, and consecutive permutations are related by a uniformly distributed step. "
  "Two objects fed equal generators go through the same sequence, and the printed form lists the elements in order.",
  ["inputs", "histories"], "all sizes and all generator states",
  "A biased shuffle passes any test that only looks at single permutations.",
  ["util/randpermutation.h", "util/randpermutation.cpp"],
  [M("shuffle", "util/randpermutation.h RandPermutation::next"), M("distributions per place", "util/randpermutation.cpp RandPermutation::RandPermutation")],
  ["RandPermutation::next/operator[]/size", "operator<<"],
  "property-based testing with chi-square tests on generated seeds (thresholds far beyond chance, deterministic per seed)",
  "Exhaustive frequency tables for n <= 5, place and parity tables for n <= 24, validity up to n = 3000.")

P("C19", "The Python extension computes with exact values that stay valid",
  "In the Python extension, monomials, polynomials and coefficients behave as exact values: products, powers, quotients, permutations and comparisons of monomials, and +, -, * (with polynomials, and with integers of any size on either side), negation, powers, reduction and primitive part of polynomials agree with integer arithmetic for every order, and iteration, length, truth, leading term, degree, norm and text describe exactly that value. "
  "No operation changes an operand it does not own; a monomial or coefficient obtained from a polynomial stays valid while it is referred to and the polynomial is not changed in place (reduction, pp, nf), even when nothing else refers to the polynomial; an index out of range, None, an object that was never given a value, an operand of another ring or any other operand outside the domain raises an exception and changes nothing; and when the objects are gone, all of the library's memory is back.",
  ["inputs", "histories", "configurations"], "all sequences of operations of the extension's classes monom, poly_int, const_monom, const_integer and randpermutation, 2-5 variables, every order, with and without positions",
  "The extension has one script that runs no polynomial operation at all (and no longer runs); lifetime errors depend on when Python frees objects.",
  ["cython/ginv.pyx"],
  [M("polynomial operators", "cython/ginv.pyx const_poly_int"), M("monomial operators", "cython/ginv.pyx const_monom/monom"), M("views into C++ objects", "cython/ginv.pyx const_monom/const_integer owner"), M("arena per object", "cython/ginv.pyx poly_int.__dealloc__")],
  ["ginv.monom", "ginv.poly_int", "ginv.const_integer", "ginv.allocator.currMemory"],
  "stateful property-based testing (Hypothesis) of the built extension against exact Python models, also with every library block on the heap under AddressSanitizer",
  "Up to 24 operations (40 thorough).")

P("C20", "The Python basis interface gives the basis of the ideal",
  "Pushing generators from Python and building gives, through iteration, find, nf, isOne, len, janet, HilbertPoly and the counters, a Janet-involutive Groebner basis of exactly the ideal or submodule pushed so far: elements, leading monomials, ancestors and multiplicative variables as defined, find returns the Janet divisor or None, nf is the unique remainder, in place, and the Hilbert polynomial counts standard monomials. "
  "Push and queries do not change the generators or the basis, polynomials and monomials of another ring, None, objects without a value and variables out of range are refused with an exception, elements kept from a basis that is not extended stay readable when the basis itself is no longer referred to, the basis' timer shows the time of its own build, and no memory stays behind.",
  ["inputs", "histories", "configurations"], "all histories of push, build and queries through the extension, ideals and submodules, TOP/POT with lex/degree-reverse-lex",
  "Nothing tests the basis interface of the extension.",
  ["cython/ginv.pyx", "ginv/poly_int.h", "ginv/poly_int.cpp", "ginv/janet.h"],
  [M("basis class", "cython/ginv.pyx janet_poly_int"), M("basis elements", "cython/ginv.pyx wrap_poly_int"), M("trees and Hilbert polynomials", "cython/ginv.pyx const_janet")],
  ["ginv.janet_poly_int", "ginv.wrap_poly_int", "ginv.const_janet", "ginv.const_timer"],
  "stateful property-based testing (Hypothesis) against a reference Buchberger implementation in exact Python arithmetic, also under AddressSanitizer",
  "2-4 variables, low degrees, up to 6 generators over several builds.")

P("C25", "Whole histories of the basis engine are memory-safe and leak nothing",
  "Any history of creating bases, pushing generators, building by any strategy (the whole-ring collapse included), normal forms, reading elements, Hilbert polynomials and destroying bases in any order never touches memory out of bounds or after its release, and at the end every object, every number and every byte of arena memory has been returned and the current-memory counter is back at its start.",
  ["histories", "configurations"], "all histories of the public basis interface over one or two bases at a time, ideals and submodules; both memory configurations",
  "The collapse to the whole ring, abandoned work lists and re-used trees free memory on rarely taken paths; leaks and stale reads do not change a test's output.",
  ["ginv/poly_int.cpp", "ginv/poly_int.h", "ginv/janet.cpp", "ginv/wrap.h", "util/allocator.h", "util/list.h", "util/hilbertpoly.cpp"],
  [M("ownership of work lists and wraps", "ginv/poly_int.h JanetPolyInt::~JanetPolyInt"), M("collapse", "ginv/poly_int.cpp JanetPolyInt::setOne"), M("compaction of basis elements", "ginv/poly_int.h GCPolyInt::reallocate")],
  ["JanetPolyInt public interface", "Allocator::currMemory"],
  "stateful property-based testing of whole API histories with every library block on the heap under AddressSanitizer, plus counted operator new/delete and GMP storage",
  "Up to 14 steps; small ideals and submodules; expensive alternative strategies count as inconclusive.")

P("C26", "Every completion strategy yields an involutive Groebner basis",
  "Each of the alternative strategies (algorithmTQ, algorithmTQ1, algorithmTQ2), run on pushed generators once or again after further pushes, ends with a Groebner basis of the ideal or submodule pushed so far that is Janet-involutive, tail-reduced and strictly ascending, or with the whole ring exactly when 1 lies in the ideal; an empty set of generators is accepted.",
  ["inputs", "configurations", "histories"], "all finite systems and submodule generators under every supported order, each strategy, one or two rounds of pushes",
  "No test runs these strategies; they share state handling with the default one but select elements differently.",
  ["ginv/poly_int.cpp", "ginv/poly_int.h", "ginv/janet.cpp"],
  [M("strategies", "ginv/poly_int.cpp JanetPolyInt::algorithmTQ/TQ1/TQ2"), M("prolongation and criteria", "ginv/poly_int.cpp JanetPolyInt::prolong/prolongRest")],
  ["JanetPolyInt::algorithmTQ/algorithmTQ1/algorithmTQ2", "JanetPolyInt::begin/isOne"],
  "property-based testing against a reference Buchberger implementation",
  "As C01/C02; runs that exceed the CPU limit are inconclusive (these strategies may be much slower than the system is hard).")

P("C27", "Timers measure exactly the time between cont/start and stop",
  "Under any history of start, cont and stop on several timers, start clears the total, cont begins a new interval without changing the total, and each stop adds the real, user and system time since the last start, cont or stop, each to its own total; children's times do not count, reading does not change anything, and timers are independent. "
  "Printing shows the three totals with two decimals and leaves the stream's number format as it was.",
  ["histories", "schedules"], "all interleavings of start, cont, stop and passing time over several timers",
  "A test cannot assert exact times; swapped totals or a lost interval look like noise.",
  ["util/timer.cpp", "util/timer.h"],
  [M("elapsed-time accumulation", "util/timer.cpp Timer::start/cont/stop"), M("printing", "util/timer.cpp operator<<")],
  ["Timer::realTime/userTime/sysTime", "operator<<"],
  "stateful property-based testing against an elapsed-time model, on a virtual process clock (times() supplied by the harness) and on the real clock with interval bounds",
  "Up to 40 steps over 1-3 timers.")

P("C21", "Monomials of the Python implementation form an ordered commutative monoid",
  "In pyginv, for every number of variables and functions and each of the four orders, monomials behave as exponent vectors with an optional position: products, powers, quotients, divisibility (plain and proper), lcm, gcd, prolongation, expansion, copies, equality and hash agree with the exponents, operations outside their domain are refused, comparison is a total order compatible with products in which every prolongation is larger, and nonmult names the first variable of smaller exponent. "
  "Enumeration by degree lists every monomial of that degree once, and every text form (plain, TeX, derivative, shift) denotes exactly that monomial in the names currently set.",
  ["inputs", "configurations"], "all numbers of variables and functions, all monomials, POT/TOP with lex/degree-reverse-lex",
  "The module's script prints examples but asserts little.",
  ["pyginv/monomial.py"],
  [M("monomial algebra", "pyginv/monomial.py Monom"), M("orders", "pyginv/monomial.py Monom.POTlex/TOPlex/POTdeglex/TOPdeglex"), M("text forms", "pyginv/monomial.py Monom.__str__/latex/df/T")],
  ["pyginv Monom"],
  "property-based testing (Hypothesis) against exponent vectors and parsed text forms",
  "1-5 variables, 0-4 functions; degrees of enumeration at most 5.")

P("C22", "Polynomials of the Python implementation compute exactly",
  "In pyginv, sums, differences, products, powers, negation, division by numbers, augmented assignment, mixed operations with numbers and symbolic parameters on either side, prolongation, derivative by a parameter and text of a polynomial or vector agree with exact arithmetic for integer, rational and parametric coefficients, and results carry neither zero terms nor terms out of order. "
  "Reduction steps, reduce, NFhead, NFtail and NF by one polynomial leave the remainder (up to a factor; NF exactly) of the polynomial, S gives an S-polynomial, cancel and pp clear denominators and content, and no operation changes any polynomial other than the one it is documented to modify.",
  ["inputs", "histories", "configurations"], "all sequences of operations over several polynomials, 1-4 variables, 0-3 functions, every order",
  "The module's script prints results without asserting them; shared terms show only in later operations.",
  ["pyginv/polynomial.py"],
  [M("ring operations", "pyginv/polynomial.py Poly.__add__/__sub__/__mul__/__pow__"), M("reduction", "pyginv/polynomial.py Poly.reduction/redRat/reduce/NFhead/NFtail/NF"), M("coefficients", "pyginv/polynomial.py Poly.cancel/pp")],
  ["pyginv Poly"],
  "stateful property-based testing (Hypothesis) against exact sparse polynomials evaluated at points of the parameters",
  "Up to 10 operations (18 thorough) over 2-4 polynomials of up to 4 initial terms.")

P("C23", "Janet trees of the Python implementation realize Janet division",
  "In pyginv, after any history of insertions, re-insertions and prolongations into a Janet tree, cached tree or forest, lookup finds the Janet divisor of a monomial or none, non-multiplicative variables, ancestors and prolongation marks are as defined, an insertion returns exactly the elements it displaced, iteration, count and GB show the stored elements, the minimal degree to prolong and the prolongations by degree, by monomial and all of them are exactly the missing ones (each once), and the Hilbert polynomial counts the standard monomials. "
  "A cached tree's find returns an element of the same submodule with the asked leading monomial and a reduced tail.",
  ["histories", "configurations"], "all histories of tree operations, 1-4 variables, 0-3 functions, every order",
  "The module's script no longer runs; the displaced elements and marks show only in later completions.",
  ["pyginv/janet.py"],
  [M("tree insertion and lookup", "pyginv/janet.py Janet.insert/findWrap"), M("prolongation", "pyginv/janet.py Janet.prolongDeg/prolongMonom/prolongAll, Wrap"), M("cache", "pyginv/janet.py JanetCache.find"), M("forest", "pyginv/janet.py Forest"), M("Hilbert polynomial", "pyginv/janet.py HilbertPoly, CombRepet")],
  ["pyginv Janet, JanetCache, Forest, Wrap, HilbertPoly"],
  "stateful property-based testing (Hypothesis) against the definition of Janet division",
  "Up to 14 operations (25 thorough), degrees up to 10.")

P("C24", "Completion in the Python implementation yields the involutive basis of the given ideal",
  "In pyginv, ginvMin and ginvBlockLow turn a non-empty list of polynomials or vectors over the integers, rationals or symbolic parameters into a Janet-involutive Groebner basis of exactly the ideal or submodule they generate, whatever the tree kind, order and log level: distinct leading monomials, tails reduced, coefficients primitive, GB() is the reduced Groebner basis, the Hilbert polynomial counts standard monomials, and NF and NFhead decide membership with the unique remainder. "
  "The given polynomials are unchanged and queries leave the basis as it is.",
  ["inputs", "configurations"], "all finite systems and submodule generators, every order (block algorithm: TOPdeglex), plain and cached trees and forests, both algorithms",
  "Nothing asserts a result of pyginv; wrong criteria or stale caches yield plausible but incomplete bases.",
  ["pyginv/ginv.py", "pyginv/janet.py"],
  [M("completion", "pyginv/ginv.py ginvMin/ginvBlockLow"), M("work list", "pyginv/ginv.py Q"), M("criteria", "pyginv/janet.py Wrap.crit1/crit2/refresh/update")],
  ["pyginv ginvMin, ginvBlockLow, tree queries"],
  "property-based testing (Hypothesis) against a reference Buchberger implementation in exact arithmetic, at points of the parameters",
  "1-4 variables, low degrees, up to 4 generators; systems whose parameter values change the leading monomials are skipped.")

P("C28", "Differential and difference polynomials of the Python implementation act as operators",
  "In pyginv, polynomials built by df, T and diff2poly or from sums, products with coefficients, quotients and mixed operations denote exactly the given linear differential or difference expression, inhomogeneous parts included; prolonging a differential polynomial is its total derivative (coefficients are differentiated too), prolonging a difference polynomial is its shift. "
  "The text forms evaluate back to the same polynomial and to the same sympy expression, NFhead, NFtail and NF by a polynomial, tree, cached tree or forest leave the remainder modulo its derivatives or shifts (up to a factor; NF exactly), cancel and pp keep the value up to a factor, cancel clears denominators, no zero term stays, and no other polynomial changes.",
  ["inputs", "histories", "configurations"], "all sequences of operations over several polynomials, 1-4 variables, 1-3 functions, every order; coefficients rational in the variables and in parameters (difference polynomials: in parameters)",
  "The module's script prints results without asserting them; a missing term of the product rule is plausible output.",
  ["pyginv/polynomial.py", "pyginv/monomial.py", "pyginv/janet.py"],
  [M("differential polynomials", "pyginv/polynomial.py PolyDiff"), M("difference polynomials", "pyginv/polynomial.py PolySchem"), M("conversion", "pyginv/polynomial.py PolyDiff.diff2poly/df_sympy"), M("cache", "pyginv/janet.py JanetCache.find")],
  ["pyginv PolyDiff, PolySchem"],
  "stateful property-based testing (Hypothesis) against a reference ring of operators over a field of rational functions, and against sympy derivatives of concrete functions",
  "Up to 8 operations (14 thorough) over 2-3 polynomials of up to 3 initial terms; difference polynomials with an inhomogeneous part are not shifted.")

P("C29", "Completion of differential and difference systems yields the involutive basis of the given system",
  "In pyginv, ginvMin and ginvBlockLow turn a consistent linear system of differential equations (coefficients rational in the variables and parameters, inhomogeneous terms allowed) or difference equations into a Janet-involutive basis of exactly the equations that follow from it: leading derivatives distinct, tails reduced, no denominators, primitive for integer coefficients, GB() the reduced Groebner basis, the Hilbert polynomial (also per leading block of functions) counts the parametric derivatives, and NF and NFhead decide which equations follow. "
  "The given equations are unchanged, and queries leave the basis as it is.",
  ["inputs", "configurations"], "all consistent finite systems, 1-3 variables, 1-3 functions, every order, plain and cached trees and forests, both algorithms",
  "Nothing asserts a result; a lost integrability condition leaves a plausible basis.",
  ["pyginv/ginv.py", "pyginv/janet.py", "pyginv/polynomial.py"],
  [M("completion", "pyginv/ginv.py ginvMin/ginvBlockLow"), M("prolongation", "pyginv/janet.py Wrap, PolyDiff.prolong"), M("forest", "pyginv/janet.py Forest, JanetCache")],
  ["pyginv ginvMin, ginvBlockLow over PolyDiff and PolySchem"],
  "property-based testing (Hypothesis) against a reference completion over a field of rational functions",
  "Orders at most 4, up to 4 equations of up to 3 terms; inconsistent systems are outside the domain.")

P("C30", "Drawings show the structure they are asked to draw",
  "Drawing a red-black tree, a Janet tree, a layered forest or the Janet tree of one position of a computed basis (also from Python, and pyginv's saveImage at every level) writes a graph in the requested format that shows exactly the structure: every element once and in its place (the path spells its exponents; keys in search order), its marks (generator in bold, non-multiplicative variables, cross-layer flags, prolongations already made, ancestors, colours obeying the red-black rules), and a caption with the number of elements and the Hilbert polynomial of the complement. "
  "Empty structures are drawn too, and drawing changes nothing.",
  ["inputs", "histories"], "all trees, forests and bases reachable by insertions, removals, prolongations and completions; the graph formats, all levels of detail",
  "The tests write drawings to files nobody reads.",
  ["util/rbtree.h", "ginv/janet.cpp", "ginv/janet.h", "ginv/gb.h", "cython/ginv.pyx", "pyginv/janet.py"],
  [M("drawing a red-black tree", "util/rbtree.h RBTree::draw"), M("drawing a Janet tree", "ginv/janet.cpp Janet::draw, ginv/janet.h Janet::draw"), M("drawing a forest", "ginv/gb.h GB::draw"), M("drawing in pyginv", "pyginv/janet.py Janet.saveImage")],
  ["RBTree::draw", "Janet::draw", "GB::draw", "const_janet.draw", "pyginv Janet.saveImage"],
  "property-based testing: the written graph is parsed back and compared with the structure, the definition of Janet division and a count of monomials",
  "Text formats only (canon, dot): what a picture looks like is Graphviz's business.")

P("C31", "Boolean monomials are finite sets of variables",
  "Boolean monomials (products of distinct variables, x*x = x) behave as finite sets: the product is the union, divisibility is inclusion, the quotient is the difference, and construction from a variable, insertion of a variable, copy, assignment and swap keep the set and its degree. "
  "Comparison is a total order in which the larger degree is larger, compatible with multiplication by a variable neither operand contains. The variables are stored and printed in strictly descending order, no operation changes another monomial, and every byte is returned when the monomials are gone.",
  ["inputs", "histories"], "all sequences of operations on Boolean monomials in any number of variables",
  "The class has no test at all.",
  ["ginv/bmonom.cpp", "ginv/bmonom.h"],
  [M("merge of sorted variable lists", "ginv/bmonom.cpp BMonom::BMonom"), M("quotient", "ginv/bmonom.cpp BMonom::div"), M("order", "ginv/bmonom.cpp BMonom::compare")],
  ["BMonom public interface", "operator<<"],
  "stateful property-based testing: operation histories against std::set, with AddressSanitizer/UBSan",
  "The class is not in the library's own build; the harness compiles it from the working tree. bpoly.cpp, which uses it, does not compile and stays out of scope.")

P("C32", "Random monomials are drawn from the stated distribution",
  "After initialisation with a number of variables and a range of degrees, every random monomial has exactly that many variables, no position, and a degree within the range (both ends included) that equals the sum of its exponents. "
  "Every degree of the range is equally likely, each of the factors is one of the variables with equal probability, and factors, degrees and successive monomials are independent. Initialising anew switches to the new parameters; in the Python extension, drawing before initialisation, parameters outside the domain, and permutations of fewer than one element are refused with an exception.",
  ["inputs", "histories"], "all numbers of variables and ranges of degrees, all sequences of initialisations and draws",
  "A generator that never reaches an end of its range, or favours a variable, looks random in any single run.",
  ["ginv/monom.cpp", "cython/ginv.pyx"],
  [M("parameters", "ginv/monom.cpp Monom::rand_init"), M("drawing", "ginv/monom.cpp Monom::rand_next"), M("Python interface", "cython/ginv.pyx monom.rand_init/next, randpermutation")],
  ["Monom::rand_init/rand_next", "monom.rand_init/next (Python)", "randpermutation (Python)"],
  "property-based testing with chi-square tests against the exact distribution (thresholds far beyond chance)",
  "Whole-monomial tables for up to 4 variables; marginals and pair counts for up to 300 variables. The extension asks for at least two variables and a proper range; that restriction is not judged.")
