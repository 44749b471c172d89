#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files), state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)))
L = "libeantic/"
prop("C01", "Field arithmetic is exact for every operand type, size and aliasing",
 "Every arithmetic operation on elements of one field (set, negate, add, subtract, multiply, divide, invert, integer powers incl. negative exponents, in both operand orders, in the C and the C++ interface, with element, machine-integer, big-integer and rational operands, and with the result aliasing any operand) yields exactly the element of Q(alpha) that the mathematics prescribes. The operands that are not the result keep their value, and the machine-integer, big-integer, rational and element forms of one operation agree. Dividing by zero is outside the domain.",
 ["inputs", "histories"], "all fields of degree >= 1 with any real root as embedding, all elements of any height, all operand types including extreme machine integers, all aliasing patterns, all histories of operations leading to the operands",
 "The repository's tests check ring identities on random elements of a few random fields (and the C++ operator tests are not part of the stable set); a wrong result for one operand type, one aliasing pattern, one representation (linear/quadratic/general) or one size class satisfies them.",
 [L+"src/renf_elem/add.c", L+"src/renf_elem/sub.c", L+"src/renf_elem/mul.c", L+"src/renf_elem/div.c", L+"src/renf_elem/inv.c", L+"src/renf_elem/pow.c", L+"src/renf_elem/fmpq_sub.c", L+"src/renf_elem/fmpq_div.c", L+"src/renf_elem/gen.c", L+"srcxx/renf_elem_class.cpp", L+"e-antic/renf_elem_class.hpp", L+"upstream/patched"],
 [("exact representation in nf_elem, one C function per operand type", L+"src/renf_elem/*.c"), ("binop dispatch on operand type / parents", L+"srcxx/renf_elem_class.cpp")],
 [("element", "exact coefficient vector and denominator of a register", "renf_elem_t::elem")], ["renf_elem_get_fmpq_poly / num_vector(), den() after each call"])
prop("C02", "Stored enclosures always contain the exact value",
 "After any sequence of constructions, assignments, arithmetic operations and queries, the real ball stored with each live element contains that element's exact real value, and the ball stored with each field contains the chosen root of the defining polynomial and no other root. This holds for results of every operation, at every working precision, and for elements left untouched while their field is refined.",
 ["histories", "inputs"], "all operation histories, all precisions, all fields and embeddings, all operand magnitudes",
 "Tests run an internal consistency check on a few random elements; an enclosure that misses the true value in a rare magnitude/cancellation pattern leads to wrong answers only much later and only for specific inputs.",
 [L+"src/renf_elem/set_evaluation.c", L+"src/renf_elem/check_embedding.c", L+"src/renf_elem/add.c", L+"src/renf_elem/mul.c", L+"src/renf_elem/set.c", L+"src/renf/refine_embedding.c", L+"src/renf/init.c"],
 [("outward-rounded ball arithmetic next to the exact representation", L+"src/renf_elem/*.c"), ("re-evaluation of the exact representation at the field's ball", L+"src/renf_elem/set_evaluation.c")],
 [("elem.emb", "ball enclosing the element", "renf_elem_t::emb"), ("field.emb", "ball enclosing the generator", "renf_t::emb")], ["arb balls of the involved elements and of the field after each call"])
prop("C03", "Sign, comparison and equality decisions are exact",
 "The sign of an element and every comparison (equal, unequal, less, less-or-equal, greater, three-way; element against element, machine integer, big integer or rational; C and C++; either operand order) agree with the exact real numbers, however close the two sides are and whatever precision is currently stored. The predicates zero, one, integer, rational and the truth value agree with the exact value.",
 ["inputs", "histories"], "all pairs of elements incl. differences far below the current precision, all operand types and extreme machine integers, all representations (linear/quadratic/general), all stored precisions",
 "Random tests almost never compare values that agree to more than the working precision or sit next to machine-integer limits, so the refinement loops and the exact tie-breaks are barely exercised.",
 [L+"src/renf_elem/sgn.c", L+"src/renf_elem/cmp.c", L+"src/renf_elem/cmp_fmpq.c", L+"src/renf_elem/cmp_fmpz.c", L+"src/renf_elem/cmp_si.c", L+"src/renf_elem/cmp_ui.c", L+"src/renf_elem/equal.c", L+"src/renf_elem/equal_si.c", L+"src/renf_elem/is_integer.c", L+"src/renf_elem/relative_condition_number_2exp.c", L+"srcxx/renf_elem_class.cpp"],
 [("exact equality test before any numeric comparison, refine-until-separated loop", L+"src/renf_elem/cmp.c"), ("boost ordered_field_operators", L+"e-antic/renf_elem_class.hpp")], (), ["return values of the decisions"])
prop("C04", "Floor, ceiling, floor division and continued fractions are exact",
 "Floor and ceiling return the exact integer part from below and above, floor division returns floor(a/b), and the continued fraction expansion returns the true partial quotients of the element (complete for rationals, the requested number otherwise), for every element however close to an integer and at every stored precision. None of these calls changes the value of its operands.",
 ["inputs", "histories"], "all elements incl. those within far less than the stored precision of an integer, zero and rational elements reached through any history, all fields and representations",
 "Tests sample random elements that are not near integers and in freshly computed state; wrong rounding needs a near-integer value, a negative value, a particular representation or a stale internal coefficient.",
 [L+"src/renf_elem/floor_ceil.c", L+"src/renf_elem/rounding_template.h", L+"src/renf_elem/fdiv.c", L+"src/renf_elem/get_cfrac.c", L+"srcxx/renf_elem_class.cpp"],
 [("unique-integer test on the enclosure with refinement", L+"src/renf_elem/rounding_template.h")], (), ["returned integers, operands after the call"])
prop("C05", "Conversions to floating point are correctly rounded and to balls accurate",
 "Converting an element to a double gives the correctly rounded double for the requested direction (nearest, down, up, towards and away from zero) for every element whose magnitude is at most the largest finite double, including subnormal results, ties and rational elements; larger magnitudes give the IEEE result for rationals and an infinity of the correct sign for all other elements. Converting to a ball at a requested precision gives a ball that contains the exact value and has at least the requested relative accuracy.",
 ["inputs", "histories"], "all elements incl. values just beside a rounding boundary, near overflow and underflow, all rounding directions, all requested precisions, all stored precisions",
 "The stable tests compare doubles of a handful of moderate values; double-rounding and directed-rounding mistakes need values within 2^-53 relative of a boundary or in the subnormal range.",
 [L+"src/renf_elem/get_d.c", L+"src/renf_elem/get_arb.c", L+"src/renf_elem/relative_condition_number_2exp.c", L+"srcxx/renf_elem_class.cpp"],
 [("refine until both ends of the enclosure round to the same double", L+"src/renf_elem/get_d.c")], (), ["returned double bits / ball"])
prop("C06", "Refinement is transparent: answers never depend on precision or query history",
 "Increasing precision never changes a value: each refinement of a field or element replaces a ball by one that still contains the same number (for a field, one that lies inside what was known before), a field's precision never decreases, and a requested accuracy is reached in finite time. Consequently every observable answer is a function of the exact operands only, whatever the initial precision, the order of queries, or the sharing of the field with other elements.",
 ["histories", "schedules", "configurations"], "all interleavings of queries and arithmetic on elements sharing a field, all initial precisions, all target precisions",
 "Tests use one fixed order and mostly one initial precision; dependence on history only shows for particular sequences of refinements followed by particular queries.",
 [L+"src/renf/refine_embedding.c", L+"src/fmpz_poly_extra/newton_step_arb.c", L+"src/fmpz_poly_extra/bisection_step_arb.c", L+"src/renf_elem/set_evaluation.c", L+"src/renf_elem/cmp.c", L+"src/renf_elem/sgn.c"],
 [("Newton step with bisection fallback, intersected with the previous ball", L+"src/renf/refine_embedding.c"), ("lazy re-evaluation with growing precision", L+"src/renf_elem/*.c")],
 [("prec", "working precision of the field", "renf_t::prec"), ("emb", "ball of the generator", "renf_t::emb")], ["field ball and precision after each call, answers of equal programs run at different precisions/orders"])
prop("C07", "A field is created exactly for the root that was asked for",
 "Creating a field from an irreducible polynomial and a ball succeeds exactly when the ball contains exactly one real root of the polynomial, and then the field's generator is that root: it satisfies the polynomial, lies in the given ball, and the reported degree, printed form and embedding describe it. Creating a field for an n-th root of a rational, and enumerating all real embeddings of a polynomial, give exactly the positive root (respectively each real root once, in increasing order). Balls or strings that do not determine a root are rejected with an error and never give a wrong field.",
 ["inputs", "configurations"], "all irreducible polynomials, all balls including ones with ends next to a root, tighter than the precision, or containing none or several roots, all precisions, all degrees",
 "Tests construct fields for a few well-separated roots and generous balls; misjudging close roots, tight balls, linear polynomials or root bounds needs specific polynomials.",
 [L+"src/renf/init.c", L+"src/renf/init_nth_root.c", L+"src/renf/init_set.c", L+"src/renf/set_embeddings_fmpz_poly.c", L+"src/fmpq_poly_extra/check_unique_real_root.c", L+"src/renf_elem/gen.c", L+"srcxx/renf_class.cpp"],
 [("unique-root check of the ball", L+"src/fmpq_poly_extra/check_unique_real_root.c"), ("root isolation", L+"src/fmpz_poly_extra/isolate_real_roots.c")], (), ["result / exception of the construction, polynomial, ball and generator of the new field"])
prop("C08", "Fields are unique parents",
 "At any moment two fields are the same object exactly when they have the same defining polynomial, the same embedding (root) and the same generator name, no matter through which constructor, precision, ball, copy, or deserialization they were obtained. A field that has been destroyed is never handed out again, and a later request builds a valid new one.",
 ["histories", "inputs"], "all histories of creating, dropping and re-creating fields with equal, conjugate, renamed or differently refined descriptions",
 "Tests create two or three fields once; confusion of conjugate or renamed fields, or of refined with unrefined ones, needs particular combinations and histories.",
 [L+"srcxx/renf_class.cpp", L+"src/renf/equal.c", L+"e-antic/renf_class.hpp", L+"e-antic/cereal.hpp"],
 [("global registry keyed by hash of the generator and equality of field data", L+"srcxx/renf_class.cpp"), ("renf_equal", L+"src/renf/equal.c")],
 [("registry", "set of live fields", "fields in renf_class.cpp")], ["addresses / == of field handles after each step"])
prop("C09", "Elements and fields have value semantics and correct lifetimes",
 "Copies are independent of their source, moves transfer the value and leave the source assignable and destructible, swaps exchange value and parent, self-assignment is harmless. A field lives exactly as long as some handle or element needs it, and is then released: no use after release, no double release, no leak, for every history of copies, moves, assignments, swaps, container operations and failed operations.",
 ["histories", "fault_sequences"], "all finite programs over handles and elements (construct, copy, move, assign across parents, swap, containers, drop in any order, exceptions in between)",
 "Tests exercise short straight-line scenarios; reference-count and aliasing mistakes appear only in particular orders of drop/assign/move and may stay silent without a memory checker.",
 [L+"srcxx/renf_elem_class.cpp", L+"srcxx/renf_class.cpp", L+"e-antic/renf_elem_class.hpp", L+"src/renf_elem/init.c", L+"src/renf_elem/clear.c", L+"src/renf/clear.c"],
 [("intrusive reference counting with three internal references", L+"srcxx/renf_class.cpp"), ("special members and parent switching in assignments", L+"srcxx/renf_elem_class.cpp")],
 [("refcount", "number of users of a field", "renf_class::refcount")], ["values/parents of all live registers and the number of live fields after each step, memory checker"])
prop("C10", "Concurrent creation and release of fields is safe",
 "When several threads create, look up, copy, share and release fields and elements (each thread using fields and elements no other thread is computing with), every interleaving behaves like some sequential order: equal requests return the same live field, no field is destroyed while a handle exists, none is destroyed twice or leaked, and there is no data race. Threads that compute with elements of a shared field marked immutable (whose precision suffices) get the results they would get alone.",
 ["schedules"], "all interleavings of field creation, lookup, handle copying and release by several threads",
 "The threading test runs one uncontrolled schedule on the happy path; the dangerous interleavings (lookup between the last release and the removal) have tiny windows.",
 [L+"srcxx/renf_class.cpp", L+"e-antic/renf_class.hpp"],
 [("mutex around the registry, atomic reference count", L+"srcxx/renf_class.cpp")],
 [("registry, refcount, mutex", "shared state of all threads", "renf_class.cpp")], ["handles and liveness under controlled schedules (pthread_mutex_lock as scheduling point), sanitizers"])
prop("C11", "Parents and coercions follow one documented rule",
 "Every element has exactly one parent: arithmetic and comparison inside one field stay in that field; a rational operand from another field or the rationals is coerced so that the result lives in the field of the non-rational operand (the left one's, if both are rational); assigning a machine or big number makes the element rational with rational parent; combining, comparing (also for equality), floor-dividing or converting non-rational elements of different fields raises an error. When an operation raises an error, all its operands keep their value and parent, and the strict mode (LIBEANTIC_STRICT_BINOP) turns arithmetic between elements of two different non-rational fields into errors.",
 ["inputs", "histories", "configurations"], "all pairs of parents (rationals, same field, conjugate field, other field), all values (zero, rational, non-rational), all operators and assignment/conversion forms, strict mode on or off",
 "The mixed-parent tests are not in the stable set and cover a few operator/parent combinations; a wrong parent or an operand damaged by a failed operation is invisible to value-only assertions.",
 [L+"srcxx/renf_elem_class.cpp", L+"e-antic/renf_elem_class.hpp"],
 [("binop dispatch, coercion constructor, parent-resetting assignments", L+"srcxx/renf_elem_class.cpp")], (), ["parent and value of operands and result, exception type"])
prop("C12", "Text input and output are faithful and mutually inverse",
 "Printing an element or field and reading the text back gives an equal element of the same field or the identical field, for all output styles that contain the algebraic form; the printed polynomial is the exact value, the printed approximation a correct decimal of it. Reading accepts polynomial expressions in the generator with rational coefficients and assigns exactly the value written, rejects malformed text with an error, and a failed read leaves no partial effect; a successful read does not depend on the previous content of the target.",
 ["inputs", "histories"], "all elements, all generator names, all well-formed and malformed strings, all previous contents of the target, all flag combinations",
 "Tests round-trip a few simple elements; parser and printer errors need particular signs, denominators, exponents, names, white space or leftovers in the target.",
 [L+"src/fmpq_poly_extra/set_str_pretty.c", L+"src/fmpz_poly_extra/set_str_pretty.c", L+"src/renf_elem/get_str_pretty.c", L+"src/renf/get_str.c", L+"srcxx/renf_class.cpp", L+"srcxx/renf_elem_class.cpp"],
 [("pretty parser/printer, stream operators, construction()", L+"src/fmpq_poly_extra/set_str_pretty.c")], (), ["strings produced, elements/fields/errors obtained from strings"])
prop("C13", "Serialization round-trips values and field identity",
 "Saving any collection of fields and elements to an archive and loading it gives equal elements in the identical field: within the process the very same field object, shared between all loaded elements that shared it, with the embedding it had; this holds for all fields, precisions, names, values and orders, and loading does not disturb existing objects.",
 ["inputs", "histories"], "all collections of elements and fields (shared, several fields, refined to high precision), all archive orders",
 "The cereal test is not in the stable set and stores a handful of elements; loss of precision of the embedding or of sharing needs particular fields and collections.",
 [L+"e-antic/cereal.hpp", L+"srcxx/renf_class.cpp"],
 [("construction() tuple and pretty string written to the archive", L+"e-antic/cereal.hpp")], (), ["loaded objects compared with the saved ones"])
prop("C14", "Real-root counting, bounding and isolation of polynomials are correct",
 "For squarefree integer polynomials, the isolation routines return pairwise disjoint intervals and exact points that contain each real root exactly once (all roots, or those in [0,1)), in increasing order; the counting routines return the true number of real roots; the bounding routines return true upper bounds for root size and root number; the existence test, squarefree part, rescaling, absolute value and evaluation helpers return what their names say.",
 ["inputs"], "all nonzero squarefree integer polynomials (all degrees, coefficient sizes, roots at 0, at 1, at powers of two, close roots), all intervals",
 "Tests check random dense polynomials and polynomials with known small roots; a wrong sign condition or interval end is hit only by particular coefficient patterns.",
 [L+"src/fmpz_poly_extra/isolate_real_roots.c", L+"src/fmpz_poly_extra/positive_root_upper_bound_2exp.c", L+"src/fmpz_poly_extra/descartes_bound.c", L+"src/fmpz_poly_extra/descartes_bound_0_1.c", L+"src/fmpz_poly_extra/num_real_roots_0_1_sturm.c", L+"src/fmpz_poly_extra/num_real_roots_vca.c", L+"src/fmpz_poly_extra/has_real_root.c", L+"src/fmpz_poly_extra/squarefree_part.c", L+"src/fmpz_poly_extra/scale_0_1_fmpq.c", L+"src/fmpz_poly_extra/abs.c", L+"src/fmpz_poly_extra/evaluate_at_one.c"],
 [("Vincent-Collins-Akritas bisection with Descartes bounds; Sturm sequence", L+"src/fmpz_poly_extra/isolate_real_roots.c")], (), ["returned intervals, points, counts and polynomials"])
prop("C15", "Root-refinement steps and ball evaluation are sound",
 "Given a ball containing exactly one root, a Newton or bisection step returns a ball that still contains that root and never leaves the given ball's knowledge, and reports success only when it made the ball smaller; evaluating an integer or rational polynomial at a ball returns a ball containing all values on it, at an exact point a correctly enclosed value.",
 ["inputs"], "all polynomials, all isolating balls (wide, tight, root near the end, midpoint hitting the root), all precisions",
 "Tests run steps on random polynomials and balls far from degenerate; loss of the root needs a ball whose end or midpoint nearly coincides with the root or a specific precision.",
 [L+"src/fmpz_poly_extra/newton_step_arb.c", L+"src/fmpz_poly_extra/bisection_step_arb.c", L+"src/fmpz_poly_extra/evaluate.c", L+"src/fmpq_poly_extra/evaluate.c", L+"src/fmpz_poly_extra/relative_condition_number_2exp.c"],
 [("interval Newton operator, sign-based bisection, outward rounding", L+"src/fmpz_poly_extra/newton_step_arb.c")], (), ["input and output balls, success flags"])
prop("C16", "Hashing is consistent with equality",
 "Elements that compare equal have equal hash values, whatever their parents, representation, precision or history, and an element's hash never changes while its value does not, so that hashed containers find every element stored in them. Fields that are equal hash equally and a field's hash stays the same during its life.",
 ["inputs", "histories"], "all pairs of equal elements (same field, rational in different fields, differently refined, reached by different computations), all histories between hashing and lookup",
 "The hash test is not in the stable set and hashes a few elements once; history- or parent-dependent hashes break lookups only in particular sequences.",
 [L+"srcxx/renf_elem_class.cpp", L+"srcxx/renf_class.cpp"],
 [("hash of the correctly rounded double", L+"srcxx/renf_elem_class.cpp")], (), ["hash values and unordered_set lookups"])
prop("C17", "Components and rational conversions describe the exact value",
 "The numerator vector and denominator of an element (and the rational numerator/denominator, numerator content and vector constructors) satisfy value = sum(num[i]*alpha^i)/den with positive denominator in lowest terms, with one coefficient per basis power; constructing an element from such components, or from any machine, big or rational number, gives exactly that value. Conversion to a big integer or rational returns the exact value when it is one (asking for it otherwise, and passing more coefficients than the degree, is outside the domain).",
 ["inputs"], "all elements of all fields (linear, quadratic, general), all component vectors incl. trailing zeros, non-reduced fractions and over-long vectors, all number types and extremes",
 "Tests check a few elements per field; wrong denominators, missing coefficients or type truncation need specific representations or extreme values, and these test files are not in the stable set.",
 [L+"srcxx/renf_elem_class.cpp", L+"src/renf_elem/set_si.c", L+"src/renf_elem/set_ui.c", L+"src/renf_elem/set_mpz.c", L+"src/renf_elem/set_mpq.c", L+"src/renf_elem/set_fmpz.c", L+"src/renf_elem/set_fmpq.c", L+"src/renf_elem/set_fmpq_poly.c", L+"src/renf_elem/set_nf_elem.c"],
 [("per-representation accessors", L+"srcxx/renf_elem_class.cpp")], (), ["accessor results and constructed elements"])
prop("C18", "The Python interface agrees with the library",
 "Through the Python interface (the cppyy bindings in pyeantic.eantic and the conversion from realalg), fields and elements built from Python integers of any size, mpz_class and mpq_class numbers, strings, coefficient lists or realalg numbers have exactly the intended value; operators and comparisons (with Python integers on either side, mpz_class and mpq_class on the right), in-place operators that rebind a name without changing other names of the object, powers, floor division, conversions, printing, hashing and pickling give the results the exact numbers prescribe; unsupported operands raise errors rather than give wrong values; objects stay usable as long as Python references them.",
 ["inputs", "histories"], "all Python integers (incl. beyond machine size), rationals, elements and operators in both operand orders, all pickling/round-trip histories, garbage collection at any point",
 "The Python tests evaluate a few expressions; wrong overload selection, reflected operators, big-integer truncation or lifetime errors need particular operand types or collection points.",
 ["pyeantic/src/pyeantic/cppyy_eantic.py", "pyeantic/src/pyeantic/realalg_conversion.py", "pyeantic/src/pyeantic/__init__.py", L+"e-antic/cppyy.hpp"],
 [("pythonization of the C++ classes", "pyeantic/src/pyeantic/cppyy_eantic.py")], (), ["results/exceptions of Python expressions"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
