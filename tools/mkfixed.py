#!/usr/bin/env python3
"""Rewrites the list of repaired defects in known-findings.json: property and what failed, by subject of the commit in /repo."""
import json
import os
import subprocess

F = [  # (start of the subject, property, what failed)
    ("bisection step must not lose", "C15", "fmpz_poly_bisection_step_arb could return a ball without the root, or report progress without any (also C06, C07: creation of such fields hung or failed)"),
    ("generator of a linear field", "C01", "renf_elem_gen in a linear field c1*x + c0 gave -c1/c0 (also C07)"),
    ("renf_elem_fmpq_div computed", "C01", "renf_elem_fmpq_div(a, b, c) gave b*c for rational c in some fields"),
    ("floor and ceil of zero", "C04", "floor and ceil of a zero element of a quadratic field read a stale coefficient"),
    ("fmpz_poly_set_str_pretty must not keep", "C12", "reading a polynomial into a non-zero target kept the target's coefficients"),
    ("positive root bound must only", "C14", "fmpz_poly_positive_root_upper_bound_2exp was no bound when the leading coefficient is negative (also C07)"),
    ("Sturm root count in", "C14", "fmpz_poly_num_real_roots_0_1_sturm miscounted when a term of the Sturm sequence vanishes at 0 or 1"),
    ("converting a rational to a subnormal", "C05", "renf_elem_get_d rounded twice for subnormal results"),
    ("check for a unique real root", "C07", "fmpq_poly_check_unique_real_root accepted balls with another number of roots as the endpoints were rounded"),
    ("fields are only equal", "C08", "renf_equal considered embeddings with close roots equal, two fields were identified"),
    ("decide about releasing a field", "C10", "the last reference could be released while make() handed the field out: use after free"),
    ("do not leak memory when creating", "C09", "memory leaked when parsing an element or creating a field fails"),
    ("avoid signed overflow when raising", "C01", "pow(INT_MIN) negated INT_MIN"),
    ("the data to reconstruct a field", "C13", "construction() of a field with close roots did not determine the embedding: loading it failed or gave an error (also C12)"),
    ("floordiv of non-rational", "C11", "floordiv of elements of different fields computed with the wrong field instead of raising an error"),
    ("fractions in texts", "C12", "texts such as 4/2 gave non-canonical rationals and wrong comparisons, 1/0 a division by zero (also C03, C17)"),
    ("renf_elem_fmpq_sub with a rational", "C01", "q - b for a rational b in a quadratic field was wrong"),
    ("comparing a small element", "C03", "renf_elem_cmp_fmpq aborted for tiny elements (also C07)"),
    ("isolating balls of all embeddings", "C07", "renf_init_set of all embeddings rounded the isolating balls, which then missed the root or held several (also C14)"),
    ("a bisection step that returns", "C15", "a bisection step reported progress when it returned its input: refinement did not terminate"),
    ("refine the embedding of linear", "C06", "refining the embedding of a linear field did nothing or failed for the zero generator (also C05)"),
    ("approximating an element must not work", "C05", "renf_elem_get_arb did not terminate when the embedding is exact (also C06)"),
    ("keep saved fields alive", "C13", "a field that died while an archive was being written could be confused with a new one at the same address"),
    ("evaluate small elements", "C03", "tiny elements were evaluated at a negative precision (also C05)"),
    ("approximating rational elements", "C10", "approximating elements of the rationals wrote to the field shared by all threads: data race"),
    ("Python must keep a field alive", "C18", "gen().parent() of a field that is only referenced by its generator gave a dangling reference"),
    ("convert Python integers", "C18", "Python integers beyond 64 bits raised or were truncated"),
    ("in-place operators in Python", "C18", "a += b in Python modified all other names of a"),
    ("comparisons in Python", "C18", "comparing with unsupported operands compared addresses"),
    ("creating elements in Python", "C18", "unsuitable arguments to create an element selected another constructor and gave a wrong element"),
    ("convert embeddings of realalg", "C18", "realalg fields with large roots could not be converted"),
    ("reading an element in parentheses", "C12", "reading (x ) from a stream skipped the closing parenthesis and swallowed what follows"),
    ("reduce fractions that are given as strings", "C18", "elements made from strings such as 4/2 in Python were not in lowest terms (not an integer, not equal to 2), 1/0 crashed"),
]

here = os.path.dirname(os.path.abspath(__file__))
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], stdout=subprocess.PIPE, check=True).stdout.decode().splitlines()
path = os.path.join(here, "..", "known-findings.json")
d = json.load(open(path))
d["fixed"] = []
subjects = [(x.split(" ", 1)[0], x.split(" ", 1)[1][5:]) for x in log if " fix: " in x]
for h, s in reversed(subjects):
    m = [f for f in F if s.startswith(f[0])]
    if not m:
        raise SystemExit("no entry for " + s)
    d["fixed"].append("fixed: property=%s %s %s" % (m[0][1], h, m[0][2]))
json.dump(d, open(path, "w"), indent=1)
print(len(d["fixed"]))
