"""What is explored for each property."""
import os
import time
from concurrent.futures import ProcessPoolExecutor

import build
import conc
import gen
import pygen
import scopes
import walks

# weights of the generators (methods of gen.Gen)
MIX = {
    "C01": dict(elem=4, arith_cpp=9, arith_c=9, power=3, unary=2, objects=1, randoms=1, infinite=1),
    "C02": dict(deep=0.2, elem=4, arith_cpp=4, arith_c=5, power=2, unary=2, compare=1, rounding=1, doubles=1, refinement=4, text=1, objects=1, cross=1, infinite=2, randoms=1,
                components=0.5, hashes=0.5, archives=0.5, archives2=0.5, text2=0.5, creation=0.5, again=0.5, rounding_rat=0.5, compare_close=0.5),
    "C03": dict(deep=0.2, cross=0.7, elem=4, compare=6, compare_rat=4, arith_c=1, refinement=1, compare_close=4, compare_like=1.5, infinite=1),
    "C04": dict(deep=0.2, cross=1, elem=4, rounding=6, rounding_rat=3, arith_c=2, unary=1, refinement=1, infinite=1),
    "C05": dict(deep=0.2, elem=3, doubles=8, arith_c=1, refinement=1, infinite=2),
    "C06": dict(deep=0.2, elem=4, again=4, refinement=5, compare=3, compare_close=1, rounding=3, rounding_rat=0.5, doubles=2, arith_c=2, arith_cpp=1, text=1, infinite=1.5,
                hashes=1, components=1, power=0.5, text2=0.5, archives=0.5, objects=0.5),
    "C07": dict(elem=1, creation=10, field_text=1, arith_c=1),
    "C08": dict(elem=1, creation=4, again=6, neighbours=1, archives=2, objects=3, refinement=1, archives2=2),
    "C09": dict(elem=3, objects=10, cross=2, arith_cpp=2, arith_c=2, archives=1, archives2=1, text=2, text2=1, creation=2, field_text=1, power=1, rounding=1, doubles=1, compare=1, components=1, poly_count=0.5, poly_step=0.5, leak=0.4),
    "C11": dict(elem=3, cross=10, arith_cpp=2, compare=1, compare_like=0.5, objects=2),
    "C12": dict(elem=3, text=6, field_text=3, poly_text_op=3, arith_c=1, text2=4),
    "C13": dict(elem=3, archives=8, objects=2, again=1, refinement=1, creation=1, archives2=5),
    "C14": dict(poly_count=10),
    "C15": dict(poly_step=8, refinement=2, elem=1),
    "C16": dict(elem=4, hashes=8, again=2, refinement=2, cross=2, arith_c=2, objects=1),
    "C17": dict(elem=4, components=8, arith_c=3, unary=2, rounding=1, cross=1, text=1, text2=2),
}
FIELDS = {"C14": 0, "C15": 1, "C08": 3, "C11": 4, "C13": 3}
# (chunks, programs per chunk, steps per program)
SIZE = {
    "C01": (24, 12, 80), "C02": (24, 10, 70), "C03": (24, 10, 60), "C04": (24, 10, 60), "C05": (24, 10, 50), "C06": (24, 10, 60),
    "C07": (24, 8, 60), "C08": (24, 8, 60), "C09": (12, 10, 80), "C11": (24, 10, 70), "C12": (24, 10, 70), "C13": (24, 8, 50),
    "C14": (24, 8, 70), "C15": (24, 8, 70), "C16": (24, 10, 60), "C17": (24, 12, 60),
}
THOROUGH_S = int(os.environ.get("VERIF_BUDGET", "600"))

COMMON = ("FLINT/ARB/GMP compute correctly except where a deviation shows in e-antic's results",
          "the Java implementation of the arithmetic operators of BigInt.tla agrees with their definitions (BigIntTest.tla compares them)",
          "the driver reports registers, results and exceptions faithfully")
ASSUMPTIONS = {}


def make_chunk(args):
    prop, seed, i, weights, programs, steps, fields = args
    g = gen.Gen("%s/%s/%d" % (prop, seed, i))
    w = dict(weights)
    leak = w.pop("leak", 0)
    for _ in range(programs):
        g.program(w, steps, fields, leak)
    return g.out


def scripts(prop, seed, chunks, programs, steps, weights=None, fields=None, base=0):
    w = weights or MIX[prop]
    f = FIELDS.get(prop, 2) if fields is None else fields
    with ProcessPoolExecutor(8) as ex:
        return list(ex.map(make_chunk, [(prop, seed, base + i, w, programs, steps, f) for i in range(chunks)]))


def random_part(ctx, exe=None, **kw):
    n, p, s = SIZE[ctx.prop]
    ctx.conform(scripts(ctx.prop, ctx.seed, n, p, s), exe=exe, **kw)
    base = n
    while ctx.thorough and not ctx.violations and time.time() - ctx.t0 < THOROUGH_S:
        ctx.conform(scripts(ctx.prop, ctx.seed, n, p, s, base=base), exe=exe, label="t%d-" % base, **kw)
        base += n


ALL_OPS = dict(elem=4, arith_cpp=3, arith_c=4, power=2, unary=1, compare=1, compare_rat=1, compare_close=1, compare_like=0.5, infinite=1, rounding=1, rounding_rat=1, doubles=1,
               components=1, hashes=1, refinement=1, text=2, text2=2, field_text=1, objects=3, cross=2, again=1, archives=1, archives2=1, randoms=1,
               creation=2, poly_count=1, poly_step=1, poly_text_op=1)


def c09(ctx):
    """memory safety and leaks of all operations, with the address and leak sanitizers"""
    exe = build.build("asan")["drv"]
    env = {"ASAN_OPTIONS": "detect_leaks=1:allocator_may_return_null=1:detect_stack_use_after_return=1", "LSAN_OPTIONS": "report_objects=0"}
    ctx.run_only(scripts(ctx.prop, ctx.seed, 32, 10, 80, ALL_OPS, 3, base=10000), exe, env)
    if not ctx.violations:
        w = dict(MIX["C09"])
        w.pop("leak")
        ctx.conform(scripts(ctx.prop, ctx.seed, 16, 10, 80, w, base=20000), exe=exe, env=env, label="a")
    base = 30000
    while ctx.thorough and not ctx.violations and time.time() - ctx.t0 < THOROUGH_S / 2:
        ctx.run_only(scripts(ctx.prop, ctx.seed, 64, 10, 80, ALL_OPS, 3, base=base), exe, env, label="x%d-" % base)
        base += 64


def c18(ctx):
    """programs that use the Python interface, in a few long processes as importing it is slow"""
    exe, env = build.python()
    base, n, progs = 0, 8, 25
    while True:
        with ProcessPoolExecutor(8) as ex:
            chunks = list(ex.map(pygen.make, [(ctx.seed, base + i, progs, 70) for i in range(n)]))
        ctx.conform(chunks, exe=exe, env=env, label="py%d-" % base, limit_ms=30000)
        base, progs = base + n, 25
        if not ctx.thorough or ctx.violations or time.time() - ctx.t0 > THOROUGH_S:
            return


def lifecycle(ctx):
    """every transition of Lifecycle.tla"""
    exe, env = None, None
    if ctx.prop == "C09":
        exe = build.build("asan")["drv"]
        env = {"ASAN_OPTIONS": "detect_leaks=1:allocator_may_return_null=1", "LSAN_OPTIONS": "report_objects=0"}
    for nr, nk in [(2, 1)] + ([(2, 2)] if ctx.thorough else []):
        if not ctx.violations:
            ctx.conform(walks.scripts(ctx, nr, nk, 8 if nk == 1 else 32), exe=exe, env=env, label="w%d%d-" % (nr, nk))


# families of Enumerate.tla
FAMILIES = {"C01": ("arith", "number"), "C02": ("arith",), "C03": ("relation", "pairs", "coerce"), "C04": ("round", "coerce"), "C05": ("double",), "C06": ("history",), "C07": ("field",), "C11": ("coerce",),
            "C12": ("text", "stream"), "C13": ("archive",), "C14": ("poly",), "C15": ("step",), "C16": ("convert",), "C17": ("convert",)}


def enumerated(ctx):
    for f in FAMILIES[ctx.prop]:
        if not ctx.violations:
            ctx.conform(scopes.scripts(ctx, f, ctx.thorough, 64 if ctx.thorough else 16), label=f + "-")


STRICT = {"LIBEANTIC_STRICT_BINOP": "1"}


def strict(ctx):
    """the documented switch that forbids mixing fields"""
    ctx.conform(scopes.scripts(ctx, "coerce", ctx.thorough), strict=True, env=STRICT, label="strict-")
    ctx.conform(scripts(ctx.prop, ctx.seed, 8, 10, 70, base=5000), strict=True, env=STRICT, label="stricter-")


WALKS = ("C08", "C09", "C11")
SPECIAL = {"C09": c09, "C10": conc.check, "C18": c18}


def run(ctx):
    if ctx.prop in SPECIAL:
        SPECIAL[ctx.prop](ctx)
    if ctx.prop in WALKS and not ctx.violations:
        lifecycle(ctx)
    if ctx.prop in FAMILIES and not ctx.violations:
        enumerated(ctx)
    if ctx.prop == "C11" and not ctx.violations:
        strict(ctx)
    if ctx.prop in MIX and not ctx.violations:
        random_part(ctx)
