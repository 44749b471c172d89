#!/usr/bin/env python3
"""run.py PROPERTY: decides one property on /repo's current tree (see DESIGN.md)."""
import os
import sys
import time
import traceback
from concurrent.futures import ProcessPoolExecutor

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import build    # noqa: E402
import checks   # noqa: E402
import harness  # noqa: E402
import known    # noqa: E402


def main(prop):
    ctx = harness.Ctx(prop)
    try:
        checks.run(ctx)
        known.report(ctx)
        ctx.evidence(extra=getattr(ctx, "extra", None), assumptions=checks.ASSUMPTIONS.get(prop, ()) + checks.COMMON)
    except build.BuildError as e:
        print("the tree does not build:\n%s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ctx.close()
        build.prune()
    if ctx.violations:
        return 1
    print("%s: %d traces, %d events accepted by the specification, %d states, %.1f s" % (prop, ctx.traces, ctx.events, ctx.states, time.time() - ctx.t0))
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
