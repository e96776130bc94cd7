#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property on /repo's working tree."""
import json, os, sys, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import EVID, Ctx, ToolError, Violation
import suites


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1")) % 2_000_000_000
    ctx = Ctx(prop, tier, seed)
    try:
        suites.CHECKS[prop](ctx)
    except Violation as v:
        d = os.path.join(EVID, "replay")
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, f"{prop}-{tier}-{seed}.json")
        json.dump(dict(property=prop, tier=tier, seed=seed, what=v.what, **v.replay), open(f, "w"), indent=1)
        ctx.evidence("model_checking", 1)
        print(v.what[:2000])
        print(f"VIOLATION property={prop} replay={f}")
        return 1
    except ToolError as e:
        print(f"check error: {e}")
        return 2
    except Exception:
        traceback.print_exc(file=sys.stdout)
        return 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            ctx.close()
    for k in ctx.known:
        print(f"KNOWN-FINDING: property={prop} {k}")
    ctx.evidence("model_checking", 0)
    c = sum(1 for _ in ctx.parts)
    print(f"{prop}: held ({c} parts, {ctx.states} states, {ctx.traces} histories / {ctx.events} events validated)")
    return 0


if __name__ == "__main__":
    sys.exit(main())
