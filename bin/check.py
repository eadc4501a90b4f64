#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE]"""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import json
import traceback
import vlib
import checks


def main():
    a = sys.argv[1:]
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--seed" in a:
        seed = int(a[a.index("--seed") + 1])
    replay = None
    if "--replay" in a:
        replay = json.load(open(a[a.index("--replay") + 1]))
        seed, tier = replay["seed"], replay["tier"]
    ctx = vlib.Ctx(prop, tier, seed)
    ctx.replay = replay
    infra = None
    try:
        checks.CHECKS[prop](ctx)
    except vlib.Infra as x:
        infra = str(x)
    except Exception:
        infra = traceback.format_exc()
    ctx.finish(infra)
    if infra:
        print("check incomplete: %s" % infra[-3000:])
    if ctx.viol:
        sys.exit(1)
    if infra:
        sys.exit(2)
    print("property %s: held on everything explored (%d model/trace states, %d records judged, %.0fs)"
          % (prop, ctx.states, ctx.traces, __import__("time").time() - ctx.t0))
    sys.exit(0)


main()
