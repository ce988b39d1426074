#!/usr/bin/env python3
"""check.py <property> [--replay file]: decide one property on /repo's current tree.
exit 0 held, 1 VIOLATION, 2 the check itself failed."""
import importlib, json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import core


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module("checks." + prop)
    ctx = core.Ctx(prop, tier, seed)
    if "--replay" in sys.argv:
        rep = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        ctx.only = rep
        orig = ctx.conform

        def conform(name, exe, module, episodes, **kw):
            if name == rep["part"]:
                orig(name, exe, module, rep.get("before", []) + [rep["episode"]], **kw)
        ctx.conform, ctx.together = conform, True
    t = time.time()
    try:
        mod.run(ctx)
    except core.CheckError as e:
        if not [v for v in ctx.violations if not v["known"]]:
            print("ERROR property=%s: %s" % (prop, e))
            return 2
    except Exception:
        traceback.print_exc()
        return 2
    new = [v for v in ctx.violations if not v["known"]]
    if "--replay" not in sys.argv:
        os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
        cov = {"states": ctx.states, "transitions": ctx.transitions,
               "traces_validated_against_impl": ctx.traces, "samples": ctx.samples or ["none"],
               "recorded_events": ctx.events, "parts": ctx.parts}
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
              "coverage": cov, "assumptions": ctx.assumptions,
              "wall_s": round(time.time() - t, 2), "violations": len(new)}
        json.dump(ev, open(os.path.join(core.VERIF, "evidence", prop + ".json"), "w"), indent=1)
    listed = set()
    for v in ctx.violations:
        if v["known"] and v["known"]["what"] not in listed:
            listed.add(v["known"]["what"])
            print("KNOWN-FINDING: property=%s %s" % (prop, v["known"]["what"]))
    for v in new[:3]:
        print("VIOLATION property=%s replay=%s" % (prop, v["path"]))
    if new:
        print("  part %s, first event the specification refuses: %s" % (new[0]["part"], json.dumps(new[0]["event"])[:600]))
        return 1
    print("OK property=%s states=%d traces=%d events=%d wall=%.1fs" % (prop, ctx.states, ctx.traces, ctx.events, time.time() - t))
    return 0


if __name__ == "__main__":
    sys.exit(main())
