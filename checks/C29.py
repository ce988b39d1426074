import json
from vlib import core

THINGS = 14


def episode(rng, n):
    slots, cbs = rng.choice([2, 4, 8]), 2
    ops, proms = [], []
    v = lambda: rng.randrange(THINGS)
    s = lambda: rng.randrange(slots) + 1
    plan = lambda k: [{"how": rng.choice(["then", "then", "catch"]), "v": v()} for _ in range(rng.randrange(k + 1))]
    while len(ops) < n:
        x = rng.random()
        if x < .5:
            k = rng.choice(["fresh", "set", "set", "copy", "copy", "move", "move", "swap", "gone", "transform", "equal", "element"])
            o = {"op": k, "i": s(), "j": s(), "v": v() if k != "element" else rng.choice([12, 13, 6])}
        elif x < .65:
            k = rng.choice(["insert", "insert", "insert", "take", "reverse"])
            o = {"op": k, "i": s(), "k": rng.randrange(1, 6)}
        elif x < .8:
            o = {"op": rng.choice(["callback", "call", "call", "call", "cbmove", "cbgone"]), "c": rng.randrange(cbs) + 1, "i": s(), "v": v(), "by": rng.random() < .5}
        elif x < .88:
            k = rng.choice([0, 1, 2, 3, 8])
            o = {"op": "promise", "captures": [s() for _ in range(k)], "c": k > 1 and rng.random() < .5, "stages": rng.randrange(1, 3), "plan": plan(2), "again": rng.random() < .3}
            if rng.random() < .5:
                o["plan"] = []
        else:
            o = {"op": "settle", "p": rng.randrange(1, 9), "s": rng.randrange(1, 3), "how": rng.choice(["then", "then", "catch"]), "v": v(), "plan": plan(1), "again": rng.random() < .3}
        ops.append(o)
    return {"slots": slots, "cbs": cbs, "ops": ops}


def run(ctx):
    rng = ctx.rng
    exe = core.build("handles", core.PAGE, asan=True)
    if not ctx.quick:
        ctx.model("HandlesMC", defines={"Slots": 3, "Values": 2, "MaxList": 2, "Cases": "FALSE"})
    m = ctx.model("HandlesMC", defines={"Slots": 2, "Values": 1, "MaxList": 2, "Cases": "TRUE"})
    eps = []
    init = next(s for s, _, _ in m.edges if json.loads(s) == [[-1, -1], [], 0, {"at": 1, "stages": 0}])
    walks, left = core.edge_walks(m.edges, init, rng, maxlen=200)
    assert left == 0, left
    for w in walks:
        ops = []
        for o in w:
            o = dict(o)
            if o["op"] in ("callback", "call"):
                o["by"] = rng.random() < .5
            if o["op"] == "promise":
                o.update(captures=[], c=False)
            if o["op"] in ("promise", "settle"):
                o["again"] = rng.random() < .3
            ops.append(o)
        eps.append({"slots": 2, "cbs": 1, "ops": ops})
    ctx.conform("edges", exe, "HandlesTrace", eps, env=core.PAGE_ENV)
    ctx.conform("random", exe, "HandlesTrace", [episode(rng, rng.choice([20, 60])) for _ in range(ctx.n(200, 3000))], env=core.PAGE_ENV)
    exe = core.build("handles", core.PAGE)      # where addresses are given out again at once
    ctx.conform("reuse", exe, "HandlesTrace", [episode(rng, rng.choice([20, 60, 200])) for _ in range(ctx.n(200, 3000))], env=core.PAGE_ENV)
