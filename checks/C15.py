from vlib import core

ALTS = {"plain": ["unresolved", "int", "string", "empty", "hollow", "ints"], "option": ["nothing", "string"],
        "nested": ["unresolved", "int", "inner", "outer"], "holder": ["unresolved", "int", "string", "empty", "hollow", "ints"],
        "inner": ["unresolved", "string", "int", "empty"], "outer": ["nothing", "inner"]}


def val(rng, t):
    if t == "int":
        return [t, str(rng.choice([0, 1, 5, -3]))]
    if t == "string":
        return [t, rng.choice(["", "a", "x" * 40, "5"])]
    if t == "ints":
        return [t, rng.choice(["", "1", "1,2", "0,0,0"])]
    if t in ("inner", "outer"):
        return [t] + val(rng, rng.choice(ALTS[t]))
    return [t]


def rand_episode(rng, cfg, n, k):
    lost, ops = [False] * n, []
    for _ in range(k):
        o = rng.choice(["set"] * 4 + ["copy", "assign", "assign", "move", "take", "fresh", "load", "load", "load", "fail", "poke", "poke"])
        i, j = rng.randrange(n), rng.randrange(n)
        op = {"o": o, "i": i + 1, "j": j + 1, "v": [], "id": 0}
        if o in ("copy", "assign", "move", "take"):
            if lost[j] or (o in ("move", "take") and i == j):
                continue
            lost[i] = False
            if o in ("move", "take"):
                lost[j] = True
        elif o == "set":
            op["v"] = val(rng, rng.choice(ALTS[cfg]))
            lost[i] = False
        elif o == "fresh":
            lost[i] = False
        elif o == "load":
            if rng.random() < .3:
                op["id"] = rng.choice([-1, -2147483648, len(ALTS[cfg]), 99, 2147483647])
            else:
                op["id"] = rng.randrange(len(ALTS[cfg]))
                op["v"] = val(rng, ALTS[cfg][op["id"]])
                lost[i] = False
        elif o == "fail":
            op["id"] = rng.randrange(len(ALTS[cfg]))
        elif o == "poke":
            if lost[i]:
                continue
            op["v"] = val(rng, rng.choice(["int", "string"]))
        ops.append(op)
    return {"cfg": cfg, "n": n, "ops": ops}


def run(ctx):
    rng = ctx.rng
    exe = core.build("variant", asan=True)
    for cfg in ("plain", "option", "nested", "holder"):
        m = ctx.model("VariantMC", defines={"Cfg": '"%s"' % cfg, "Regs": "{1, 2}"})
        fresh = '["nothing"]' if cfg == "option" else '["unresolved"]'
        walks, left = core.edge_walks(m.edges, "[%s,%s]" % (fresh, fresh), rng, maxlen=100)
        assert left == 0, left
        ctx.conform("edges:" + cfg, exe, "VariantTrace", [{"cfg": cfg, "n": 2, "ops": w} for w in walks])
    eps = [rand_episode(rng, rng.choice(["plain", "option", "nested", "nested", "holder"]), rng.choice([1, 2, 3, 4]), 40)
           for _ in range(ctx.n(200, 5000))]
    ctx.conform("random", exe, "VariantTrace", eps)
