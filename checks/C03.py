from vlib import ctxgen

READS = ["up_read", "up_read", "up_read", "down_read", "down_read", "down_create", "down_update",
         "down_delete", "up_create", "up_update", "up_delete", "up_create_nokey"]


def episode(rng, c, n):
    """Few paths, so that the same value is asked for, answered, deleted and looked at
    again and again, also from inside a delivery (an answer that arrives at once)."""
    ops = []
    for _ in range(n):
        r = rng.random()
        op = (ctxgen.rand_set(rng, c) if r < .12 else
              ctxgen.rand_look(rng, c, True) if r < .45 else
              ctxgen.rand_push(rng, c, 0, READS, True))
        if op:
            ops.append(op)
    # a producer that answers a read while it is being asked
    for op in list(ops):
        if rng.random() < .3 and (op["t"] == "look" or op["t"] == "push" and op["m"]["kind"] == "up_read"):
            p = op["p"] if op["t"] == "look" else op["m"]
            a = ctxgen.msg(c, rng.choice(["down_read", "down_read", "down_update", "down_delete"]),
                           p["pt"], p["a"], p["b"], val=rng.choice(["v4", "v5", "nf"]))
            owner = ctxgen.CFG[c]["owner"][p["pt"]]
            op["nest"] = [{"h": "up", "i": owner, "ops": [
                {"t": "push", "m": a, "by": owner, "changed": False, "marks": [], "nest": []}]}]
    return {"cfg": ctxgen.CFG[c], "ops": ops}


def run(ctx):
    gen = ctxgen.build_random(ctx.rng, ctx.n(2, 16))
    exes = ctxgen.build_all([1, 2, 4])
    ctx.model("ContextMC")
    if not ctx.quick:
        ctx.model("ContextMC", "ContextAny.cfg")
    for c in (4, 1, 2):
        eps = [episode(ctx.rng, c, 16) for _ in range(ctx.n(150 if c == 4 else 70, 2500))]
        ctx.conform("reads%d" % c, exes[c], "ContextTrace", eps, cfg="ContextTraceC03.cfg")
    for c, exe in gen.items():
        eps = [episode(ctx.rng, c, 16) for _ in range(ctx.n(70, 1000))]
        ctx.conform("generated%d" % c, exe, "ContextTrace", eps, cfg="ContextTraceC03.cfg")
