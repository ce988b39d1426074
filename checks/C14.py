from vlib import ctxgen

CREATES = ["up_create_nokey", "up_create_nokey", "up_create_nokey", "up_create_nokey", "up_create", "up_create_empty",
           "up_create_uid", "up_update", "up_delete", "up_read", "down_create", "down_update", "down_delete", "down_read"]


def episode(rng, n):
    ops = []
    for _ in range(n):
        r = rng.random()
        op = (ctxgen.rand_set(rng, 5) if r < .1 else ctxgen.rand_look(rng, 5, True) if r < .4 else
              ctxgen.rand_push(rng, 5, 0, CREATES))
        if op:
            ops.append(op)
    return {"cfg": ctxgen.CFG[5], "ops": ops}


def looks():
    return [{"t": "look", "p": ctxgen.path(5, pt, 1, b), "by": -1, "changed": False, "marks": [], "nest": []}
            for pt in ("p0", "p1", "p2") for b in (1, 2, 3)]


def from_plan(rng, plans):
    """A plan of the specification (p0, p1 echoed map stores; consumers 1 and 2) on the
    definition 5 (p0, p1, p2 echoed map stores; consumers 3 (observer), 4, 5)."""
    out = []
    for k in range(0, len(plans), 6):
        ops = []
        for plan in plans[k:k + 6]:
            names = dict(zip(("p0", "p1"), rng.sample(["p0", "p1", "p2"], 2)))

            def push(m, by):
                mm = ctxgen.msg(5, m["kind"], names[m["pt"]], m["a"], m["b"], val="v%d" % rng.randint(1, 9),
                                uid=rng.choice(["none", "u1"]))
                return {"t": "push", "m": mm, "by": by, "changed": False, "marks": [], "nest": [],
                        "priv": rng.random() < .3}
            for i, m in enumerate(plan["reqs"]):
                op = push(m, rng.choice([-1, 3, 4]))
                n = plan["nest"]
                if n["at"] != "none" and n["nth"] == i + 1:
                    at = 3 if n["at"] == "notify" else n["i"] + 2
                    op["nest"] = [{"h": n["at"], "i": at, "ops": [push(n["m"], at)]}]
                ops.append(op)
        ops += looks()
        out.append({"cfg": ctxgen.CFG[5], "ops": ops})
    return out


def long(rng, n):
    """One context that makes many keys for one kind of path."""
    pt = rng.choice(["p0", "p1", "p2"])
    ops = [{"t": "push", "m": ctxgen.msg(5, "up_create_nokey", pt if rng.random() < .9 else rng.choice(["p0", "p1", "p2"]), rng.randint(1, 2), 1),
            "by": -1, "changed": False, "marks": [], "nest": []} for _ in range(n)]
    return {"cfg": ctxgen.CFG[5], "ops": ops + looks()}


def run(ctx):
    exe = ctxgen.build(5)
    m = ctx.model("EchoMC", defines={"Len2": "2"})
    if not ctx.quick:
        ctx.model("EchoMC", defines={"Len2": "3"})
    plans = list(m.cases)
    ctx.rng.shuffle(plans)
    ctx.conform("plans", exe, "EchoTrace", from_plan(ctx.rng, plans))
    ctx.conform("random", exe, "EchoTrace", [episode(ctx.rng, 12) for _ in range(ctx.n(200, 4000))])
    ctx.conform("many", exe, "EchoTrace", [long(ctx.rng, ctx.n(320, 1500)) for _ in range(ctx.n(2, 5))])
