from vlib import core

CFGS = ["tuple", "string", "colliding", "strtup", "int"]
KINDS = ["up_create", "up_read", "up_update", "up_delete",
         "down_create", "down_read", "down_update", "down_delete"]


def rand_ops(rng, keys, n):
    ops = []
    for _ in range(n):
        kind = rng.choice(KINDS)
        v = "none" if kind in ("up_read", "up_delete", "down_delete") else rng.choice(["v1", "v2", "v3", "nf"])
        ops.append({"kind": kind, "k": rng.choice(keys), "v": v})
    return ops


def run(ctx):
    exe = core.build("mapstore")
    m = ctx.model("MapStore")
    init = '{"k0":"absent","k1":"absent","k2":"absent"}'
    eps = []
    for cfg in CFGS:
        for basic in (False, True):
            if ctx.quick and basic and cfg in ("strtup", "int"):
                continue
            walks, left = core.edge_walks(m.edges, init, ctx.rng, maxlen=60)
            assert left == 0, left
            eps += [{"cfg": cfg, "basic": basic, "keys": ["k0", "k1", "k2"], "ops": w} for w in walks]
    ctx.parts["edges"] = len(m.edges)
    for i in range(ctx.n(60, 1500)):
        keys = ["q%d" % j for j in range(ctx.rng.choice([2, 6, 15, 40]))]
        eps.append({"cfg": ctx.rng.choice(CFGS), "basic": ctx.rng.random() < .4, "keys": keys,
                    "ops": rand_ops(ctx.rng, keys, ctx.rng.choice([10, 40, 90]))})
    ctx.conform("mapstore", exe, "MapStoreTrace", eps)
