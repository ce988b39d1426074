from vlib import core

SHAPES = {"one": "i", "two": "is", "five": "sibsu", "eight": "iissilsi", "nested": "nsn", "mixed": "evodt"}


def val(rng, kind, m):
    if kind == "b":
        return rng.choice("01")
    if kind == "u":
        return rng.choice("0124")
    if kind == "v":
        return rng.choice("0234")
    if kind == "o":
        return str(rng.randrange(m))
    return str(rng.randrange(m))


def record(rng, shape, m=3):
    return [val(rng, k, m) for k in SHAPES[shape]]


def delta(rng, shape, m=3, p=.5):
    return [v if rng.random() < p else "-" for v in record(rng, shape, m)]


def rand_episode(rng, n):
    shape = rng.choice(sorted(SHAPES))
    ops = []
    for _ in range(n):
        o = rng.choice(["set", "make", "all", "apply", "apply", "apply", "merge", "merge"])
        op = {"o": o}
        if o in ("set", "make", "all", "merge"):
            op["y"] = record(rng, shape)
        if o == "merge":
            op["z"] = record(rng, shape)
        ops.append(op)
    return {"cfg": shape, "x": record(rng, shape), "ops": ops}


def run(ctx):
    exe = core.build("delta")
    m = ctx.model("Delta")
    walks, left = core.edge_walks(m.edges, '[["0","0"],["-","-"]]', ctx.rng, maxlen=80)
    assert left == 0, left
    for w in walks:
        for op in w:
            if op["o"] == "apply":
                op.pop("y", None)
    ctx.parts["edges"] = len(m.edges)
    ctx.conform("edges", exe, "DeltaTrace", [{"cfg": "two", "x": ["0", "0"], "ops": w} for w in walks])
    ctx.conform("random", exe, "DeltaTrace", [rand_episode(ctx.rng, 25) for _ in range(ctx.n(200, 4000))])
