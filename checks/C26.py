import json
from vlib import core
from . import C21


def has(t, k):
    return t["k"] == k or any(has(c, k) for c in t["c"])


def norm(ep, events):
    res = []
    for e in C21.norm(ep, events):
        if e["ev"] == "kept":
            e["was"] = C21.tree(e["was"])
        res.append(e)
    return res


def run(ctx):
    rng = ctx.rng
    exe = core.build("jsbind", core.PAGE, asan=True)
    m = ctx.model("JsonMC")
    types = {k: t for k, t in [c["types"] for c in m.cases if "types" in c][0].items() if not has(t, "double") and not has(t, "buffer") and not has(t, "wide")}
    eps = []
    for c in m.cases:
        if "val" in c and c["type"] in types:
            x = C21.plain(types[c["type"]], c["val"])
            eps.append({"type": c["type"], "vals": [c["val"]], "texts": [C21.text(rng, x)]})
    ctx.conform("cases", exe, "JsonTrace", eps, norm=norm, env=core.PAGE_ENV)
    eps = []
    for i in range(ctx.n(400, 3000)):
        name = sorted(types)[i % len(types)]
        t = types[name]
        vs = [C21.value(rng, t) for _ in range(3)]
        eps.append({"type": name, "vals": vs, "texts": [C21.text(rng, C21.plain(t, v)) for v in vs + [C21.value(rng, t)]]})
    ctx.conform("random", exe, "JsonTrace", eps, norm=norm, env=core.PAGE_ENV)
