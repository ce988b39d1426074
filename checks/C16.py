import json, os
from concurrent.futures import ThreadPoolExecutor
from vlib import core, storegen


def units(ctx):
    shapes = storegen.FIXED + storegen.random_shapes(1, 14)
    if not ctx.quick:
        shapes = shapes + storegen.random_shapes(2, 60)
    per = 5
    return [shapes[k:k + per] for k in range(0, len(shapes), per)]


def run(ctx):
    us = units(ctx)
    with ThreadPoolExecutor(core.NPROC) as ex:
        exes = list(ex.map(lambda s: core.build("stores", asan=True, gen=storegen.source(s)), us))
    # every structure of the smaller shapes
    small = [(k, i) for k, u in enumerate(us) for i, s in enumerate(u) if storegen.structures(s.t) <= ctx.n(130, 1000)]
    f = os.path.join(core._scratch(), "shapes.json")
    json.dump([us[k][i].t for k, i in small], open(f, "w"))
    m = ctx.model("LookupMC", env={"SHAPES": f})
    eps = [[] for _ in us]
    for at, t in m.cases:
        k, i = small[at - 1]
        eps[k].append(storegen.everything(ctx.rng, us[k], i, t))
    for k, (shapes, exe) in enumerate(zip(us, exes)):
        more = [storegen.episode(ctx.rng, shapes, i % len(shapes), 25) for i in range(ctx.n(100, 3000))]
        ctx.conform("stores%d" % k, exe, "LookupTrace", eps[k] + more)
