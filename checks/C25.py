import json, os
from concurrent.futures import ThreadPoolExecutor
from vlib import core, storegen, viewgen


def run(ctx):
    per = 2
    vs = []
    for seed in range(1, ctx.n(1, 5) + 1):
        vs += viewgen.some(seed, 26)
    us = [vs[k:k + per] for k in range(0, len(vs), per)]
    with ThreadPoolExecutor(core.NPROC) as ex:
        exes = list(ex.map(lambda u: core.build("views", core.PAGE, asan=True, gen=viewgen.source(u)), us))
    # every change from one structure to another, for the smaller shapes
    small = [k for k, v in enumerate(vs) if storegen.structures(v.t) <= ctx.n(14, 26)]
    f = os.path.join(core._scratch(), "programs.json")
    json.dump([{"shape": vs[k].t, "view": vs[k].view} for k in small], open(f, "w"))
    m = ctx.model("DomMC", env={"PROGRAMS": f}, defines={"Lazy": "FALSE"})
    ctx.model("DomMC", env={"PROGRAMS": f}, defines={"Lazy": "TRUE"})
    edges = {}
    for at, t, u in m.cases:
        s, e = (json.dumps(x, sort_keys=True) for x in (t, u))
        edges.setdefault(small[at - 1], []).append((s, u, e))
    eps = [[] for _ in us]
    for k, es in edges.items():
        walks, left = core.edge_walks(es, es[0][0], ctx.rng, 40)
        for w in walks:
            eps[k // per].append(viewgen.tour(ctx.rng, vs[k], k % per, [json.loads(es[0][0])] + w))
    for k, u in enumerate(us):
        eps[k] += [viewgen.episode(ctx.rng, u[i % per], i % per, 14) for i in range(ctx.n(40, 300))]
    with ThreadPoolExecutor(core.NPROC) as ex:
        list(ex.map(lambda k: ctx.conform("views%d" % k, exes[k], "DomTrace", eps[k], env=core.PAGE_ENV, par=1), range(len(us))))
