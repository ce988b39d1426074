import json, os
from concurrent.futures import ThreadPoolExecutor
from vlib import core, branchgen, storegen


def run(ctx):
    us = []
    for seed in range(1, ctx.n(1, 5) + 1):
        us += [[p] for p in branchgen.programs(seed, 2, 5)]
    with ThreadPoolExecutor(core.NPROC) as ex:
        exes = list(ex.map(lambda s: core.build("branches", asan=True, gen=branchgen.source(s)), us))
    # every structure of the smaller shapes
    small = [k for k, u in enumerate(us) if storegen.structures(u[0].t) <= ctx.n(130, 1000)]
    f = os.path.join(core._scratch(), "programs.json")
    json.dump([{"shape": us[k][0].t, "ds": us[k][0].descriptions()} for k in small], open(f, "w"))
    m = ctx.model("BranchesMC", env={"PROGRAMS": f})
    eps = [[] for _ in us]
    for at, t in m.cases:
        k = small[at - 1]
        eps[k].append(branchgen.everything(ctx.rng, us[k], 0, t))
    for k, ps in enumerate(us):
        eps[k] += [branchgen.episode(ctx.rng, ps, 0, 25) for _ in range(ctx.n(60, 600))]
    with ThreadPoolExecutor(core.NPROC) as ex:
        list(ex.map(lambda k: ctx.conform("branches%d" % k, exes[k], "BranchesTrace", eps[k], par=1), range(len(us))))
