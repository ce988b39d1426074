import json, os
from concurrent.futures import ThreadPoolExecutor
from vlib import core, tablegen


def run(ctx):
    rng = ctx.rng
    us = [tablegen.Unit(s) for s in range(ctx.n(12, 60))]
    with ThreadPoolExecutor(core.NPROC) as ex:
        exes = list(ex.map(lambda u: core.build("tables", asan=True, gen=u.source()), us))
    # every order of writing, and stopped at every row
    jobs, where = [], []
    for k, u in enumerate(us):
        for i, c in enumerate(u.cases):
            if c[0] not in ("insert", "many"):
                continue
            for _ in range(20):
                o = u.op(rng, i)
                if 2 <= sum(tablegen.count(n) for n in o["nodes"]) <= ctx.n(6, 8):
                    jobs.append({"nodes": o["nodes"], "keys": o["keys"], "shape": c[1].shape()})
                    where.append((k, i))
                    break
    f = os.path.join(core._scratch(), "jobs.json")
    json.dump(jobs, open(f, "w"))
    m = ctx.model("TablesMC", env={"JOBS": f})
    eps = [[] for _ in us]
    for n, at in sorted(set(map(tuple, m.cases))):
        k, i = where[n - 1]
        eps[k].append(us[k].stopped(rng, i, jobs[n - 1], at))
    for n, (k, i) in enumerate(where):
        eps[k].append(us[k].stopped(rng, i, jobs[n], -1))
    for k, (u, exe) in enumerate(zip(us, exes)):
        more = [u.episode(rng, 15) for _ in range(ctx.n(30, 200))]
        ctx.conform("tables%d" % k, exe, "TablesTrace", eps[k] + more, norm=tablegen.norm)
