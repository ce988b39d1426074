from concurrent.futures import ThreadPoolExecutor
from vlib import core, routegen


def run(ctx):
    rng = ctx.rng
    ts = [routegen.Table(routegen.FIRST)] + [routegen.table(s) for s in range(ctx.n(10, 60))]
    with ThreadPoolExecutor(core.NPROC) as ex:
        exes = list(ex.map(lambda t: core.build("routes", asan=True, gen=t.source()), ts))
    if not ctx.quick:
        ctx.model("RoutesMC", defines={"MaxText": 8, "Cases": "FALSE"})
    m = ctx.model("RoutesMC", defines={"MaxText": 6, "Cases": "TRUE"})
    texts = [s for s in m.cases if len(s) < 6 or s[0] == 47]
    ctx.conform("paths", exes[0], "RoutesTrace", [{"table": ts[0].shape(), "read": texts[i:i + 60], "write": []} for i in range(0, len(texts), 60)])
    for k, (t, exe) in enumerate(zip(ts, exes)):
        ctx.conform("table%d" % k, exe, "RoutesTrace", [t.episode(rng, 15) for _ in range(ctx.n(40, 400))])
