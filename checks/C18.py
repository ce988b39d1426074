import json, os
from concurrent.futures import ThreadPoolExecutor
from vlib import core, keygen


def run(ctx):
    rng = ctx.rng
    us = [(keygen.FIXED[k:k + 6], []) for k in range(0, len(keygen.FIXED), 6)]
    us += [keygen.types(s, 5) for s in range(ctx.n(8, 40))]
    with ThreadPoolExecutor(core.NPROC) as ex:
        exes = list(ex.map(lambda u: core.build("keyed", asan=True, gen=keygen.source(*u)), us))
    # every history of a table over a few keys, for each type
    where = [(k, i) for k, u in enumerate(us) for i, t in enumerate(u[0]) if keygen.hashed(t)]
    keys = [keygen.pool(rng, us[k][0][i], 4) for k, i in where]
    f = os.path.join(core._scratch(), "keys.json")
    json.dump(keys, open(f, "w"))
    m = ctx.model("KeyedMC", env={"KEYS": f})
    eps = [[] for _ in us]
    for n, (k, i) in enumerate(where):
        init = json.dumps([n + 1, [-1] * len(keys[n])], separators=(",", ":"))
        mine = [e for e in m.edges if json.loads(e[0])[0] == n + 1]
        walks, left = core.edge_walks(mine, init, rng, maxlen=60)
        assert left == 0, left
        eps[k] += [keygen.walk(rng, i, keys[n], us[k][0][i], w) for w in walks]
    for k, (u, exe) in enumerate(zip(us, exes)):
        more = [keygen.episode(rng, u[0], i % len(u[0]), 40) for i in range(ctx.n(40, 400))]
        if k == 0:
            more += [{"shape": 2, "ops": [{"ev": "reset"}] + [{"ev": "gen", "n": 20000}] * ctx.n(5, 50)}]
        ctx.conform("keys%d" % k, exe, "KeyedTrace", eps[k] + more)
