import json
from concurrent.futures import ThreadPoolExecutor
from vlib import core, routegen
from vlib.routegen import codes

PREFIXES = ["", "/p", "/app/v1", "/a", "/home"]
VISITS = ["/", "/a/%20", "/a/%C3%A4", "/b/%zz", "/b/%ff", "/home/%252e", "/p", "/p/", "/px/a", "/x", "/a", "/b/c%2Fd", "/app/v1/a/1", "/a/a/1", "/p/home", "/b/%"]


def sayable(s):
    try:
        t = bytes(s).decode()
    except UnicodeDecodeError:
        return False
    ps = t.split("/")
    return t.startswith("/") and not (len(ps) > 2 and ps[1] == "") and not any(p in (".", "..") for p in ps)


def written(t, x):
    return codes("/" + t.routes[x["r"] - 1][0]) + [c for v in x["vs"] for c in [47] + v]


def episode(rng, t, n):
    ops = [{"op": "visit", "s": codes(rng.choice(VISITS))} for _ in range(rng.randrange(3))] + [{"op": "start"}]
    while len(ops) < n:
        k = rng.random()
        if k < .4:
            x = t.route(rng)
            for i, m in enumerate(t.routes[x["r"] - 1][1]):
                if m == "Str" and rng.random() < .5:
                    x["vs"][i] = codes("".join(rng.choice("aB0%?#&=+;:@!$,'()*~^`|{}[]<>\\\"\x00\t\x7f .-_\u00e4\u20ac\U0001f600\ufeff\u2028") for _ in range(rng.randrange(1, 9))))
            if not sayable(written(t, x)):
                continue
            ops.append({"op": "go", "x": x if rng.random() < .95 else {"r": 0, "vs": []}, "whole": rng.random() < .5})
        elif k < .55:
            s = t.path(rng)
            if sayable(s):
                ops.append({"op": "text", "s": s})
        elif k < .92:
            ops.append({"op": rng.choice(["back", "back", "forward"])})
        else:
            ops.append({"op": "stop"})
            for _ in range(rng.randrange(3)):
                ops.append(rng.choice([{"op": "back"}, {"op": "visit", "s": codes(rng.choice(VISITS))}]))
            ops.append({"op": "start"})
            if rng.random() < .2:       # another in place of it
                ops.append({"op": "start"})
    return {"table": t.shape(), "prefix": codes(rng.choice(PREFIXES)), "ops": ops}


def run(ctx):
    rng = ctx.rng
    ts = [routegen.Table(routegen.FIRST)] + [routegen.table(1000 + s) for s in range(ctx.n(5, 40))]
    with ThreadPoolExecutor(core.NPROC) as ex:
        exes = list(ex.map(lambda t: core.build("nav", core.PAGE, asan=True, gen=routegen.nav_source(t)), ts))
    if not ctx.quick:
        ctx.model("NavMC", defines={"MaxHist": 4, "Cases": "FALSE"})
    m = ctx.model("NavMC", defines={"MaxHist": 3, "Cases": "TRUE"})
    eps = []
    for init in sorted({s for s, _, _ in m.edges if json.loads(s)[1] == {"hist": [[47]], "at": 1} and not json.loads(s)[2]}):
        mine = [e for e in m.edges if json.loads(e[0])[0] == json.loads(init)[0]]
        walks, left = core.edge_walks(mine, init, rng, maxlen=100)
        assert left == 0, left
        for w in walks:
            eps.append({"table": ts[0].shape(), "prefix": json.loads(init)[0],
                        "ops": [dict(o, whole=rng.random() < .5) if o["op"] == "go" else o for o in w]})
    ctx.conform("edges", exes[0], "NavTrace", eps, env=core.PAGE_ENV)
    for k, (t, exe) in enumerate(zip(ts, exes)):
        ctx.conform("table%d" % k, exe, "NavTrace", [episode(rng, t, 25) for _ in range(ctx.n(40, 200))], env=core.PAGE_ENV)
    exe = core.build("nav", core.PAGE, gen=routegen.nav_source(ts[0]))      # where addresses are given out again at once
    ctx.conform("reuse", exe, "NavTrace", [episode(rng, ts[0], 40) for _ in range(ctx.n(60, 600))], env=core.PAGE_ENV)
