from vlib import core
from checks.C06 import SHAPES, record, delta


def rand_episode(rng, n):
    shape = rng.choice(sorted(SHAPES))
    clients = rng.choice([1, 2, 2, 3, 4])
    p_full = rng.choice([0, .03, .1])
    ops, sent, log, pos, k = [], [], 0, [0] * clients, 0
    for _ in range(n):
        r = rng.random()
        if r < .3:
            d = delta(rng, shape, 3, rng.choice([.3, .6, 1]))
            ops.append({"o": "local", "c": rng.randint(1, clients), "u": "u%d" % k, "d": d})
            sent.append(("u%d" % k, d))
            k += 1
        elif r < .5 and sent:
            i = 0 if rng.random() < .5 else rng.randrange(len(sent))
            u, d = sent.pop(i)
            ops.append({"o": "commit", "u": u, "d": d})
            log += 1
        elif r < .5 + p_full:
            ops.append({"o": "replace", "d": record(rng, shape)})
            log += 1
        else:
            ready = [c for c in range(clients) if pos[c] < log]
            if ready:
                c = rng.choice(ready)
                pos[c] += 1
                ops.append({"o": "deliver", "c": c + 1})
    if rng.random() < .7:        # settle: everything confirmed and received everywhere
        for u, d in sent:
            ops.append({"o": "commit", "u": u, "d": d})
            log += 1
        for c in range(clients):
            ops += [{"o": "deliver", "c": c + 1}] * (log - pos[c])
    return {"cfg": shape, "clients": clients, "v": record(rng, shape), "ops": ops}


def run(ctx):
    exe = core.build("localversion")
    ctx.model("LocalVersionMC")
    m = ctx.model("LocalVersionMC", "LocalVersionEdges.cfg")
    walks, left = core.edge_walks(m.edges, '[[],[],[0,0],0,[["0","0"],["0","0"]],[[],[]]]', ctx.rng, maxlen=12)
    ctx.parts["edges"] = len(m.edges)
    assert left == 0, left
    if ctx.quick and len(walks) > 900:
        walks = ctx.rng.sample(walks, 900)
    ctx.conform("edges", exe, "LocalVersionTrace",
                [{"cfg": "two", "clients": 2, "v": ["0", "0"], "ops": w} for w in walks])
    ctx.conform("random", exe, "LocalVersionTrace", [rand_episode(ctx.rng, 40) for _ in range(ctx.n(300, 5000))])
