import json
from vlib import core


def run(ctx):
    rng = ctx.rng
    exe = core.build("tiles", ["-I" + core.REPO + "/example/tiles"], asan=True)
    boards = [(2, 4, 1), (3, 6, 1), (2, 6, 1), (1, 4, 1), (5, 5, 1), (3, 6, 2), (2, 4, 2), (3, 3, 0), (2, 6, 4)]
    if not ctx.quick:
        boards += [(4, 8, 1), (3, 9, 7), (2, 8, 4), (3, 6, 3)]
    for w, n, holes in boards:
        start = list(range(1, n - holes + 1)) + [0] * holes
        m = ctx.model("TilesMC", defines={"W": w, "Cells": n, "HoleCount": holes})
        walks, left = core.edge_walks(m.edges, json.dumps(start, separators=(",", ":")), rng, maxlen=200)
        assert left == 0, left
        ctx.conform("edges%dx%d-%d" % (w, n // w, holes), exe, "TilesTrace", [{"w": w, "b": start, "ops": x, "served": False} for x in walks])
    eps = []
    for k in range(ctx.n(300, 4000)):
        w, h = rng.choice([(rng.randrange(1, 9), rng.randrange(1, 9)), (8, 8), (3, 3), (16, 4), (1, 64), (64, 1)])
        holes = rng.choice([1, 1, 1, 2, 5, 0, w * h])
        b = (list(range(1, w * h + 1)) + [0] * holes)[-w * h:]
        if rng.random() < .2:
            b = [x and 1 + x % 3 for x in b]
        rng.shuffle(b)
        ops, at, g = [], None, list(b)
        for _ in range(60):         # mostly near the hole
            z = rng.choice([i for i in range(w * h) if g[i] == 0] or [0])
            i = rng.choice([z - 1, z + 1, z - w, z + w, z + w, z - w, z, rng.randrange(w * h), w * h, w * h + rng.randrange(70), -1, -w, 255, 63, 64, w * h - w])
            if 0 <= i < w * h and g[i] and (abs(z - i) == w or (abs(z - i) == 1 and z // w == i // w)):
                g[i], g[z] = 0, g[i]
            ops.append({"i": i})
        eps.append({"w": w, "b": b, "ops": ops, "served": False})
    ctx.conform("random", exe, "TilesTrace", eps)
    eps = []
    for k in range(ctx.n(60, 600)):
        z, ops = 4, []
        for _ in range(60):
            i = rng.choice([z - 1, z + 1, z - 3, z + 3, z, rng.randrange(9), 9, 12, 255, 6, 8])
            if 0 <= i < 9 and (abs(z - i) == 3 or (abs(z - i) == 1 and z // 3 == i // 3)):
                z = i
            ops.append({"i": i, "from": rng.randrange(2)})
        eps.append({"w": 3, "b": [], "ops": ops, "served": True})
    ctx.conform("served", exe, "TilesTrace", eps)
    # known (see known_findings.txt): moved below the board, and looked for behind the array
    ctx.conform("below", exe, "TilesTrace", [
        {"w": 3, "b": [3, 4, 6, 8, 0, 1, 2, 5, 7], "ops": [{"i": 6}], "served": False, "below": True},
        {"w": 8, "b": [0] + list(range(1, 64)), "ops": [{"i": 56}], "served": False, "below": True},
        {"w": 3, "b": [], "ops": [{"i": 6, "from": 0}], "served": True, "below": True}])
