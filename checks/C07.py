import json, os
from concurrent.futures import ThreadPoolExecutor
from vlib import core, pipegen

PER_UNIT = 6


def units(ctx):
    shapes = list(pipegen.FIXED)
    import random
    rng = random.Random("shapes/%d" % (ctx.seed if not ctx.quick else 1))
    shapes += [pipegen.rand_shape(rng) for _ in range(ctx.n(13, 60))]
    for s in shapes:
        assert s.ok(), s.cpp
    return [shapes[k:k + PER_UNIT] for k in range(0, len(shapes), PER_UNIT)]


def run(ctx, focus="C07"):
    us = units(ctx)
    with ThreadPoolExecutor(core.NPROC) as ex:
        exes = list(ex.map(lambda s: core.build("pipe", asan=True, gen=pipegen.source(s)), us))
    cfg = "PipelineTrace%s.cfg" % focus
    for k, (shapes, exe) in enumerate(zip(us, exes)):
        f = os.path.join(core._scratch(), "shapes%d.json" % k)
        json.dump([{"flat": s.flat, "loop": s.loop} for s in shapes], open(f, "w"))
        m = ctx.model("PipelineMC", "PipelineEdges.cfg", env={"SHAPES": f}) if k < ctx.n(3, 99) else None
        eps = []
        if m:
            walks, left = core.edge_walks(m.edges, "[]", ctx.rng, maxlen=200)
            assert left == 0, left
            eps = [pipegen.from_walk(shapes, w, ctx.rng) for w in walks]
        if ctx.quick and len(eps) > 400:
            eps = ctx.rng.sample(eps, 400)
        eps += [pipegen.episode(ctx.rng, shapes, ctx.rng.choice([1, 1, 2, 3, 4]))
                for _ in range(ctx.n(120, 1500))]
        ctx.conform("pipes%d" % k, exe, "PipelineTrace", eps, cfg=cfg)
    f = os.path.join(core._scratch(), "small.json")
    json.dump([{"flat": s.flat, "loop": s.loop} for s in us[0][:3]], open(f, "w"))
    ctx.model("PipelineMC", "PipelineMC.cfg", env={"SHAPES": f})
