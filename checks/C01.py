from vlib import core, ctxgen


def run(ctx, focus="C01"):
    gen = ctxgen.build_random(ctx.rng, ctx.n(3, 20))
    exes = ctxgen.build_all([1, 2, 3, 4])
    m = ctx.model("ContextMC")
    if not ctx.quick:
        ctx.model("ContextMC", "ContextAny.cfg")
    sc = ctxgen.from_scenarios(m.cases, ctx.rng)
    for c in (1, 2):
        eps = sc[c] if not ctx.quick else ctx.rng.sample(sc[c], min(len(sc[c]), 250))
        ctx.conform("scenarios%d" % c, exes[c], "ContextTrace", eps, cfg="ContextTrace%s.cfg" % focus)
    for c in (1, 2, 3, 4):
        eps = [ctxgen.rand_episode(ctx.rng, c, 12) for _ in range(ctx.n(60, 1500))]
        ctx.conform("random%d" % c, exes[c], "ContextTrace", eps, cfg="ContextTrace%s.cfg" % focus)
    for c, exe in gen.items():
        eps = [ctxgen.rand_episode(ctx.rng, c, 12) for _ in range(ctx.n(60, 600))]
        ctx.conform("generated%d" % c, exe, "ContextTrace", eps, cfg="ContextTrace%s.cfg" % focus)
