"""Pipeline shapes: C++ text, the flat form the specification works with, and scripts."""
import random

ACC = {"E0": ["E0"], "E1": ["E1", "E2"], "E2": ["E2"], "pair": ["pair"], "exc": ["exc"],
       "all": ["all"], "E0E1": ["E0", "E1", "E2"]}
BIT = {"E0": 1, "E1": 2, "E2": 4, "pair": 8}
ERRS = ["E0", "E1", "E2", "pair"]


class Shape:
    """tree: list of stages; a stage is (kind,), ("promise", [errs]), ("catch", handler)
    or a list (a nested pipe)."""

    def __init__(self, tree, loop=False, sync=False):
        self.tree, self.loop, self.sync = tree, loop, sync
        self.flat = []
        self.cpp = self._emit(tree, True)
        self.copy = not any(x["k"] in ("fn", "void", "ref", "lazy") for x in self.flat)

    def _emit(self, t, top=False):
        if isinstance(t, list):
            parts = [self._emit(x) for x in t]
            return "nbdl::pipe(%s)" % ", ".join(parts)
        kind, arg = t[0], (t[1] if len(t) > 1 else None)
        i = len(self.flat) + 1
        self.flat.append({"k": kind, "errs": arg if kind == "promise" else [],
                          "acc": ACC[arg] if kind == "catch" else []})
        if kind == "promise":
            return "st_promise<%d>(r, %d)" % (sum(BIT[e] for e in arg), i)
        if kind == "catch":
            return "h_%s(r, %d)" % (arg, i) if False else "nbdl::catch_(h_%s(r, %d))" % (arg, i)
        return "st_%s(r, %d)" % (kind, i)

    def ok(self):
        """every rejection has a handler after it, and there is user code"""
        for i, st in enumerate(self.flat):
            errs = list(st["errs"]) + (["exc"] if st["k"] == "try" else [])
            for e in errs:
                if not any(s["k"] == "catch" and (e in s["acc"] or "all" in s["acc"])
                           for s in self.flat[i + 1:]):
                    return False
        code = [s for s in self.flat if s["k"] not in ("catch", "hold")]
        if self.loop:
            return any(s["k"] == "promise" for s in code)
        return bool(code)


P = lambda *e: ("promise", list(e))
C = lambda h: ("catch", h)
FN, VOID, TAP, TRY, HOLD, LAZY, REF = [(k,) for k in ("fn", "void", "tap", "try", "hold", "lazy", "ref")]

FIXED = [
    Shape([P(*ERRS), FN, P(*ERRS), C("all")], sync=True),
    Shape([P("E0", "E1"), TAP, P("E2"), C("E0"), C("E1")], sync=True),
    Shape([C("all"), P("E0"), C("E1"), P("E1", "E0"), C("E0"), FN, C("E1")]),
    Shape([[P("E0", "pair"), C("pair")], P("E0"), C("E0"), VOID]),
    Shape([P(), [FN, [P("E1")], C("E0")], [], C("E0E1"), TAP]),
    Shape([TRY, FN, TRY, C("exc")], sync=True),
    Shape([P("E1"), TRY, C("E0"), TAP, C("exc"), P("E2"), C("E2"), C("E1")]),
    Shape([HOLD, TAP, P("E0"), VOID, P("pair"), C("pair"), C("all")]),
    Shape([LAZY, FN, P("E0"), C("E0")]),
    Shape([HOLD, LAZY, TAP, LAZY, P(), FN]),
    Shape([P()], sync=True),
    Shape([REF, VOID, REF, TAP, P("E0"), C("all"), REF]),
    Shape([P("E0", "E1", "E2", "pair"), C("E2"), C("E1"), C("pair"), C("E0"), P()]),
    Shape([P(), P()], loop=True),
    Shape([P("E0"), FN, TAP, C("E0")], loop=True),
    Shape([VOID, P("E1", "pair"), C("E0"), [P("E0"), C("pair")], C("all")], loop=True),
    Shape([HOLD, P(), TRY, C("exc")], loop=True),
    Shape([LAZY, P(), TAP], loop=True),
    Shape([P("E0"), LAZY, FN, C("E0"), LAZY], loop=True),
]


def rand_tree(rng, n, depth=0):
    out = []
    for _ in range(n):
        r = rng.random()
        if r < .34:
            out.append(P(*rng.sample(ERRS, rng.choice([0, 0, 1, 1, 2]))))
        elif r < .44:
            out.append(FN)
        elif r < .5:
            out.append(VOID)
        elif r < .58:
            out.append(TAP)
        elif r < .65:
            out.append(TRY)
        elif r < .69:
            out.append(HOLD)
        elif r < .72:
            out.append(REF)
        elif r < .9:
            out.append(C(rng.choice(sorted(ACC))))
        elif depth < 2:
            out.append(rand_tree(rng, rng.randint(0, 3), depth + 1))
    return out


def rand_shape(rng):
    while True:
        loop = rng.random() < .3
        t = rand_tree(rng, rng.randint(2, 6))
        if rng.random() < .2:
            t.insert(rng.randint(0, len(t)), LAZY)
        s = Shape(t, loop=loop)
        if not s.ok():
            t = t + [C(rng.choice(["all", "all", "E0E1"]))]
            s = Shape(t, loop=loop)
        if not s.ok():
            t = t + [C("pair"), C("exc"), C("E1"), C("E0")]
            s = Shape(t, loop=loop)
        if not s.ok() or len(s.flat) > 10:
            continue
        s.sync = not loop and not any(x["k"] == "lazy" for x in s.flat) and rng.random() < .4
        return s


def source(shapes, base=0):
    out = ['#include "pipeline.hpp"']
    for k, s in enumerate(shapes):
        out.append("static void shape_%d(Run& r, J const& op) { go<%s, %s, %s>(r, op, [&] { return %s; }); }" % (
            k, str(s.loop).lower(), str(s.sync).lower(), str(s.copy).lower(), s.cpp))
    out.append("void start_shape(int shape, Run& r, J const& op) { switch (shape) {")
    out += ["  case %d: return shape_%d(r, op);" % (k, k) for k in range(len(shapes))]
    out.append("  default: ::_exit(13); } }")
    out.append("int main() { return pipeline_main(); }")
    return "\n".join(out) + "\n"


def outcome(rng, st, sync, depth, again=.5):
    o = {"how": "resolve", "n": 1, "e": ""}
    if st["k"] == "try":
        r = rng.random()
        if r < .25:
            o = {"how": "throw", "n": 0, "e": "exc"}
        elif r < .35:
            o = {"how": "throwx", "n": 0, "e": "exc"}
        return o
    r = rng.random()
    if r < .3 and st["errs"]:
        o = {"how": "reject", "n": 0, "e": rng.choice(st["errs"])}
    elif r < .36:
        o = {"how": "terminate", "n": 0, "e": ""}
    else:
        o = {"how": "resolve", "n": rng.choice([0, 1, 1, 1, 2]), "e": ""}
    if not sync and rng.random() < .45:
        o = {"how": "defer", "n": 0, "e": "", "then": o}
    return o


def start(rng, shapes, k, run, sched=None, turns=6):
    s = shapes[k]
    mode = rng.choice(["move", "move"] + (["copy"] if s.copy else []) + (["sync"] if s.sync else []))
    script = {}
    for i, st in enumerate(s.flat):
        if st["k"] in ("promise", "try"):
            n = rng.randint(1, turns) if s.loop else 1
            script[str(i + 1)] = [outcome(rng, st, mode == "sync", 0) for _ in range(n)]
    return {"t": "start", "run": run, "shape": k, "flat": s.flat, "loop": s.loop, "mode": mode,
            "args": rng.choice([[], [rng.randint(1, 900)]]), "script": script}


def episode(rng, shapes, nruns):
    """nruns runs side by side; completions in any order, also from inside stages."""
    ops, started = [], 0
    starts = [start(rng, shapes, rng.randrange(len(shapes)), r + 1) for r in range(nruns)]
    spare = []
    for st in starts:
        if spare or rng.random() < .85 or not ops:
            ops.append(st)
        else:
            spare.append(st)
        for _ in range(rng.choice([0, 1, 2, 4])):
            ops.append({"t": "complete", "run": rng.randint(1, nruns)})
    for _ in range(rng.randint(0, 10 * nruns)):
        ops.append({"t": "complete", "run": rng.randint(1, nruns)})
    # some operations happen inside stages of other runs
    tops = [o for o in ops if o["t"] == "start"]
    for host in tops:
        for outs in host["script"].values():
            for o in outs:
                if rng.random() < .15:
                    o["pre"] = []
                    if spare:
                        o["pre"].append(spare.pop())
                    other = rng.randint(1, nruns)
                    if other != host["run"]:
                        o["pre"].append({"t": "complete", "run": other})
    return {"ops": ops}


def from_walk(shapes, walk, rng):
    """A walk over the state graph of one run -> one episode."""
    ops, run = [], None
    script, pend = {}, None
    for op in walk:
        if op["o"] == "start":
            s = shapes[op["shape"] - 1]
            run = {"t": "start", "run": 1, "shape": op["shape"] - 1, "flat": s.flat, "loop": s.loop,
                   "mode": "move" if rng.random() < .7 or not s.copy else "copy",
                   "args": [101] if op["n"] else [], "script": script}
            ops.append(run)
        elif op["o"] == "act":
            o = dict(op["how"])
            if o["how"] == "defer":
                o["then"] = {"how": "resolve", "n": 1, "e": ""}
                pend = o
            script.setdefault(str(op["i"]), []).append(o)
        elif op["o"] == "complete":
            if run["flat"][op["i"] - 1]["k"] != "lazy":
                pend["then"] = dict(op["how"])
            ops.append({"t": "complete", "run": 1})
    return {"ops": ops}
