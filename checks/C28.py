import json
from vlib import core

URLS = ["ws://127.0.0.1:8080", "ws://foo.com/", "wss://foo.com/a?b=%20&c", "ws://h:1/" + "x" * 300, "ws://foo.com/\u00e4/\U0001f600"]


def codes(s):
    return list(s.encode())


def value(rng, d=2):
    k = rng.randrange(7 if d else 5)
    if k < 2:
        return "".join(rng.choice("ab \"\\/\n\t\x00\x1f\x7f\u00e4\u20ac\U0001f600\u2028<") for _ in range(rng.randrange(8)))
    if k == 2:
        return rng.randrange(-10**6, 10**6)
    if k < 5:
        return rng.choice([None, True, False])
    if k == 5:
        return [value(rng, d - 1) for _ in range(rng.randrange(4))]
    return {rng.choice("abcde") + rng.choice(["", "\u00e4", "\""]): value(rng, d - 1) for _ in range(rng.randrange(4))}


def canonical(v):
    return codes(json.dumps(v, ensure_ascii=False, separators=(",", ":")))


def octets(rng):
    n = rng.choice([0, 1, 2, 3, 7, 8, 15, 16, 17, 125, 126, 300, 4097] if rng.random() < .3 else [0, 1, 2, 3, 5])
    return [rng.choice([0, 10, 34, 127, 128, 255, rng.randrange(256)]) for _ in range(n)]


def payload(rng, kind):
    return octets(rng) if kind == "bytes" else canonical(value(rng))


def frame(rng, kind):
    x = rng.random()
    if x < .1 or (kind == "bytes" and x < .6):
        return {"t": "binary", "b": octets(rng), "ok": False, "v": []}
    if x < .2:
        return {"t": "text", "b": codes(rng.choice(["", "{", "[1,]", "nul", "'a'", "\ufeff", "a\u00e4\x00b", "\"\t\""])), "ok": False, "v": []}
    v = value(rng)
    return {"t": "text", "b": codes(json.dumps(v, ensure_ascii=rng.random() < .5, indent=rng.choice([None, None, 2]))), "ok": True, "v": canonical(v)}


def react(rng, kind):
    then = lambda *xs: rng.choice(["", "", "", ""] + list(xs))
    return {"ready": {"say": [payload(rng, kind) for _ in range(rng.choice([0, 0, 1, 2, 5]))], "then": then("close", "drop")},
            "message": {"echo": rng.choice([0, 0, 1, 2]), "at": rng.randrange(1, 5), "then": then("close", "drop")},
            "close": {"say": [], "then": then("drop", "drop", "close")}}


def episode(rng, n):
    kinds, ops = [], []
    while len(ops) < n:
        if not kinds or (len(kinds) < 6 and rng.random() < .12):
            kinds.append(rng.choice(["bytes", "json"]))
            ops.append({"op": "start", "kind": kinds[-1], "react": react(rng, kinds[-1]), "url": codes(rng.choice(URLS))})
            if rng.random() < .7:
                ops.append({"op": "open", "i": len(kinds)})
            continue
        i = rng.randrange(max(0, len(kinds) - 3), len(kinds)) + 1
        k = kinds[i - 1]
        x = rng.random()
        if x < .1:
            ops.append({"op": "open", "i": i})
        elif x < .6:
            ops.append({"op": "frame", "i": i, "f": frame(rng, k)})
        elif x < .85:
            ops.append({"op": "send", "i": i, "ps": [payload(rng, k) for _ in range(rng.choice([1, 1, 3]))]})
        elif x < .9:
            ops.append({"op": "close", "i": i})
        elif x < .94:
            ops.append({"op": "drop", "i": i})
        else:
            ops.append({"op": "gone", "i": i, "code": rng.choice([1000, 1006, 4000])})
    return {"ops": ops}


def run(ctx):
    rng = ctx.rng
    exe = core.build("socket", core.PAGE, asan=True)
    ctx.model("SocketMC", defines={"MaxTold": ctx.n(1, 2), "Cases": "FALSE", "Ends": 2})
    m = ctx.model("SocketMC", defines={"MaxTold": 2, "Cases": "TRUE", "Ends": 1})
    eps = []
    for init in sorted({s for s, _, _ in m.edges if json.loads(s)[0]["phase"] == "connecting" and json.loads(s)[0]["told"] == 0 and json.loads(s)[0]["live"]}):
        e = json.loads(init)[0]
        mine = [x for x in m.edges if json.loads(x[0])[0]["kind"] == e["kind"] and json.loads(x[0])[0]["react"] == e["react"]]
        walks, left = core.edge_walks(mine, init, rng, maxlen=60)
        assert left == 0, left
        for w in walks:
            ops = [{"op": "start", "kind": e["kind"], "react": e["react"], "url": codes(rng.choice(URLS))}]
            eps.append({"ops": ops + [{"op": "send", "i": 1, "ps": [o["p"]]} if o["op"] == "send" else o for o in w]})
    ctx.conform("edges", exe, "SocketTrace", eps, env=core.PAGE_ENV)
    ctx.conform("random", exe, "SocketTrace", [episode(rng, rng.choice([10, 30, 60])) for _ in range(ctx.n(150, 1500))], env=core.PAGE_ENV)
    exe = core.build("socket", core.PAGE)      # where addresses are given out again at once
    ctx.conform("reuse", exe, "SocketTrace", [episode(rng, rng.choice([10, 30, 60])) for _ in range(ctx.n(100, 1500))], env=core.PAGE_ENV)
