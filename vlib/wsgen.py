"""Scenarios for websocket connections (C09, C10, C11)."""
from vlib import core

LINK = ["-Wl,--wrap=sendmsg", "-Wl,--wrap=send"]


def exe():
    return core.build("ws", extra=LINK, asan=True)


def join(runs):
    out = []
    for b, n in runs:
        if n == 0:
            continue
        if out and out[-1][0] == b:
            out[-1][1] += n
        else:
            out.append([b, n])
    return out


def payload(rng, n):
    """n bytes as runs; breaks often fall near multiples of the frame size"""
    cuts = sorted(set(min(n, max(0, 125 * rng.randrange(0, n // 125 + 1) + rng.choice([-1, 0, 1, 7])))
                      for _ in range(rng.randrange(0, 5))) | {0, n})
    alpha = rng.choice([[0, 255], [97, 98, 99], [0, 10, 128, 200, 255]])
    return join([[rng.choice(alpha), y - x] for x, y in zip(cuts, cuts[1:])])


def size(rng, big=.03):
    r = rng.random()
    if r < .5:
        return rng.choice([0, 1, 2, 5, 50, 124, 125, 126, 127])
    if r < 1 - big:
        k = rng.randrange(1, 9)
        return max(0, 125 * k + rng.choice([-1, 0, 0, 1, rng.randrange(-60, 60)]))
    return rng.choice([16383, 20001, 20001, 65535, 65536, 65537])


def frame(op, fin, p, rng=None, mask=None, cuts=None):
    f = {"o": "frame", "op": op, "fin": fin, "p": p, "mask": [], "cuts": []}
    if rng is not None:
        if rng.random() < .6 if mask is None else mask:
            f["mask"] = [rng.choice([0, 1, 85, 128, 255, rng.randrange(256)]) for _ in range(4)]
        if rng.random() < .5 if cuts is None else cuts:
            f["cuts"] = [rng.choice([1, 1, 1, 2, 3, 60, 125, 1000]) for _ in range(rng.randrange(1, 6))]
    return f


def in_size(rng):
    r = rng.random()
    if r < .6:
        return rng.randrange(0, 12)
    if r < .93:
        return rng.choice([100, 124, 125, 126, 127, 128, 130, 200, 255, 256, 257, 300, 1000])
    return rng.choice([32767, 32768, 65535, 65536, 65537, 70000])


def control(rng):
    return frame(rng.choice([9, 9, 10]), True, payload(rng, rng.choice([0, 0, 1, 4, 20, 124, 125])), rng)


def stream(rng, nmsg):
    """a conforming stream of data messages with control frames in between"""
    out = []
    for _ in range(nmsg):
        k = rng.choice([1, 1, 2, 3, 5]) if rng.random() < .97 else rng.choice([20, 60])
        for i in range(k):
            while rng.random() < .25:
                out.append(control(rng))
            out.append(frame(rng.choice([1, 2]) if i == 0 else 0, i == k - 1, payload(rng, in_size(rng)), rng))
    while rng.random() < .3:
        out.append(control(rng))
    return out


def ending(rng):
    """how a stream ends; anything may follow"""
    out = []
    r = rng.random()
    if r < .25:
        return out
    if r < .45:
        out.append(frame(8, True, payload(rng, rng.choice([0, 2, 2, 20, 125])), rng))
    elif r < .65:
        out.append(frame(rng.choice([3, 4, 5, 6, 7, 11, 12, 13, 14, 15]), rng.random() < .7,
                         payload(rng, rng.choice([0, 1, 5, 125, 200])), rng))
    elif r < .9:
        f = frame(rng.choice([1, 2, 0, 8, 9, 10]), True, payload(rng, rng.choice([0, 1, 5, 125, 126, 70000])), rng)
        f["keep"] = rng.choice([0, 1, 1, 2, 3, 4, 6, 9, 12, 50, 10 ** 6])
        if f["keep"]:
            out.append(f)
        out.append({"o": "cut"})
        return out
    else:
        out.append({"o": "cut"})
        return out
    if rng.random() < .6:
        out += stream(rng, rng.randrange(1, 3))
    if rng.random() < .3:
        out.append({"o": "cut"})
    return out


def steps(rng):
    return {"o": "step", "n": rng.choice([1, 1, 2, 3, 5, 20])}


def weave(rng, *lists):
    """interleave, keeping each list's order, with pieces of progress in between"""
    ls = [list(x) for x in lists if x]
    out = []
    p = rng.choice([.1, .5, .9])
    while ls:
        l = rng.choice(ls)
        out.append(l.pop(0))
        if not l:
            ls.remove(l)
        if rng.random() < p:
            out.append(steps(rng) if rng.random() < .9 else {"o": "settle"})
    return out


def sends(rng, s, n, big=.03):
    return [{"o": "send", "s": s, "p": payload(rng, size(rng, big))} for _ in range(n)]


# ------------------------------------------------------------------ random episodes

def ep_c09(rng):
    cfg = rng.choice(["server", "client", "pair", "pair"])
    sides = ["a", "b"] if cfg == "pair" else ["a"]
    big = rng.choice([0, 0, 0, .05])
    ep = {"cfg": cfg, "react": {}}
    parts = []
    for s in sides:
        n = rng.randrange(1, 7) if rng.random() < .95 else 40
        ops = sends(rng, s, n, big if n < 7 else 0)
        ops.insert(rng.randrange(0, n + 1), {"o": "start", "s": s})
        parts.append(ops)
        ep["react"][s] = {"ready": sends(rng, s, rng.choice([0, 0, 1, 2]), big),
                          "msgs": [sends(rng, s, rng.choice([0, 0, 1, 2]), 0) for _ in range(4)]}
        if rng.random() < .2:
            ep["react"][s]["ready"].append({"o": "start", "s": s})
    if cfg != "pair":
        parts.append(stream(rng, rng.randrange(0, 4)) + ([{"o": "cut"}] if rng.random() < .1 else []))
        if rng.random() < .35:
            ep["sndbuf"] = rng.choice([2048, 4608, 16384])
            parts[0] += sends(rng, "a", 1, 1)
            ops = weave(rng, *parts)
            ops.insert(rng.randrange(len(ops)), {"o": "noread"})
            i = rng.randrange(len(ops) + 1)
            ops.insert(i, {"o": "read"})
            ep["ops"] = ops
            return ep
    ep["ops"] = weave(rng, *parts)
    if rng.random() < .2:
        ep["ops"].insert(rng.randrange(len(ep["ops"])), {"o": "drop", "s": rng.choice(sides)})
        # only an endpoint that has started keeps itself alive
        seen = set(o.get("s") for o in ep["react"].get("a", {}).get("ready", []) if o["o"] == "start")
        i = [k for k, o in enumerate(ep["ops"]) if o["o"] == "drop"][0]
        s = ep["ops"][i]["s"]
        if not any(o["o"] == "start" and o["s"] == s for o in ep["ops"][:i]) and s not in seen:
            ep["ops"].pop(i)
    return ep


def ep_c10(rng):
    cfg = rng.choice(["server", "client"])
    ops = [{"o": "start"}]
    rest = stream(rng, rng.randrange(0, 5)) + ending(rng)
    if rng.random() < .2:      # everything is there before reading starts
        ops = rest + ops
    else:
        ops += weave(rng, rest)
    return {"cfg": cfg, "ops": ops, "react": {"a": {"msgs": [sends(rng, "a", rng.choice([0, 0, 0, 1]), 0) for _ in range(3)]}}}


def ep_huge(rng):
    """frames that announce up to 2^40 bytes and are cut off"""
    n = rng.choice([2 ** 31 - 1, 2 ** 31, 2 ** 31 + 5, 2 ** 32, 2 ** 32 + 3, 2 ** 33 + 125, 2 ** 35 + 2 ** 31, 2 ** 38 + 6])
    f = frame(rng.choice([1, 2]), True, payload(rng, rng.choice([3, 6, 40])), rng, cuts=False)
    f["len"] = n
    # what follows looks like frames but is payload of the announced frame
    return {"cfg": "big", "ops": [{"o": "start"}, frame(1, True, [[97, 3]], rng), f,
                                  {"o": "raw", "frames": [[1, [[120, 4]]]] * rng.randrange(1, 60)},
                                  {"o": "settle"}, {"o": "cut"}], "react": {}}


def ep_c11(rng):
    cfg = rng.choice(["server", "client", "server", "client", "pair"])
    sides = ["a", "b"] if cfg == "pair" else ["a"]
    ep = {"cfg": cfg, "react": {}}
    parts = []

    def small(s, n):
        return [{"o": "send", "s": s, "p": payload(rng, rng.choice([0, 1, 7, 100, 130, 260, 400, 700]))} for _ in range(n)]

    for s in sides:
        ops = small(s, rng.randrange(0, 5))
        ops.insert(rng.randrange(0, len(ops) + 1) if rng.random() < .4 else 0, {"o": "start", "s": s})
        if rng.random() < .55:
            ops.insert(rng.randrange(0, len(ops) + 1), {"o": "close", "s": s})
        if rng.random() < .15:
            ops.append({"o": "close", "s": s})
        if rng.random() < .3:
            ops.insert(rng.randrange(0, len(ops) + 1), {"o": "stop", "s": s})
            if rng.random() < .3:
                ops.append({"o": "start", "s": s})
        parts.append(ops)
        msgs = []
        for _ in range(3):
            r = rng.random()
            msgs.append([{"o": "close", "s": s}] if r < .2 else [{"o": "stop", "s": s}] if r < .3
                        else small(s, 1) if r < .5 else [])
        ep["react"][s] = {"msgs": msgs, "close": rng.choice([[], [], [{"o": "stop", "s": s}], small(s, 1), [{"o": "close", "s": s}]])}
        if rng.random() < .1:
            ep["react"][s]["ready"] = rng.choice([[{"o": "stop", "s": s}], [{"o": "close", "s": s}], [{"o": "start", "s": s}]])
    if cfg != "pair":
        raw = stream(rng, rng.randrange(0, 3)) if rng.random() < .7 else []
        r = rng.random()
        if r < .6:
            raw.append(frame(8, True, payload(rng, rng.choice([0, 2, 10])), rng))
        elif r < .75:
            raw += ending(rng)
        if rng.random() < .15:
            raw.append({"o": "cut"})
        if rng.random() < .1:
            raw.append({"o": "kill"})
        parts.append(raw)
    ep["ops"] = weave(rng, *parts)
    if cfg != "pair" and rng.random() < .3:
        ep["sndbuf"] = rng.choice([2048, 4608])
        ep["ops"].insert(0, {"o": "noread"})
        ep["ops"].insert(rng.randrange(len(ep["ops"])), {"o": "send", "s": "a", "p": payload(rng, rng.choice([20000, 60000]))})
        ep["ops"].insert(rng.randrange(len(ep["ops"])), {"o": "read"})
    if rng.random() < .25:
        s = rng.choice(sides)
        i = [k for k, o in enumerate(ep["ops"]) if o["o"] == "start" and o.get("s") == s][0]
        ep["ops"].insert(rng.randrange(i + 1, len(ep["ops"]) + 1), {"o": "drop", "s": s})
    return ep


def ep_stop_in_handshake(rng):
    cfg = rng.choice(["server", "client"])
    ops = [{"o": "stop"}]
    if rng.random() < .6:
        ops.insert(rng.randrange(2), {"o": "hs", "client": cfg == "client"})
    if rng.random() < .4:
        ops.append({"o": "start"})
    if rng.random() < .4:
        ops.append({"o": rng.choice(["cut", "kill"])})
    return {"cfg": cfg, "late": True, "ops": weave(rng, ops), "react": {"a": {"ready": [{"o": "start"}] * rng.randrange(2)}}}


# ------------------------------------------------------------------ scenarios enumerated by TLC

def from_walk(rng, walk, prop):
    ops = []
    for o in walk:
        o = dict(o)
        if o["o"] == "step":
            ops.append(steps(rng))
            continue
        if o["o"] == "send":
            # the specification's one- and two-fragment messages
            k = rng.choice([100, 125, 1]) if len(o["p"]) == 1 else rng.choice([126, 250, 200])
            o["p"] = [[o["p"][0][0], k]]
        if o["o"] == "frame":
            f = frame(o["op"], o["fin"], o["p"], rng)
            o = f
        ops.append(o)
    return {"cfg": rng.choice(["server", "client"]), "ops": ops, "react": {}}


def run(ctx, prop):
    x = exe()
    if prop == "C09":
        ctx.model("WsConnMC")
        ctx.model("WsConnMC", "WsConnPair.cfg")
    elif not ctx.quick or prop == "C11":
        ctx.model("WsConnMC")
    m = ctx.model("WsConnMC", "WsConnEdges%s.cfg" % prop)
    f, e = '{"a":false,"b":false}', '{"a":[],"b":[]}'
    z = '{"a":0,"b":0}'
    idle = '{"done":[],"n":0,"on":false,"p":[]}'
    init = '[%s,%s,%s,{"a":%s,"b":%s},%s,%s,%s,%s,%s,%s,%s,%s,0]' % (f, f, e, idle, idle, f, z, z, e, f, e, e, e)
    walks, left = core.edge_walks(m.edges, init, ctx.rng, maxlen=25)
    ctx.parts["edges"] = len(m.edges)
    assert left == 0, (left, m.edges[0][0], init)
    seen, eps = set(), []
    for w in walks:
        key = str([o for o in w if o["o"] != "step"])
        if key not in seen:
            seen.add(key)
            eps.append(from_walk(ctx.rng, w, prop))
    ctx.parts["walks"] = len(eps)
    n = ctx.n(1200, 100000)
    if len(eps) > n:
        eps = ctx.rng.sample(eps, n)
    cfg = "WsConnTrace%s.cfg" % prop
    ctx.conform("edges", x, "WsConnTrace", eps, cfg=cfg)
    gen = {"C09": ep_c09, "C10": ep_c10, "C11": ep_c11}[prop]
    ctx.conform("random", x, "WsConnTrace", [gen(ctx.rng) for _ in range(ctx.n(500, 8000))], cfg=cfg)
    if prop == "C09":
        sender(ctx)
    if prop == "C11":
        ctx.conform("handshake", x, "WsConnTrace", [ep_stop_in_handshake(ctx.rng) for _ in range(ctx.n(60, 300))], cfg=cfg)
    if prop == "C10":
        ctx.conform("huge", x, "WsConnTrace", [ep_huge(ctx.rng) for _ in range(ctx.n(12, 60))], cfg=cfg)


# ---- senders of frames of other sizes
def content(rng, n):
    """n bytes as runs"""
    p, left = [], n
    while left:
        b = rng.choice([0, 1, 97, 98, 128, 255, 126, 127])
        if p and p[-1][0] == b:
            continue
        k = min(left, rng.choice([1, 1, 2, 3, 125, 126, max(1, n // 2), left]) if len(p) < 20 else left)
        p.append([b, k])
        left -= k
    return p


def sender(ctx):
    rng = ctx.rng
    x = core.build("sender", LINK, asan=True)
    m = ctx.model("SenderMC")
    mk = lambda top, ms, broken=None: {"max": top, "bytes": rng.random() < .5, "small": rng.random() < .3,
                                       "ops": [o for i, (op, n) in enumerate(ms) for o in
                                               ([{"o": "break"}] if i == broken else []) + [{"o": "send", "op": op, "p": content(rng, n)}]]}
    cases = [c for c in m.cases if all(n <= 400 * c["max"] for _, n in c["given"])]
    rng.shuffle(cases)
    eps = [mk(c["max"], c["given"]) for c in cases[:ctx.n(400, 4000)]]
    for _ in range(ctx.n(150, 1500)):
        top = rng.choice([1, 5, 125, 126, 1000, 65535, 65536, 100000])
        ms = []
        for _ in range(rng.randint(1, 6)):
            op = rng.choice([1, 1, 2, 2, 8, 9, 10])
            n = rng.choice([0, 1, top - 1, top, top + 1, 2 * top, 2 * top + 1, 3 * top - 1, rng.randrange(4 * top + 1), 125, 126, 65536, 70000])
            ms.append((op, max(0, min(n, min(125, top) if op > 7 else 400 * top))))
        eps.append(mk(top, ms, rng.randrange(len(ms)) if rng.random() < .15 else None))
    ctx.conform("sender", x, "SenderTrace", eps)
