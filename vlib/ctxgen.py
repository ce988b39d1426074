"""Scenario generation for the context properties (C01, C02, C03)."""
from . import core

CFG = {
    1: {"nprod": 2, "ncons": 2, "obs": [2],
        "owner": {"p0": 0, "p1": 1, "p2": 1, "p3": 1, "p4": 1},
        "listen": {"p0": [], "p1": ["p2"], "p2": [], "p3": [], "p4": []},
        "kind": {"p0": "mock", "p1": "mock", "p2": "mock", "p3": "map", "p4": "mock"}},
    2: {"nprod": 3, "ncons": 3, "obs": [3, 5],
        "owner": {"p0": 0, "p1": 0, "p2": 1, "p3": 2},
        "listen": {"p0": ["p1", "p2", "p3"], "p1": ["p2"], "p2": ["p3"], "p3": []},
        "kind": {"p0": "mock", "p1": "mock", "p2": "mock", "p3": "mock"}},
    3: {"nprod": 1, "ncons": 1, "obs": [1],
        "owner": {"p0": 0}, "listen": {"p0": []}, "kind": {"p0": "mock"}},
    4: {"nprod": 2, "ncons": 2, "obs": [2],
        "owner": {"p0": 0, "p1": 1, "p2": 1},
        "listen": {"p0": ["p2"], "p1": [], "p2": []},
        "kind": {"p0": "map", "p1": "map", "p2": "mock"}},
    5: {"nprod": 3, "ncons": 3, "obs": [3, 5], "echo": [0, 1], "units": ["p5"],
        "owner": {"p0": 0, "p1": 0, "p2": 1, "p3": 1, "p4": 2, "p5": 1},
        "listen": {"p0": ["p3"], "p1": [], "p2": [], "p3": [], "p4": ["p3"], "p5": []},
        "kind": {"p0": "map", "p1": "map", "p2": "map", "p3": "mock", "p4": "mock", "p5": "mock"}},
}
DEPTH1 = {(2, "p0"), (2, "p3"), (5, "p1"), (5, "p4")}
EMPTY = {(1, "p4"), (5, "p5")}


def path(c, pt, a, b):
    if (c, pt) in DEPTH1:
        a = 1
    if (c, pt) in EMPTY:
        b = 0
    return {"pt": pt, "a": a, "b": b}


def readable(c):
    return sorted(p for p in CFG[c]["owner"] if CFG[c]["kind"][p] != "null")


def msg(c, kind, pt, a, b, val="v1", uid="none", conf="none"):
    m = path(c, pt, a, b)
    if kind in ("up_create_nokey", "up_create_uid", "up_create_empty"):
        if (c, pt) in EMPTY:    # the key is the empty one unless a uid (not a key here) is given
            kind = "up_create_empty" if uid == "none" else "up_create_nokey"
        elif kind == "up_create_empty":
            kind = "up_create_nokey"
        m["b"] = 0
    if kind == "up_create_uid" and CFG[c]["kind"][pt] == "map":
        kind = "up_create_nokey"
    if kind == "up_create_uid":
        uid = str(b + 10)
    if kind.startswith("up_") or kind == "down_read":
        conf = "none"
    elif uid != "none":
        conf = "true"
    elif conf == "true":
        conf = "none"
    if kind in ("up_read", "up_delete", "down_delete"):
        val = "none"
    elif val == "nf" and kind != "down_read":
        val = "v9"
    m.update(kind=kind, val=val, uid=uid, conf=conf)
    return m


KINDS = ["up_create", "up_create_nokey", "up_create_uid", "up_read", "up_update", "up_delete",
         "down_create", "down_read", "down_update", "down_delete"]


def rand_msg(rng, c, kinds=None, small=False):
    kind = rng.choice(kinds or KINDS)
    pts = readable(c) if kind == "up_read" else sorted(CFG[c]["owner"])
    if not pts:
        kind, pts = "up_update", sorted(CFG[c]["owner"])
    pt = rng.choice(pts)
    return msg(c, kind, pt, rng.randint(1, 2), rng.randint(1, 2 if small else 3),
               val=rng.choice(["v1", "v2", "v3", "nf"]), uid=rng.choice(["none", "none", "u1", "u2"]),
               conf=rng.choice(["none", "false"]))


def marks(rng, c, m):
    out = []
    for lp in CFG[c]["listen"][m["pt"]]:
        for _ in range(rng.choice([0, 0, 1, 2])):
            out.append(path(c, lp, rng.randint(1, 3), rng.randint(1, 3)))
    return out


def rand_push(rng, c, depth=0, kinds=None, small=False):
    m = rand_msg(rng, c, kinds, small)
    op = {"t": "push", "m": m, "by": rng.randint(-1, CFG[c]["nprod"] + CFG[c]["ncons"] - 1),
          "changed": rng.random() < .6, "marks": marks(rng, c, m), "nest": []}
    if m["kind"] in ("up_create_nokey", "up_create_empty"):
        op["priv"] = rng.random() < .3
    if depth < 3 and rng.random() < (.5 if depth == 0 else .3):
        for _ in range(rng.choice([1, 1, 2])):
            op["nest"].append(rand_hook(rng, c, depth, kinds, small))
    return op


def rand_hook(rng, c, depth, kinds, small):
    np, nc = CFG[c]["nprod"], CFG[c]["ncons"]
    h = rng.choice(["up"] + ["down"] * (nc > 0) + ["notify"] * (len(CFG[c]["obs"]) > 0))
    i = rng.randrange(np) if h == "up" else rng.choice(CFG[c]["obs"]) if h == "notify" else np + rng.randrange(nc)
    ops = []
    for _ in range(rng.choice([1, 1, 2])):
        ops.append(rand_push(rng, c, depth + 1, kinds, small) if rng.random() < .7 else rand_look(rng, c, small))
    return {"h": h, "i": i, "ops": ops}


def rand_look(rng, c, small=False):
    if not readable(c):
        return rand_push(rng, c, 3)
    pt = rng.choice(readable(c))
    return {"t": "look", "p": path(c, pt, rng.randint(1, 2), rng.randint(1, 2 if small else 3)),
            "by": rng.choice([-1, 0]), "get": rng.random() < .3, "changed": False, "marks": [], "nest": []}


def rand_set(rng, c):
    pts = [p for p in CFG[c]["kind"] if CFG[c]["kind"][p] == "mock"]
    if not pts:
        return None
    return {"t": "set", "p": path(c, rng.choice(sorted(pts)), rng.randint(1, 2), rng.randint(1, 3)),
            "s": rng.choice(["trigger", "unresolved", "v7", "v8", "nf"])}


def rand_episode(rng, c, n):
    ops = []
    for _ in range(n):
        r = rng.random()
        op = rand_set(rng, c) if r < .25 else rand_look(rng, c) if r < .35 else rand_push(rng, c)
        if op:
            ops.append(op)
    return {"cfg": CFG[c], "ops": ops}


def from_scenarios(cases, rng):
    """TLC's scenarios (ContextMC: p0 owned by producer 0 is listened to by p1, owned by
    producer 1; consumers 2,3,4, observers 2 and 4) renamed for the definitions 1 and 2."""
    eps = {1: [], 2: []}
    seen = set()
    import json
    for s in cases:
        for c, names, hooks in ((1, {"p0": "p1", "p1": "p2"}, {0: 1, 1: 1, 2: 2, 3: 3, 4: 2}),
                                (2, {"p0": "p1", "p1": "p2"}, {0: 0, 1: 1, 2: 3, 3: 4, 4: 5})):
            def mk(m, uid):
                return msg(c, m["kind"], names[m["pt"]], m["a"], m["b"] or 1, val=m["val"], uid=uid)
            uid = rng.choice(["none", "u1"])
            m = mk(s["m"], uid)
            mk_marks = []
            if m["pt"] == "p1":
                mk_marks = [path(c, "p2", 5, k + 1) for k in range(s["ans"]["marks"])]
            nest = []
            if s["at"]["h"] != "none":
                i = hooks[s["at"]["i"]]
                m2 = mk(s["m2"], "none")
                nest = [{"h": s["at"]["h"], "i": i, "ops": [
                    {"t": "push", "by": i, "m": m2, "changed": m2["kind"] in ("down_update", "up_create"),
                     "marks": [], "nest": []}]}]
            ops = []
            if m["kind"] == "up_read":
                ops.append({"t": "set", "p": {k: m[k] for k in ("pt", "a", "b")}, "s": s["ans"]["status"]})
            ops.append({"t": "push", "by": rng.choice([-1, 0, 2]), "m": m, "changed": s["ans"]["changed"],
                        "marks": mk_marks, "nest": nest})
            key = json.dumps([c, ops])
            if key in seen:
                continue
            seen.add(key)
            eps[c].append(ops)
    # several scenarios per episode: one context sees them one after the other
    out = {1: [], 2: []}
    for c in eps:
        rng.shuffle(eps[c])
        for k in range(0, len(eps[c]), 8):
            out[c].append({"cfg": CFG[c], "ops": [o for ops in eps[c][k:k + 8] for o in ops]})
    return out


def build(c):
    return core.build("context", extra=["-DCTX=%d" % c])


def generate(rng, c):
    """A random context definition: any tree of access points below any number of producers,
    stores and listeners anywhere, consumers of both kinds.  Registers CFG[c] and returns the C++."""
    nprod, ncons = rng.choice([1, 1, 2, 2, 3, 4, 5]), rng.choice([0, 1, 1, 2, 3, 4, 5])
    paths, owner, kind, store, prods = [], {}, {}, {}, []
    MAPS, keys = "nbdl::map_store_tag", list(range(8))

    def add(p, path):               # an access point with a store
        pt = "p%d" % len(paths)
        paths.append(path)
        owner[pt] = p
        kind[pt] = "map" if rng.random() < .25 and path[-1] != "Unit" else "mock"
        store[pt] = MAPS if kind[pt] == "map" else "spy::mock_tag"
        if kind[pt] == "mock" and rng.random() < .35:
            store[pt] = "spy::quiet_tag"
        elif kind[pt] == "mock" and rng.random() < .15:
            store[pt], kind[pt] = None, "null"
        if c == 100 and kind[pt] == "mock" and "null" not in kind.values():
            store[pt], kind[pt] = None, "null"
        return pt

    def tree(p, prefix, want):
        """access points below `prefix`, as nested lists [key, pt or None, children]"""
        out = []
        for k in rng.sample(keys, min(3, rng.choice([1, 1, 2, 3]) if prefix else want)):
            path = prefix + ["K<%d>" % k]
            if path in paths or len(paths) > 9 * (p + 1) // nprod:
                continue
            deep = len(path) < 4 and rng.random() < (.75 if len(path) == 1 else .3)
            pt = None
            if not deep or rng.random() < .4:
                if [p2 for p2 in paths if p2 == path]:
                    continue
                pt = add(p, path)
            kids = tree(p, path, 0) if deep else []
            if len(path) == 1 and rng.random() < .15 and path + ["Unit"] not in paths:
                kids.append(["Unit", add(p, path + ["Unit"]), []])
            if pt or kids:
                out.append([path[-1], pt, kids])
        return out

    for p in range(nprod):
        t = []
        while not t:
            t = tree(p, [], rng.choice([1, 1, 2, 3]))
            if not t:
                k = "K<%d>" % rng.choice([k for k in keys if ["K<%d>" % k] not in paths])
                t = [[k, add(p, [k]), []]]
        prods.append(t)
    pts = ["p%d" % i for i in range(len(paths))]
    mocks = [x for x in pts if kind[x] == "mock"]
    listens = {x: [] for x in pts}                     # a path type -> who listens to it
    mine = {x: [] for x in pts}                        # a store -> what it listens to
    for x in mocks:
        if rng.random() < .5:
            for y in rng.sample(pts, min(len(pts), rng.choice([1, 1, 2, 3]))):
                if y != x:
                    mine[x].append(y)
                    listens[y].append(x)

    def ap(node):
        key, pt, kids = node
        parts = ["Name(v)"] if rng.random() < .7 else []
        parts += ["Entity<spy::Entity>", "PathKey<%s>" % ("spy::" + key if key == "Unit" else key)]
        if pt:
            if not store[pt] or rng.random() < .8:
                parts.append("Actions(Create(), Read(), Update(), Delete())")
            if store[pt]:
                parts.append("Store<%s>" % store[pt])
            if mine[pt]:
                parts.append("ListenPaths(%s)" % ", ".join("Path<%s>" % ", ".join(
                    "spy::" + k if k == "Unit" else k for k in paths[int(y[1:])]) for y in mine[pt]))
        body = aps(kids)
        if body:
            parts.append(body)
        rng.shuffle(parts)
        return "AccessPoint(%s)" % ", ".join(parts)

    def aps(nodes):
        if not nodes:
            return ""
        if len(nodes) == 1 and rng.random() < .6:
            return ap(nodes[0])
        return "AccessPoints(%s)" % ", ".join(ap(n) for n in nodes)

    obs = [nprod + i for i in range(ncons) if rng.random() < .6]
    P = ["Producer(Name(hana::int_c<%d>), Type<prod<%d>>, %s)" % (10 + i, i, aps(t)) for i, t in enumerate(prods)]
    C = ["Consumer(Name(hana::int_c<%d>), Type<%s<%d>>)" % (10 + i, "obs" if i in obs else "cons", i)
         for i in range(nprod, nprod + ncons)]
    parts = [P[0] if nprod == 1 and rng.random() < .5 else "Producers(%s)" % ", ".join(P)]
    if C:
        parts.append(C[0] if ncons == 1 and rng.random() < .5 else "Consumers(%s)" % ", ".join(C))
    CFG[c] = {"nprod": nprod, "ncons": ncons, "obs": obs, "owner": owner, "listen": listens, "kind": kind}
    for x, path_ in zip(pts, paths):
        if len(path_) == 1:
            DEPTH1.add((c, x))
        if path_[-1] == "Unit":
            EMPTY.add((c, x))
    maps = " || ".join("(i) == %s" % x[1:] for x in pts if kind[x] == "map") or "false && (i)"
    nulls = " || ".join("(i) == %s" % x[1:] for x in pts if kind[x] == "null") or "false && (i)"
    return ("#define CTX 9\n#define GEN_ACTORS %d\n#define GEN_IS_MAP(i) (%s)\n#define GEN_IS_NULL(i) (%s)\n"
            "#define GEN_PATHS paths<%s>\n#define GEN_DEF Context(%s)\n#include \"context.hpp\"\n" % (
                nprod + ncons, maps, nulls,
                ", ".join("hana::tuple<%s>" % ", ".join("spy::" + k if k == "Unit" else k for k in q) for q in paths),
                ", ".join(parts)))


def build_random(rng, n):
    """n random definitions, from 100 on"""
    from concurrent.futures import ThreadPoolExecutor
    texts = {100 + i: generate(rng, 100 + i) for i in range(n)}
    with ThreadPoolExecutor(8) as ex:
        return dict(zip(texts, ex.map(lambda t: core.build("contextgen", gen=t), texts.values())))


def build_all(cs):
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(len(cs)) as ex:
        return dict(zip(cs, ex.map(build, cs)))
