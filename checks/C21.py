import base64, json, struct
from vlib import core

FITS = (("int", -2**31, 2**31 - 1), ("uint", 0, 2**32 - 1), ("enum", -2**31, 2**31 - 1), ("char", -128, 127),
        ("mark", 0, 2**32 - 1), ("byte", 0, 255), ("sbyte", -128, 127), ("wide", -2**63, 2**63 - 1))


def doc(k, s="", b=(), c=(), n=()):
    return {"k": k, "s": s, "b": list(b), "c": list(c), "n": list(n)}


def bits(x):
    return str(struct.unpack("<Q", struct.pack("<d", x))[0])


def tree(text):
    """the document a JSON text is (Python's parser, not the one under test)"""
    def build(x):
        if x is None:
            return doc("null")
        if x is True or x is False:
            return doc("true" if x else "false")
        if isinstance(x, int):
            return doc("num", str(x), n=[k for k, lo, hi in FITS if lo <= x <= hi])
        if isinstance(x, float):
            return doc("num", bits(x), n=["double"])
        if isinstance(x, str):
            return doc("str", b=x.encode("utf8"))
        if isinstance(x, list):
            return doc("arr", c=[build(y) for y in x])
        return doc("obj", c=[build(y) for y in x.values()], n=list(x))
    try:
        return build(json.loads(text))
    except ValueError:
        return doc("bad")


def norm(ep, events):
    res = []
    for e in events:
        if "text" in e:
            e = dict(e)
            e["doc"] = tree(e.pop("text"))
        res.append(e)
    return res


# ---- random values, as descriptions; and as plain Python data for changed texts
def V(k, s="", b=(), c=()):
    return {"k": k, "s": s, "b": list(b), "c": list(c)}


def word(rng):
    n = rng.choice([0, 1, 3, 8, 30])
    return "".join(rng.choice('abc "\\/\n\t\x01\x1f\x7f\u00e4\u20ac\U0001f600\u2028{}[]:,=0') for _ in range(n))


def double(rng):
    return rng.choice([0.0, -0.0, 1.0, 0.1, 1 / 3, -2.5e-308, 5e-324, 1.7976931348623157e308, 123456789.123456789,
                       rng.random(), rng.uniform(-1e9, 1e9), float(rng.randrange(-2**53, 2**53)), 2.0**rng.randrange(-300, 300)])


def value(rng, t, depth=0):
    k = t["k"]
    if k == "bool":
        return V(k, rng.choice(["true", "false"]))
    for kind, lo, hi in FITS:
        if k == kind:
            return V(k, str(rng.choice([lo, hi, 0, 1, max(lo, -1), rng.randrange(lo, hi + 1)])))
    if k == "double":
        return V(k, bits(double(rng)))
    if k == "string":
        s = word(rng)
        if rng.random() < .1:
            s += "\x00z"
        return V(k, b=s.encode("utf8"))
    if k == "bytes":
        return V(k, b=[rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 3, 20]))])
    if k == "buffer":
        return V(k, b=[rng.randrange(256) for _ in range(int(t["n"][0]))])
    if k == "list":
        return V(k, c=[value(rng, t["c"][0], depth + 1) for _ in range(rng.choice([0, 0, 1, 2, 5] if depth else [0, 1, 3, 8]))])
    if k == "variant":
        i = rng.randrange(len(t["c"]))
        return V(k, str(i), c=[value(rng, t["c"][i], depth + 1)])
    return V(k, c=[value(rng, x, depth + 1) for x in t["c"]])


def plain(t, v):
    k = t["k"]
    if k == "bool":
        return v["s"] == "true"
    if k in ("int", "uint", "enum", "char", "mark", "byte", "sbyte", "wide"):
        return int(v["s"])
    if k == "double":
        return struct.unpack("<d", struct.pack("<Q", int(v["s"])))[0]
    if k == "string":
        return bytes(v["b"]).decode("utf8")
    if k in ("bytes", "buffer"):
        return base64.b64encode(bytes(v["b"])).decode()
    if k == "list":
        return [plain(t["c"][0], x) for x in v["c"]]
    if k == "map":
        return {n: plain(x, y) for n, x, y in zip(t["n"], t["c"], v["c"])}
    if k == "seq":
        xs = [plain(x, y) for x, y in zip(t["c"], v["c"]) if x["k"] != "empty"]
        return None if not xs else xs[0] if len(xs) == 1 else xs
    if k == "variant":
        a = t["c"][int(v["s"])]
        return int(v["s"]) if a["k"] == "empty" else [int(v["s"]), plain(a, v["c"][0])]
    return None


def spots(x, path=()):
    yield path
    if isinstance(x, list):
        for i, y in enumerate(x):
            yield from spots(y, path + (i,))
    elif isinstance(x, dict):
        for n, y in x.items():
            yield from spots(y, path + (n,))


def change(rng, x):
    """another document, different in one place"""
    x = json.loads(json.dumps(x))
    path = rng.choice(list(spots(x)))
    box = [x]
    at, key = box, 0
    for p in path:
        at, key = at[key], p
    y = at[key]
    if isinstance(y, list) and y and rng.random() < .6:
        k = rng.random()
        if k < .3:
            y.pop(rng.randrange(len(y)))
        elif k < .6:
            y.insert(rng.randrange(len(y) + 1), rng.choice([0, None, "", y[0]]))
        else:
            rng.shuffle(y)
    elif isinstance(y, dict) and y and rng.random() < .6:
        n = rng.choice(sorted(y))
        if rng.random() < .5:
            del y[n]
        else:
            y[n] = rng.choice([None, [], {}, "", 1, 0])
    elif isinstance(y, str) and rng.random() < .6:
        at[key] = rng.choice([y + "A", y[:-1], y + "====", y[:-1] + "*", "A" + y[1:]])
    elif type(y) is int and rng.random() < .6:
        at[key] = rng.choice([y + 1, -y, y + 256, y + 2**32, 2**63 - 1 - y, y - 2**32, y + 2**31, 2**63, y + 5, 127, 128, -129, -128])
    elif type(y) is float:
        at[key] = rng.choice([None, "0.5", True, [y], {}])   # an integer would do for a real number
    else:
        alt = [None, True, False, 0, 1, 3, -1, 300000000000, "", "x", "1", "true", [], [0], [1, 1], [2, "a"], [0, 0], [7, 1],
               [1], [None], {}, {"value": 1}, 99, [99, 1], [-1, 1], 2.5]
        at[key] = rng.choice(alt)
    return box[0]


def text(rng, x):
    def order(x):
        if isinstance(x, dict):
            ks = sorted(x)
            rng.shuffle(ks)
            return {k: order(x[k]) for k in ks}
        return [order(y) for y in x] if isinstance(x, list) else x
    return json.dumps(order(x), ensure_ascii=rng.random() < .5,
                      **rng.choice([{}, {"indent": 1}, {"separators": (",", ":")}]))




def fits_loosely(t, x):
    """x has an integer where t has a real number"""
    k = t["k"]
    if k == "double":
        return type(x) is int
    if isinstance(x, list):
        if k == "list":
            return any(fits_loosely(t["c"][0], y) for y in x)
        if k == "seq":
            m = [c for c in t["c"] if c["k"] != "empty"]
            if len(m) == 1:
                return fits_loosely(m[0], x)
            return any(fits_loosely(c, y) for c, y in zip(m, x))
        if k == "variant" and len(x) == 2 and type(x[0]) is int and 0 <= x[0] < len(t["c"]):
            return fits_loosely(t["c"][x[0]], x[1])
    if isinstance(x, dict) and k == "map":
        return any(fits_loosely(c, x[n]) for n, c in zip(t["n"], t["c"]) if n in x)
    if k == "seq":
        m = [c for c in t["c"] if c["k"] != "empty"]
        return len(m) == 1 and fits_loosely(m[0], x)
    return False


def run(ctx):
    rng = ctx.rng
    exe = core.build("jsondoc", asan=True)
    m = ctx.model("JsonMC")
    types = [c["types"] for c in m.cases if "types" in c][0]
    eps = {}
    for c in m.cases:
        if "val" in c:
            t, v = types[c["type"]], c["val"]
            v = json.loads(json.dumps(v).replace('"0x1.8000000000000p+1"', '"%s"' % bits(3.0))
                           .replace('"-0x1.5555555555555p-2"', '"%s"' % bits(-1 / 3)))
            ep = {"type": c["type"], "vals": [v], "texts": []}
            x = plain(t, v)
            ys = [x] + [change(rng, x) for _ in range(ctx.n(25, 150))]
            ep["texts"] = [text(rng, y) for y in ys if not fits_loosely(t, y)]
            whole = json.dumps(x)
            if whole[0] in "[{":
                ep["texts"] += [whole[:rng.randrange(1, len(whole))] for _ in range(3)]
            eps[len(eps)] = ep
    ctx.conform("cases", exe, "JsonTrace", list(eps.values()), norm=norm)

    eps = []
    for i in range(ctx.n(300, 6000)):
        name = sorted(types)[i % len(types)]
        t = types[name]
        ep = {"type": name, "vals": [value(rng, t) for _ in range(4)], "texts": []}
        for v in ep["vals"]:
            x = plain(t, v)
            for _ in range(6):
                y = change(rng, x)
                if rng.random() < .2:
                    y = change(rng, y)
                if not fits_loosely(t, y):
                    ep["texts"].append(text(rng, y))
            ep["texts"].append(text(rng, x))
        eps.append(ep)
    ctx.conform("random", exe, "JsonTrace", eps, norm=norm)
