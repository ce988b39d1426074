from vlib import core

IDENT = (("num", "num"), ("id", "str"), ("none", "empty"))


def convs(rng, m):
    keyless = m["act"] == "create" and m["key"] == "-"
    ident = (m["ut"], m["kt"]) in IDENT
    out = []
    if m["ch"] == "down":
        return out
    if m["act"] == "read":
        out += [{"to": "read", "conf": "-", "key": "-", "val": v} for v in ("nf", word(rng), word(rng))]
    elif not keyless or ident:
        out += [{"to": "plain", "conf": b, "key": "-", "val": "-"} for b in ("-", "true", "true", "false", "false")]
    if keyless:
        for b in ("-", "-", "true", "true"):
            out.append({"to": "key", "conf": b, "key": key(rng, m["kt"]), "val": "-"})
    rng.shuffle(out)
    return out


def word(rng):
    return "".join(rng.choice("ab \"\\x{}?") for _ in range(rng.choice([0, 1, 3, 20, 60]))) + rng.choice("yz")


def num(rng):
    return str(rng.choice([0, -1, 7, 2147483647, -2147483648, rng.randrange(10**6)]))


def key(rng, kt):
    return {"num": num(rng), "str": word(rng), "empty": "unit"}[kt]


def rand_message(rng):
    ch, act = rng.choice(["up", "down"]), rng.choice(["create", "create", "read", "update", "delete"])
    kt, ut = rng.choice(["num", "str", "empty"]), rng.choice(["none", "num", "id"])
    m = {"ch": ch, "act": act, "kt": kt, "ut": ut, "par": [[], [num(rng)], [num(rng), word(rng)]][rng.randrange(3)]}
    m["key"] = "-" if act == "create" and rng.random() < .6 else key(rng, kt)
    m["uid"] = {"none": "-", "num": num(rng), "id": word(rng)}[ut]
    m["val"] = "-" if act == "delete" or act == "read" and ch == "up" else \
               "nf" if act == "read" and rng.random() < .3 else word(rng)
    m["priv"] = word(rng) if ch == "up" and act == "create" and rng.random() < .5 else "-"
    m["conf"] = rng.choice(["-", "true", "false"]) if ch == "down" and act != "read" else "-"
    if ch == "down" and m["key"] == "-" and (ut, kt) not in IDENT:
        return rand_message(rng)
    return {"m": m, "c": convs(rng, m)}


def run(ctx):
    exe = core.build("message", asan=True)
    m = ctx.model("MessageMC")
    by = {}
    for c in m.cases:
        by.setdefault(repr(sorted((k, str(v)) for k, v in c["m"].items())), {"m": c["m"], "c": []})
        if c["c"]["to"] != "none":
            # from a kept message (const or not) and from one that is given up, each in two ways
            by[repr(sorted((k, str(v)) for k, v in c["m"].items()))]["c"] += [c["c"]] * 6
    eps = list(by.values())
    ctx.conform("kinds", exe, "MessageTrace", eps)
    ctx.conform("random", exe, "MessageTrace", [rand_message(ctx.rng) for _ in range(ctx.n(1500, 40000))])
