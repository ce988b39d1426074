"""Types of keys, their C++ text and terms of them.

(leaf) ("int",) ("long",) ("bool",) ("dbl",) ("str",) ("nstr",) ("uid",) ("nil",)
("vec"|"lst"|"deq"|"arr"|"uset"|"umset"|"set"|"opt"|"key", leaf) ("var", T...) ("tup"|"stup", T...)
("pair"|"spair", T, U) ("ent", n, T...)"""
import random

NAMES = {"lst": "Lst", "deq": "Deq", "uset": "USet", "umset": "UMSet", "stup": "STup", "spair": "SPair", "nstr": "NStr"}
LEAFS = ["int", "str", "long", "bool", "dbl"]


def cpp(t):
    if t[0] == "ent":
        return "Ent%d" % t[1]
    name = NAMES.get(t[0], t[0].capitalize())
    return name if len(t) == 1 else "%s<%s>" % (name, ", ".join(cpp(x) for x in t[1:]))


def node(k, s="", c=()):
    return {"k": k, "s": s, "c": list(c)}


def hexs(rng, mask=None):
    b = [0] * 16 if rng.random() < .5 else [rng.choice([0, 1, 127, 255]) for _ in range(16)]
    b[rng.randrange(16)] = rng.choice([0, 1, 2, 255])
    return "".join("%02x" % x for x in b)


def term(rng, t):
    k = t[0]
    if k in ("int", "long"):
        return node("num", str(rng.choice([0, 1, 2, 3, -1, 7])))
    if k == "bool":
        return node("num", rng.choice("01"))
    if k == "dbl":
        return node("num", rng.choice(["0", "0.5", "-2", "7"]))
    if k in ("str", "nstr"):
        return node("str", rng.choice(["", "a", "b", "ab", "ba", "abc", "x" * 30, "y" + "x" * 29, "x" * 29 + "y"]))
    if k == "uid":
        return node("uid", hexs(rng))
    if k == "nil":
        return node("none")
    if k in ("vec", "lst", "deq"):
        return node("list", "", [term(rng, t[1]) for _ in range(rng.choice([0, 1, 2, 3, 3]))])
    if k == "arr":
        return node("list", "", [term(rng, t[1]) for _ in range(3)])
    if k in ("uset", "umset", "set"):
        c = [term(rng, t[1]) for _ in range(rng.choice([0, 1, 2, 3, 5]))]
        if k != "umset":
            c = list({x["s"]: x for x in c}.values())
        return node("set", "", sorted(c, key=lambda x: x["s"]))
    if k == "opt":
        return node("opt", "1", [term(rng, t[1])]) if rng.random() < .7 else node("opt", "0", [node("none")])
    if k == "key":
        return node("key", "", [term(rng, t[1])])
    if k == "var":
        i = rng.randint(0, len(t) - 1)
        return node("var", str(i), [term(rng, t[i]) if i else node("none")])
    return node("rec", "", [term(rng, x) for x in (t[2:] if k == "ent" else t[1:])])


def near(rng, t, x):
    """a term that differs a little: one part, or two parts of a type changed over"""
    k = t[0]
    if k == "uid" and rng.random() < .7:
        i = rng.randrange(16)
        return node("uid", x["s"][:2 * i] + "%02x" % (int(x["s"][2 * i:2 * i + 2], 16) ^ rng.choice([1, 128])) + x["s"][2 * i + 2:])
    if x["c"] and k not in ("uset", "umset", "set"):
        parts = {"ent": t[2:], "var": [t[int(x["s"])]] if k == "var" and x["s"] != "0" else [], "tup": t[1:], "stup": t[1:], "pair": t[1:],
                 "spair": t[1:], "key": t[1:]}.get(k)
        if k in ("vec", "lst", "deq", "arr"):
            parts = [t[1]] * len(x["c"])
        if k == "opt":
            parts = [t[1]] if x["s"] == "1" else []
        if parts:
            c = list(x["c"])
            same = [(i, j) for i in range(len(parts)) for j in range(i) if parts[i] == parts[j]]
            if same and rng.random() < .5:
                i, j = rng.choice(same)
                c[i], c[j] = c[j], c[i]
            else:
                i = rng.randrange(len(parts))
                c[i] = near(rng, parts[i], c[i])
            return dict(x, c=c)
    return term(rng, t)


def random_type(rng, depth, ents):
    k = rng.choice(["leaf", "leaf", "leaf", "box", "box"] + (["var", "tup", "tup", "stup", "pair", "spair", "ent", "ent"] if depth else []))
    if k == "leaf":
        return (rng.choice(LEAFS + ["str", "nstr", "uid", "uid"]),)
    if k == "box":
        b = rng.choice(["vec", "vec", "lst", "deq", "arr", "uset", "uset", "umset", "set", "opt"])
        l = rng.choice(LEAFS + (["uid"] if b not in ("set",) else []))
        if b == "set" and l == "dbl":
            l = "int"
        return (b, (l,))
    if k == "var":
        alts = []
        for _ in range(6):
            a = random_type(rng, depth - 1, ents)
            # std::variant with a hana::pair of trivial members recurses without end on its own (libstdc++)
            if a not in alts and a[0] not in ("bool", "dbl", "long", "nstr", "opt", "pair") and len(alts) < 3 and default(a):
                alts.append(a)
        # the converting constructors of the alternatives must not be in each other's way
        if sum(a[0] in ("int", "str") for a in alts) > 2 or not alts:
            return ("int",)
        return ("var",) + tuple(alts)
    if k in ("stup", "spair"):          # compared by the standard library
        depth = 0
    if k in ("pair", "spair"):
        return (k, random_type(rng, max(depth - 1, 0), ents), random_type(rng, max(depth - 1, 0), ents))
    parts = tuple(random_type(rng, max(depth - 1, 0), ents) for _ in range(rng.randint(2, 3)))
    if rng.random() < .4:
        parts = parts[:1] * 2 + parts[1:]
    if k == "ent":
        ents.append(None)
        t = ("ent", len(ents)) + parts
        ents[-1] = t
        return t
    if rng.random() < .2:
        parts = parts[:1] + (("nil",),) + parts[1:]
    return (k,) + parts


def default(t):
    return t[0] != "key" and all(default(x) for x in t[1:] if isinstance(x, tuple))


FIXED = [("str",), ("nstr",), ("uid",), ("long",), ("dbl",), ("vec", ("int",)), ("uset", ("int",)), ("umset", ("str",)), ("vec", ("bool",)),
         ("var", ("int",), ("str",)), ("tup", ("int",), ("str",)), ("tup", ("uid",), ("uid",)), ("tup", ("int",), ("int",), ("nil",), ("int",)),
         ("stup", ("str",), ("str",)), ("spair", ("int",), ("int",)), ("pair", ("var", ("uid",), ("str",)), ("uset", ("uid",))),
         ("key", ("long",)), ("key", ("str",)), ("key", ("uid",)), ("opt", ("int",)), ("lst", ("uid",)), ("arr", ("int",))]


def types(seed, n):
    """(types, entities)"""
    rng = random.Random("keys/%s" % seed)
    ents = []
    return [random_type(rng, 2, ents) for _ in range(n)], ents


def hashed(t):
    return t[0] != "key" and all(hashed(x) for x in t[1:] if isinstance(x, tuple))


def source(ts, ents):
    o = ['#include "keyed.hpp"']
    for e in ents:
        n, parts = e[1], e[2:]
        names = "abcdefgh"[:len(parts)]
        o.append("struct Ent%d { %s };" % (n, " ".join("%s %s;" % (cpp(p), m) for p, m in zip(parts, names))))
        o.append("namespace nbdl { NBDL_ENTITY(Ent%d, %s); }" % (n, ", ".join(names)))
        o.append("template <typename F> void parts(Ent%d const& x, F f) { f(%s); }" % (n, ", ".join("x." + m for m in names)))
        o.append("template <> struct As<Ent%d> : AsRec<Ent%d, %s> { };" % (n, n, ", ".join(cpp(p) for p in parts)))
    o.append("int main() { return main_loop([](J const& ep) { auto const& ops = ep[\"ops\"]; switch (ep[\"shape\"].asInt()) {")
    o += ["  case %d: return keyed<%s, %s>(ops);" % (i, cpp(t), "true" if hashed(t) else "false") for i, t in enumerate(ts)]
    o.append("  default: ::_exit(13); } }); }")
    return "\n".join(o) + "\n"


def pool(rng, t, n):
    out = [term(rng, t) for _ in range(2)]
    while len(out) < n:
        out.append(near(rng, t, rng.choice(out)) if rng.random() < .7 else term(rng, t))
    return out


def how(rng):
    return rng.randrange(1 << 20)


def walk(rng, i, keys, t, ops):
    std = t == ("uid",) and rng.random() < .5
    out = [{"ev": "reset"}]
    for kind, k, v in ops:
        o = {"ev": kind, "t": keys[k - 1], "how": how(rng)}
        if kind == "put":
            o["v"] = v
        out.append(o)
        if rng.random() < .4:
            out.append({"ev": "find", "t": rng.choice(keys), "how": how(rng)})
    out.append({"ev": "all"})
    if t == ("uid",):
        out = [dict(o, std=std) for o in out]
    return {"shape": i, "ops": out}


def episode(rng, ts, i, k):
    t = ts[i]
    keys = pool(rng, t, 8)
    std = rng.random() < .5
    out = [{"ev": "reset"}]
    h = hashed(t)
    for _ in range(k):
        x = rng.choice(keys)
        o = rng.choice(["hash", "hash", "hash", "put", "put", "find", "find", "erase", "same", "all"] if h else ["same"])
        op = {"ev": o, "t": x, "how": how(rng)}
        if o == "same":
            op["u"] = rng.choice([x, rng.choice(keys), near(rng, t, x)])
        if o == "put":
            op["v"] = rng.randrange(5)
        if o == "all":
            op = {"ev": "all"}
        if t == ("uid",):
            op["std"] = std
        out.append(op)
    if t == ("uid",):
        out += [{"ev": "gen", "n": n, "anew": a} for n, a in ((1, False), (5, False), (5, True), (20, False), (300, True))]
    return {"shape": i, "ops": out}
