"""Store shapes: type trees, their C++ text, the paths through them, and terms of a type.

A type is a tuple: ("int",) ("str",) ("pt",) ("box",) ("trio",) ("rec", T, U) ("pair", T, U)
("map", T) ("nmap", T) ("opt", T) ("unr", T) ("var", T) ("ref", T) ("alias", T)
("comp", i, V, S) ("ctx", T)."""
import random

INT, STR, PT, BOX, TRIO = ("int",), ("str",), ("pt",), ("box",), ("trio",)
MEMBERS = {"pt": [("a", STR), ("b", INT)], "box": [("p", ("opt", PT)), ("m", ("map", INT)), ("s", STR)],
           "trio": [("int", INT), ("str", STR), ("pt", PT)]}
KEYS = {"trio": {"int": "hana::type_c<Int>", "str": "hana::type_c<Str>", "pt": "hana::type_c<Pt>"},
        "pair": {"first": "hana::first", "second": "hana::second"}}
SKEYS, NKEYS = ["x", "y", "zz", ""], ["0", "7", "-1"]


def members(t):
    if t[0] in MEMBERS:
        return MEMBERS[t[0]]
    if t[0] == "rec":
        return [("a", t[1]), ("b", t[2])]
    if t[0] == "pair":
        return [("first", t[1]), ("second", t[2])]
    return None


def cpp(t):
    k = t[0]
    if len(t) == 1:
        return k.capitalize()
    if k == "comp":
        return "Comp<%d, %s, %s>" % (t[1], cpp(t[2]), cpp(t[3]))
    if k == "ctx":
        return "nbdl::context_store_t<%s>" % cpp(t[1])
    name = {"nmap": "NMap"}.get(k, k.capitalize())
    return "%s<%s>" % (name, ", ".join(cpp(x) for x in t[1:]))


def alts(t):
    return {"opt": [("none", "nothing")], "unr": [("none", "unresolved")],
            "var": [("none", "unresolved"), STR]}[t[0]] + [t[1]]


S, N = "skey", "nkey"


def paths(t, plain=True):
    """all typed paths: lists of (C++ key expression or a map's key kind, text); with: only reads values"""
    k = t[0]
    if k in ("int", "str"):
        return [([], plain)]
    m = members(t)
    if m:
        out = [([], plain)]
        for name, mt in m:
            key = KEYS.get(k, {}).get(name, '"%s"_s' % name)
            out += [([(key, name)] + p, pl) for p, pl in paths(mt, plain)]
        return out
    if k in ("map", "nmap"):
        key = (S if k == "map" else N, None)
        return [([], False)] + [([key] + p, False) for p, _ in paths(t[1], False)]
    if k in ("opt", "unr", "var", "ref"):
        return [(p, False) for p, _ in paths(t[1], False)]
    if k == "alias":
        return [(p, pl and plain) for p, pl in paths(t[1], plain)]
    if k == "comp":
        own = ("own<%d>{}" % t[1], "own%d" % t[1])
        out = [([], False)] + [([own] + p, False) for p, _ in paths(t[2], False)]
        return out + [(p, False) for p, _ in paths(t[3], False) if p and p[0] != own]
    if k == "ctx":
        return [([], False)] + [([('"k"_s', "k")] + p, False) for p, _ in paths(t[1], False)]
    raise ValueError(t)


def assignable(t):
    return t[0] not in ("ctx", "alias") and all(assignable(x) for x in t[1:] if isinstance(x, tuple))


def acts(t):
    """(keys, type of the part that is replaced)"""
    k = t[0]
    if k == "comp":
        out = [([t[1]] + ks, v) for ks, v in acts(t[2])]
        return out + [(ks, v) for ks, v in acts(t[3]) if not (ks and ks[0] == t[1])]
    if k == "ref":
        return acts(t[1])
    return [([], t)] if assignable(t) else []


def action(ks, value):
    for i in reversed(ks):
        value = "nbdl::store_composite_action(own<%d>{}, %s)" % (i, value)
    return value


def bindvar(path):
    out = []
    for i, (key, _) in enumerate(path):
        out.append("%s(op, %d)" % (key, i) if key in (S, N) else key)
    return "hana::make_tuple(%s)" % ", ".join(out)


class Shape:
    def __init__(self, t, e=PT):
        self.t, self.e = t, e
        self.paths = paths(t)
        self.itpaths = [[("own<9>{}", "it")] + p for p, _ in paths(e)] + [p for p, _ in paths(t) if p]
        self.acts = acts(t)

    def source(self, i):
        o = ["struct G%d {" % i]
        o.append("  template <typename T, typename F> static void at(T&, int n, J const& op, F f) { switch (n) {")
        for n, (p, plain) in enumerate(self.paths):
            o.append("    case %d: return f(std::bool_constant<%s>{}, %s);" % (n, "true" if plain else "false", bindvar(p)))
        o.append("    default: ::_exit(13); } }")
        o.append("  template <typename T, typename F> static void at_it(T&, int n, J const& op, F f) { switch (n) {")
        for n, p in enumerate(self.itpaths):
            o.append("    case %d: return f(%s);" % (n, bindvar(p)))
        o.append("    default: ::_exit(13); } }")
        o.append("  template <typename T> static void act(T& s, int n, J const& op) { switch (n) {")
        for n, (ks, v) in enumerate(self.acts):
            o.append("    case %d: if (++turn & 1) nbdl::apply_action(s, %s);" % (
                n, action(ks, "As<%s>::make(op[\"v\"])" % cpp(v))))
            if v[0] not in ("opt", "unr", "var"):
                o.append("      else nbdl::apply_action(s, %s);" % action(
                    ks, "[&](%s& x) { x = As<%s>::make(op[\"v\"]); }" % (cpp(v), cpp(v))))
            else:
                o.append("      else { auto v = As<%s>::make(op[\"v\"]); nbdl::apply_action(s, %s); }" % (cpp(v), action(ks, "v")))
            o.append("      return;")
        o.append("    default: ::_exit(13); } }")
        base = [v for ks, v in self.acts if ks == []]
        o.append("  template <typename I> static void base(I& it, J const& op) { %s }" % (
            "nbdl::apply_action(it, As<%s>::make(op[\"v\"]));" % cpp(base[0]) if base else "::_exit(13);"))
        el = [v for ks, v in acts(self.e) if ks == []]
        o.append("  template <typename I> static void el(I& it, J const& op) { %s }" % (
            "using V = %s; nbdl::apply_action(it, nbdl::store_iterator_action<V>{As<V>::make(op[\"v\"])});" % cpp(el[0]) if el else "::_exit(13);"))
        o.append("};")
        o.append("static void shape_%d(J const& ops) { episode<%s, %s, G%d>(ops); }" % (i, cpp(self.t), cpp(self.e), i))
        return "\n".join(o)


def source(shapes):
    o = ['#include "stores.hpp"']
    o += [s.source(i) for i, s in enumerate(shapes)]
    o.append("int main() { return main_loop([](J const& ep) { switch (ep[\"shape\"].asInt()) {")
    o += ["  case %d: return shape_%d(ep[\"ops\"]);" % (i, i) for i in range(len(shapes))]
    o.append("  default: ::_exit(13); } }); }")
    return "\n".join(o) + "\n"


# ------------------------------------------------------------------ terms

def node(k, s="", c=()):
    return {"k": k, "s": s, "c": [list(x) for x in c]}


def term(rng, t, deep=False):
    k = t[0]
    if k == "int":
        return node("int", str(rng.choice([0, 1, -5, 42, 2147483647, rng.randint(-999, 999)])))
    if k == "str":
        return node("str", rng.choice(["", "a", "x", "q" * 40, "v%d" % rng.randint(0, 99)]))
    if k == "none":
        return node("none", t[1])
    m = members(t)
    if m:
        return node("rec", k if k in ("pt", "box", "bag") else "", [(n, term(rng, x)) for n, x in m])
    if k in ("map", "nmap"):
        ks = rng.sample(SKEYS if k == "map" else NKEYS, rng.choice([0, 1, 2, 3]))
        return node("map", "", [(n, term(rng, t[1])) for n in sorted(ks)])
    if k == "vec":
        return node("list", "", [("", term(rng, t[1])) for _ in range(rng.choice([0, 1, 1, 2, 3]))])
    if k in ("opt", "unr", "var"):
        a = alts(t)
        i = rng.choice([0] + [len(a) - 1] * 3 + list(range(len(a))))
        return node("var", str(i), [("", term(rng, a[i]))])
    if k in ("ref", "alias", "ctx"):
        return node(k, "", [("", term(rng, t[1]))])
    if k == "comp":
        own = "own%d" % t[1]
        return node("comp", own, [(own, term(rng, t[2])), ("", term(rng, t[3]))])
    raise ValueError(t)


def text(rng, path):
    return [rng.choice(SKEYS) if key == S else rng.choice(NKEYS) if key == N else s for key, s in path]


def reset(t, es):
    return {"ev": "reset", "t": t, "es": es}


def episode(rng, shapes, i, k):
    s = shapes[i]
    ops = [reset(term(rng, s.t), [term(rng, s.e) for _ in range(rng.choice([0, 1, 2, 4]))])]
    ne = len(ops[0]["es"])
    for _ in range(k):
        o = rng.choice(["look"] * 5 + ["put"] * 3 + ["act"] * 2 + ["walk", "walk", "actat", "actbase"])
        op = {"ev": o}
        if o in ("look", "put"):
            op["n"] = rng.randrange(len(s.paths))
            op["p"] = text(rng, s.paths[op["n"]][0])
            if o == "put":
                op["v"] = term(rng, rng.choice([INT, STR]))
        elif o == "act":
            if not s.acts:
                continue
            op["n"] = rng.randrange(len(s.acts))
            op["ks"] = ["own%d" % x for x in s.acts[op["n"]][0]]
            op["v"] = term(rng, s.acts[op["n"]][1])
        elif o == "walk":
            op["n"] = rng.randrange(len(s.itpaths))
            op["p"] = text(rng, s.itpaths[op["n"]])
        else:
            to = [v for ks, v in (s.acts if o == "actbase" else acts(s.e)) if ks == []]
            if not ne or not to:
                continue
            op["i"] = rng.randint(1, ne)
            op["v"] = term(rng, to[0])
        ops.append(op)
    return {"shape": i, "ops": ops}


def structures(t):
    """how many structures LookupMC's Terms has for a type"""
    k = t[0]
    if k in ("int", "str", "pt", "trio"):
        return 1
    if k == "bag":
        return 3
    if k == "box":
        return 6
    if k in ("map", "nmap"):
        n = structures(t[1])
        return 1 + n + n * n
    if k == "vec":
        n = structures(t[1])
        return 1 + n + n * n
    n = 1
    for x in t[1:]:
        if isinstance(x, tuple):
            n *= structures(x)
    return n + {"opt": 1, "unr": 1, "var": 2}.get(k, 0)


def distinct(t, n):
    """the leaves of a structure become different from each other"""
    n[0] += 1
    if t["k"] == "int":
        return node("int", str(n[0]))
    if t["k"] == "str":
        return node("str", "s%d" % n[0])
    return node(t["k"], t["s"], [(a, distinct(x, n)) for a, x in t["c"]])


def everything(rng, shapes, i, t):
    """a structure, looked at and changed along every path"""
    s, n = shapes[i], [0]
    ops = [reset(distinct(t, n), [term(rng, s.e) for _ in range(rng.choice([0, 1, 3]))])]
    for k, (p, _) in enumerate(s.paths):
        ops += [{"ev": "look", "n": k, "p": text(rng, p)} for _ in range(4)]
        ops.append({"ev": "put", "n": k, "p": text(rng, p), "v": term(rng, rng.choice([INT, STR]))})
    for k, p in enumerate(s.itpaths):
        ops.append({"ev": "walk", "n": k, "p": text(rng, p)})
    for k, (ks, v) in enumerate(s.acts):
        ops.append({"ev": "act", "n": k, "ks": ["own%d" % x for x in ks], "v": term(rng, v)})
    tail = ops[1:]
    rng.shuffle(tail)
    return {"shape": i, "ops": ops[:1] + tail[:120]}


REC, PAIR = (lambda a, b: ("rec", a, b)), (lambda a, b: ("pair", a, b))
MAP, NMAP, OPT, UNR, VAR, REF, AL, CTX = [(lambda t, k=k: (k, t)) for k in ("map", "nmap", "opt", "unr", "var", "ref", "alias", "ctx")]
COMP = lambda i, v, s: ("comp", i, v, s)

FIXED = [
    Shape(BOX, BOX), Shape(TRIO, INT), Shape(REC(PAIR(INT, STR), PT), OPT(PT)), Shape(MAP(INT), STR),
    Shape(MAP(PT), MAP(INT)), Shape(MAP(MAP(STR)), TRIO), Shape(NMAP(OPT(PT)), VAR(PT)), Shape(MAP(VAR(REC(INT, PT))), INT),
    Shape(OPT(REC(OPT(INT), UNR(STR))), PT), Shape(UNR(OPT(VAR(INT))), OPT(INT)), Shape(REC(VAR(PT), OPT(MAP(INT))), BOX),
    Shape(REF(PT), REF(INT)), Shape(REC(REF(PT), REF(INT)), ("alias", PT)), Shape(REF(MAP(REF(PT))), REF(PT)),
    Shape(AL(PT), PT), Shape(AL(MAP(INT)), AL(MAP(INT))), Shape(REC(AL(PT), AL(OPT(PT))), PT), Shape(AL(AL(REC(INT, STR))), INT),
    Shape(CTX(PT), PT), Shape(CTX(OPT(PT)), PT), Shape(CTX(INT), CTX(PT)), Shape(CTX(PAIR(INT, OPT(STR))), STR),
    Shape(COMP(1, INT, PT), PT), Shape(COMP(1, OPT(INT), COMP(2, PT, MAP(INT))), COMP(3, INT, PT)),
    Shape(COMP(1, INT, COMP(1, STR, REC(INT, INT))), PT), Shape(COMP(1, REF(STR), COMP(2, REF(OPT(PT)), REF(PT))), STR),
    Shape(COMP(1, COMP(2, INT, PT), COMP(2, STR, PT)), PT), Shape(COMP(1, MAP(OPT(INT)), OPT(PT)), OPT(PT)),
    Shape(REC(COMP(1, INT, PT), COMP(2, PT, TRIO)), PT), Shape(MAP(COMP(1, STR, MAP(INT))), PT), Shape(OPT(COMP(1, INT, PT)), VAR(PT)),
    Shape(COMP(1, INT, REF(COMP(2, INT, COMP(3, INT, PT)))), PT), Shape(COMP(1, PT, AL(PT)), PT), Shape(COMP(1, VAR(PT), VAR(PT)), PT),
]


def rand_type(rng, d):
    if d == 0:
        return rng.choice([INT, STR, PT])
    k = rng.choice(["rec", "pair", "map", "nmap", "opt", "unr", "var", "ref", "alias", "comp", "comp", "pt", "box", "trio"])
    if k in ("pt", "box", "trio"):
        return (k,)
    if k in ("rec", "pair"):
        return (k, rand_type(rng, d - 1), rand_type(rng, d - 1))
    if k == "comp":
        return COMP(rng.randint(1, 3), rand_type(rng, d - 1), rng.choice([PT, BOX, COMP(4, rand_type(rng, d - 1), PT), MAP(rand_type(rng, d - 1))]))
    x = rand_type(rng, d - 1)
    return (k, PT if k == "var" and x == STR else x)


def random_shapes(seed, n):
    rng, out = random.Random("stores/%s" % seed), []
    while len(out) < n:
        t = rand_type(rng, rng.choice([2, 3]))
        if not any(p for p, _ in paths(t)) or len(paths(t)) > 24:
            continue
        out.append(Shape(t, rng.choice([PT, INT, OPT(PT)])))
    return out
