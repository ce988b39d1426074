"""Descriptions over store shapes: generated with their types, as C++ text and as terms."""
import random
from vlib import storegen as sg
from vlib.storegen import INT, STR, PT, BOX, TRIO, MAP, NMAP, OPT, UNR, VAR, REF, AL, CTX, REC, PAIR, COMP

CPP = {"int": "Int", "str": "Str", "pt": "Pt", "box": "Box", "nothing": "nbdl::nothing",
       "unresolved": "nbdl::unresolved", "not_in_set": "nbdl::not_in_set"}
TY = {"int": INT, "str": STR, "pt": PT, "box": BOX}
LITS = ["a", "lit", "zz", "none"]
PREDS = ["str", "int", "none", "zero", "odd", "blank", "x", "never"]


def d(k, s="", path=(), ps=(), ws=()):
    return {"k": k, "s": s, "path": list(path), "ps": list(ps), "ws": [list(w) for w in ws]}


def ends(t):
    """what may be found: type names, and the types that can be looked into"""
    k = t[0]
    if k in ("opt", "unr", "var"):
        out = set()
        for a in sg.alts(t):
            out |= {a[1]} if a[0] == "none" else ends(a)
        return out
    if k in ("ref", "alias"):
        return ends(t[1])
    return {k if k in CPP else "?"}


class Gen:
    def __init__(self, rng, t):
        self.rng, self.t, self.depth = rng, t, 0

    def steps(self, t):
        """a random walk: the keys, and the type reached or None when leftover keys are in doubt"""
        rng, keys = self.rng, []
        lost = set()            # what else may be shown along the way
        while True:
            k = t[0]
            if k in ("ref", "alias"):
                t = t[1]
                continue
            if k in ("opt", "unr"):
                inner = t[1]
                if rng.random() < .25:
                    break
                lost |= {"nothing" if k == "opt" else "unresolved"}
                t = inner
                continue
            if k == "var":
                break                       # its plain alternative has no parts
            if k in ("int", "str", "vec"):
                break
            if keys and rng.random() < .3:
                break
            m = sg.members(t)
            if m:
                name, mt = rng.choice(m)
                keys.append((sg.KEYS.get(k, {}).get(name, '"%s"_s' % name), d("lit", name)))
                t = mt
            elif k == "map":
                keys.append(self.dynamic(STR))
                lost |= {"not_in_set"}
                t = t[1]
            elif k == "nmap":
                n = rng.choice(["0", "7"])
                keys.append(self.dynamic(INT) if rng.random() < .5 else ("hana::int_c<%s>" % n, d("lit", n)))
                lost |= {"not_in_set"}
                t = t[1]
            elif k == "comp":
                if rng.random() < .5:
                    keys.append(("own<%d>{}" % t[1], d("lit", "own%d" % t[1])))
                    t = t[2]
                else:
                    own = t[1]
                    t = t[3]
                    while t[0] in ("ref", "alias", "opt", "unr"):
                        if t[0] in ("opt", "unr"):
                            lost |= {"nothing" if t[0] == "opt" else "unresolved"}
                        t = t[1]
                    if t[0] == "comp" and t[1] == own:
                        t = t[3]
                    if t[0] in ("int", "str", "var", "comp"):
                        return None
                    m = sg.members(t)
                    if not m:
                        return None
                    name, mt = rng.choice(m)
                    keys.append((sg.KEYS.get(t[0], {}).get(name, '"%s"_s' % name), d("lit", name)))
                    t = mt
            else:
                raise ValueError(t)
        return keys, t, lost

    def walk(self, t):
        for _ in range(40):
            r = self.steps(t)
            if r:
                return r
        return [], t, set()

    def dynamic(self, want):
        """a key that is in the store"""
        self.depth += 1
        try:
            if self.depth < 3:
                for _ in range(30):
                    keys, t, lost = self.walk(self.t)
                    if t == want and not lost and keys:
                        cpp, node = self.node(keys, "")
                        if self.rng.random() < .3:
                            f = "key" if want == STR else "num"
                            return ("us::apply(f_%s{})(%s)" % (f, cpp), d("apply", f, ps=[d("path", path=[node])]))
                        return "us::key_at(%s)" % cpp, d("at", path=[node])
                    if want[0] in ends(t) and keys:
                        cpp, node = self.node(keys, want[0])
                        return "us::key_at(%s)" % cpp, d("at", path=[node])
        finally:
            self.depth -= 1
        if want == INT:
            return "hana::int_c<7>", d("lit", "7")
        s = self.rng.choice(["x", "y"])
        return 'us::apply(f_key{})("%s"_s)' % s, d("apply", "key", ps=[d("lit", s)])

    def node(self, keys, m):
        cpp = "us::get(%s)" % ", ".join(k for k, _ in keys)
        node = {"m": m, "ks": [x for _, x in keys]}
        return ("us::match_when<%s>(%s)" % (CPP[m], cpp) if m else cpp), node

    def path(self, end=None, static=False):
        """(C++, nodes, names that may be found at the end)"""
        rng = self.rng
        if end is None and rng.random() < .3:
            r = self.join()
            if r:
                return r
        keys, t, lost = self.walk(self.t)
        found = ends(t) | lost
        if not keys:
            keys = []
        m = ""
        if rng.random() < .35:
            m = rng.choice(sorted(x for x in found if x != "?") * 4 + ["int", "str", "pt", "nothing"])
        cpp, node = self.node(keys, m)
        nodes, found = [node], ({m} & found or set()) if m else found
        while m in ("pt", "box") and rng.random() < .7:
            sub = Gen(rng, TY[m])
            sub.depth = 9
            keys, t, lost = sub.walk(TY[m])
            # keys that are in the store are taken from the store, not from what was matched
            if any(x["k"] == "at" for _, x in keys):
                break
            cpp = "us::get(%s)" % ", ".join([cpp] + [k for k, _ in keys])
            nodes.append({"m": "", "ks": [x for _, x in keys]})
            found = ends(t) | lost
            m = ""
            if rng.random() < .4:
                m = rng.choice(sorted(x for x in found if x != "?") + ["str"])
                if not keys:
                    pass
                cpp = "us::match_when<%s>(%s)" % (CPP[m], cpp)
                nodes[-1]["m"] = m
                found = {m}
        return cpp, nodes, found

    def join(self):
        """get(get(a), b): one node"""
        keys, t, lost = self.walk(self.t)
        if len(keys) < 2:
            return None
        cut = self.rng.randint(1, len(keys) - 1)
        cpp, node = self.node(keys, "")
        cpp = "us::get(us::get(%s), %s)" % (", ".join(k for k, _ in keys[:cut]), ", ".join(k for k, _ in keys[cut:]))
        return cpp, [node], ends(t) | lost

    def headget(self):
        """a path that can be matched: its last node names no type"""
        cpp, nodes, found = self.path()
        if nodes[-1]["m"]:
            cpp, nodes = "us::get(%s)" % cpp, nodes + [{"m": "", "ks": []}]
        return cpp, nodes, found

    def param(self, deep=2):
        rng = self.rng
        k = rng.choice(["lit", "path", "path", "path", "at"] + (["apply", "concat", "match", "match", "cond", "cond"] if deep else []))
        if k == "lit":
            if rng.random() < .3:
                n = rng.choice(["3", "10"])
                return "hana::int_c<%s>" % n, d("lit", n)
            s = rng.choice(LITS)
            return '"%s"_s' % s, d("lit", s)
        if k in ("path", "at"):
            cpp, nodes, _ = self.path()
            return (cpp if k == "path" else "us::key_at(%s)" % cpp), d(k, path=nodes)
        if k == "apply":
            f = rng.choice(["cat", "cat", "count", "last"])
            ps = [self.param(deep - 1) for _ in range(rng.choice([1, 1, 2, 3]))]
            return "us::apply(f_%s{})(%s)" % (f, ", ".join(c for c, _ in ps)), d("apply", f, ps=[x for _, x in ps])
        if k == "concat":
            ps = [self.param(deep - 1) for _ in range(rng.choice([1, 1, 2, 3]))]
            return "us::concat(%s)" % ", ".join(c for c, _ in ps), d("concat", ps=[x for _, x in ps])
        return self.branch(k, deep)

    def branch(self, k, deep=2):
        rng = self.rng
        cpp, nodes, found = self.headget()
        # matching needs a type it can name
        ws, cs = [], []
        last = {"m": "", "ks": nodes[-1]["ks"]}
        if k == "match":
            names = sorted(x for x in found if x != "?")
            rng.shuffle(names)
            names = names[:rng.randint(0, len(names))] + rng.sample(["int", "str", "pt", "nothing", "not_in_set"], rng.choice([0, 0, 1]))
            rng.shuffle(names)
            names = list(dict.fromkeys(names))
            if not found or not (found <= set(names)) or "?" in found or rng.random() < .2:
                names.insert(len(names) if rng.random() < .7 else rng.randint(0, len(names)), "")
            for m in names:
                if m and rng.random() < .35:
                    body = nodes[:-1] + [dict(last, m=m)]
                    if rng.random() < .5 and m in TY and m not in ("int", "str"):
                        key, name = {"pt": ('"b"_s', "b"), "box": ('"s"_s', "s")}[m]
                        ws.append((m, d("path", path=body + [{"m": "", "ks": [d("lit", name)]}])))
                        cs.append("us::when<%s>([](auto p) { return us::get(p, %s); })" % (CPP[m], key))
                    else:
                        ws.append((m, d("concat", ps=[d("lit", "got"), d("path", path=body)])))
                        cs.append('us::when<%s>([](auto p) { return us::concat("got"_s, p); })' % CPP[m])
                else:
                    c, x = self.param(deep - 1)
                    ws.append((m, x))
                    cs.append("us::when<%s>(%s)" % (CPP.get(m, "void"), c))
            return "us::match(%s)" % ", ".join([cpp] + cs), d("match", path=nodes, ws=ws)
        for _ in range(rng.randint(0, 4)):
            f = rng.choice(PREDS)
            if rng.random() < .3:
                ws.append((f, d("concat", ps=[d("path", path=nodes), d("lit", "p")])))
                cs.append('us::cond(%s, [](auto p) { return us::concat(p, "p"_s); })' % predicate(f, len(ws), found))
            else:
                c, x = self.param(deep - 1)
                ws.append((f, x))
                cs.append("us::cond(%s, %s)" % (predicate(f, len(ws), found), c))
        c, x = self.param(deep - 1)
        ws.append(("always", x))
        cs.append(rng.choice(["us::otherwise(%s)", "us::cond(p_always{}, %s)"]) % c)
        return "us::match_if(%s)" % ", ".join([cpp] + cs), d("cond", path=nodes, ws=ws)


def predicate(f, n, found):
    """of the application's own, or the library's"""
    own = "p_%s{}" % f
    if n % 3 == 0 or found - {"int", "str", "pt", "nothing"}:
        return own
    return {"x": 'us::equal("x"_s)', "zero": "us::equal(hana::int_c<0>)", "blank": 'us::equal(""_s)'}.get(f, own)


SHAPES = [
    REC(OPT(PT), MAP(INT)), REC(PAIR(STR, INT), NMAP(STR)), REC(VAR(PT), PAIR(INT, STR)), BOX, REC(UNR(BOX), OPT(STR)),
    COMP(1, STR, COMP(2, OPT(PT), PT)), REC(PT, MAP(OPT(PT))), TRIO, REC(OPT(INT), REC(OPT(STR), VAR(INT))),
    COMP(1, MAP(VAR(PT)), REC(STR, INT)), REC(MAP(MAP(INT)), PAIR(STR, STR)), REC(BOX, NMAP(OPT(STR))),
]


class Program:
    """a store type and descriptions over it"""

    def __init__(self, rng, t, n):
        self.t, self.ops = t, []
        g = Gen(rng, t)
        for _ in range(n):
            o = rng.choice(["path", "path", "params", "params", "params", "branch", "branch", "promise"])
            if o == "path":
                cpp, nodes, _ = g.path()
                names = rng.sample(sorted(CPP), 3)
                args = "".join(", named<%s>{\"%s\"}" % (CPP[x], x) for x in names)
                self.ops.append(("on_path(s, ev, %s%s)" % (cpp, args), {"ev": "path", "path": nodes}))
            elif o == "promise":
                cpp, nodes, found = g.path()
                if any(x["k"] != "lit" for nd in nodes for x in nd["ks"]):
                    continue
                self.ops.append(("on_promise(s, ev, %s)" % cpp, {"ev": "promise", "path": nodes}))
            elif o == "params":
                ps = [g.param() for _ in range(rng.choice([0, 1, 2, 3, 4]))]
                self.ops.append(("on_params(s, ev, mpdef::make_list(%s))" % ", ".join(c for c, _ in ps),
                                 {"ev": "params", "ds": [x for _, x in ps]}))
            else:
                cpp, x = g.branch(rng.choice(["match", "cond"]))
                self.ops.append(("on_branch(s, ev, %s)" % cpp, {"ev": "branch", "d": x}))

    def descriptions(self):
        out = []
        for _, o in self.ops:
            out += o.get("ds", []) + ([o["d"]] if "d" in o else []) + ([d("path", path=o["path"])] if "path" in o else [])
        return out

    def source(self, i):
        o = ["struct G%d { template <typename S> static void run(S& s, int n, J& ev) { switch (n) {" % i]
        o += ["  case %d: return %s;" % (n, cpp) for n, (cpp, _) in enumerate(self.ops)]
        o.append("  default: ::_exit(13); } } };")
        o.append("static void program_%d(J const& ops) { branches<%s, G%d>(ops); }" % (i, sg.cpp(self.t), i))
        return "\n".join(o)


def source(programs):
    o = ['#include "branches.hpp"']
    o += [p.source(i) for i, p in enumerate(programs)]
    o.append("int main() { return main_loop([](J const& ep) { switch (ep[\"shape\"].asInt()) {")
    o += ["  case %d: return program_%d(ep[\"ops\"]);" % (i, i) for i in range(len(programs))]
    o.append("  default: ::_exit(13); } }); }")
    return "\n".join(o) + "\n"


def programs(seed, rounds, n):
    rng = random.Random("branches/%s" % seed)
    return [Program(rng, t, n) for _ in range(rounds) for t in SHAPES]


def tweak(rng, y):
    """texts that are often keys of the maps"""
    if y["k"] == "str" and rng.random() < .6:
        return sg.node("str", rng.choice(["x", "y", ""]))
    if y["k"] == "int" and rng.random() < .6:
        return sg.node("int", rng.choice(["0", "7", "-1", "3", "-5"]))
    return dict(y, c=[[a, tweak(rng, b)] for a, b in y["c"]])


def term(rng, t):
    return tweak(rng, sg.term(rng, t))


def episode(rng, programs, i, k):
    p = programs[i]
    ops = [{"ev": "reset", "t": term(rng, p.t)}]
    for n in range(k):
        if rng.random() < .2:
            ops.append({"ev": "set", "t": term(rng, p.t)})
        j = rng.randrange(len(p.ops))
        ops.append(dict(p.ops[j][1], n=j))
    return {"shape": i, "ops": ops}


def everything(rng, programs, i, t):
    """all of a program, in a structure as it is and with other texts in it"""
    ops = []
    for ev, x in (("reset", t), ("set", tweak(rng, t))):
        ops.append({"ev": ev, "t": x})
        ops += [dict(o, n=j) for j, (_, o) in enumerate(programs[i].ops)]
    return {"shape": i, "ops": ops}
