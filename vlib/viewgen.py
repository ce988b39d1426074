"""Views over store shapes: generated with their types, as C++ text and as records (see spec/Dom.tla)."""
import random
from vlib import storegen as sg
from vlib.storegen import INT, STR, PT, BOX, TRIO, MAP, NMAP, OPT, UNR, VAR, REC, PAIR, COMP
from vlib.branchgen import Gen, predicate, d, CPP, TY, PREDS, LITS, ends, tweak

VEC, BAG = lambda t: ("vec", t), ("bag",)
sg.MEMBERS["bag"] = [("s", STR), ("v", VEC(PT))]
CPP["bag"] = "Bag"
MARKUP = [("plain", [("", "plain", [])]), ("<b class=\\\"c d\\\">x</b>y", [("b", "", ["c", "d"], [("", "x", [])]), ("", "y", [])]),
          ("<i>a &amp; b</i>", [("i", "", [], [("", "a & b", [])])]), ("", [])]
CLASSES, TAGS = ["on", "big", "low", "a"], ["div", "span", "ul", "li", "p", "a", "form", "h1", "pre", "textarea", "section"]
ALIAS = {"textarea": "text_area"}


def q(s):
    return '"%s"_s' % s


def markup(x):
    tag, text = x[0], x[1]
    cls, kids = (x[2], x[3]) if len(x) > 3 else ([], [])
    return {"tag": tag, "text": text, "attrs": [], "cls": cls, "kids": [markup(k) for k in kids], "hidden": False}


def lit(s):
    return q(s), d("lit", s)


class ViewGen(Gen):
    def __init__(self, rng, t, state):
        super().__init__(rng, t)
        self.state = state

    def steps(self, t):
        if t[0] != "each":
            return super().steps(t)
        _, n, item, outer = t
        if self.rng.random() < .55:
            r = self.steps(item)
            if r is None:
                return None
            return [("decltype(x%d){}" % n, d("lit", "it%d" % n))] + r[0], r[1], r[2]
        r = self.steps(outer)
        return r if r and r[0] else None

    def walk(self, t):
        for _ in range(60):
            r = self.steps(t)
            if r:
                return r
        raise ValueError(t)

    def path_of(self, kinds):
        """a path that finds only values of these kinds"""
        for _ in range(40):
            cpp, nodes, found = self.path()
            if found <= kinds and (found or self.rng.random() < .2):
                return cpp, nodes
            if self.rng.random() < .5:
                keys, t, lost = self.walk(self.t)
                m = [x for x in sorted(kinds) if x in ends(t)]
                if m:
                    m = self.rng.choice(m)
                    cpp, node = self.node(keys, m)
                    return cpp, [node]
        return None

    def text(self, deep=1):
        rng = self.rng
        if deep and rng.random() < .3:
            ps = [self.text(deep - 1) for _ in range(rng.choice([1, 2, 2, 3]))]
            return "us::concat(%s)" % ", ".join(c for c, _ in ps), d("concat", ps=[x for _, x in ps])
        p = self.path_of({"int", "str"}) if rng.random() < .7 else None
        if p:
            return p[0], d("path", path=p[1])
        if rng.random() < .3:
            n = rng.choice(["3", "10", "-4"])
            return "hana::int_c<%s>" % n, d("lit", n)
        return lit(rng.choice(LITS))

    def word(self, deep=2):
        rng = self.rng
        o = rng.choice(["lit", "path", "path", "path", "concat", "branch", "branch"] if deep else ["lit", "path"])
        if o == "branch":
            return self.cases(lambda: self.word(deep - 1), lambda p, nodes: (p, d("path", path=nodes)), {"str"},
                              lambda x: x, allow_none=False)
        if o == "concat":
            ps = [self.word(deep - 1) for _ in range(rng.choice([1, 2, 3]))]
            return "us::concat(%s)" % ", ".join(c for c, _ in ps), d("concat", ps=[x for _, x in ps])
        p = self.path_of({"str"}) if o == "path" else None
        return (p[0], d("path", path=p[1])) if p else lit(rng.choice(LITS))

    def cases(self, body, withpath, kinds, wrap, allow_none):
        """match or match_if"""
        rng = self.rng
        cpp, nodes, found = self.headget()
        last = {"m": "", "ks": nodes[-1]["ks"]}
        k = rng.choice(["match", "cond"])
        ws, cs = [], []
        if k == "match":
            names = sorted(x for x in found if x != "?")
            rng.shuffle(names)
            names = names[:rng.randint(0, len(names))] + rng.sample(["int", "str", "pt", "nothing"], rng.choice([0, 0, 1]))
            rng.shuffle(names)
            names = list(dict.fromkeys(names))
            if not found or not (found <= set(names)) or "?" in found or rng.random() < .2:
                names.append("")
            for m in names:
                w = CPP.get(m, "void")
                if allow_none and rng.random() < .15:
                    ws.append((m, None))
                    cs.append("us::when<%s>()" % w)
                elif m in kinds and rng.random() < .6:
                    c, x = withpath("p", nodes[:-1] + [dict(last, m=m)])
                    ws.append((m, x))
                    cs.append("us::when<%s>([](auto p) { return %s; })" % (w, c))
                elif m in ("pt", "box") and rng.random() < .6:
                    name = {"pt": "a", "box": "s"}[m]
                    c, x = withpath("us::get(p, %s)" % q(name), nodes[:-1] + [dict(last, m=m), {"m": "", "ks": [d("lit", name)]}])
                    ws.append((m, x))
                    cs.append("us::when<%s>([](auto p) { return %s; })" % (w, c))
                else:
                    c, x = body()
                    ws.append((m, x))
                    cs.append("us::when<%s>(%s)" % (w, c))
            return "us::match(%s)" % ", ".join([cpp] + cs), d("match", path=nodes, ws=[(m, wrap(x)) for m, x in ws])
        for _ in range(rng.randint(0, 3)):
            f = rng.choice(PREDS)
            if found and found <= kinds and rng.random() < .5:
                c, x = withpath("p", nodes)
                cs.append("us::cond(%s, [](auto p) { return %s; })" % (predicate(f, len(ws), found), c))
            else:
                c, x = body()
                cs.append("us::cond(%s, %s)" % (predicate(f, len(ws), found), c))
            ws.append((f, x))
        c, x = body()
        ws.append(("always", x))
        cs.append(rng.choice(["us::otherwise(%s)", "us::cond(p_always{}, %s)"]) % c)
        return "us::match_if(%s)" % ", ".join([cpp] + cs), d("cond", path=nodes, ws=[(m, wrap(x)) for m, x in ws])

    # ---------------------------------------------------------- views
    def node_view(self, deep):
        """one that shows nodes"""
        rng = self.rng
        o = rng.choice(["elem", "elem", "elem", "text", "text", "branch", "branch", "each", "each"] if deep else ["text", "text", "elem"])
        if o == "text":
            c, x = self.text()
            return "html::text_node(%s)" % c, {"k": "text", "ps": [x]}
        if o == "elem":
            return self.elem(deep - 1)
        if o == "branch":
            return self.cases(lambda: self.node_view(deep - 1), lambda p, nodes: ("html::text_node(%s)" % p, {"k": "text", "ps": [d("path", path=nodes)]}),
                              {"int", "str"}, lambda x: [x] if x else [], True)
        r = self.each(deep)
        return r or self.elem(deep - 1)

    def each(self, deep):
        rng = self.rng
        found = []

        def lists(t, keys, plain):
            k = t[0]
            if k == "vec":
                if plain:
                    found.append((keys, t, None))
            elif k == "each":
                lists(t[2], [("decltype(x%d){}" % t[1], d("lit", "it%d" % t[1]))], False)
                lists(t[3], [], False)
            elif k in ("opt", "unr", "var"):
                lists(t[1], keys, False)
            elif k == "comp":
                lists(t[2], keys + [("own<%d>{}" % t[1], d("lit", "own%d" % t[1]))], False)
                lists(t[3], keys, False)
            else:
                if k == "bag" and keys:
                    found.append((keys, VEC(PT), "bag"))
                for name, mt in sg.members(t) or []:
                    lists(mt, keys + [(sg.KEYS.get(k, {}).get(name, q(name)), d("lit", name))], plain)
        lists(self.t, [], True)
        found = [x for x in found if x[0]]
        if not found:
            return None
        keys, t, m = rng.choice(found)
        cpp, node = self.node(keys, m or "")
        nodes = [node]
        if m:
            cpp = "us::get(%s, \"v\"_s)" % cpp
            nodes.append({"m": "", "ks": [d("lit", "v")]})
        n = self.state["x"] = self.state.get("x", 0) + 1
        g = ViewGen(rng, ("each", n, t[1], self.t), self.state)
        c, x = g.node_view(deep - 1)
        return "us::for_each(%s, [](auto x%d) { return %s; })" % (cpp, n, c), {"k": "each", "path": nodes, "key": "it%d" % n, "vs": [x]}

    def elem(self, deep):
        rng, st = self.rng, self.state
        out = []
        names = rng.sample(["id", "title", "href", "data-n"], rng.choice([0, 0, 1, 2]))
        for name in names:
            c, x = self.word()
            cpp = "html::attr_href(%s)" % c if name == "href" and rng.random() < .5 else "html::attribute(%s, %s)" % (q(name), c)
            out.append((cpp, {"k": "attr", "s": name, "ps": [x]}))
        if rng.random() < .2:
            c, x = self.word()
            name = rng.choice(["value", "data"])
            out.append(("html::set_property(%s, %s)" % (q(name), c), {"k": "prop", "s": name, "ps": [x]}))
        classes = []
        if rng.random() < .35:
            ps = []
            for i in range(rng.choice([1, 1, 2, 3])):
                if i and rng.random() < .8:
                    ps.append(lit(" "))
                ps.append(self.word(1))
            c = ps[0][0] if len(ps) == 1 else "us::concat(%s)" % ", ".join(c for c, _ in ps)
            classes.append((rng.choice(["html::attr_class(%s)", 'html::attribute("class"_s, %s)']) % c, {"k": "attr", "s": "class", "ps": [x for _, x in ps]}))
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            o, s = rng.choice(["attrif", "classif", "classwhen"]), rng.choice(CLASSES)
            cpp, nodes, found = self.path()
            f = rng.choice([p for p in PREDS if p != "never"])
            if o == "attrif":
                s = rng.choice(["disabled", "checked"])
                out.append(("html::add_attribute_if(%s, %s, p_%s{})" % (q(s), cpp, f), {"k": o, "s": s, "path": nodes, "f": f}))
            elif o == "classif":
                classes.append(("html::add_class_if(%s, %s, p_%s{})" % (q(s), cpp, f), {"k": o, "s": s, "path": nodes, "f": f}))
            else:
                m = rng.choice([x for x in sorted(found) if x != "?"] + ["str"])
                classes.append(("html::add_class_when<%s>(%s, %s)" % (CPP[m], q(s), cpp), {"k": o, "s": s, "path": nodes, "m": m}))
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            type_ = rng.choice(st["types"])
            sends = rng.choice([0, 0, 0, 1, 1, 2])
            c, x = self.handler(sends)
            cpp = {"click": "html::on_click(%s)", "keyup": "html::on_key_up(%s)", "keydown": "html::on_key_down(%s)"}.get(
                type_, "html::event_attribute(%s, %%s)" % q(type_)) % c
            out.append((cpp, dict(x, k="on", s=type_)))
        rng.shuffle(out)
        if "click" not in st["types"] and rng.random() < .25:
            c, x = self.handler(rng.choice([0, 1]))
            out.append(("html::hidden_file_input(%s)" % c, dict(x, k="file")))
        out += classes
        if not out and rng.random() < .15:
            s, shown = rng.choice(MARKUP)
            out.append(('html::unsafe_set_inner_html("%s"_s)' % s, {"k": "html", "shown": [markup(x) for x in shown]}))
        else:
            for _ in range(rng.choice([0, 1, 2, 2, 3]) if deep > 0 else rng.choice([0, 1])):
                out.append(self.node_view(max(deep, 0)))
        tag = rng.choice(TAGS)
        fn = {"section": 'html::element("section"_s, %s)', "textarea": "html::text_area(%s)"}.get(tag, "html::%s(%%s)" % tag)
        cpp = fn % ", ".join(c for c, _ in out)
        if tag == "section" and not out:
            cpp = 'html::element("section"_s)'
        st["uid"] = st.get("uid", 0) + 1
        return cpp, {"k": "elem", "s": tag, "uid": st["uid"], "vs": [x for _, x in out]}

    def handler(self, sends):
        st = self.state
        st["id"] = st.get("id", 0) + 1
        ps = []
        for _ in range(self.rng.choice([0, 1, 1, 2, 3])):
            ps.append(("us::get(html::event_data)", d("path", path=[{"m": "", "ks": [d("lit", "event")]}])) if self.rng.random() < .25 else self.param(1))
        return ", ".join(["h<%d, %d>{}" % (st["id"], sends)] + [c for c, _ in ps]), {"id": st["id"], "sends": sends, "ps": [x for _, x in ps]}


SHAPES = [
    REC(STR, VEC(PT)), REC(OPT(STR), VEC(OPT(PT))), REC(VEC(REC(STR, VEC(INT))), VAR(PT)), REC(OPT(BAG), INT),
    REC(OPT(PT), MAP(INT)), BOX, COMP(1, STR, REC(BAG, OPT(INT))), REC(VAR(PT), PAIR(INT, STR)), REC(VEC(BAG), STR),
    REC(VEC(VAR(INT)), REC(STR, OPT(STR))), REC(UNR(BOX), VEC(INT)), REC(VEC(PT), VEC(BOX)), REC(PAIR(STR, INT), NMAP(STR)),
]


class View:
    def __init__(self, rng, t):
        self.t = t
        while True:
            types = rng.choice([["click", "keyup"], ["click", "submit"], ["keydown", "change"], ["click"]])
            self.types = types + (["change"] if "click" not in types else [])
            self.state = {"types": types}
            g = ViewGen(rng, t, self.state)
            r = g.elem(3) if rng.random() < .7 else g.node_view(3)
            if r:
                break
        self.cpp, self.view = r

    def source(self, i):
        return ("static constexpr auto spec_%d = [] { return %s; };\n"
                "static void view_%d(J const& ops) { views<%s, spec_%d>(ops); }" % (i, self.cpp, i, sg.cpp(self.t), i))


def source(vs):
    o = ['#include "views.hpp"'] + [v.source(i) for i, v in enumerate(vs)]
    o.append("int main() { return page_main([](J const& ep) { switch (ep[\"shape\"].asInt()) {")
    o += ["  case %d: return view_%d(ep[\"ops\"]);" % (i, i) for i in range(len(vs))]
    o.append("  default: ::_exit(13); } }); }")
    return "\n".join(o) + "\n"


def some(seed, n):
    rng = random.Random("views/%s" % seed)
    return [View(rng, SHAPES[i % len(SHAPES)]) for i in range(n)]


def term(rng, t):
    return tweak(rng, sg.term(rng, t))


def fire(rng, v):
    return {"ev": "fire", "type": rng.choice(v.types), "i": rng.randrange(40), "next": [term(rng, v.t), term(rng, v.t)]}


def episode(rng, v, i, k):
    ops = [{"ev": "reset", "t": term(rng, v.t), "view": v.view}]
    for _ in range(k):
        ops.append({"ev": "set", "t": term(rng, v.t)} if rng.random() < .5 else fire(rng, v))
    if rng.random() < .4:
        ops += [{"ev": "gone"}] + [fire(rng, v) for _ in range(2)]
    return {"shape": i, "ops": ops}


def tour(rng, v, i, ts):
    """through these structures, in this order"""
    ops = [{"ev": "reset", "t": tweak(rng, ts[0]), "view": v.view}]
    for t in ts[1:]:
        ops.append({"ev": "set", "t": tweak(rng, t)})
        if rng.random() < .3:
            ops.append(fire(rng, v))
    return {"shape": i, "ops": ops}
