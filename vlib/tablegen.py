"""Entity types for tables: their C++ text, values of them, and the statements made of them read again."""
import random, re

NAMES = ["a", "b", "c", "d", "v", "name", "val"]
OWNERS = ["s:me", "s:you", "s:someone with a rather long name"]


class Ent:
    def __init__(self, table, members):
        self.table, self.members = table, members           # (name, kind, ...)

    def of(self, kind):
        return [m for m in self.members if m[1] == kind]

    @property
    def vals(self):
        return [m for m in self.members if m[1] in ("Int", "Str", "NStr")]

    def shape(self):
        return {"table": self.table, "vals": [m[0] for m in self.vals], "kids": [[m[0], m[2].shape()] for m in self.of("kid")],
                "lists": [[m[0], m[2].shape()] for m in self.of("list")]}

    def leaves(self):
        return len(self.vals) + sum(m[2].leaves() for m in self.of("kid"))

    def source(self):
        o = ["struct %s { %s };" % (self.table, " ".join("%s %s;" % (
            m[1] if m in self.vals else m[2].table if m[1] == "kid" else "std::%s<%s>" % (m[3], m[2].table), m[0]) for m in self.members))]
        o.append("namespace nbdl { NBDL_ENTITY(%s, %s); }" % (self.table, ", ".join(m[0] for m in self.members)))
        part = {"kid": "kids", "list": "lists"}
        at = {"vals": 0, "kids": 0, "lists": 0}
        args = []
        for m in self.members:
            k = part.get(m[1], "vals")
            args.append("As<decltype(%s::%s)>::make(j[\"%s\"][%du][1])" % (self.table, m[0], k, at[k]))
            at[k] += 1
        o.append("template <> struct As<%s> { static %s make(J const& j) { return %s{%s}; } };" % (self.table, self.table, self.table, ", ".join(args)))
        return "\n".join(o)

    def node(self, rng, size=2):
        v = lambda k: "i:%d" % rng.randrange(-3, 1000) if k == "Int" else "s:" + rng.choice(["", "x", "moo", "a 'quoted' \"text\"", "long " * 9]) + str(rng.randrange(99))
        return {"table": self.table, "vals": [[m[0], v(m[1])] for m in self.vals],
                "kids": [[m[0], m[2].node(rng, size)] for m in self.of("kid")],
                "lists": [[m[0], [m[2].node(rng, size - 1) for _ in range(rng.randint(0, size) if size > 0 else 0)]] for m in self.of("list")]}


def count(n):
    return 1 + sum(count(k) for _, k in n["kids"]) + sum(count(x) for _, xs in n["lists"] for x in xs)


def family(seed):
    rng = random.Random("tables/%s" % seed)
    out = []
    for i in range(rng.randint(4, 5)):
        names = rng.sample(NAMES, 5)
        ms = [(names.pop(), rng.choice(["Int", "Str", "NStr", "Int"])) for _ in range(rng.choice([0, 1, 1, 2, 3]) if i > 1 else rng.choice([1, 2]))]
        lists = set()
        if out:
            for _ in range(rng.choice([0, 1, 1, 2]) if i else 0):
                if rng.random() < .65:
                    ms.append((names.pop(), "kid", rng.choice(out)))
                else:
                    e = rng.choice(out)
                    if e.table not in lists:        # rows of two such lists could not be told apart
                        lists.add(e.table)
                        ms.append((names.pop(), "list", e, rng.choice(["vector", "list", "deque"])))
        if not ms:
            ms = [(names.pop(), "Int")]
        rng.shuffle(ms)
        out.append(Ent("%s%d" % (rng.choice(["row", "t", "thing"]), i), ms))
    return out


def ways(e, depth=2):
    out = [([], [], e)]
    if depth:
        for m in e.of("kid"):
            out += [([m[0]] + w, ["member<decltype(&%s::%s), &%s::%s>" % (e.table, m[0], e.table, m[0])] + c, t) for w, c, t in ways(m[2], depth - 1)]
    return out


class Unit:
    def __init__(self, seed):
        self.ents = family(seed)
        self.cases = []
        for e in self.ents:
            self.cases.append(("insert", e, None, "insert_one<%s>(op)" % e.table))
            self.cases.append(("many", e, None, "insert_many<%s>(op)" % e.table))
            if e.vals and not e.of("kid") and not e.of("list"):
                self.cases.append(("update", e, None, "update_one<%s>(op)" % e.table))
            if e.leaves() and not e.of("list"):
                for w, c, t in ways(e):
                    self.cases.append(("select", e, w, "select_one<%s>(op)" % ", ".join([e.table, t.table] + c)))

    def source(self):
        o = ['#include "tables.hpp"'] + [e.source() for e in self.ents]
        o.append("struct G { static bool run(std::string const& o, int n, J const& op) { switch (n) {")
        o += ["  case %d: %s; return true;" % (i, c[3]) for i, c in enumerate(self.cases)]
        o.append("  default: return false; } } };")
        o.append("int main() { return main_loop([](J const& ep) { tables<G>(ep[\"ops\"]); }); }")
        return "\n".join(o) + "\n"

    def op(self, rng, i):
        kind, e, w, _ = self.cases[i]
        o = {"ev": kind, "n": i}
        if kind == "insert":
            o.update(nodes=[e.node(rng)], keys=keys(rng) if rng.random() < .4 else [])
        elif kind == "many":
            o.update(nodes=[e.node(rng, 1) for _ in range(rng.choice([0, 1, 2, 3]))], keys=keys(rng))
        elif kind == "update":
            o.update(node=e.node(rng), **{"with": rng.randrange(3)}, owner=rng.choice(OWNERS), pick=pick(rng))
        else:
            o.update(shape=e.shape(), way=w, pick=pick(rng), pick2=pick(rng), both=rng.random() < .4)
        if kind in ("insert", "many"):
            total = sum(count(n) for n in o["nodes"])
            o["ids"] = [0] * (total + 3)
            o["fail"] = rng.randrange(total) if total and rng.random() < .15 else -1
        return o

    def episode(self, rng, k):
        ins = [i for i, c in enumerate(self.cases) if c[0] in ("insert", "many")]
        rest = [i for i, c in enumerate(self.cases) if c[0] in ("update", "select")] or ins
        ops = [{"ev": "reset"}]
        for x in range(k):
            ops.append(self.op(rng, rng.choice(ins if x < k // 3 or rng.random() < .3 else rest)))
        return numbered(rng, ops)

    def stopped(self, rng, i, job, fail):
        ops = [{"ev": "reset"}]
        total = sum(count(n) for n in job["nodes"])
        ops.append({"ev": "insert" if self.cases[i][0] == "insert" else "many", "n": i, "nodes": job["nodes"], "keys": job["keys"],
                    "ids": [0] * (total + 3), "fail": fail})
        for j, c in enumerate(self.cases):
            if c[0] in ("update", "select"):
                ops.append(self.op(rng, j))
        return numbered(rng, ops)


def numbered(rng, ops):
    """no two rows have the same id"""
    ids = iter(rng.sample(range(2, 90000), sum(len(o.get("ids", ())) for o in ops)))
    for o in ops:
        if "ids" in o:
            o["ids"] = [next(ids) for _ in o["ids"]]
    return {"ops": ops}


def keys(rng):
    return [["owner", rng.choice(OWNERS)], ["at", "i:%d" % rng.randrange(9)]]


def pick(rng):
    return rng.choice([-1, 0, 1, 2, 3, 4, 5, 6, 7])


TOKEN = re.compile(r'\s*(?:"([^"]*)"|([A-Za-z_][A-Za-z_0-9]*)|([(),.=?;])|(\d+))')


class Parse:
    """SQL of the kinds written here, no more"""

    def __init__(self, sql):
        self.toks, at = [], 0
        sql = sql.strip()
        while at < len(sql):
            m = TOKEN.match(sql, at)
            if not m or m.end() == at:
                raise ValueError(sql)
            if m.group(1) is not None:
                self.toks.append(("id", m.group(1)))
            elif m.group(2):
                self.toks.append(("word", m.group(2).upper()))
            elif m.group(3):
                self.toks.append(("p", m.group(3)))
            else:
                self.toks.append(("n", m.group(4)))
            at = m.end()
        self.at = 0

    def peek(self, *ts):
        return self.toks[self.at:self.at + len(ts)] == list(ts)

    def eat(self, kind, *values):
        for v in values or (None,):
            k, got = self.toks[self.at]
            if k != kind or (v is not None and got != v):
                raise ValueError((kind, v, got))
            self.at += 1
        return got

    def words(self, text):
        for w in text.split():
            self.eat("word", w)

    def list(self, item, sep):
        out = [item()]
        while self.peek(sep):
            self.at += 1
            out.append(item())
        return out

    def ident(self):
        return self.eat("id")

    def column(self):
        a = self.ident()
        self.eat("p", ".")
        return [a, self.ident()]

    def place(self):
        self.eat("p", "?")
        return 1

    def crit(self, what):
        c = what()
        self.eat("p", "=", "?")
        return c

    def end(self):
        if self.peek(("p", ";")):
            self.at += 1
        if self.at != len(self.toks):
            raise ValueError(self.toks[self.at:])

    def run(self):
        if self.peek(("word", "INSERT")):
            self.words("INSERT INTO")
            t = self.ident()
            self.eat("p", "(")
            cols = self.list(self.ident, ("p", ","))
            self.eat("p", ")")
            self.words("VALUES")
            self.eat("p", "(")
            n = len(self.list(self.place, ("p", ",")))
            self.eat("p", ")")
            self.end()
            return {"table": t, "cols": cols, "places": n}
        if self.peek(("word", "UPDATE")):
            self.words("UPDATE")
            t = self.ident()
            self.words("SET")
            cols = self.list(lambda: self.crit(self.ident), ("p", ","))
            self.words("WHERE")
            ks = self.list(lambda: self.crit(self.ident), ("word", "AND"))
            if self.peek(("word", "LIMIT")):
                self.at += 1
                if int(self.eat("n")) < 1:
                    raise ValueError("LIMIT")
            self.end()
            return {"table": t, "cols": cols, "keys": ks, "places": len(cols) + len(ks)}
        self.words("SELECT")
        cols = self.list(self.column, ("p", ","))
        self.words("FROM")
        t = self.ident()
        joins = []
        while self.peek(("word", "JOIN")) or self.peek(("word", "INNER")):
            if self.peek(("word", "INNER")):
                self.at += 1
            self.words("JOIN")
            j = {"table": self.ident()}
            self.words("AS")
            j["alias"] = self.ident()
            self.words("ON")
            j["a"] = self.column()
            self.eat("p", "=")
            j["b"] = self.column()
            joins.append(j)
        # every name has to be one that is known where it stands
        known = [t]
        for j in joins:
            known.append(j["alias"])
            if j["a"][0] not in known or j["b"][0] not in known:
                raise ValueError("unknown alias")
        self.words("WHERE")
        ks = self.list(lambda: self.crit(self.column), ("word", "AND"))
        self.end()
        if len(set(known)) != len(known) or any(c[0] not in known for c in cols + ks):
            raise ValueError("unknown alias")
        return {"table": t, "cols": cols, "joins": joins, "keys": ks, "places": len(ks)}


def read(sql):
    q = {"ok": True, "table": "", "cols": [], "keys": [], "joins": [], "places": 0}
    try:
        q.update(Parse(sql).run())
    except (ValueError, IndexError):
        return {"ok": False, "table": "", "cols": [], "keys": [], "joins": [], "places": 0}
    return q


def norm(ep, events):
    out = []
    many = False
    for e in events:
        if "sql" in e:
            e = dict(e, q=read(e["sql"]))
            e.pop("sql")
        if e.get("ev") == "end":
            e = dict(e, many=e["id"] == "")
        out.append(e)
    return out
