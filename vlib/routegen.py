"""Random tables of routes, and paths for them"""
import random

MAX = {"std::size_t": 2**64 - 1, "int": 2**31 - 1, "unsigned char": 255, "signed char": 127, "short": 32767, "unsigned": 2**32 - 1,
       "long long": 2**63 - 1, "unsigned short": 65535, "char": 127}
codes = lambda s: list(s.encode())
FIRST = [("", []), ("a", ["unsigned char"]), ("b", ["Str"]), ("ab", ["unsigned char", "Str"]), ("2", [])]


class Table:
    def __init__(self, routes):
        self.routes = routes        # [(name, [member types])]

    def shape(self):
        return [{"name": codes(n), "ms": [codes(str(MAX[m])) if m in MAX else [] for m in ms]} for n, ms in self.routes]

    def source(self):
        o = ['#include "routes.hpp"']
        pairs = []
        for i, (n, ms) in enumerate(self.routes):
            if not ms and i % 2 == 0:
                pairs.append('nbdl::webui::route_pair<>("%s"_s)' % n)
                o.append('template <> struct place<decltype("%s"_s)> { static constexpr int value = %d; };' % (n, i + 1))
                continue
            o.append("struct R%d { %s };" % (i, " ".join("%s m%d{};" % (m, k) for k, m in enumerate(ms))))
            o.append("namespace nbdl { %s }" % ("NBDL_ENTITY(R%d, %s);" % (i, ", ".join("m%d" % k for k in range(len(ms))))
                                               if ms else "NBDL_EMPTY(R%d);" % i))
            o.append("template <> struct place<R%d> { static constexpr int value = %d; };" % (i, i + 1))
            pairs.append('nbdl::webui::route_pair<R%d>("%s"_s)' % (i, n))
        o.append("constexpr auto map = nbdl::webui::make_route_map(%s);" % ", ".join(pairs))
        o.append("int main() { emit_limit() = 100000; return main_loop([](J const& ep) { J r = ev(\"reset\"); r[\"table\"] = ep[\"table\"]; emit(r);")
        o.append("for (auto const& s : ep[\"read\"]) { J e = ev(\"read\"); e[\"s\"] = s; e[\"got\"] = shown(map.from_string(text(s))); emit(e); }")
        o.append("for (auto const& x : ep[\"write\"]) switch (x[\"r\"].asInt()) {")
        for i, (n, ms) in enumerate(self.routes):
            t = 'decltype("%s"_s)' % n if not ms and i % 2 == 0 else "R%d" % i
            o.append('  case %d: write<decltype(map), %s>(map, "%s"_s, x); break;' % (i + 1, t, n))
        o.append("} }); }")
        return "\n".join(o) + "\n"

    def value(self, rng, m):
        if m in MAX:
            return str(rng.choice([rng.randrange(1, 10), rng.randrange(1, 128), 100, MAX[m], rng.randrange(1, MAX[m] + 1), 0 if rng.random() < .2 else 10]))
        return "".join(rng.choice("ab019-._ ?%#" + ("/" if rng.random() < .05 else "z") + self.routes[-1][0][:1])
                       for _ in range(rng.choice([1, 1, 2, 3, 12, 40, 0 if rng.random() < .3 else 5])))

    def route(self, rng):
        r = rng.randrange(len(self.routes))
        return {"r": r + 1, "vs": [codes(self.value(rng, m)) for m in self.routes[r][1]]}

    def path(self, rng):
        x = self.route(rng)
        s = bytes([47] + codes(self.routes[x["r"] - 1][0]))
        vs = [bytes(v) for v in x["vs"]]
        k = rng.random()
        if vs and k < .15:          # numbers that do not fit, or nearly
            i = rng.randrange(len(vs))
            m = self.routes[x["r"] - 1][1][i]
            if m in MAX:
                vs[i] = str(rng.choice([MAX[m] + 1, MAX[m] + 2, MAX[m], MAX[m] * 2 + 2, MAX[m] * 2 + 3, 2**64, 2**64 + 1, 10**25 + 1,
                                        MAX[m] * 10 + 9, 10 * (MAX[m] + 1) + 1])).encode()
        elif vs and k < .25:
            i = rng.randrange(len(vs))
            vs[i] = rng.choice([b"0", b"00", b"01", b"-1", b"+1", b" 1", b"1 ", b"1x", b"0x1", b"", b"/", b"a", b"1.0", vs[i][1:], vs[i] + b"0", b"0" + vs[i]])
        elif k < .32 and vs:
            vs.pop(rng.randrange(len(vs)))
        elif k < .4:
            vs.insert(rng.randrange(len(vs) + 1), rng.choice([b"1", b"a", b"", s[1:]]))
        s += b"".join(b"/" + v for v in vs)
        if rng.random() < .2:       # anything
            s = bytearray(s)
            for _ in range(rng.choice([1, 1, 2, 3])):
                i = rng.randrange(len(s) + 1)
                c = rng.choice(b"//ab012/\x00\xff" + s[:3])
                if rng.random() < .4 and i < len(s):
                    s[i] = c
                elif rng.random() < .5 and i < len(s):
                    del s[i]
                else:
                    s.insert(i, c)
            s = bytes(s)
        if rng.random() < .1:
            s += b"/" * rng.choice([1, 1, 2])
        return list(s)

    def episode(self, rng, n):
        return {"table": self.shape(), "read": [self.path(rng) for _ in range(n)], "write": [self.route(rng) for _ in range(n)]}


def table(seed):
    rng = random.Random(seed)
    names = rng.sample(["", "a", "b", "ab", "ba", "1", "10", "home", "home-page", "news", "new", "user", "users", "x", "a.b"], rng.randrange(2, 8))
    return Table([(n, [] if n == "" else [rng.choice(list(MAX) + ["Str"] * 6) for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 4, 9] + [[], [10, 13]][seed % 3 == 1]))]) for n in names])


def nav_source(table):
    """the table as that of an application (harness/nav.hpp)"""
    o = table.source().replace('"routes.hpp"', '"nav.hpp"')
    o = o[:o.index("int main()")]
    o += "namespace spy_def { using namespace nbdl_def; constexpr auto make() { return Context(Producers(NavRouteProducer(map)), Consumers(Consumer(Type<watcher>))); } }\n"
    o += "namespace nbdl { template <> struct make_def_impl<nav_context> { static constexpr auto apply() { return spy_def::make(); } }; }\n"
    o += "template <typename T, typename F> void made(J const& x, F f) { T t{}; if constexpr (!hana::is_a<hana::string_tag, T>) nbdl::bind_sequence(t, [&](auto& ...m) { int i = 0; (put(m, x[\"vs\"][i++]), ...); }); f(t); }\n"
    o += "int main() { emit_limit() = 100000; return page_main([](J const& ep) { nav<nav_context>(map, ep, [](J const& x, auto f) { switch (x[\"r\"].asInt()) {\n"
    for i, (n, ms) in enumerate(table.routes):
        t = 'decltype("%s"_s)' % n if not ms and i % 2 == 0 else "R%d" % i
        o += "  case %d: made<%s>(x, f); break;\n" % (i + 1, t)
    return o + "} }); }); }\n"
