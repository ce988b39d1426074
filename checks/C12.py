from vlib import core

LINK = ["-Wl,--wrap=sendmsg", "-Wl,--wrap=send"]
FIRST = b"GET / HTTP/1.1\r\n"
RESPONSE = (b"HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\n"
            b"Sec-WebSocket-Accept: s3pPLMBiTxaQ9kYGzzhZRbK+xOo=\r\n\r\n")
B64 = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"


def any_case(rng, name):
    return bytes(rng.choice([c, ord(chr(c).upper()), ord(chr(c).lower())]) for c in name)


def chunks(rng, data, how=None):
    """the writes of the raw side, with waits between some of them"""
    how = how or rng.choice(["one", "bytes", "some", "some", "crlf"])
    if how == "bytes" and len(data) > 300:
        how = "some"
    if how == "one":
        cuts = []
    elif how == "bytes":
        cuts = list(range(1, len(data)))
    elif how == "crlf":     # between CR and LF
        cuts = [i + 1 for i in range(len(data)) if data[i] == 13]
    else:
        cuts = sorted(rng.randrange(1, max(2, len(data))) for _ in range(rng.randrange(1, 6)))
    ops, at = [], 0
    for c in sorted(set(cuts)) + [len(data)]:
        if c > at:
            ops.append({"o": "in", "b": list(data[at:c])})
            if rng.random() < .7:
                ops.append(rng.choice([{"o": "wait"}, {"o": "poll", "n": rng.randrange(1, 4)}]))
        at = c
    return ops


def end(rng, ops, data, cut, how):
    return chunks(rng, data[:cut]) + [{"o": how}] if how else chunks(rng, data[:cut])


def noise(rng, n):
    b = bytes(rng.choice([rng.randrange(256), rng.randrange(32, 127), 58, 32, 59, 13]) for _ in range(n))
    return b.replace(b"\r\n", b"--").rstrip(b"\r")


def cookie_list(rng, limit=230):
    word = lambda a=0: bytes(rng.choice(b"abcxyz_=nbdl.%-~") for _ in range(rng.randrange(a, 12)))
    cs = []
    for _ in range(rng.randrange(0, 5)):
        cs.append(rng.choice([word(1) + b"=" + word(), b"nbdl_authx=" + word(), b"xnbdl_auth=" + word(),
                              b"nbdl_auth", b"NBDL_AUTH=" + word(), word(1), b"nbdl_aut=" + word()]))
    cs = [c for c in cs if not c.startswith(b"nbdl_auth=")]
    if rng.random() < .75:
        cs.insert(rng.randrange(len(cs) + 1), b"nbdl_auth=" + bytes(rng.choice(B64 + b"=-_. \"") for _ in range(rng.choice([0, 1, 5, 40]))))
    s = b"; ".join(cs)
    return (s + rng.choice([b"", b"", b";", b"; "]))[:limit]


def header(rng, name, value):
    return any_case(rng, name) + b":" + b" " * rng.choice([0, 1, 1, 1, 3]) + value


def request(rng, long=False):
    hs = []
    for _ in range(rng.choice([0, 1, 4, 20])):
        k = rng.random()
        if k < .4:
            n = bytes(rng.choice(b"abcXYZ-sec") for _ in range(rng.randrange(1, 20)))
            hs.append(n[:1] + b"q" + n[1:] + b": " + noise(rng, rng.randrange(0, 60)))
        elif k < .7:
            n = rng.choice([b"Sec-WebSocket-Keyx", b"Sec-WebSocket-Ke", b"Cookie", b"Cookies2", b"xcookies", b"", b"Origin"])
            hs.append(n + b": " + noise(rng, rng.randrange(0, 30)))
        elif k < .8:
            hs.append(b"xy" + bytes(rng.choice(b"abc-;= ") for _ in range(rng.randrange(0, 40))))   # no colon
        elif k < .85:
            hs.append(rng.choice([b"cookies", b"sec-websocket-key", b"Cookies", b"Sec-WebSocket-Key"]))
        else:
            hs.append(b"pad:" + b"p" * (rng.choice([251, 252, 300, 600] if long else [249, 250, 200])))
    hs.insert(rng.randrange(len(hs) + 1),
              header(rng, b"sec-websocket-key", bytes(rng.choice(B64) for _ in range(rng.choice([1, 16, 22, 24, 64, 200])))))
    if rng.random() < .85:
        hs.insert(rng.randrange(len(hs) + 1), header(rng, b"cookies", cookie_list(rng)))
    return FIRST + b"".join(h + b"\r\n" for h in hs) + b"\r\n"


def run(ctx):
    rng = ctx.rng
    exe = core.build("handshake", extra=LINK, asan=True)
    m = ctx.model("HandshakeMC", defines={"MaxHeaders": ctx.n(2, 3), "Cases": "TRUE"})
    base = {"origin": [], "token": []}
    eps = []
    for c in m.cases:
        data = bytes(c["first"]) + b"".join(bytes(x) + b"\r\n" for x in c["lines"]) + b"\r\n"
        eps.append(dict(base, cfg="server", ops=chunks(rng, data)))
        for cut in sorted(rng.sample(range(len(data)), ctx.n(6, 2))):
            how = rng.choice(["eof", "eof", "kill", None])
            eps.append(dict(base, cfg="server", ops=end(rng, [], data, cut, how)))
        eps.append(dict(base, cfg="server", ops=end(rng, [], data, len(data), rng.choice(["eof", "kill"]))))
    ctx.conform("cases", exe, "HandshakeTrace", eps)

    eps = []
    for i in range(ctx.n(500, 4000)):
        data = request(rng, long=i % 10 == 0)
        if i % 6 == 5:     # the request line
            k = rng.randrange(16)
            data = data[:k] + bytes([rng.choice([data[k] ^ 32, rng.randrange(256)])]) + data[k + 1:]
            data = rng.choice([data, data[:k] + data[k + 1:], data[:16], data[:rng.randrange(1, 17)]])
        cut = len(data) if rng.random() < .7 else rng.randrange(len(data))
        eps.append(dict(base, cfg="server", ops=end(rng, [], data, cut, rng.choice([None, None, "eof", "kill"]))))
    ctx.conform("requests", exe, "HandshakeTrace", eps)

    eps = []
    for i in range(ctx.n(250, 2000)):
        tok = list(bytes(rng.choice(B64 + b"=-_.") for _ in range(rng.choice([0, 1, 20, 100, 220]))))
        org = list(rng.choice([b"", b"http://a.example:80", b" x", b"null"]))
        who = {"origin": org, "token": tok}
        k = rng.random()
        if k < .25:
            eps.append(dict(who, cfg="pair", ops=[{"o": "poll", "n": rng.randrange(1, 4)}, {"o": "wait"}]))
            continue
        data = RESPONSE + (b"\x81\x02hi" if rng.random() < .3 else b"")
        if k > .6:
            j = rng.randrange(len(RESPONSE))
            data = rng.choice([data[:j] + bytes([data[j] ^ (1 << rng.randrange(8))]) + data[j + 1:],
                               data[:j] + data[j + 1:] + b"x", data[:j] + b"y" + data[j:]])
        cut = len(data) if rng.random() < .6 else rng.randrange(len(data))
        eps.append(dict(who, cfg="client", ops=end(rng, [], data, cut, rng.choice([None, None, "eof", "kill"]))))
    ctx.conform("clients", exe, "HandshakeTrace", eps)

    eps = []
    for i in range(ctx.n(60, 500)):
        cs = [cookie_list(rng, 2000) for _ in range(25)]
        cs += [b"".join(rng.choice([b"nbdl_auth=", b"nbdl_auth", b"; ", b";", b" ", b"=", b"a", b"b=c", b"\xff"])
                        for _ in range(rng.randrange(0, 9))) for _ in range(25)]
        # the same name twice is not a proper list
        cs = [c for c in cs if c.count(b"nbdl_auth=") <= 1]
        eps.append(dict(base, cfg="token", ops=[], cookies=[list(c) for c in cs]))
    ctx.conform("tokens", exe, "HandshakeTrace", eps)
