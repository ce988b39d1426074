from vlib import core

NAME = b"NBDL_SESS="


def cookies(rng):
    name = lambda: rng.choice([NAME[:-1], b"NBDL_SES", b"NBDL_SESSX", b"XNBDL_SESS", b"nbdl_sess", b"id", b"theme", b"", b"nbdl_auth", b"a b", NAME])
    text = lambda: rng.choice([b"", b"1", b"abc", b"x=y", NAME + b"fake", b"\"q\"", bytes(rng.randrange(1, 256) for _ in range(rng.randrange(30)))])
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 3, 5, 12])):
        n = NAME[:-1] if rng.random() < .3 else name()
        out.append(n + (b"=" if rng.random() < .85 else b"") + text())
    s = b"".join(rng.choice([b"", b"", b" ", b"  ", b"\t", b" \r\n", b";"]) + c + rng.choice([b";", b";", b"; ", b" ;", b";;"]) for c in out)
    if rng.random() < .6:
        s = s.rstrip(b"; ")
    s = bytearray(s)
    while rng.random() < .3:
        i = rng.randrange(len(s) + 1)
        if rng.random() < .5 and i < len(s):
            s[i] = rng.choice(b"=; N\x00\xa0\xff")
        else:
            s.insert(i, rng.choice(b"=; \t\x0b"))
    return list(s)


def run(ctx):
    rng = ctx.rng
    exe = core.build("cookies", asan=True)
    m = ctx.model("CookiesMC", defines={"MaxPieces": ctx.n(6, 7), "Cases": "TRUE"})
    texts = [list(t) for t in sorted(set(map(tuple, m.cases)))]
    rng.shuffle(texts)
    texts += [cookies(rng) for _ in range(ctx.n(10000, 100000))]
    ctx.conform("cookies", exe, "CookiesTrace", [{"texts": texts[i:i + 100]} for i in range(0, len(texts), 100)])
