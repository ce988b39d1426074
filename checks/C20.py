import base64
from vlib import core

ALPHABET = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"


def mutate(rng, t):
    t = bytearray(t)
    for _ in range(rng.choice([0, 1, 1, 1, 2])):
        k = rng.random()
        i = rng.randrange(len(t) + 1)
        c = rng.choice([61, 61, rng.choice(ALPHABET), rng.randrange(256), rng.choice(b"-_ \n\r.,*:@[`{")])
        if k < .4 and i < len(t):
            t[i] = c
        elif k < .6:
            t.insert(i, c)
        elif k < .8 and i < len(t):
            del t[i]
        else:
            t += bytes([c] * rng.randrange(1, 5))
    return bytes(t)


def run(ctx):
    rng = ctx.rng
    exe = core.build("base64", asan=True)
    m = ctx.model("Base64MC", defines={"MaxText": ctx.n(5, 7), "MaxBytes": ctx.n(4, 6), "Cases": "FALSE"})
    m = ctx.model("Base64MC", defines={"MaxText": 4, "MaxBytes": 4, "Cases": "TRUE"})
    texts = [c["t"] for c in m.cases if c["t"]] + [[]]
    raws = [c["b"] for c in m.cases if c["b"]] + [[]]
    group = lambda xs, n: [xs[i:i + n] for i in range(0, len(xs), n)]
    eps = [{"enc": g, "dec": []} for g in group(raws, 20)] + [{"enc": [], "dec": g} for g in group(texts, 15)]
    ctx.conform("cases", exe, "Base64Trace", eps)

    eps = []
    for i in range(256):        # every byte and every character at every place of a group
        eps.append({"enc": [[i], [7, i], [7, 200, i], [i, i, i, i], [i] * 5], "dec": []})
        eps.append({"enc": [], "dec": [[97 if j != p else i for j in range(4)] for p in range(4)] +
                   [[i, 97, 97, 61], [97, i, 61, 61]]})
    ctx.conform("bytes", exe, "Base64Trace", eps)

    eps = []
    for i in range(ctx.n(150, 3000)):
        enc, dec = [], []
        for _ in range(4):
            n = rng.choice([0, 1, 2, 3, 4, 5, 15, 16, 17, 48, rng.randrange(200)])
            b = bytes(rng.choice([rng.randrange(256), rng.randrange(128, 256), 0, 255]) for _ in range(n))
            enc.append(list(b))
            dec.append(list(mutate(rng, base64.b64encode(b))))
            dec.append(list(mutate(rng, bytes(rng.choice(ALPHABET) for _ in range(rng.randrange(12))))))
        eps.append({"enc": enc, "dec": dec})
    eps += [{"enc": [[rng.randrange(256) for _ in range(n)]], "dec": []} for n in (1000, 1001, 1002)]
    ctx.conform("random", exe, "Base64Trace", eps)
