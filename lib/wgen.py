"""Programs over typed wrappers, values to offer them and queries through them (C19)."""
from vals import *
import qgen

KIND = {"o": (3, 4), "a": (5, 6), "s": (7, 8), "n": (9, 10), "f": (11, 12)}
NUMS = [I(n) for n in (0, 1, -1, 2, 3, 7, -5, 10, 64, 100)] + [D(x) for x in (0.5, -0.5, 1.5, 2.0, 0.25, -3.25, 8.0, 100.0)]
WIDE = NUMS + [D(x) for x in (0.1, 1e10, -1e-10, 1/3., 2**53 + 1., 1e300, 123456.789)] + [I(x) for x in (2**31 - 1, -2**31, 2**53 + 1, 2**63 - 1, 65535, 32768)]
SMALL = lambda r: r.choice([value(r, 1), scalar(r)])
K = lambda r: r.choice(KEYS[:10] + [b"key\0"])
def src(r, d, kinds=range(1, 14)):
    x = r.random()
    if x < .6: return ["lit", SMALL(r)]
    s = r.choice([k for k in kinds if k != d])
    return ["slot", s] if x < .85 else ["mslot", s]

def op(r):
    o = _op(r); o["h"] = r.randrange(100); return o
def _op(r):
    x = r.random(); w = lambda: r.randrange(3, 14); k = r.choice("oasnf")
    pair = lambda k: r.choice(KIND[k])
    if x < .10: return {"o": "load", "d": r.choice([1, 2]), "v": r.choice([objv(r, 2), arrv(r, 2), scalar(r), scalar(r)])}
    if x < .22: return {"o": "wrap", "d": w(), "s": r.choice([1, 2]), "mv": int(r.random() < .4)}
    if x < .28: return {"o": "unwrap", "d": r.choice([1, 2]), "s": w(), "mv": int(r.random() < .4)}
    if x < .33: return {"o": "cross", "d": pair(k), "s": pair(k)}
    if x < .42: return {"o": r.choice(["copy", "move", "swap"]), "d": pair(k), "s": pair(k)}
    if x < .52:
        d = w()
        v = objv(r, 1) if d < 5 else arrv(r, 1) if d < 7 else S(r.choice(STRS)) if d < 9 else r.choice(NUMS + WIDE + [I(r.choice(INTS))]) if d < 11 else B(r.random() < .5) if d < 13 else NULL
        return {"o": "nat", "d": d, "v": v}
    if x < .62:
        g = r.choice("+-*/"); v = r.choice(NUMS if r.random() < .6 else WIDE)
        if g == "/" and v[1:] == [0, 0, 0, 0]: v = I(2)
        f = r.choice([g + "=", "n" + g, g + "n", g + "n", "inc"])
        if f == "inc": g = r.choice("+-"); f = r.choice([g * 2 + "_", "_" + g * 2])
        return {"o": "arith", "d": pair("n"), "f": f, "g": g, "v": v}
    if x < .68:
        if r.random() < .5: return {"o": "cat", "s": pair("s"), "v": rle(r.choice(STRS)), "rev": int(r.random() < .5)}
        return {"o": "app", "d": pair("s"), "v": ["slot", pair("s")] if r.random() < .3 else ["lit", rle(r.choice([b"", b"a", b"bc", b"\0z", b"x" * 22]))]}
    if x < .71: return {"o": "neg", "s": pair("f")} if r.random() < .5 else {"o": "truth", "s": w()}
    if x < .73: return {"o": "numto", "s": pair("n")}
    if x < .80:
        s = w(); key = ["k", rle(K(r))]; ix = ["x", r.choice([0, 1, 2, 5, -1])]
        qs = [["val"], ["type"], ["is"], ["fin"]] if False else [["val"], ["type"], ["is"]]
        if s < 5: qs += [["get", key], ["br", key], ["at", key], ["hask", key], ["find", key], ["findkey", key], ["size"], ["keys"], ["kv"], ["or", key, I(4)]]
        elif s < 7: qs += [["get", ix], ["br", ix], ["at", ix], ["size"], ["front"], ["back"], ["atfront"], ["atback"], ["rev"], ["frontor", I(9)], ["or", ix, I(4)]]
        elif s < 9: qs += [["str"], ["size"], ["empty"]]
        elif s < 11: qs += [["int"], ["dec"], ["num"]]
        elif s < 13: qs += [["flag"]]
        return {"o": "q", "s": s, "q": r.choice(qs)}
    if x < .92:
        d = pair("o"); key = ["k", rle(K(r))]; y = r.random()
        if y < .4: return {"o": "ins", "d": d, "k": key, "v": src(r, d)}
        if y < .55: return {"o": "set", "d": d, "k": key, "v": src(r, d)}
        if y < .7: return {"o": "del", "d": d, "k": key}
        if y < .75: return {"o": "clear", "d": d}
        if y < .83: return {"o": "inj", "d": pair("o"), "s": d, "p": [[["k", rle(k)], ["lit", SMALL(r)]] for k in r.sample(KEYS, r.choice([1, 2]))]}
        if y < .9: return {"o": "proj", "d": pair("o"), "s": d, "p": [rle(k) for k in r.sample(KEYS[:8], r.randrange(1, 5))]}
        if y < .95: return {"o": "fin", "d": d}
        return {"o": "lift", "d": d}
    d = pair("a"); ix = ["x", r.choice([0, 0, 1, 2, 3, -1])]; y = r.random()
    if y < .3: return {"o": r.choice(["pushb", "pushf"]), "d": d, "v": src(r, d)}
    if y < .5: return {"o": "ins", "d": d, "k": ix, "v": src(r, d)}
    if y < .65: return {"o": "set", "d": d, "k": ix, "v": src(r, d)}
    if y < .75: return {"o": "del", "d": d, "k": ix}
    if y < .85: return {"o": r.choice(["popf", "popb"]), "d": d}
    if y < .9: return {"o": "resize", "d": d, "n": r.randrange(5), "v": ["lit", scalar(r)]}
    if y < .95: return {"o": "reserve", "d": d, "n": r.randrange(9)}
    return {"o": "clear", "d": d}

def programs(r, n, length=40):
    return [[{"o": "reset"}] + [op(r) for _ in range(length)] for _ in range(n)]
def offers(r, n):
    vs = list(qgen.SCALARS) + [O({}), A(), A(NULL), O({b"": NULL})]
    while len(vs) < n: vs.append(r.choice([objv(r, 2), arrv(r, 2), scalar(r, True)]))
    return [[{"o": "offer", "v": v}] for v in vs]
def asks(r, n):
    cs = qgen.c04_cases(r, n // 2) + qgen.c06_cases(r, n // 4) + qgen.c08_cases(r, n - n // 2 - n // 4)
    return cs
