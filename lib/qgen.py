"""Cases for qd.cc: a value and the queries every representation of it has to answer."""
import math, random
from vals import *
import vgen

SIMPLE = [["val"], ["type"], ["is"], ["size"], ["empty"], ["keys"], ["vals"], ["fwd"], ["rev"], ["kfwd"], ["krev"], ["kv"], ["rkv"], ["front"],
          ["back"], ["atfront"], ["atback"], ["str"], ["int"], ["dec"], ["num"], ["flag"]]

def near(k):
    """Keys that are close to k: extended, shortened, last or middle byte changed, padded with NUL."""
    out = [k + b"a", k + b"\0", b"a" + k]
    if k: out += [k[:-1], k[1:], k[:-1] + bytes([k[-1] ^ 1]), k[:-1] + bytes([k[-1] ^ 0x80]), bytes([k[0] ^ 1]) + k[1:], k[:len(k) // 2] + b"~" + k[len(k) // 2 + 1:]]
    return [x for x in out if len(x) <= 70000]

def lookups(r, v, n=None, allk=False):
    """Every present key and near misses, through every kind of lookup."""
    qs = []
    ks = [unrle(e[0]) for e in v[1]] if v[0] == "o" else []
    cand = list(ks)
    for k in ks: cand += near(k) if allk else r.sample(near(k), min(2, len(near(k))))
    cand += r.sample([b"", b"a", b"zz", b"k" * 255, b"k" * 256, b"k" * 254, b"\xff", b"\0", b"long_key_"], 3)
    cand = list(dict.fromkeys(cand))
    if n and len(cand) > n: cand = r.sample(cand, n)
    for k in cand:
        K = ["k", rle(k)]
        qs += [[r.choice(["get", "br"]), K], ["at", K], ["hask", K], ["find", K], ["findkey", K], ["or", K, ["i", 7, 0, 0, 0]]]
        if r.random() < .3: qs.append([r.choice(["get", "at", "br"]), ["V", S(k)]])
        if r.random() < .3: qs.append(["hask", ["V", S(k)]])
        if b"." not in k: qs.append(["nest", rle(k), 46])
    return qs

def paths(r, v, n=8):
    """Nested lookups along (and just off) the paths that exist, with empty segments and odd separators."""
    qs = []
    for _ in range(n):
        ps, x = [], v
        while x[0] == "o" and x[1] and r.random() < .85:
            e = r.choice(x[1]); ps.append(unrle(e[0])); x = e[1]
        if r.random() < .3: ps.insert(r.randrange(len(ps) + 1), r.choice([b"", b"a", b"zz"]))
        if r.random() < .2 and ps: ps.pop(r.randrange(len(ps)))
        sep = r.choice([46, 46, 46, 47, 0, 97])
        if any(bytes([sep]) in p for p in ps) and r.random() < .7: sep = 255
        p = bytes([sep]).join(ps) + (bytes([sep]) if r.random() < .15 else b"")
        qs.append(["nest", rle(p), sep])
    return qs

def nested_obj(r, d=3):
    ks = r.sample([b"", b"a", b"b", b"ab", b"a.b", b"k" * 40, b"0", b"\xff"], r.choice([1, 2, 3, 4]))
    return O({k: nested_obj(r, d - 1) if d and r.random() < .75 else scalar(r) for k in ks})

def indexes(r, v):
    n = len(v[1]) if v[0] in "oa" else 0
    qs = []
    for i in list(range(min(n, 6))) + [n - 1, n, n + 1, -1, 2147483647]:
        if i < -1: continue
        qs += [[r.choice(["get", "br"]), ["x", i]], ["at", ["x", i]], ["or", ["x", i], ["s", rle(b"dflt")]]]
        if i >= 0 and r.random() < .4: qs.append([r.choice(["get", "at"]), ["V", I(i)]])
    return qs

DEFAULTS = [["frontor", ["b", 1]], ["backor", ["b", 1]], ["stror", rle(b"dflt")], ["intor", limbs(77)], ["decor", limbs(dbits(7.5))], ["numor", limbs(dbits(7.5))],
            ["flagor", 1], ["flagor", 0]]

def bad_keys(r):
    return [[op, ["V", x]] for op in ("get", "at", "br", "hask") for x in r.sample([NULL, D(1.0), B(True), ["a", []], ["o", []]], 2)] + \
           [["or", ["V", NULL], ["i", 1, 0, 0, 0]]]

def case(r, v, extra=(), simple=True, h=None):
    qs = (list(SIMPLE) if simple else []) + list(extra)
    return [dict(o="q", v=v, q=qs, h=r.randrange(240) if h is None else h)]

def deep(r, n):
    v = vgen.value(r, 1)
    for _ in range(n): v = O({r.choice(KEYS): v, b"n": I(1)}) if r.random() < .6 else A(v, NULL)
    return v

def rand_value(r, heavy=False):
    x = r.random()
    ks = KEYS + (WEIRD_KEYS if x < .3 else [])
    if x < .45: return objv(r, 2, ks, 5)
    if x < .6: return arrv(r, 2, ks, 5)
    if x < .8: return scalar(r, True)
    if x < .85: return deep(r, r.randrange(2, 9))
    if x < .9: return O({b"k%d" % i: scalar(r) for i in range(r.choice([10, 30, 60]))})
    if x < .94: return A(*[scalar(r) for _ in range(r.choice([10, 50]))])
    if x < .96 and heavy: return S(b"q" * r.choice([65534, 65535, 65536, 70000]))
    return value(r, 3, ks, 4)

SCALARS = [NULL, B(True), B(False)] + [I(n) for n in INTS] + [D(x) for x in DECS] + [D(float("inf")), D(float("-inf")), D(-0.0), D(0.0)] + \
          [S(x) for x in STRS] + [["o", []], ["a", []]]

def c04_cases(r, n):
    out = []
    for v in SCALARS: out.append(case(r, v, DEFAULTS + lookups(r, v, 3) + indexes(r, v)[:6] + bad_keys(r)))
    for _ in range(n):
        v = rand_value(r, True)
        qs = list(DEFAULTS) if r.random() < .5 else []
        if v[0] == "o": qs += lookups(r, v, 8) + paths(r, v, 4)
        if v[0] == "a": qs += indexes(r, v)
        qs += [vgen.query(r, v, KEYS) for _ in range(6)]
        out.append(case(r, v, qs))
    return out

def key_family(r):
    k = r.randrange(9); base = bytes(r.choice(b"abcxyz\x01\x7f\x80\xc3\xfe\xff") for _ in range(r.randrange(1, 9)))
    if k == 0: return {base[:i] for i in range(len(base) + 1)}
    if k == 1: return {base + bytes([b]) for b in r.sample(range(256), 6)}
    if k == 2: return {bytes([b]) + base for b in r.sample(range(256), 6)}
    if k == 3: return {base[:2] + bytes([b]) + base[2:] for b in r.sample(range(256), 6)}
    if k == 4: return {b"k" * n + bytes([b]) for n in r.sample([252, 253, 254, 255, 256, 257], 3) for b in r.sample(range(256), 2)}
    if k == 5: return {b"", b"\0", b"\0\0", base + b"\0", base, base + b"\0a", b"a\0b", b"a\0c"}
    if k == 6: return {b"p" * 300 + bytes([b]) for b in r.sample(range(256), 5)} | {bytes([b]) + b"p" * 300 for b in r.sample(range(256), 5)}
    if k == 7: return {bytes([a, b]) for a in (0, 97, 128, 255) for b in (0, 98, 129, 255)}
    return {bytes(r.randrange(256) for _ in range(r.choice([0, 1, 2, 3, 4, 5, 17]))) for _ in range(12)}

def c06_cases(r, n):
    out = []
    for _ in range(n):
        ks = set()
        for _ in range(r.choice([1, 1, 2, 3])): ks |= key_family(r)
        ks = r.sample(sorted(ks), min(len(ks), r.choice([1, 2, 3, 5, 8, 13, 40])))
        if r.random() < .02: ks += [b"m" * 65535, b"m" * 65534 + b"n"]
        v = O({k: I(i) if r.random() < .7 else scalar(r) for i, k in enumerate(ks)})
        out.append(case(r, v, lookups(r, v, 14, r.random() < .4), simple=r.random() < .2))
    for _ in range(n // 8):
        v = nested_obj(r)
        out.append(case(r, v, paths(r, v, 12)))
    return out

def c08_cases(r, n):
    """Every query on every kind of value: most of them fail, in the documented way."""
    out = []
    pool = [NULL, B(True), I(0), I(3), D(1.5), D(-0.0), S(b""), S(b"abc"), S(b"z" * 60), ["o", []], ["a", []], O({b"a": I(1), b"": NULL}), A(I(1), S(b"x")), O({b"0": I(1)})]
    for v in pool:
        for h in range(6):
            qs = list(DEFAULTS) + indexes(r, v) + bad_keys(r)
            for k in (b"", b"a", b"0", b"zz", b"k" * 70000):
                qs += [[op, ["k", rle(k)]] for op in ("get", "br", "at", "hask", "find", "findkey")] + [["or", ["k", rle(k)], NULL]]
            qs += [["nest", rle(p), 46] for p in (b"", b".", b"a.b", b"a.", b"..", b"0.1")]
            qs += [["or", ["V", x], D(2.5)] for x in (NULL, S(b"a"), I(0), I(-1), B(True), D(0.0))]
            out.append(case(r, v, qs, h=h * 7 + r.randrange(7)))
    for _ in range(n):
        v = rand_value(r)
        out.append(case(r, v, [vgen.query(r, rand_value(r), KEYS) for _ in range(25)] + bad_keys(r)))
    return out

def walk(r, v, steps=14):
    """A random walk of three iterators that stays inside the sequence."""
    kind = r.randrange(4) if v[0] == "o" else r.choice([0, 2])
    if v[0] not in "oa": return ["walk", r.randrange(4), []]
    n = len(v[1]); p = [0, 0, n]; out = []
    while len(out) < steps:
        a, b = r.randrange(3), r.randrange(3); op = r.choice(["++", "++", "--", "p+", "p-", "=", "m", "c", "eq", "ne", "*", "*", "nx", "d"])
        if op in ("++", "p+") and p[a] >= n or op in ("--", "p-") and p[a] <= 0 or op == "*" and p[a] >= n or op == "d" and p[b] < p[a] or op == "nx" and n == 0:
            op = r.choice(["eq", "ne"])
        s = [op, a, b]
        if op == "nx": s.append(r.randrange(n) - p[a])
        if op == "d": s.append(p[b] - p[a] if r.random() < .9 else p[b] - p[a] + 1)
        if op in ("++", "p+"): p[a] += 1
        if op in ("--", "p-"): p[a] -= 1
        if op in ("=", "m", "c"): p[a] = p[b]
        out.append(s)
    return ["walk", kind, out]

def c14_cases(r, n):
    out = []
    for _ in range(n):
        v = rand_value(r)
        if v[0] not in "oa": v = r.choice([lambda: objv(r, 2, KEYS, 8), lambda: arrv(r, 2, KEYS, 8)])()
        qs = [q for q in (lookups(r, v, 4) if v[0] == "o" else []) if q[0] in ("find", "findkey")] + [walk(r, v, r.choice([4, 14, 30])) for _ in range(4)]
        out.append([dict(o="q", v=v, q=[["keys"], ["vals"], ["fwd"], ["rev"], ["kfwd"], ["krev"], ["kv"], ["rkv"], ["size"]] + qs, h=r.randrange(240))])
    for v in SCALARS[:30]: out.append([dict(o="q", v=v, q=[["fwd"], ["rev"], ["kfwd"], ["krev"], ["kv"], ["rkv"]] + [["walk", k, []] for k in range(4)], h=r.randrange(240))])
    return out

# ------------------------------------------------------------------------ equality
def mutate(r, v):
    """A value that differs from v in one place."""
    t = v[0]
    if t in "oa" and v[1] and r.random() < .75:
        l = list(v[1]); i = r.randrange(len(l)); x = r.random()
        if x < .5:
            l[i] = [l[i][0], mutate(r, l[i][1])] if t == "o" else mutate(r, l[i])
            return [t, l]
        if x < .65: return [t, l[:i] + l[i + 1:]]
        if t == "a":
            if x < .8 and len(l) > 1: j = r.randrange(len(l)); l[i], l[j] = l[j], l[i]; return [t, l]
            l.insert(i, r.choice([NULL, l[i], I(1)])); return [t, l]
        k = unrle(l[i][0]); k2 = r.choice(near(k))
        d = {unrle(e[0]): e[1] for e in l}
        if x < .85: d[k2] = d.pop(k)
        else: d[k2] = r.choice([NULL, d[k], I(1)])
        return O(d)
    if t == "o": return r.choice([["a", []], NULL, O(dict([(unrle(e[0]), e[1]) for e in v[1]] + [(b"added", NULL)]))])
    if t == "a": return r.choice([["o", []], NULL, A(*v[1], NULL), A(v)])
    if t == "s":
        s = unrle(v[1]); return S(r.choice(near(s) + [s + b"\0b", s.upper(), s[::-1], s + b" "])) if r.random() < .9 else NULL
    if t == "i":
        n = unlimbs(v[1:]); n = n - 2**64 if n >= 2**63 else n
        return r.choice([I(n + 1), I(n ^ (1 << r.randrange(63))), I(-n), D(float(n)), S(str(n)), B(n != 0), I(n - 1)])
    if t == "d":
        u = unlimbs(v[1:]); return r.choice([["d"] + limbs(u ^ 1), ["d"] + limbs(u ^ (1 << 40)), D(1.0), I(1), ["d"] + limbs(u ^ 2**63), NULL])
    if t == "b": return r.choice([B(1 - v[1]), I(v[1]), NULL, S("true")])
    return r.choice([B(False), I(0), S(""), ["o", []], ["a", []], D(0.0)])

def c13_pairs(r, n):
    out = []
    def pair(a, b): out.append([dict(o="eq", a=a, b=b, h=r.randrange(240))])
    some = [NULL, B(True), B(False), I(0), I(1), I(65536), D(0.5), D(1.0), D(0.0), D(-0.0), D(float("inf")), S(b""), S(b"1"), S(b"a"), S(b"a\0b"), S(b"a\0c"), ["o", []], ["a", []], A(NULL), O({b"": NULL})]
    for a in some:
        for b in r.sample(some, 4) + [a]: pair(a, b)
    for _ in range(n):
        v = rand_value(r); x = r.random()
        if x < .3: pair(v, v)
        elif x < .93: pair(*((v, mutate(r, v)) if r.random() < .5 else (mutate(r, v), v)))
        else: pair(v, rand_value(r))
    return out

def c13_natives(r, n):
    out = []
    sc = [NULL, B(True), B(False)] + [I(k) for k in INTS] + [D(x) for x in DECS] + [D(float(k)) for k in INTS] + [D(-0.0), D(0.0), D(float("inf"))] + [S(s) for s in STRS]
    agg = [["o", []], ["a", []], A(I(1)), O({b"a": I(1)})]
    for v in sc: out.append([dict(o="nat", a=v, b=v, h=0)])
    # integers and decimals that differ by a fraction, a unit in the last place, or only in width
    near = set()
    for x in [d for d in DECS if abs(d) < 2**62] + [k + f for k in (0, 1, -1, 2, -3, 127, 65535, 2**31 - 1, -2**31, 2**32, 2**40) for f in (-.5, .5, .25, -.999)]:
        for k in {math.floor(x), math.ceil(x), round(x)}: near.add((float(x), k))
    for k in INTS + [2**53 + 1, 2**53 - 1, -2**53 - 1, 2**31, 2**32 + 5]:
        f = float(k)
        for x in (f, f + .5, f - .5, math.nextafter(f, math.inf), math.nextafter(f, -math.inf)): near.add((x, k))
        for j in (k - 1, k + 1, k ^ (1 << 32), k & 0xffffffff, k & 0xffff):
            if -2**63 <= j < 2**63: near.add((j, k))
    for x, k in sorted(near, key=str):
        a, b = (D(x) if isinstance(x, float) else I(x)), I(k)
        out += [[dict(o="nat", a=a, b=b, h=0)], [dict(o="nat", a=b, b=a, h=0)]]
    for _ in range(n):
        a = r.choice(sc + agg); b = mutate(r, a) if r.random() < .5 else r.choice(sc)
        if b[0] in "oa": b = NULL
        out.append([dict(o="nat", a=a, b=b, h=0)])
    return out

# ------------------------------------------------------------- images and merges
def fits_json(v):
    t = v[0]
    if t == "d":
        # RapidJSON's default conversion is exact for few digits and small exponents only (known finding inexact-decimals)
        import struct
        x = struct.unpack("<d", struct.pack("<Q", unlimbs(v[1:])))[0]
        if x != x or x in (float("inf"), float("-inf")): return False
        return x == 0 or (1e-9 < abs(x) < 1e15 and float("%.12g" % x) == x)
    if t == "s":
        try: unrle(v[1]).decode(); return True
        except UnicodeDecodeError: return False
    if t == "a": return all(fits_json(x) for x in v[1])
    if t == "o": return all(fits_json(["s", k]) and fits_json(x) for k, x in v[1])
    return True

def wide_obj(r, depth=2, keys=None):
    """An object that mixes every width and every key length modulo the alignments."""
    ks = keys or (KEYS + [b"p" * n for n in range(9)] + (WEIRD_KEYS if r.random() < .3 else []))
    out = {}
    for _ in range(r.choice([0, 1, 2, 3, 4, 6, 9])):
        x = r.random(); k = r.choice(ks) if r.random() < .8 else bytes(r.randrange(1, 128) for _ in range(r.randrange(12)))
        if x < .25 and depth: out[k] = wide_obj(r, depth - 1, keys)
        elif x < .4 and depth: out[k] = A(*[wide_obj(r, depth - 2) if r.random() < .2 and depth > 1 else scalar(r, r.random() < .1) for _ in range(r.randrange(6))])
        elif x < .55: out[k] = I(r.choice([0, 1 << r.randrange(64), -(1 << r.randrange(64)), (1 << r.randrange(64)) - 1, r.randrange(2**63)]) if r.random() < .7 else r.choice(INTS))
        elif x < .7: out[k] = D(r.choice(DECS + [float(r.randrange(2**24)), float(r.randrange(2**53)), r.random(), r.random() * 1e300]))
        elif x < .85: out[k] = S(b"s" * r.choice(list(range(12)) + [23, 24, 63, 255, 256]))
        else: out[k] = scalar(r)
    return O(dict((k, v if not (v[0] == "i" and False) else v) for k, v in out.items()))

def c05_cases(r, n):
    out = []
    def one(v):
        d = dict(o="img", v=v, h=r.randrange(240))
        if fits_json(v): d["j"] = 1
        out.append([d])
    one(O({}))
    for v in SCALARS: one(O({r.choice(KEYS[:8]): v}))
    for k in range(8):          # one field, key and string lengths through every alignment
        for s in (S(b"x" * k), I(k), I(70000), I(2**40), D(1.5), D(0.1), B(True), NULL, ["o", []], ["a", []]): one(O({b"k" * k: s, b"z" * 9: I(1)}))
    for m in (65534, 65535, 65536, 65537): one(O({b"big": S(b"q" * m), b"after": I(2**40)}))
    for m in (65533, 65534, 65535): one(O({b"k" * m: I(2**40), b"a": NULL}))
    for _ in range(n): one(wide_obj(r, r.choice([1, 2, 2, 3])))
    return out

def c07_cases(r, n):
    out = []
    fams = [lambda: KEYS, lambda: KEYS + WEIRD_KEYS, lambda: [b"k%d" % i for i in range(12)], lambda: [b"p" * i for i in range(9)],
            lambda: sorted(key_family(r)), lambda: [bytes([c]) for c in range(97, 109)], lambda: [b"q" * n for n in (252, 253, 254, 255, 256, 257, 65534, 65535)]]
    for i in range(n):
        ks = r.choice(fams)()
        base = {}
        for _ in range(r.choice([0, 0, 1, 2, 3, 5, 8])): base[r.choice(ks)] = value(r, 2) if r.random() < .6 else wide_obj(r, 1)
        m = r.choice([0, 1, 1, 1, 2, 2, 2, 3, 5, 9]); dup = r.random() < .2
        pool = list(ks) + [r.choice(list(base) or [b"x"]) for _ in range(3)]
        ps = []
        for _ in range(m):
            k = r.choice(pool)
            if not dup and k in [p[0] for p in ps]: continue
            ps.append((k, value(r, 2) if r.random() < .6 else wide_obj(r, 1)))
        if r.random() < .02: ps.append((b"L" * r.choice([65535, 65536, 70000]), I(1)))
        r.shuffle(ps)
        if r.random() < .3: ps.sort(key=lambda p: klt(p[0]))
        names = [r.choice(pool + list(base) * 3) for _ in range(r.choice([0, 1, 2, 2, 3, 6]))]
        for k in list(names):
            if r.random() < .25: names.append(r.choice(near(k)))
        if r.random() < .15: names = list(base)
        if r.random() < .02: names.append(b"L" * 65536)
        out.append([dict(o="mrg", v=O(base), p=[[rle(k), x] for k, x in ps], k=[rle(k) for k in names], h=r.randrange(240))])
    for i in range(max(12, n // 6)):         # long lists, sorted or nearly: a sort or a search that gives up early shows in these
        m = r.randrange(9, 34)
        ks = r.choice([[b"k%02d" % j for j in range(40)], [b"k%d" % j for j in range(40)], [b"p" * j for j in range(40)],
                       sorted(set(KEYS + [b"m%d" % j for j in range(20)]))])
        ks = sorted(r.sample(ks, min(m + 4, len(ks))), key=klt)
        here = [k for k in ks if r.random() < .8]
        names = disturb(r, ks[:m]); new = disturb(r, ks[:m] if i % 2 else [k for k in ks if k not in here][:m])
        out.append([dict(o="mrg", v=O({k: I(j) for j, k in enumerate(here)}), p=[[rle(k), I(1000 + j)] for j, k in enumerate(dict.fromkeys(new))],
                         k=[rle(k) for k in names], h=r.randrange(240))])
    return out

def disturb(r, ks):
    """A list of names in one of the orders a caller has them in."""
    ks = list(ks); x = r.randrange(8)
    if not ks: return ks
    if x == 1: ks.reverse()
    elif x == 2: k = r.randrange(len(ks)); ks = ks[k:] + ks[:k]
    elif x == 3: r.shuffle(ks)
    elif x == 4: ks.append(ks.pop(r.randrange(len(ks))))               # one too early
    elif x == 5: ks.insert(r.randrange(len(ks)), ks.pop())             # the last one out of place
    elif x == 6: j = r.randrange(len(ks)); ks[j - 1], ks[j] = ks[j], ks[j - 1]
    elif x == 7: ks.insert(r.randrange(len(ks)), r.choice(ks))         # one twice
    return ks

# ------------------------------------------------------------------- validation
def image(v):
    """The image, for choosing offsets only (the specification computes its own)."""
    import struct
    def up(n, a): return (n + a - 1) // a * a
    def ty(v):
        t = v[0]
        if t == "o": return 0, 8
        if t == "a": return 1, 8
        if t == "s": return (4, 4) if len(unrle(v[1])) > 65535 else (2, 2)
        if t == "i":
            n = unlimbs(v[1:]); n = n - 2**64 if n >= 2**63 else n
            return (5, 2) if -2**15 <= n < 2**15 else (6, 4) if -2**31 <= n < 2**31 else (7, 8)
        if t == "d":
            x = struct.unpack("<d", struct.pack("<Q", unlimbs(v[1:])))[0]
            try: f = struct.unpack("<f", struct.pack("<f", x))[0] == x
            except OverflowError: f = False
            return (8, 4) if f else (9, 8)
        return (10, 1) if t == "b" else (11, 1)
    def st(b, big=False): return struct.pack("<I" if big else "<H", len(b)) + b + b"\0"
    def im(v):
        t, _ = ty(v)
        if t in (0, 1):
            n = len(v[1]); tab = b""; body = b""; off = 8 + 8 * n
            for e in v[1]:
                if t == 0:
                    k = unrle(e[0]); body += b"\0" * (up(off, 2) - off); off = up(off, 2); tt, al = ty(e[1])
                    tab += struct.pack("<IBB2s", off, tt, min(255, len(k)), k[:2].ljust(2, b"\0")); body += st(k); off += len(k) + 3; x = e[1]
                else: x = e; tt, al = ty(x)
                body += b"\0" * (up(off, al) - off); off = up(off, al)
                if t == 1: tab += struct.pack("<IB3x", off, tt)
                y = im(x); body += y; off += len(y)
            if t == 0: body += b"\0" * (up(off, 8) - off); off = up(off, 8)
            return struct.pack("<II", off, n) + tab + body
        if t in (2, 4): return st(unrle(v[1]), t == 4)
        if t == 5: return struct.pack("<H", v[1])
        if t == 6: return struct.pack("<HH", v[1], v[2])
        if t in (7, 9): return struct.pack("<4H", *v[1:5])
        if t == 8: return struct.pack("<f", struct.unpack("<d", struct.pack("<Q", unlimbs(v[1:])))[0])
        return bytes([v[1]]) if t == 10 else b""
    return im(v)

def c09_cases(r, n, exhaustive=12):
    out = []
    small = [O({}), O({b"a": I(1)}), O({b"": NULL}), O({b"a": S(b"xy"), b"b": D(0.1)}), O({b"k": A(I(1), I(2**40), NULL, S(b""))}), O({b"o": O({b"": B(True), b"zz": ["a", []]})}),
             O({b"a": A(["o", []], O({b"x": D(1.5)})), b"n": NULL}), O({b"key": S(b"0123456789"), b"kez": A(A(A()))}), O({b"b": S(b"q" * 300)}), O({b"x" * 260: I(70000)}),
             O({b"a": NULL, b"b": NULL, b"c": A(NULL, NULL)}), O({b"f": B(False), b"t": B(True), b"i": I(-2**31), b"l": I(-2**63), b"d": D(1e300), b"g": D(2.5)})]
    def muts_every(v):
        b = image(v); m = [[len(b), 0, []], [len(b) + r.choice([1, 8, 64]), 0, []]]
        m += [[k, 0, []] for k in range(len(b))] + [[len(b), k, []] for k in range(1, 8)]
        for i in range(min(len(b), 400)):
            for x in {0, 1, 255, 128, b[i] ^ 1, (b[i] + 1) % 256, (b[i] - 1) % 256, (b[i] + 8) % 256, (b[i] - 8) % 256, r.randrange(256), r.randrange(12)} - {b[i]}: m.append([len(b), 0, [[i, x]]])
        for k in range(0, len(b)): m.append([k if k % 3 else len(b), 0, [[j, (k >> (8 * j)) & 255] for j in range(4)]])     # the header agrees with the truncation
        for i in (0, 4):
            for x in r.sample(range(len(b) + 9), min(24, len(b) + 9)): m.append([len(b), 0, [[i, x & 255], [i + 1, x >> 8]]])
        for i in range(8, min(len(b), 200), 4):          # nested headers, offsets and lengths
            for x in r.sample(range(len(b) + 9), 4): m.append([len(b), 0, [[i, x & 255], [i + 1, x >> 8]]])
        return m
    def muts_some(v, k):
        b = image(v); m = [[len(b), 0, []], [len(b) + r.randrange(80), 0, []]]
        for _ in range(k):
            e = []
            for _ in range(r.choice([1, 1, 1, 2, 2, 3, 4])):
                x = r.random()
                if x < .5: i = r.randrange(len(b)); e.append([i, r.choice([0, 1, 2, 255, 127, 128, b[i] ^ (1 << r.randrange(8)), (b[i] + r.randrange(-16, 17)) % 256, r.randrange(12)])])
                elif x < .8 and len(b) >= 16:       # some 32-bit field becomes a plausible offset or count
                    i = 4 * r.randrange(len(b) // 4); val = r.choice([r.randrange(len(b) + 9), len(b), 0, 8, 2**32 - 1, 2**31, 2**31 - 1, 2**32 - 8, r.randrange(8)])
                    e += [[i + j, (val >> (8 * j)) & 255] for j in range(4)]
                else:                                 # copy a few bytes within the image
                    n = r.choice([1, 2, 4, 8]); i, j = r.randrange(len(b)), r.randrange(len(b))
                    e += [[i + q, b[j + q]] for q in range(n) if i + q < len(b) and j + q < len(b)]
            m.append([len(b) if r.random() < .8 else r.randrange(len(b) + 1), 0 if r.random() < .97 else r.randrange(1, 8), e])
        return m
    for v in small[:exhaustive]: 
        m = muts_every(v)
        for i in range(0, len(m), 400): out.append([dict(o="val", v=v, m=m[i:i + 400], h=0)])
    for _ in range(n):
        v = wide_obj(r, r.choice([0, 1, 1, 2]))
        if len(image(v)) < 1200: out.append([dict(o="val", v=v, m=muts_some(v, 60), h=0)])
    for v in (O({b"k" * 65535: I(2**40)}), O({b"big": S(b"q" * 65536)}), O({b"b": S(b"q" * 65535), b"c": D(.1)})): out.append([dict(o="val", v=v, m=[[len(image(v)), 0, []]], h=0)])
    return out
