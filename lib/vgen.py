"""Random programs for the handle machine. A light shadow of the values steers the generator towards
operations that do something; it is not an oracle (the TLA+ specification is)."""
import json, random
from vals import *

def keyless(k): return (len(unrle(k)), unrle(k))

class Shadow:
    def __init__(s, n, m):
        s.v = [NULL] * (n + 1); s.f = [False] * (n + 1)   # 1-based
        s.it = [None] * (m + 1)

def fidx(v, k):
    for i, e in enumerate(v[1]):
        if e[0] == k: return i
    return -1

def putf(fs, k, v):
    fs = [e for e in fs if e[0] != k] + [[k, v]]
    return sorted(fs, key=lambda e: keyless(e[0]))

class Gen:
    def __init__(g, seed, packet, slots=5, its=2, weights=None, keys=None, err=.15, weird=.05, queries=0, self_p=.06, big=0.0):
        g.r = random.Random(seed); g.packet = packet; g.n = slots; g.m = its if packet else 0
        g.w = weights or W_COW; g.keys = keys or KEYS[:9]; g.err = err; g.weird = weird; g.nq = queries; g.big = big
        g.self_p = self_p; g.long = .2
        g.s = Shadow(slots, its); g.lines = []

    def key(g):
        r = g.r
        if r.random() < g.big: return rle(r.choice([b"k" * 65535, b"k" * 65536, b"k" * 70000]))
        if r.random() < g.weird: return rle(r.choice(WEIRD_KEYS))
        return rle(r.choice(g.keys))

    def slot(g, pred=None):
        c = [i for i in range(1, g.n + 1) if pred is None or pred(i)]
        return g.r.choice(c) if c else None

    def mut(g, tag, fin=False):   # a slot holding a mutable value with that tag
        return g.slot(lambda i: g.s.v[i][0] in tag and (not g.s.f[i] or fin))

    def val(g): return value(g.r, 2, g.keys, 3)

    def src(g, d, allow_move=True):
        r = g.r; x = r.random()
        if x < .45: return ["lit", g.val()]
        if x < .45 + g.self_p: return ["slot", d]
        s = g.slot(lambda i: i != d)
        if x > .85 and allow_move: return ["mslot", s]
        return ["slot", s]

    def srcval(g, src): return src[1] if src[0] == "lit" else g.s.v[src[1]]

    def skey(g, d, hit=.5):      # string key, often one that exists in slot d
        v = g.s.v[d]
        if v[0] == "o" and v[1] and g.r.random() < hit: k = g.r.choice(v[1])[0]
        else: k = g.key()
        if g.r.random() < .15:
            t = g.slot(lambda i: g.s.v[i] == ["s", k])
            if t: return ["v", t], k
        return ["k", k], k

    def ikey(g, n, extra=1):
        r = g.r
        i = r.randrange(0, n + extra) if n + extra > 0 else 0
        if r.random() < .12:
            t = g.slot(lambda j: g.s.v[j] == I(i))
            if t: return ["v", t], i
        return ["x", i], i

    def anykey(g, d):
        r = g.r; x = r.random()
        if x < .4: return g.skey(d)[0]
        if x < .8: return ["x", r.choice([0, 1, 2, 3, 5, 100, -1, 2147483647])]
        return ["v", g.slot()]

    def q(g):
        out = []
        for _ in range(g.nq):
            if g.r.random() < .5: continue
            s = g.slot(); out.append([s, squery(g.r, g.s.v[s], g.keys, g.key)])
        return out

    def emit(g, **op):
        op["h"] = g.r.randrange(0, 240)
        if g.nq:
            q = g.q()
            if q: op["q"] = q
        g.lines.append(op)

    def set(g, d, v, f=None):
        g.s.v[d] = v
        g.s.f[d] = bool(f) and v[0] != "n"

    def consume(g, src, d=None):
        if src[0] == "mslot" and not g.s.f[src[1]]: g.set(src[1], NULL)    # a finalized argument is copied

    # ------------------------------------------------------------------ one step
    def step(g):
        r = g.r
        names = list(g.w); op = r.choices(names, [g.w[n] for n in names])[0]
        getattr(g, "g_" + op)()

    def g_new(g):
        d = g.slot(); k = g.r.random()
        bo = 1.0 if g.w is W_OBJ else 0.0 if g.w is W_ARR else .45
        if bo == 1.0 and k > .85: k = .99; bo = 0
        v = objv(g.r, 2, g.keys, 3) if k < bo else arrv(g.r, 2, g.keys, 3) if k < .75 else value(g.r, 2, g.keys, 3)
        g.emit(o="new", d=d, v=v); g.set(d, v)
    def g_copy(g):
        d, s = g.slot(), g.slot(lambda i: g.s.v[i][0] in "oas") or g.slot()
        g.emit(o="copy", d=d, s=s); g.set(d, g.s.v[s], g.s.f[s])
    def g_move(g):
        d, s = g.slot(), g.slot()
        if d == s and g.r.random() < .7: return
        g.emit(o="move", d=d, s=s)
        if d != s: g.set(d, g.s.v[s], g.s.f[s]); g.set(s, NULL)
    def g_swap(g):
        d, s = g.slot(), g.slot()
        if d == s: return
        g.emit(o="swap", d=d, s=s)
        a, b = (g.s.v[d], g.s.f[d]), (g.s.v[s], g.s.f[s]); g.set(d, *b); g.set(s, *a)
    def g_drop(g):
        d = g.slot(); g.emit(o="drop", d=d); g.set(d, NULL)

    def fetch(g, rv):
        r = g.r
        s = g.slot(lambda i: g.s.v[i][0] in "oa" and g.s.v[i][1]) or g.slot()
        if r.random() < g.err: s = g.slot()
        d = g.slot(lambda i: i != s) if rv else g.slot()
        v, f = g.s.v[s], g.s.f[s]; t = v[0]; res = "err"; fr = f
        kinds = ["get", "get", "at", "front", "back", "atfront", "atback"]
        if not rv: kinds += ["self", "or", "nth", "nth", "nthkey", "nest"]
        if t == "o": kinds = [k for k in kinds if "front" not in k and "back" not in k or r.random() < g.err]
        if t != "o": kinds = [k for k in kinds if k not in ("nthkey",) or r.random() < g.err]
        k = r.choice(kinds)
        n = len(v[1]) if t in "oa" else 0
        def look(K):
            kind = K[0]; x = K[1]
            if kind == "v":
                vv = g.s.v[x]
                if vv[0] == "s": kind, x = "k", vv[1]
                elif vv[0] == "i":
                    u = unlimbs(vv[1:]); kind, x = "x", u if u < 2**31 else -1
                else: return "bad", None
            if t == "o" and kind == "k":
                i = fidx(v, x); return ("hit", v[1][i][1]) if i >= 0 else ("miss", NULL)
            if t == "a" and kind == "x":
                return ("hit", v[1][x]) if 0 <= x < n else ("miss", NULL)
            return "bad", None
        if k == "self": how = ["self"]; res = v
        elif k in ("get", "at", "or"):
            K = g.skey(s)[0] if t == "o" else g.ikey(n)[0] if t == "a" else g.anykey(s)
            if r.random() < g.err: K = g.anykey(s)
            st, x = look(K)
            if k == "get": how = ["get", K]; res = x if st != "bad" else "err"
            elif k == "at": how = ["at", K]; res = x if st == "hit" else "err"
            else:
                dv = ["lit", g.val()] if r.random() < .6 else ["slot", g.slot()]
                how = ["or", K, dv]
                if st == "hit": res = x
                elif t == "a" and K[0] == "v" and g.s.v[K[1]][0] != "i": return
                else: res = g.srcval(dv); fr = dv[0] == "slot" and g.s.f[dv[1]]
        elif k in ("front", "back"):
            how = [k]; res = "err" if t != "a" else NULL if n == 0 else v[1][0 if k == "front" else -1]
        elif k in ("atfront", "atback"):
            how = [k]; res = "err" if t != "a" or n == 0 else v[1][0 if k == "atfront" else -1]
        elif k == "nth":
            i = r.randrange(max(n, 1)); how = ["nth", i]
            if t not in "oa": res = "err"
            elif n == 0: return
            else: res = v[1][i][1] if t == "o" else v[1][i]
        elif k == "nthkey":
            i = r.randrange(max(n, 1)); how = ["nthkey", i]
            if t != "o": res = "err"
            elif n == 0: return
            else: res = ["s", v[1][i][0]]
        else:
            path, cur = [], v
            for _ in range(r.randrange(1, 4)):
                if cur[0] == "o" and cur[1] and r.random() < .8: e = r.choice(cur[1]); path.append(unrle(e[0])); cur = e[1]
                else: path.append(unrle(g.key()))
            sep = r.choice(b"./:")
            p = bytes([sep]).join(path)
            if r.random() < .2: p += bytes([sep])
            how = ["nest", rle(p), sep]
            ps = p.split(bytes([sep]))
            if ps[-1] == b"": ps = ps[:-1]
            cur = v
            for x in ps:
                if cur[0] != "o": cur = NULL; break
                i = fidx(cur, rle(x)); cur = cur[1][i][1] if i >= 0 else NULL
            res = cur
        g.emit(o="rfetch" if rv else "fetch", d=d, s=s, k=how)
        if res != "err":
            if rv and g.packet: g.set(s, NULL)
            g.set(d, res, fr)
    def g_fetch(g): g.fetch(False)
    def g_rfetch(g): g.fetch(True)

    def failing(g, src):
        return ["slot", src[1]] if src[0] == "mslot" else src

    def insset(g, setp):
        r = g.r
        d = g.mut("oa") or g.slot()
        if r.random() < g.err: d = g.slot()
        v, f = g.s.v[d], g.s.f[d]; t = v[0]; src = g.src(d); name = "set" if setp else "ins"
        if t == "o" and r.random() > g.err:
            if v[1] and r.random() < .15:
                n = r.randrange(len(v[1])); K = ["it", n]; k = v[1][n][0]
            else: K, k = g.skey(d, .85 if setp else .4)
            ok = not f and len(unrle(k)) <= 65535 and (not setp or fidx(v, k) >= 0)
            if K[0] == "v" and src == ["mslot", K[1]]: src = ["slot", K[1]]
            if not ok: src = g.failing(src)
            x = g.srcval(src)
            g.emit(o=name, d=d, k=K, v=src)
            if ok: g.consume(src); g.set(d, ["o", putf(v[1], k, x)])
        elif t == "a" and r.random() > g.err:
            n = len(v[1])
            if r.random() < .15 and n + (not setp) > 0:
                i = r.randrange(n + (not setp)); K = ["it", i]
            else: K, i = g.ikey(n, 0 if setp and n else 1)
            ok = not f and (i < n if setp else i <= n)
            if K[0] == "v" and src == ["mslot", K[1]]: src = ["slot", K[1]]
            if not ok: src = g.failing(src)
            x = g.srcval(src)
            g.emit(o=name, d=d, k=K, v=src)
            if ok:
                g.consume(src); l = list(v[1])
                if setp: l[i] = x
                else: l.insert(i, x)
                g.set(d, ["a", l])
        else:
            K = g.anykey(d); src = g.failing(src)
            kk = g.s.v[K[1]][0] if K[0] == "v" else K[0]
            if not f and (t == "o" and kk in "ks" or t == "a" and kk in "xi"): return
            g.emit(o=name, d=d, k=K, v=src)
    def g_ins(g): g.insset(False)
    def g_set(g): g.insset(True)

    def g_del(g):
        r = g.r; d = g.mut("oa") or g.slot()
        if r.random() < g.err: d = g.slot()
        v, f = g.s.v[d], g.s.f[d]; t = v[0]
        if t == "o" and r.random() > g.err:
            if v[1] and r.random() < .15: n = r.randrange(len(v[1])); K = ["it", n]; k = v[1][n][0]
            else: K, k = g.skey(d, .8)
            g.emit(o="del", d=d, k=K)
            if not f: g.set(d, ["o", [e for e in v[1] if e[0] != k]])
        elif t == "a" and r.random() > g.err:
            n = len(v[1])
            if n and r.random() < .15: i = r.randrange(n); K = ["it", i]
            else: K, i = g.ikey(n)
            g.emit(o="del", d=d, k=K)
            if not f: g.set(d, ["a", v[1][:i] + v[1][i + 1:]])
        else:
            K = g.anykey(d)
            kk = g.s.v[K[1]][0] if K[0] == "v" else K[0]
            if not f and (t == "o" and kk in "ks" or t == "a" and kk in "xi"): return
            g.emit(o="del", d=d, k=K)

    def push(g, back):
        d = g.mut("a") or g.slot()
        if g.r.random() < g.err: d = g.slot()
        v, f = g.s.v[d], g.s.f[d]; src = g.src(d); ok = v[0] == "a" and not f
        if not ok: src = g.failing(src)
        x = g.srcval(src)
        g.emit(o="pushb" if back else "pushf", d=d, v=src)
        if ok: g.consume(src); g.set(d, ["a", v[1] + [x] if back else [x] + v[1]])
    def g_pushb(g): g.push(True)
    def g_pushf(g): g.push(False)
    def pop(g, back):
        d = g.mut("a") or g.slot()
        if g.r.random() < g.err: d = g.slot()
        v, f = g.s.v[d], g.s.f[d]
        g.emit(o="popb" if back else "popf", d=d)
        if v[0] == "a" and not f: g.set(d, ["a", v[1][:-1] if back else v[1][1:]])
    def g_popb(g): g.pop(True)
    def g_popf(g): g.pop(False)
    def g_clear(g):
        d = g.mut("oa") or g.slot()
        if g.r.random() < g.err: d = g.slot()
        v, f = g.s.v[d], g.s.f[d]
        g.emit(o="clear", d=d)
        if v[0] in "oa" and not f: g.set(d, [v[0], []])
    def g_resize(g):
        r = g.r; d = g.mut("a") or g.slot()
        if r.random() < g.err: d = g.slot()
        v, f = g.s.v[d], g.s.f[d]; n = r.randrange(7)
        src = ["lit", NULL] if r.random() < .4 else g.src(d, False)
        x = g.srcval(src)
        g.emit(o="resize", d=d, n=n, v=src)
        if v[0] == "a" and not f: g.set(d, ["a", (v[1] + [x] * n)[:n]])
    def g_reserve(g):
        d = g.mut("a") or g.slot()
        if g.r.random() < g.err: d = g.slot()
        g.emit(o="reserve", d=d, n=g.r.choice([0, 1, 4, 33]))
    def g_deep(g):
        s = g.slot(lambda i: g.s.v[i][0] in "oa") or g.slot()
        d = g.slot(); g.emit(o="deep", d=d, s=s); g.set(d, g.s.v[s], g.s.f[s])
    def g_inj(g):
        r = g.r; s = g.slot(lambda i: g.s.v[i][0] == "o") or g.slot()
        if r.random() < g.err: s = g.slot()
        d = g.slot(); v = g.s.v[s]; ps = []; fs = v[1] if v[0] == "o" else []
        for _ in range(r.choice([0, 1, 1, 2, 2, 3]) if r.random() < 1 - g.long / 4 else r.randrange(9, 20)):
            K, k = g.skey(s)
            if len(unrle(k)) > 65535: continue
            src = ["lit", g.val()] if r.random() < .6 else ["slot", g.slot()]
            ps.append([K, src]); fs = putf(fs, k, g.srcval(src))
        g.emit(o="inj", d=d, s=s, p=ps)
        if g.s.f[s]:      # duplicates among the injected keys are refused
            ks = [json.dumps(K[1] if K[0] == "k" else g.s.v[K[1]][1]) for K, _ in ps]
            if len(set(ks)) < len(ks): return
        if v[0] == "o": g.set(d, ["o", fs], g.s.f[s])
    def g_proj(g):
        r = g.r; s = g.slot(lambda i: g.s.v[i][0] == "o") or g.slot()
        if r.random() < g.err: s = g.slot()
        d = g.slot(); v = g.s.v[s]
        ks = [g.skey(s, .7)[1] for _ in range(r.randrange(4) if r.random() < 1 - g.long else r.randrange(4, 24))]
        ks = [k for k in ks if len(unrle(k)) <= 65535]
        g.emit(o="proj", d=d, s=s, p=ks)
        if v[0] == "o": g.set(d, ["o", [e for e in v[1] if e[0] in ks]], g.s.f[s])

    # ------------------------------------------------------------------ packets only
    def g_fin(g):
        if not g.packet: return
        d = g.slot(lambda i: g.s.v[i][0] == "o" and not g.s.f[i]) or g.slot()
        if g.r.random() < g.err: d = g.slot()
        g.emit(o="fin", d=d)
        if g.s.v[d][0] == "o": g.set(d, g.s.v[d], True)
    def g_lift(g):
        if not g.packet: return
        d = g.slot(lambda i: g.s.f[i]) or g.slot()
        g.emit(o="lift", d=d); g.set(d, g.s.v[d], False)
    def g_it(g):
        if not g.packet or not g.m: return
        r = g.r; i = r.randrange(1, g.m + 1); c = g.s.it[i]; x = r.random()
        if c is None or x < .2:
            s = g.slot(lambda j: g.s.f[j] and g.s.v[j][0] in "oa")
            if s is None: return g.g_fin()
            v = g.s.v[s]; keys = 1 if v[0] == "o" and r.random() < .4 else 0
            g.emit(o="itnew", i=i, s=s, n=keys)
            es = [["s", e[0]] for e in v[1]] if keys else [e[1] for e in v[1]] if v[0] == "o" else list(v[1])
            g.s.it[i] = [es, 0]
        elif x < .4:
            g.emit(o="itadv", i=i)
            if c[1] < len(c[0]): c[1] += 1
        elif x < .5:
            g.emit(o="itback", i=i)
            if c[1] > 0: c[1] -= 1
        elif x < .8:
            d = g.slot(); g.emit(o="itget", i=i, d=d)
            if c[1] < len(c[0]): g.set(d, c[0][c[1]], True)
        elif x < .9:
            j = r.randrange(1, g.m + 1); g.emit(o="itcopy", i=i, n=j)
            g.s.it[j] = list(c)
        else:
            g.emit(o="itdrop", i=i); g.s.it[i] = None

    def program(g, steps):
        its = g.m
        g.lines.append({"o": "reset", "slots": g.n, "its": its})
        for _ in range(2): g.g_new()
        for _ in range(steps): g.step()
        return g.lines

W_COW = dict(new=4, copy=10, move=2, swap=1, drop=3, fetch=9, rfetch=1, ins=12, set=6, **{"del": 6}, pushb=5, pushf=3, popb=3, popf=3,
             clear=3, resize=3, reserve=2, deep=1, inj=3, proj=2)
W_FIN = dict(new=4, copy=6, move=3, swap=1, drop=5, fetch=10, rfetch=4, ins=6, set=3, **{"del": 3}, pushb=3, pushf=1, popb=1, popf=1,
             clear=1, resize=1, reserve=1, deep=3, inj=3, proj=3, fin=8, lift=4, it=16)
W_IMM = dict(new=5, copy=4, move=1, drop=1, fetch=8, ins=10, set=8, **{"del": 8}, pushb=5, pushf=4, popb=4, popf=4,
             clear=5, resize=5, reserve=4, deep=1, inj=3, proj=3, fin=10, lift=2)
W_OWN = dict(new=4, copy=12, move=8, swap=5, drop=8, fetch=14, rfetch=6, ins=10, set=5, **{"del": 5}, pushb=4, pushf=2, popb=2, popf=2,
             clear=2, resize=3, reserve=1, deep=2, inj=4, proj=4, fin=4, lift=3, it=6)

W_OBJ = dict(new=2, copy=3, drop=1, fetch=2, ins=22, set=10, **{"del": 14}, clear=1, inj=3, proj=2, deep=1, move=1)
W_ARR = dict(new=2, copy=2, drop=1, fetch=3, ins=14, set=8, **{"del": 10}, pushb=10, pushf=7, popb=6, popf=6, clear=1, resize=6, reserve=3, move=1)

# ------------------------------------------------------------------------- queries
def query(r, v, keys, key=None):
    key = key or (lambda: rle(r.choice(keys)))
    t = v[0]
    def k():
        x = r.random()
        if t == "o" and v[1] and x < .55: return r.choice(v[1])[0]
        return key()
    def K():
        x = r.random()
        if t == "a":
            if x < .7: return ["x", r.randrange(len(v[1]) + 2)]
        elif x < .7: return ["k", k()]
        return r.choice([["k", k()], ["x", r.choice([0, 1, 5, -1])], ["V", S(unrle(k()))], ["V", I(r.randrange(3))], ["V", r.choice([NULL, D(1.0), B(True)])]])
    simple = ["val", "type", "is", "size", "empty", "keys", "vals", "fwd", "rev", "kfwd", "krev", "kv", "rkv", "front", "back", "atfront",
              "atback", "str", "int", "dec", "num", "flag"]
    x = r.random()
    if x < .45: return [r.choice(simple)]
    if x < .75: return [r.choice(["get", "br", "at"]), K()]
    if x < .80: return ["or", K(), scalar(r)]
    if x < .85: return ["hask", ["k", k()] if r.random() < .8 else ["V", r.choice([S(unrle(k())), NULL, I(1)])]]
    if x < .90: return [r.choice(["find", "findkey"]), ["k", k()]]
    if x < .94:
        p, cur = [], v
        for _ in range(r.randrange(1, 4)):
            if cur[0] == "o" and cur[1] and r.random() < .8: e = r.choice(cur[1]); p.append(unrle(e[0])); cur = e[1]
            else: p.append(unrle(key()))
        sep = r.choice(b"./"); b = bytes([sep]).join(p)
        return ["nest", rle(b + (bytes([sep]) if r.random() < .2 else b"")), sep]
    o = r.choice(["frontor", "backor", "stror", "intor", "decor", "numor", "flagor"])
    if o in ("frontor", "backor"): return [o, scalar(r)]
    if o == "stror": return [o, rle(r.choice([b"", b"dflt", b"d" * 30]))]
    if o == "flagor": return [o, r.randrange(2)]
    if o == "intor": return [o, limbs(r.choice(INTS) & (2**64 - 1))]
    return [o, limbs(dbits(r.choice(DECS)))]

def squery(r, v, keys, key=None):
    """For the drivers that hold owners: also the value read back from its text or its bytes."""
    if r.random() < .08: return [r.choice(["json", "wire"])]
    return query(r, v, keys, key)

def write(path, progs):
    with open(path, "w") as f:
        for p in progs:
            for l in p: f.write(json.dumps(l, separators=(",", ":")) + "\n")
