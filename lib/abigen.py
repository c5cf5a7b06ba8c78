"""Random programs for the C interface (abi.cc, TrAbi). The shadow only steers; the specification decides."""
import json, random
from vals import *
import vgen, tgen, qgen
from vgen import fidx, putf

H, B_, K_ = 1, 2, 3
W_MIX = dict(mk=8, va=4, json=3, bytes=3, copy=8, move=3, conv=9, drop=3, ins=14, set=6, rem=6, clear=2, resize=2, reserve=1, fetch=12, each=3, it=12)
W_MUT = dict(mk=6, va=3, copy=6, move=2, conv=2, drop=2, ins=24, set=10, rem=10, clear=3, resize=3, reserve=2, fetch=6, each=2)
W_FIN = dict(mk=4, json=4, bytes=8, copy=5, move=3, conv=14, drop=3, ins=6, fetch=12, each=4, it=24)
W_MAKE = dict(mk=5, va=30, json=14, conv=6, copy=2, fetch=2)

class Gen:
    def __init__(g, seed, slots=5, its=3, weights=None, keys=None, err=.12, queries=2, weird=.06, unsafe=.3):
        g.r = random.Random(seed); g.n = slots; g.m = its; g.w = weights or W_MIX; g.keys = keys or KEYS[:9]; g.err = err; g.nq = queries
        g.weird = weird; g.unsafe = unsafe
        g.v = [NULL] * (slots + 1); g.f = [False] * (slots + 1); g.t = [(K_, 1)] * (slots + 1); g.it = [None] * (its + 1); g.lines = []

    def key(g): return rle(g.r.choice(WEIRD_KEYS)) if g.r.random() < g.weird else rle(g.r.choice(g.keys))
    def slot(g, pred=None):
        c = [i for i in range(1, g.n + 1) if pred is None or pred(i)]
        return g.r.choice(c) if c else None
    def put(g, d, v, f, t): g.v[d] = v; g.f[d] = bool(f) and v[0] != "n"; g.t[d] = t
    def val(g): return value(g.r, 2, g.keys, 3)
    def emit(*a, **op):
        g, = a
        op["h"] = g.r.randrange(0, 480)
        q = []
        for _ in range(g.nq):
            if g.r.random() < .5: continue
            s = g.slot(); v = g.v[s]; x = g.r.random()
            if x < .1: e = ["has", g.skey(s)]
            elif x < .25: e = ["eq", g.slot()]
            elif x < .32 and v[0] in "oa": e = ["json"] if jsonable(v) else ["size"]
            elif x < .4: e = ["bytes"]
            else: e = [g.r.choice(["type", "is", "size", "str", "int", "dec", "flag"])]
            q.append([s, e])
        if q: op["q"] = q
        g.lines.append(op)
        return op["h"]
    def fail(g, d, kind, h):
        if h % 2 == 0: g.put(d, NULL, False, (kind, 1))
    def skey(g, d, hit=.55):
        v = g.v[d]
        return g.r.choice(v[1])[0] if v[0] == "o" and v[1] and g.r.random() < hit else g.key()
    def rc(g): return 2 if g.r.random() < g.unsafe else 1

    # ------------------------------------------------------------------ steps
    def step(g):
        n = list(g.w); getattr(g, "g_" + g.r.choices(n, [g.w[x] for x in n])[0])()
    def g_mk(g):
        d = g.slot(); k = g.r.choice([H, H, K_, K_, K_, B_]); rc = g.rc()
        v = NULL if k == B_ else g.r.choice([objv, objv, arrv, value])(g.r, 2, g.keys, 3)
        g.emit(o="mk", d=d, t=[k, rc], v=v); g.put(d, v, False, (k, rc))
    def g_va(g):
        r = g.r; d = g.slot(); k = r.choice([H, K_]); rc = g.rc(); obj = r.random() < .6
        fmt, args, budget = [], [], [20, 7]
        def text(): return rle(r.choice([s for s in STRS if b"\0" not in s]))
        def items(o, depth):
            fs = []; n = r.choice([0, 1, 2, 2, 3, 4])
            for _ in range(n):
                if budget[0] < 4 or budget[1] < 1: break
                key = None
                if o: key = rle(r.choice([x for x in g.keys if b"\0" not in x])); args.append(["k", key]); budget[0] -= 1
                c = r.choice(["s", "S", "i", "ui", "l", "ul", "d", "b", "n", " "] + (["o", "a"] if depth else []))
                for x in c: fmt.append(x)
                if c == "s": x = text(); args.append(["s", x]); budget[0] -= 1; v = ["s", x]
                elif c == "S": x = rle(r.choice(STRS)); args.append(["S", x]); budget[0] -= 2; v = ["s", x]
                elif c in ("i", "ui", "l", "ul"):
                    u = r.choice(INTS) & (2**64 - 1); args.append(["i"] + limbs(u)); budget[0] -= 1
                    u = (u & 0xffffffff) - (2**32 if c == "i" and u & 0x80000000 else 0) if c in ("i", "ui") else u
                    v = I(u)
                elif c == "d": x = D(r.choice(DECS)); args.append(["d"] + x[1:]); budget[1] -= 1; v = x
                elif c == "b": x = r.randrange(2); args.append(["b", x]); budget[0] -= 1; v = B(x)
                elif c in ("o", "a"): v = items(c == "o", depth - 1)
                else: v = NULL
                fs = putf(fs, key, v) if o else fs + [v]
            if depth < 2: fmt.append(",")
            return ["o" if o else "a", fs]
        v = items(obj, 2)
        while fmt and fmt[-1] == "," and r.random() < .5: fmt.pop()      # trailing ends may be left out
        bad = r.random() < g.err
        if bad:
            fmt = fmt + [r.choice(["x", "u", "z", "1", "?"])] if r.random() < .5 else fmt[:-1] + ["u", "x"]
            for _ in range(3): args.append(["k", rle(b"pad")])
            bad = True
        h = g.emit(o="va", d=d, t=[k, rc], n=int(obj), f="".join(fmt), g=fmt, a=args)
        if bad: g.fail(d, k, h)
        else: g.put(d, v, False, (k, rc))
    def g_json(g):
        r = g.r; d = g.slot(); k = r.choice([H, B_, K_]); rc = g.rc(); x = r.random()
        v = objv(r, 2, g.keys, 3) if x < .6 or k == B_ else arrv(r, 2, g.keys, 3)
        if x < .75 and jsonable(v): t = qgen_text(r, v)
        elif x < .88: t = tgen.json_text(r, 2, 0).encode("utf8", "replace"); v = None
        else: t = r.choice([b"", b"{", b"nul", b"[1,]", b"{\"a\":1,}", b"\"s\"", b"1", b"{\"a\" 1}", b"{}x", b"[]"]); v = None
        t = t.replace(b"\0", b"")
        h = g.emit(o="json", d=d, t=[k, rc], x=rle(t))
        if v is not None and (v[0] == "o" or k != B_) and x < .75 and jsonable(v): g.put(d, v, k == B_, (k, rc))
        else: g.put(d, NULL, False, g.t[d] if h % 2 else (k, 1)); g.lines.append({"o": "drop", "d": d, "h": 0}); g.put(d, NULL, False, (K_, 1))
    def g_bytes(g):
        r = g.r; s = g.slot(lambda i: g.f[i] and g.v[i][0] == "o") or g.slot()
        if r.random() < g.err: s = g.slot()
        d = g.slot(); k = r.choice([B_, K_]); rc = g.rc(); f = r.choice(["from", "take"])
        h = g.emit(o="bytes", d=d, s=s, t=[k, rc], f=f)
        if g.f[s] and g.v[s][0] == "o" and not (f == "take" and h // 24 % 4 == 3): g.put(d, g.v[s], True, (k, rc))
    def g_copy(g):
        s = g.slot(lambda i: g.v[i][0] in "oas") or g.slot(); d = g.slot()
        g.emit(o="copy", d=d, s=s); g.put(d, g.v[s], g.f[s], g.t[s])
    def g_move(g):
        s = g.slot(); d = g.slot(lambda i: i != s); g.emit(o="move", d=d, s=s)
        g.put(d, g.v[s], g.f[s], g.t[s]); g.put(s, NULL, False, g.t[s])
    def g_conv(g):
        r = g.r; s = g.slot(lambda i: g.v[i][0] == "o") or g.slot()
        if r.random() < g.err: s = g.slot()
        d = g.slot(); k, rc = g.t[s]
        fs = ["lower", "finalize", "lift", "definalize", "to_heap", "to_buffer"] + (["heap_lower", "heap_finalize"] * 3 if k == H else ["buffer_lift", "buffer_definalize"] * 3 if k == B_ else [])
        f = r.choice(fs)
        rk = B_ if f in ("heap_lower", "heap_finalize", "to_buffer") else H if f in ("buffer_lift", "buffer_definalize", "to_heap") else K_
        h = g.emit(o="conv", d=d, s=s, f=f)
        down = f in ("heap_lower", "heap_finalize", "lower", "finalize", "to_buffer")
        if not down or g.f[s] or g.v[s][0] == "o": g.put(d, g.v[s], down, (rk, rc))
        elif g.v[s][0] == "n": g.lines.append({"o": "drop", "d": d, "h": 0}); g.put(d, NULL, False, (K_, 1))
        else: g.fail(d, rk, h)
    def g_drop(g): d = g.slot(); g.emit(o="drop", d=d); g.put(d, NULL, False, (K_, 1))

    def target(g, tags):
        d = g.slot(lambda i: g.v[i][0] in tags and not g.f[i] and g.t[i][0] != B_) or g.slot()
        return g.slot() if g.r.random() < g.err * .6 else d
    def insset(g, name):
        r = g.r; d = g.target("oa"); v = g.v[d]; t = v[0]; x = r.random()
        same = lambda i: g.t[i][1] == g.t[d][1] or r.random() < .1
        if x < .5: src = ["lit", g.val()]
        elif x < .8: src = ["slot", g.slot(same)]
        else: src = ["mslot", g.slot(lambda i: i != d and same(i))]; src = src if src[1] else ["lit", g.val()]
        mut = not g.f[d] and g.t[d][0] != B_
        if t == "a" and r.random() > g.err * .5:
            n = len(v[1]); i = r.randrange(n + (name == "ins")) if n + (name == "ins") else 0
            if r.random() < g.err: i = r.choice([n + 1, n + 5, -1, 2**31])
            k = ["x", i]; ok = mut and 0 <= i < n + (name == "ins")
        elif t == "o" or r.random() < .5:
            k = ["k", g.skey(d, .8 if name == "set" else .3)]
            ok = mut and t == "o" and (name == "ins" or fidx(v, k[1]) >= 0)
        else: k = ["x", r.randrange(3)]; ok = False
        if src[0] != "lit" and g.t[src[1]][1] != g.t[d][1]: ok = False
        if not ok and src[0] == "mslot": src = ["slot", src[1]]
        nv = src[1] if src[0] == "lit" else g.v[src[1]]
        if src[0] == "mslot" and g.v[src[1]] == NULL: src = ["slot", src[1]]
        g.emit(o=name, d=d, k=k, v=src)
        if not ok: return
        if src[0] == "mslot": g.put(src[1], NULL, False, g.t[src[1]])
        if t == "o": g.v[d] = ["o", putf(v[1], k[1], nv)]
        else:
            l = list(v[1])
            if name == "ins": l.insert(k[1], nv)
            else: l[k[1]] = nv
            g.v[d] = ["a", l]
    def g_ins(g): g.insset("ins")
    def g_set(g): g.insset("set")
    def g_rem(g):
        r = g.r; d = g.target("oa"); v = g.v[d]; mut = not g.f[d] and g.t[d][0] != B_
        if v[0] == "a" and r.random() > g.err * .5:
            n = len(v[1]); i = r.randrange(n + 1); g.emit(o="del", d=d, k=["x", i])
            if mut: g.v[d] = ["a", v[1][:i] + v[1][i + 1:]]
        else:
            k = g.skey(d, .7); g.emit(o="del", d=d, k=["k", k])
            if mut and v[0] == "o": g.v[d] = ["o", [e for e in v[1] if e[0] != k]]
    def g_clear(g):
        d = g.target("oa"); g.emit(o="clear", d=d)
        if g.v[d][0] in "oa" and not g.f[d] and g.t[d][0] != B_: g.v[d] = [g.v[d][0], []]
    def g_resize(g):
        d = g.target("a"); n = g.r.randrange(7); g.emit(o="resize", d=d, n=n)
        if g.v[d][0] == "a" and not g.f[d] and g.t[d][0] != B_: g.v[d] = ["a", (g.v[d][1] + [NULL] * n)[:n]]
    def g_reserve(g): g.emit(o="reserve", d=g.target("a"), n=g.r.choice([0, 1, 5, 40]))

    def g_fetch(g):
        r = g.r; s = g.slot(lambda i: g.v[i][0] in "oa" and g.v[i][1]) or g.slot()
        if r.random() < g.err: s = g.slot()
        d = g.slot(); v = g.v[s]; t = v[0]; n = len(v[1]) if t in "oa" else 0; typed = r.randrange(2); x = r.random(); res = None; fr = g.f[s]
        if x < .6:
            if t == "o" and r.random() > g.err: k = g.skey(s, .7); how = ["get", ["k", k]]; i = fidx(v, k); res = v[1][i][1] if i >= 0 else NULL
            elif t == "a" and r.random() > g.err: i = r.choice([r.randrange(n + 1), n + 3]); how = ["get", ["x", i]]; res = v[1][i] if i < n else NULL
            else: how = ["get", r.choice([["k", g.key()], ["x", r.randrange(3)]])]; res = NULL if (t == "o") == (how[1][0] == "k") and t in "oa" else None
            kind = g.t[s][0] if typed else K_
        else:
            keys = x > .85; i = r.randrange(n + 1) if r.random() < .5 else r.randrange(max(n, 1)); how = ["nthkey" if keys else "nth", i]; kind = K_
            if t in "oa" and (t == "o" or not keys) and i < n: res = (["s", v[1][i][0]] if keys else v[1][i][1]) if t == "o" else v[1][i]
        h = g.emit(o="fetch", d=d, s=s, k=how, n=typed)
        if how[0] != "get" and (t not in "oa" or how[0] == "nthkey" and t != "o"): return       # no iterator: an error in either spelling
        rc = g.t[s][1]
        if res is None: g.fail(d, kind, h)
        elif how[0] == "get" and how[1][0] == "k" and t == "o" and fidx(v, how[1][1]) >= 0 and res[0] != "n" or res[0] != "n": g.put(d, res, fr, (kind, rc))
        else: g.put(d, NULL, False, (kind, rc))
    def g_each(g):
        s = g.slot(lambda i: g.v[i][0] in "oa") if g.r.random() < .85 else g.slot()
        if s: g.emit(o="each", s=s, n=int((g.v[s][0] == "o" or g.r.random() < .1) and g.r.random() < .5))
    def g_it(g):
        r = g.r; i = r.randrange(1, g.m + 1); c = g.it[i]; x = r.random()
        if c is None or x < .18:
            s = g.slot(lambda j: g.f[j] and g.v[j][0] in "oa")
            if s is None: return g.g_conv()
            v = g.v[s]; keys = int(v[0] == "o" and r.random() < .4)
            if r.random() < g.err: s = g.slot(); keys = r.randrange(2); v = g.v[s]
            g.emit(o="itnew", i=i, s=s, n=keys)
            if g.f[s] and (v[0] == "o" or v[0] == "a" and not keys):
                g.it[i] = [[["s", e[0]] for e in v[1]] if keys else [e[1] for e in v[1]] if v[0] == "o" else list(v[1]), 0, g.t[s][1]]
        elif x < .42:
            g.emit(o="itadv", i=i)
            if c[1] < len(c[0]): c[1] += 1
        elif x < .72:
            d = g.slot(); h = g.emit(o="itget", i=i, d=d)
            if c[1] < len(c[0]): g.put(d, c[0][c[1]], True, (K_, c[2]))
            else: g.fail(d, K_, h)
        elif x < .8: g.emit(o="itdone", i=i)
        elif x < .93:
            j = r.randrange(1, g.m + 1); mv = r.random() < .3; g.emit(o="itmove" if mv else "itcopy", i=i, n=j)
            if i != j:
                g.it[j] = list(c)
                if mv: g.it[i] = [[], 0, 1]
        else: g.emit(o="itdrop", i=i); g.it[i] = None

    def program(g, steps):
        g.lines.append({"o": "reset", "slots": g.n, "its": g.m})
        for _ in range(3): g.g_mk()
        for _ in range(steps): g.step()
        return g.lines

def jsonable(v):
    t = v[0]
    if t == "s": 
        try: unrle(v[1]).decode("utf8"); return b"\0" not in unrle(v[1])
        except UnicodeDecodeError: return False
    if t == "o": return all(jsonable(["s", e[0]]) and jsonable(e[1]) for e in v[1])
    if t == "a": return all(map(jsonable, v[1]))
    if t == "d": return qgen.fits_json(v)
    return True

def qgen_text(r, v):
    def tx(v):
        t = v[0]
        if t == "n": return "null"
        if t == "b": return "true" if v[1] else "false"
        if t == "i": u = unlimbs(v[1:]); return str(u - 2**64 if u >= 2**63 else u)
        if t == "d":
            import struct
            return repr(struct.unpack("<d", struct.pack("<Q", unlimbs(v[1:])))[0])
        if t == "s": return tgen.str_text(r, unrle(v[1]).decode("utf8"))
        if t == "a": return "[" + ",".join(map(tx, v[1])) + "]"
        fs = list(v[1]); r.shuffle(fs)
        return "{" + ",".join(tx(["s", k]) + ":" + tx(x) for k, x in fs) + "}"
    return tx(v).encode("utf8")

# ---------------------------------------------------------------------- every function once
S_ = lambda b: ["s", rle(b)]
CLASSES = [S_(b"s"), S_(b""), S_(b"a string beyond the short form, so that it is shared"), S_(b"nu\0l"), I(7), I(-1), I(2**31), I(-2**40 - 3), I(2**63 - 1), D(.1), D(-1e300), D(3.0), B(1), B(0), NULL,
           ["o", [[rle(b"x"), I(1)]]], ["a", [B(1), NULL]]]
SPELL = list(range(4, 8)) + list(range(16, 20)) + list(range(0, 4)) + list(range(24, 28))
BASE = ["o", putf([], rle(b""), B(1))]
for _k, _v in [(b"a", I(1)), (b"arr", ["a", [I(300), D(.5), S_(b"t"), B(1), NULL, ["a", []], ["o", []]]]), (b"b", B(0)), (b"d", D(2.5)), (b"nu\0l", NULL), (b"o", ["o", [[rle(b"k"), S_(b"v")]]]), (b"s", S_(b"text")), (b"e", ["a", []])]:
    BASE = ["o", putf(BASE[1], rle(_k), _v)]

def tour_write(r, kind, rc, name, h):
    L = [{"o": "reset", "slots": 4, "its": 1}]; hb = [0]
    def e(**op): op.setdefault("h", h); L.append(op)
    e(o="mk", d=1, t=[kind, rc], v=["o", putf([], rle(b"a"), NULL)]); e(o="mk", d=2, t=[kind, rc], v=["a", [I(1), I(2)]])
    vs = list(CLASSES); r.shuffle(vs)
    for i, v in enumerate(vs):
        absent = rle(b"n%d" % i)
        for k in (["k", rle(b"a")], ["k", absent]): e(o=name, d=1, k=k, v=["lit", v])
        e(o="del", d=1, k=["k", absent])
        for k in (0, 1, 2, 3):
            if k < 3 or i % 4 == 0: e(o=name, d=2, k=["x", k], v=["lit", v])
        if name == "ins": e(o="del", d=2, k=["x", 0]); e(o="resize", d=2, n=2)
        e(o="mk", d=3, t=[r.choice([H, K_]), rc], v=v)
        e(o=name, d=1, k=["k", rle(b"a")], v=["slot", 3])
        if v != NULL and name == "ins": e(o=name, d=2, k=["x", 1], v=["mslot", 3]); e(o="del", d=2, k=["x", 1])
        if v != NULL and name == "set": e(o=name, d=1, k=["k", rle(b"a")], v=["mslot", 3])
    return L

def tour_read(r, kind, rc, h):
    L = [{"o": "reset", "slots": 5, "its": 2}]
    def e(**op):
        op.setdefault("h", h)
        L.append(op)
    def ask(s, keys=(b"a", b"", b"zz", b"nu\0l", b"nu")):
        q = [[s, [n]] for n in ("type", "is", "size", "str", "int", "dec", "flag", "bytes")] + [[s, ["has", rle(k)]] for k in keys] + [[s, ["eq", j]] for j in range(1, 6)]
        L[-1]["q"] = q[:len(q) // 2] if r.random() < .5 else q[len(q) // 2:]
    if kind == B_:
        e(o="mk", d=5, t=[K_, rc], v=BASE); e(o="conv", d=5, s=5, f="finalize"); e(o="bytes", d=1, s=5, t=[B_, rc], f=r.choice(["from", "take"]), h=h)
        e(o="bytes", d=1, s=5, t=[B_, rc], f="from", h=h)
    else: e(o="mk", d=1, t=[kind, rc], v=BASE)
    ask(1)
    e(o="copy", d=2, s=1); ask(1); e(o="each", s=1, n=0); e(o="each", s=1, n=1)
    ks = [x[0] for x in BASE[1]] + [rle(b"zz"), rle(b"nu")]
    for typed in (0, 1):
        for k in ks: e(o="fetch", d=3, s=1, k=["get", ["k", k]], n=typed); ask(3, (b"k", b"q"))
        e(o="fetch", d=3, s=1, k=["get", ["k", rle(b"arr")]], n=typed)
        for i in range(8): e(o="fetch", d=4, s=3, k=["get", ["x", i]], n=typed); ask(4, (b"k",))
        e(o="fetch", d=4, s=1, k=["get", ["x", 0]], n=typed); e(o="fetch", d=4, s=3, k=["get", ["k", rle(b"k")]], n=typed)
        e(o="fetch", d=4, s=1, k=["get", ["k", rle(b"s")]], n=typed); e(o="fetch", d=5, s=4, k=["get", ["k", rle(b"s")]], n=typed); e(o="fetch", d=5, s=4, k=["get", ["x", 0]], n=typed)
    fs = ["lower", "finalize", "lift", "definalize", "to_heap", "to_buffer"] + (["heap_lower", "heap_finalize"] if kind == H else ["buffer_lift", "buffer_definalize"] if kind == B_ else [])
    for f in fs:
        e(o="fetch", d=4, s=1, k=["get", ["k", rle(b"o")]], n=1)
        e(o="conv", d=5, s=1, f=f); ask(5)
        e(o="conv", d=5, s=4, f=f)
        e(o="fetch", d=4, s=1, k=["get", ["k", rle(b"s")]], n=1); e(o="conv", d=5, s=4, f=f)
    return L

def tour_wrong(r, v, kind, rc, h):
    "Every operation on a value it is not for."
    L = [{"o": "reset", "slots": 4, "its": 1}]
    def e(**op): op.setdefault("h", h); L.append(op)
    if kind == B_: e(o="mk", d=1, t=[K_, rc], v=["o", putf([], rle(b"v"), v)]); e(o="conv", d=2, s=1, f="to_buffer"); e(o="fetch", d=1, s=2, k=["get", ["k", rle(b"v")]], n=1)
    else: e(o="mk", d=1, t=[kind, rc], v=v)
    e(o="mk", d=2, t=[r.choice([H, K_]), r.choice([1, 2])], v=I(5))
    ops = []
    for x in CLASSES:
        for name in ("ins", "set"):
            for k in (["k", rle(b"a")], ["x", 0]): ops.append(dict(o=name, d=1, k=k, v=["lit", x]))
    ops = r.sample(ops, 10)
    for name in ("ins", "set"):
        for k in (["k", rle(b"a")], ["x", 0]): ops.append(dict(o=name, d=1, k=k, v=["slot", 2]))
    for k in (["k", rle(b"a")], ["x", 0]): ops.append(dict(o="del", d=1, k=k))
    ops += [dict(o="clear", d=1), dict(o="resize", d=1, n=2), dict(o="reserve", d=1, n=3), dict(o="each", s=1, n=0), dict(o="each", s=1, n=1)]
    for t in (0, 1):
        for k in (["get", ["k", rle(b"a")]], ["get", ["x", 0]], ["nth", 0], ["nthkey", 0]): ops.append(dict(o="fetch", d=3, s=1, k=k, n=t))
    for f in ["lower", "finalize", "lift", "definalize", "to_heap", "to_buffer"] + (["heap_lower", "heap_finalize"] if kind == H else ["buffer_lift", "buffer_definalize"] if kind == B_ else []): ops.append(dict(o="conv", d=3, s=1, f=f))
    for f in ("from", "take"):
        for k in (B_, K_): ops.append(dict(o="bytes", d=3, s=1, t=[k, rc], f=f))
    r.shuffle(ops)
    for op in ops:
        e(**op)
        q = [[1, [n]] for n in ("type", "is", "size", "str", "int", "dec", "flag", "bytes")] + [[1, ["has", rle(b"a")]], [1, ["eq", 2]], [2, ["eq", 1]], [1, ["eq", 3]]]
        L[-1]["q"] = r.sample(q, 3)
    return L

def tour(r, part, of):
    P = []
    for kind in (H, K_):
        for name in ("ins", "set"):
            for h in SPELL: P.append(tour_write(r, kind, r.choice([1, 2]), name, h + 48 * r.randrange(5)))
    for kind in (H, B_, K_):
        for h in range(8): P.append(tour_read(r, kind, 1 + (h // 2 + r.randrange(2)) % 2 if h % 2 else r.choice([1, 2]), h + 8 * r.randrange(12)))
        for v in (NULL, I(3), D(1.5), B(1), S_(b"str"), S_(b"a string beyond the short form"), ["a", [I(1)]], BASE):
            for h in r.sample(range(8), 3): P.append(tour_wrong(r, v, kind, r.choice([1, 2]), h + 8 * r.randrange(12)))
    return P[part::of]
