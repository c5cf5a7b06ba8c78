"""Native types, native values and packets to convert between (C18)."""
import struct
from vals import *
from vals import B as Bv
import qgen

INT = lambda bits, s: ["int", bits, s]
NUL, BOOL, I32, I64, STR, DBL, FLT = ["null"], ["bool"], INT(32, 1), INT(64, 1), ["str"], ["dbl"], ["flt"]
opt = lambda t: ["opt", t]
var = lambda *t: ["var", list(t)]
tup = lambda *t: ["tup", list(t)]
seq = lambda t: ["seq", t]
arr = lambda n, t: ["arr", n, t]
st = lambda o, m, t: ["set", o, m, t]
mp = lambda o, m, t, k=STR: ["map", o, m, k, t]
TIME, USER, UKEY, DART = ["time"], ["user"], ["ukey"], ["dart"]
MAP = mp(1, 0, I32)

PARTS = [
    {"null": NUL, "bool": BOOL, "i8": INT(8, 1), "u8": INT(8, 0), "char": INT(8, 1), "i16": INT(16, 1), "u16": INT(16, 0), "i32": I32, "u32": INT(32, 0), "i64": I64, "u64": INT(64, 0)},
    {"flt": FLT, "dbl": DBL, "str": STR, "time": TIME, "timens": TIME, "const7": ["const", [7, 0, 0, 0]], "user": USER, "opt_int": opt(I32), "opt_str": opt(STR), "opt_bool": opt(BOOL)},
    {"opt_vec": opt(seq(I32)), "var_ids": var(I32, DBL, STR), "var_di": var(DBL, I64), "var_svm": var(STR, seq(I32), MAP), "var_os": var(opt(I32), STR), "var_bi": var(BOOL, I32),
     "tup0": tup(), "tup1": tup(I32), "tup2": tup(I32, STR), "tup4": tup(BOOL, DBL, opt(STR), I64)},
    {"pair_si": tup(STR, I32), "pair_vm": tup(seq(I32), mp(1, 0, BOOL)), "vec_int": seq(I32), "vec_dbl": seq(DBL), "vec_str": seq(STR), "vec_vec": seq(seq(I32)), "vec_opt": seq(opt(I32)),
     "vec_user": seq(USER), "vec_heap": seq(DART)},
    {"deq_str": seq(STR), "list_int": seq(I32), "fl_str": seq(STR), "fl_int": seq(I32), "list_tup": seq(tup(STR, I32)), "deq_map": seq(mp(1, 0, opt(I32))), "arr1": arr(1, I32), "arr3": arr(3, I32),
     "arr_str": arr(2, STR), "arr_opt": arr(2, opt(seq(I32)))},
    {"set_int": st(1, 0, I32), "set_str": st(1, 0, STR), "uset_int": st(0, 0, I32), "uset_str": st(0, 0, STR), "mset_int": st(1, 1, I32), "mset_str": st(1, 1, STR), "umset_int": st(0, 1, I32),
     "umset_str": st(0, 1, STR), "mset_dbl": st(1, 1, DBL), "set_vec": st(1, 0, seq(I32))},
    {"map_int": MAP, "map_str": mp(1, 0, STR), "map_opt": mp(1, 0, opt(I32)), "umap_opt": mp(0, 0, opt(STR)), "umap_int": mp(0, 0, I32), "map_vec": mp(1, 0, seq(DBL)), "map_bad": mp(1, 0, I32, I32),
     "map_ukey": mp(1, 0, I32, UKEY), "map_user": mp(1, 0, USER), "map_pkt": mp(1, 0, DART)},
    {"mmap_int": mp(1, 1, I32), "mmap_str": mp(1, 1, STR), "ummap_int": mp(0, 1, I32), "ummap_opt": mp(0, 1, opt(I32)), "mmap_vec": mp(1, 1, seq(I32)), "mmap_ukey": mp(1, 1, I32, UKEY),
     "map_deep": mp(1, 0, mp(1, 0, seq(opt(I32)))), "map_var": mp(1, 0, var(I32, STR)), "umap_set": mp(0, 0, st(1, 0, STR))},
]

def sint(l): n = unlimbs(l); return n - 2**64 if n >= 2**63 else n

def native(r, T, small=False):
    k = T[0]; sub = lambda t: native(r, t, True)
    if k == "null": return NULL
    if k == "bool": return Bv(r.random() < .5)
    if k == "int":
        lo, hi = (-2**(T[1] - 1), 2**(T[1] - 1) - 1) if T[2] else (0, min(2**T[1], 2**63) - 1)
        if small and r.random() < .7: return I(r.randrange(0, 4))
        c = [n for n in INTS + [lo, hi, lo + 1, hi - 1] if lo <= n <= hi]
        return I(r.choice(c) if r.random() < .7 else r.randrange(lo, hi + 1))
    if k == "dbl": return D(r.choice([0.5, 1.0, 2.0, -3.25] if small and r.random() < .6 else DECS))
    if k == "flt": return D(struct.unpack("<f", struct.pack("<f", r.choice([x for x in DECS if abs(x) < 3.4e38])))[0])
    if k == "str": return S(r.choice([b"a", b"b", b"", b"ab"] if small and r.random() < .6 else STRS + [b"big" * 22000] if r.random() < .02 else STRS))
    if k == "opt": return ["none"] if r.random() < .35 else ["some", sub(T[1])]
    if k == "var": i = r.randrange(len(T[1])); return ["alt", i + 1, native(r, T[1][i], small)]
    if k == "tup": return ["l", [sub(t) for t in T[1]]]
    if k == "seq": return ["l", [sub(T[1]) for _ in range(r.choice([0, 1, 1, 2, 3, 4]))]]
    if k == "arr": return ["l", [sub(T[2]) for _ in range(T[1])]]
    if k == "set":
        l = [sub(T[3]) for _ in range(r.choice([0, 1, 2, 3, 4]))]
        if T[2] and l and r.random() < .6: l.append(r.choice(l))
        return ["l", l if T[2] else [x for i, x in enumerate(l) if x not in l[:i]]]
    if k == "map":
        n = r.choice([0, 1, 2, 3, 4]); out = []; keys = [b"", b"a", b"b", b"c", b"ab", b"k\0y", b"long_key_" + b"k" * 30, b"name"]
        for _ in range(n):
            key = I(r.randrange(5)) if T[3][0] == "int" else ["k", rle(r.choice(keys))] if T[3][0] == "ukey" else S(r.choice(keys))
            if T[2] or key not in [e[0] for e in out]: out.append([key, sub(T[4])])
        if T[2] and out and r.random() < .6: out.append([r.choice(out)[0], sub(T[4])])
        return ["m", out]
    if k == "time":
        days = r.choice([0, 1, -1, 59, 60, 365, 11016, 11017, 18321, 18322, 16860, 24855, -25567, -25508, 47540, -105000, 106000, 789]) if r.random() < .6 else r.randrange(-105000, 106000)
        return ["t", days, r.choice([0, 1, 59, 60, 3599, 3600, 43200, 86399, r.randrange(86400)])]
    if k == "const": return ["i"] + T[1]
    if k == "user": return ["u", rle(r.choice([b"", b"ann", b"bob"])), limbs(r.choice([0, 1, -1, 2**40]) & (2**64 - 1))]
    if k == "ukey": return ["k", rle(r.choice([b"", b"a", b"key"]))]
    if k == "dart": return value(r, 1)
    raise Exception(k)

def civil(z):
    import datetime
    return (datetime.date(1970, 1, 1) + datetime.timedelta(days=z)).isoformat().encode()

def conv(r, T, x, loose=False):
    """What x converts to (loosely: a value with the same meaning)."""
    k = T[0]; sub = lambda t, y: conv(r, t, y, loose)
    if k == "opt": return NULL if x[0] == "none" else sub(T[1], x[1])
    if k == "var": return sub(T[1][x[1] - 1], x[2])
    if k == "tup": return A(*[sub(t, y) for t, y in zip(T[1], x[1])])
    if k in ("seq", "arr", "set"):
        l = [sub(T[-1], y) for y in x[1]]
        if k == "set" and (loose or r.random() < .2): r.shuffle(l)
        return ["a", l]
    if k == "map":
        d = {}
        for key, y in x[1]:
            kb = unrle(key[1]) if key[0] in "sk" else str(sint(key[1:])).encode()
            v = sub(T[4], y)
            if T[2]: d.setdefault(kb, ["a", []])[1].append(v)
            else: d[kb] = v
        return O(d)
    if k == "time":
        s = x[2]; return S(civil(x[1]) + b"T%02d:%02d:%02d.000Z" % (s // 3600, s // 60 % 60, s % 60))
    if k == "user": return O({b"name": ["s", x[1]], b"num": ["i"] + x[2]})
    if k == "ukey": return ["s", x[1]]
    if k in ("int", "const") and loose and r.random() < .5 and abs(sint(x[1:])) < 2**24: return D(float(sint(x[1:])))
    if k in ("flt", "dbl") and loose and r.random() < .5:
        f = struct.unpack("<d", struct.pack("<Q", unlimbs(x[1:])))[0]
        if f == int(f) and abs(f) < 2**24: return I(int(f))
    return x

STAMPS = [b"2020-02-29T12:34:56Z", b"2020-02-29T12:34:56", b"1999-12-31T23:59:59.999Z", b"1970-01-01T00:00:00.000Z", b"2020-02-29", b"", b"not a date", b"2020-02-29T12:34", b"2020/02/29T12:34:56Z",
          b"2000-02-29T00:00:00.5Z", b"1900-03-01T00:00:01Z", b"1969-12-31T23:59:59.000Z", b"2020-1-2T3:4:5Z", b"T12:00:00Z", b"2020-02-29 12:34:56Z"]

def suited(r, T):
    """A packet value of the right shape, with the odd deviation, not made from a native value."""
    k = T[0]; odd = r.random() < .06; sub = lambda t: suited(r, t)
    if odd or k == "dart": return value(r, 1)
    if k == "null": return NULL
    if k in ("int", "const"): return I(r.choice(INTS)) if r.random() < .9 else D(7.0)
    if k in ("dbl", "flt"): return D(r.choice(DECS))
    if k == "bool": return r.choice([Bv(True), Bv(False)] * 3 + qgen.SCALARS)
    if k == "str": return S(r.choice(STRS))
    if k == "opt": return NULL if r.random() < .3 else sub(T[1])
    if k == "var": return sub(r.choice(T[1]))
    if k == "tup": n = len(T[1]) + r.choice([0] * 6 + [-1, 1]); return A(*[sub(T[1][i]) if i < len(T[1]) else NULL for i in range(max(n, 0))])
    if k == "arr": return A(*[sub(T[2]) for _ in range(max(0, T[1] + r.choice([0] * 6 + [-1, 1])))])
    if k in ("seq", "set"): return A(*[sub(T[-1]) for _ in range(r.randrange(5))])
    if k == "map":
        def val():
            if T[2] and r.random() < .8: return A(*[sub(T[4]) for _ in range(r.randrange(4))])
            return sub(T[4])
        return O({r.choice(KEYS): val() for _ in range(r.randrange(4))})
    if k == "time": return S(r.choice(STAMPS)) if r.random() < .7 else conv(r, T, native(r, T))
    if k == "user": return O({b"name": S(r.choice(STRS)), b"num": I(r.choice(INTS)), **({b"extra": value(r, 0)} if r.random() < .4 else {})})
    return S(r.choice(KEYS))

def addfield(r, T, v):
    """An object with one field more, or one field whose list is longer."""
    if v[0] != "o": return qgen.mutate(r, v)
    d = {unrle(e[0]): e[1] for e in v[1]}
    if d and r.random() < .4:
        k = r.choice(list(d))
        if d[k][0] == "a" and d[k][1]: d[k] = A(*d[k][1], r.choice(d[k][1])) if r.random() < .5 else A(*d[k][1][1:])
        else: del d[k]
    else: d[r.choice([b"zz", b"b", b"extra", b"a\0"])] = r.choice([NULL, I(1), A(), A(I(1)), S(b"a")])
    return O(d)

def swapnull(r, v):
    """Moves a null field to another name: an absent field reads as null too."""
    d = {unrle(e[0]): e[1] for e in v[1]}
    ks = [k for k in d if d[k] == NULL]
    if not ks: return addfield(r, None, v)
    del d[r.choice(ks)]; d[r.choice([b"q", b"other", b"zz"])] = NULL
    return O(d)

def dup(r, v):
    """A list in which one element stands for another: the same number as integer and decimal."""
    l = list(v[1])
    if len(l) > 1:
        i, j = r.sample(range(len(l)), 2); l[j] = l[i]
        if l[i][0] == "i" and abs(sint(l[i][1:])) < 2**20 and r.random() < .6: l[j] = D(float(sint(l[i][1:])))
    return ["a", l]

def hard(v):
    """Comparisons whose answer depends on how numbers are widened: integers beyond 2^24 and decimals that are no float."""
    return v[0] == "i" and abs(sint(v[1:])) > 2**24

def case(r, name, T):
    x = native(r, T); y = r.random()
    if y < .3: v = conv(r, T, x, True)
    elif y < .5: v = qgen.mutate(r, conv(r, T, x, r.random() < .5))
    elif y < .62 and T[0] in ("map", "seq", "set", "arr", "tup", "opt", "var"):
        v = conv(r, T, x)
        v = (swapnull(r, v) if r.random() < .4 else addfield(r, T, v)) if v[0] == "o" else dup(r, v) if v[0] == "a" else qgen.mutate(r, v)
    elif y < .9: v = suited(r, T)
    else: v = value(r, 2)
    if T[0] == "flt" and hard(v): v = NULL
    return [{"o": "conv", "T": name, "t": T, "x": x, "v": v, "h": r.randrange(100)}]

def cases(r, part, n):
    names = list(PARTS[part])
    return [case(r, names[i % len(names)], PARTS[part][names[i % len(names)]]) for i in range(n)]
