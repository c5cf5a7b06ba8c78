"""Programs of several threads (thr.cc)."""
import copy, random
import vgen
from vals import *

W_SETUP = {"new": 30, "copy": 20, "ins": 20, "pushb": 15, "fetch": 10, "set": 5}
W_THREAD = {"new": 3, "copy": 12, "move": 5, "swap": 2, "drop": 9, "fetch": 14, "rfetch": 4, "ins": 14, "set": 9, "del": 9, "pushb": 9, "pushf": 3, "popb": 5, "popf": 3, "clear": 3, "resize": 3, "reserve": 2, "deep": 2, "inj": 3, "proj": 3}
def program(seed, packet, nth, slots, setup, steps, keep, finalize=0.0, queries=1, weights=None):
    g = vgen.Gen(str(seed), packet, slots=slots, its=1, weights=W_SETUP, err=.02, queries=0)
    for _ in range(setup): g.step()
    r = random.Random("%s/f" % seed)
    if packet:
        for d in range(1, slots + 1):
            if g.s.v[d][0] == "o" and r.random() < finalize: g.emit(o="fin", d=d); g.set(d, g.s.v[d], True)
    lines = [dict(o="reset", slots=slots, its=g.m, keep=int(keep))] + [l for l in g.lines]
    base = copy.deepcopy(g.s)
    for t in range(nth):
        h = vgen.Gen("%s/%d" % (seed, t), packet, slots=slots, its=1, weights=weights or W_THREAD, err=.05, queries=queries)
        h.s = copy.deepcopy(base); h.keys = g.keys
        while len(h.lines) < steps: h.step()
        lines.append(dict(o="thread"))
        for l in h.lines:
            if keep:
                for _ in range(r.choice([0, 1, 1, 2])):
                    k = r.randrange(1, slots + 1)
                    l.setdefault("q", []).append([slots + k, vgen.squery(r, base.v[k], h.keys, h.key)])
            lines.append(l)
    return lines

# Wide objects and long key lists, every thread doing nearly the same: state a function keeps between calls would be shared.
W_BUSY = {"proj": 14, "inj": 12, "fin": 8, "lift": 5, "copy": 8, "deep": 4, "fetch": 4, "ins": 3, "del": 2}
def busy(seed, packet, nth, steps):
    r = random.Random("%s/b" % seed); keys = r.sample(KEYS + [bytes([97 + i, 97 + j]) for i in range(5) for j in range(4)], 26)
    wide = lambda: O({k: r.choice([I(r.randrange(100)), S(b"x" * r.choice([1, 40])), NULL, B(1)]) for k in r.sample(keys, r.randrange(12, 24))})
    base = vgen.Gen(str(seed), packet, slots=3, its=1, weights=W_SETUP, keys=keys, err=0, queries=0)
    for d in (1, 2):
        v = wide(); base.emit(o="new", d=d, v=v); base.set(d, v)
        if packet and r.random() < .6: base.emit(o="fin", d=d); base.set(d, v, True)
    lines = [dict(o="reset", slots=3, its=base.m, keep=0)] + list(base.lines)
    h = vgen.Gen("%s/t" % seed, packet, slots=3, its=1, weights=W_BUSY, keys=keys, err=.02, queries=1)
    h.s = copy.deepcopy(base.s); h.long = .8
    while len(h.lines) < steps: h.step()
    for l in h.lines:
        if r.random() < .4: l.setdefault("q", []).append([r.randrange(1, 4), [r.choice(["json", "wire", "val"])]])
    for t in range(nth): lines.append(dict(o="thread")); lines += h.lines
    return lines
def busy_programs(seed, n, packet):
    return [busy("%s/%d" % (seed, i), packet, 2 + i % 2, 10) for i in range(n)]

class Prog(list): pass
def programs(seed, n, packet, **kw):
    out = []
    for i in range(n):
        r = random.Random("%s/%d" % (seed, i))
        out.append(program("%s/%d" % (seed, i), packet, r.choice([2, 2, 3]), r.choice([2, 3]), r.choice([3, 5]), r.choice([4, 6]), r.random() < .4, **kw))
    return out
