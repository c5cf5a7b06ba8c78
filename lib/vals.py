"""Abstract values in the trace encoding and pools of interesting ones."""
import random, struct

def rle(b):
    if isinstance(b, str): b = b.encode()
    out = []
    i = 0
    while i < len(b):
        j = i
        while j < len(b) and b[j] == b[i] and j - i < 8000000: j += 1
        out.append(b[i] + 256 * (j - i)); i = j
    return out

def unrle(r):
    return b''.join(bytes([x % 256]) * (x // 256) for x in r)

def limbs(u): return [(u >> (16 * i)) & 0xffff for i in range(4)]
def unlimbs(l): return l[0] | l[1] << 16 | l[2] << 32 | l[3] << 48

NULL = ["n"]
def B(b): return ["b", 1 if b else 0]
def I(n): return ["i"] + limbs(n & (2**64 - 1))
def dbits(x): return struct.unpack('<Q', struct.pack('<d', x))[0]
def D(x): return ["d"] + limbs(dbits(x))
def S(b): return ["s", rle(b)]
def A(*xs): return ["a", list(xs)]
def klt(b): return (len(b), b)
def O(d):
    items = sorted(((k if isinstance(k, bytes) else k.encode(), v) for k, v in d.items()), key=lambda e: klt(e[0]))
    return ["o", [[rle(k), v] for k, v in items]]

INTS = [0, 1, -1, 2, 42, 127, 128, -128, 255, 32767, 32768, -32768, -32769, 65535, 65536, 2**31 - 1, 2**31, -2**31,
        -2**31 - 1, 2**32, 2**53, 2**53 + 1, -2**53 - 1, 2**63 - 1, -2**63, 2**62 + 12345, 10**18]
DECS = [0.5, -0.5, 1.0, -1.0, 0.1, -3.25, 1e10, 1e-10, 3.4028234663852886e38, 3.4028235677973366e38, 1e39, 1.17549435e-38, 1e-45,
        1.401298464324817e-45, 5e-324, 1.7976931348623157e308, 2.5, 16777217.0, 16777216.0, 9007199254740993.0, 1.1754942106924411e-38, 3.141592653589793]
STRS = [b"", b"a", b"b", b"hello", b"ab", b"0123456789", b"x" * 22, b"x" * 23, b"x" * 24, b"y" * 40, b"z" * 100, b"\xc3\xa9", b"a\x00b",
        b"\x00", b'q"\\/\n\t', b"true", b"1", b"null"]
KEYS = [b"", b"a", b"b", b"c", b"ab", b"ba", b"aa", b"abc", b"abd", b"key", b"kez", b"\xc3\xa9", b"a\xff", b"\x80\x01", b"long_key_" + b"k" * 30,
        b"long_key_" + b"k" * 29 + b"j"]
WEIRD_KEYS = [b"a\x00", b"a\x00b", b"\x00", b"k" * 254, b"k" * 255, b"k" * 256, b"j" + b"k" * 255, b"k" * 300]

def scalar(r, heavy=False):
    k = r.randrange(14)
    if k == 0: return NULL
    if k == 1: return B(r.random() < .5)
    if k in (2, 3, 4): return I(r.choice(INTS) if r.random() < .6 else r.randrange(-100, 100))
    if k in (5, 6): return D(r.choice(DECS))
    if k == 7 and heavy: return S(bytes(r.randrange(256) for _ in range(r.randrange(60))))
    return S(r.choice(STRS))

def value(r, depth=2, keys=KEYS, width=4):
    k = r.random()
    if depth <= 0 or k < .45: return scalar(r)
    if k < .72:
        return O({r.choice(keys): value(r, depth - 1, keys, width) for _ in range(r.randrange(width + 1))})
    return A(*[value(r, depth - 1, keys, width) for _ in range(r.randrange(width + 1))])

def objv(r, depth=2, keys=KEYS, width=4):
    return O({r.choice(keys): value(r, depth - 1, keys, width) for _ in range(r.randrange(width + 1))})
def arrv(r, depth=2, keys=KEYS, width=4):
    return A(*[value(r, depth - 1, keys, width) for _ in range(r.randrange(width + 1))])
