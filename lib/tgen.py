"""Texts: JSON and YAML documents, valid and broken."""
import random, struct
from vals import *
import qgen

def num_text(r):
    x = r.random()
    if x < .3: return str(r.choice(INTS + [2**63, 2**64 - 1, 2**64, -2**63 - 1, 10**19, 18446744073709551616, 12345678901234567890123])) if r.random() < .6 else str(r.randrange(-1000, 1000))
    if x < .4: return r.choice(["-0", "0", "-0.0", "0.0", "0e0", "0E+5", "-0e-3", "1e0", "1E5", "1e+05", "2.50", "1.0", "100", "1e-5", "123e2", "0.001e3"])
    d = struct.unpack("<d", struct.pack("<Q", r.randrange(2**64)))[0]
    if d != d or d in (float("inf"), float("-inf")) or abs(d) > 1e290 or abs(d) < 1e-290 or x > .55: d = r.choice([r.random(), r.uniform(-1e6, 1e6), r.uniform(0, 1e22), r.choice(DECS), float(r.randrange(2**53)), r.random() * 2.0**r.randrange(-60, 200)])
    y = r.random()
    if y < .35: return repr(d).replace("inf", "1e9")
    if y < .6: return "%.*e" % (r.randrange(0, 25), d)
    if y < .7 and abs(d) < 1e25: return "%.*f" % (r.randrange(1, 30), d)
    if y < .85:     # close to a midpoint between two doubles
        u = struct.unpack("<Q", struct.pack("<d", d))[0]; n = struct.unpack("<d", struct.pack("<Q", u + 1))[0]
        from fractions import Fraction
        if n == n and abs(n) < 1e60 and abs(d) > 1e-40:
            m = (Fraction(d) + Fraction(n)) / 2; k = r.choice([20, 40, 60]); q = m * 10**k
            return "%de-%d" % (q.numerator // q.denominator + r.choice([-1, 0, 1]), k)
    return "%.17g" % d

def str_text(r, s):
    out = '"'
    for c in s:
        o = ord(c); x = r.random()
        if c in '"\\': out += "\\" + c if x < .8 else "\\u%04x" % o
        elif o < 32: out += {8: "\\b", 9: "\\t", 10: "\\n", 12: "\\f", 13: "\\r"}.get(o, "\\u%04x" % o) if x < .8 else "\\u%04X" % o
        elif x < .05 and o < 0x10000 and not 0xd800 <= o < 0xe000: out += "\\u%04x" % o
        elif x < .2 and o >= 0x10000: o -= 0x10000; out += "\\u%04x\\u%04X" % (0xd800 + (o >> 10), 0xdc00 + (o & 1023))
        elif c == "/" and x < .3: out += "\\/"
        else: out += c
    return out + '"'

CH = ["a", "b", "key", "", " ", "é", "€", "😀", "\u0000", "\t", "\n", '"', "\\", "/", "\x1f", "\x7f", "x" * 24, "{}", "[1,2]", "//", "/*", "\ufffd", "\U0010ffff", "\u0800", "\u07ff", "nul"]
def rstr(r): return "".join(r.choice(CH) for _ in range(r.choice([0, 1, 1, 2, 3, 6])))

def ws(r, f, dense=.7):
    if r.random() < dense: return ""
    out = "".join(r.choice([" ", "\n", "\t", "\r", "  "]) for _ in range(r.randrange(1, 3)))
    if f & 1 and r.random() < .5: out += r.choice(["/**/", "/* x */", "/***/", "// y\n", "//\n", "/* * / \" */", "/*/ */"]) + r.choice(["", " "])
    return out

def json_text(r, depth, f, keys=None):
    x = r.random()
    if depth <= 0 or x < .35:
        y = r.random()
        if y < .45: return num_text(r)
        if y < .7: return str_text(r, rstr(r))
        if y < .75 and f & 2: return r.choice(["NaN", "Inf", "Infinity", "-Inf", "-Infinity", "-NaN"])
        return r.choice(["true", "false", "null"])
    n = r.choice([0, 1, 1, 2, 3, 5])
    if x < .72:
        pool = [rstr(r) for _ in range(3)] + ["a", "b", "aa", ""]
        parts = [ws(r, f) + str_text(r, r.choice(pool)) + ws(r, f) + ":" + ws(r, f) + json_text(r, depth - 1, f) + ws(r, f) for _ in range(n)]
        o, c = "{", "}"
    else: parts = [ws(r, f) + json_text(r, depth - 1, f) + ws(r, f) for _ in range(n)]; o, c = "[", "]"
    t = ",".join(parts)
    if f & 4 and n and r.random() < .4: t += "," + ws(r, f)
    return o + (t or ws(r, f)) + c

def jdoc(r, f, depth=None):
    d = r.choice([1, 2, 3, 4]) if depth is None else depth
    while True:
        t = json_text(r, d, f)
        if r.random() < .95 and t[0] not in "{[": continue
        if t[0] == "[" and r.random() < .6: t = '{"r":' + t + "}"
        return ws(r, f) + t + ws(r, f)

JBAD = ["", " ", "{", "}", "[", "]", "{}}", "[]]", "{}{}", "{} []", "[1,2", "[1 2]", "[,]", "[,1]", "{,}", '{"a"}', '{"a":}', '{"a":1,}', "[1,]", "[1,,2]", '{"a":1,,"b":2}', '{a:1}', "{'a':1}", '{"a":1 "b":2}', '{"a" 1}',
        '{"a":01}', '{"a":1.}', '{"a":.5}', '{"a":+1}', '{"a":-}', '{"a":1e}', '{"a":1e+}', '{"a":0x10}', '{"a":1.e5}', '{"a":--1}', '{"a":1.2.3}', '{"a":tru}', '{"a":True}', '{"a":nul}', '{"a":nulll}', '{"a":falsee}', '{"a":TRUE}',
        '{"a":"x}', '{"a":"\\x"}', '{"a":"\\u12"}', '{"a":"\\u12g4"}', '{"a":"\\ud800"}', '{"a":"\\ud800x"}', '{"a":"\\ud800\\u0041"}', '{"a":"\\ud83d\\ude00"}', '{"a":"\\udc00"}', '{"a":"\n"}', '{"a":"\x01"}', '{"a":"\t"}', '{"a":"\\', '{"a":"\\"',
        '{"a":NaN}', '{"a":-NaN}', '{"a":Inf}', '{"a":-Inf}', '{"a":Infinity}', '{"a":Infinit}', '{"a":Infx}', '{"a":nan}', '{"a":N}', '{"a":I}', '{"a":infinity}', '{"a":-I}', '{/* c */"a":1}', '{"a":1}//x', '{"a":1}/*x', '{"a":1}/', '{"a"/**/:/**/1/**/,/**/"b":2}', '/*x*/{}', '//x\n{}', '//x', '/**/', '{"a":/ 1}', '{}/**/}',
        '["a",]', '[[],]', '{"a":{},}', '{"a":1,}x', '{,"a":1}', '[1]x', '[1] 2', 'null', 'true', '1', '"s"', '1.5', 'nul', '01', '1 2', '"s" x', '-', 'NaN', '\ufeff{}', '{"a":1}\n\n', '\r\n{"a":\t1}', '[{"a":[{"b":[1,{"c":null}]}]}]', '{"a":{"a":{"a":{}}},"a":[[[]]]}', '{"a":1,"a":2,"a":[3]}', '{"b":1,"a":2,"":3,"aa":4}',
        '{"":{"":{"":""}}}', '[[[[[[]]]]]]', '[{},[],{"":[]}]', '{"a":[],"b":{},"c":[{}]}', '{"a":1e309}', '{"a":-1e400}', '{"a":1e-400}', '{"a":123456789012345678901234567890}', '{"a":1.7976931348623157e308}', '{"a":2.2250738585072014e-308}', '{"a":5e-324}', '{"a":9007199254740993}', '{"a":9007199254740993.0}', '{"a":0.1,"b":1e23}']

MUT = list('{}[]",:0123456789.eE+-truefalsn \\/u*\n') + ["\x00x", "\x01", "é", "//", "/*", "*/", '\\u', "null", "true", ",,", '""']
def mutate_text(r, t):
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        i = r.randrange(len(t) + 1); x = r.random()
        if x < .35 and t: t = t[:max(0, i - 1)] + t[i:]
        elif x < .7: t = t[:i] + r.choice(MUT[:-11] + MUT[-10:]) + t[i:]
        elif x < .85 and t: t = t[:max(0, i - 1)] + r.choice(MUT[:38]) + t[i:]
        elif x < .93: t = t[:i]
        else: j = r.randrange(len(t) + 1); t = t[:i] + t[min(i, j):max(i, j)] + t[i:]
    return t

def enc(t): return rle(t if isinstance(t, bytes) else t.encode("utf-8", "surrogatepass"))

def c10_cases(r, n):
    out = []
    def one(t, raw=False): out.append([dict(o="parse", t=rle(t) if raw else enc(t), h=r.randrange(240))])
    for t in JBAD: one(t)
    one(b'{"a":"\xff\xfe"}', True); one(b'\xff{}', True); one(b'{"\x80":1}', True); one(b'{"a":1}\xc3', True)
    one('{"%s":1}' % ("k" * 65535)); one('{"a":{"%s":1}}' % ("k" * 65536)); one('[{"%s":[]}]' % ("k" * 70000)); one('{"a":"%s"}' % ("v" * 65536))
    one('{"a":' + "[" * 60 + "]" * 60 + "}"); one('{"a":' * 60 + "1" + "}" * 60)
    one("{" + ",".join('"k%d":%d' % (i, i) for i in range(120)) + "}"); one("[" + ",".join(str(i * 97) for i in range(200)) + "]")
    for _ in range(n):
        f = r.choice([0, 0, 0, 1, 2, 4, 7, 7, 5]); t = jdoc(r, f)
        if len(t) > 600: continue
        if r.random() < .4: t = mutate_text(r, t)
        if len(t.encode("utf-8", "surrogatepass")) < 900: one(t)
    return out

TOKENS = ["{", "}", "[", "]", ",", ":", '"a"', "1", "-", ".", "e", "0", "null", " ", "/**/", "//", "\n", "/", "NaN", "Inf", '"']
def c10_tokens(r, depth, keep=1.0):
    """Every sequence of up to `depth` tokens, at the root, in an array and as a member's value."""
    import itertools
    out = []
    for n in range(depth + 1):
        for ts in itertools.product(TOKENS, repeat=n):
            for pre, post in (("", ""), ("[", "]"), ('{"a":', "}")):
                if n < 2 or r.random() < keep: out.append([dict(o="parse", t=enc(pre + "".join(ts) + post), h=r.randrange(240))])
    return out

def has_text(v):
    if v[0] == "s":
        try: unrle(v[1]).decode(); return True
        except UnicodeDecodeError: return False
    if v[0] == "a": return all(has_text(x) for x in v[1])
    if v[0] == "o": return all(has_text(["s", k]) and has_text(x) for k, x in v[1])
    return True

UKEYS = [b"", b"a", b"b", b"ab", b"aa", "é".encode(), "😀".encode(), b"key", b'q"', b"back\\", b"n\n", b"z\0z", b"\x01", b"\x1f", b"\x7f", b"/"]
def c11_cases(r, n):
    out = []
    def one(v):
        if has_text(v): out.append([dict(o="write", v=v, h=r.randrange(240))])
    for v in qgen.SCALARS: one(v)
    for c in range(0, 128): one(O({b"k": S(bytes([c])), bytes([c]): I(c)}))
    for c in ["\u0080", "\u07ff", "\u0800", "\ufffd", "\uffff", "\U00010000", "\U0010ffff", "a\u2028b", "\u00a0"]: one(A(S(c), O({c.encode(): NULL})))
    for _ in range(n):
        x = r.random()
        if x < .25: v = qgen.wide_obj(r, 2)
        elif x < .5: v = qgen.rand_value(r)
        elif x < .8:
            def g(d):
                y = r.random()
                if d <= 0 or y < .4:
                    z = r.random()
                    return S(rstr(r)) if z < .4 else D(struct.unpack("<d", struct.pack("<Q", r.randrange(2**64)))[0]) if z < .7 else I(r.randrange(-2**63, 2**63)) if z < .85 else scalar(r)
                if y < .75: return O({(rstr(r).encode() if r.random() < .5 else r.choice(UKEYS)): g(d - 1) for _ in range(r.randrange(5))})
                return A(*[g(d - 1) for _ in range(r.randrange(5))])
            v = g(r.choice([0, 1, 2, 3]))
        else: v = A(*[D(struct.unpack("<d", struct.pack("<Q", (r.randrange(2**52) if r.random() < .7 else r.choice([0, 1, 2**52 - 1])) | r.randrange(2047) << 52 | r.randrange(2) << 63))[0]) for _ in range(4)])
        if len(str(v)) < 6000: one(v)
    return out

# ------------------------------------------------------------------- YAML
YPLAIN = ["null", "true", "false", "nul", "nulls", "True", "NULL", "no", "yes", "tru", "trues", "falsey", "~", "n", "t", "f", "nan", ".nan", ".inf", "-.inf", "inf", "-inf", "a", "abc", "a b", "a: b"[:1], "x:y", "a#b", "http://x/y", "2001-01-01", "12:30:45",
          "0", "1", "-1", "+1", "-0", "+0", "42", "007", "010", "08", "09.5", "07.5", "0x10", "0XfF", "-0x1", "0x", "0xg", "0x1.8", "0x1p3", "0b11", "0o17", "1_000", "1,5", "1 2", "+", "-x", "--1", "+-1", "-.5", ".5", "5.", "1.", "-1.", "1.5", "-1.5e3", "1e5", "1E+5", "1e-5", "1e", "1e+", "1.e2", "1.5.2", "1.5x", "1e5x", "0.0", "-0.0", "0e0", "0.1",
          "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551616", "123456789012345678901234567890", "1e308", "1e309", "-1e400", "1e-400", "5e-324", "2.2250738585072014e-308", "1.7976931348623157e308", "0777777777777777777777", "01777777777777777777777", "0x7fffffffffffffff", "0x8000000000000000", "0xffffffffffffffffff", "9007199254740993.0", "0.30000000000000004", "é", "日本", "-", "?x", ":x", "<<", "=", "!x"[1:], "null null", "true false", "1 #"[:1], "nulL", "falsE", "trUe", "fals", "12345678901234567890123.5e-3"]
def ynum(r):
    x = r.random()
    if x < .5: return num_text(r)
    return r.choice(["", "+", "-"]) + r.choice([str(r.randrange(2**r.randrange(1, 70))), "0x%x" % r.randrange(2**r.randrange(1, 66)), "0%o" % r.randrange(2**r.randrange(1, 66)), "%d.%d" % (r.randrange(100), r.randrange(10000)), repr(r.uniform(-1e9, 1e9)).strip("-")])
def yplain(r, flow=False):
    s = ynum(r) if r.random() < .3 else r.choice(YPLAIN)
    if flow and ("," in s or s in ("-", "?x", ":x")): return "a"
    return s
def yquoted(r):
    s = r.choice([rstr(r), r.choice(YPLAIN), r.choice(YPLAIN), str(r.randrange(100)), ""])
    if r.random() < .5 and all(32 <= ord(c) < 127 for c in s): return "'" + s.replace("'", "''") + "'"
    out = '"'
    for c in s:
        o = ord(c)
        out += "\\" + c if c in '"\\' else {9: "\\t", 10: "\\n", 0: "\\0", 13: "\\r"}.get(o) or ("\\x%02x" % o if o < 32 or o == 127 else "\\u%04x" % o if 128 <= o < 65536 and r.random() < .3 else "\\U%08x" % o if o >= 65536 and r.random() < .5 else c)
    return out + '"'
class Y:
    def __init__(s, r): s.r = r; s.anchors = []
    def props(s):
        r = s.r; x = r.random(); out = ""
        if x < .05: a = "a%d" % len(s.anchors); s.anchors.append(a); out = "&" + a + " "
        if .04 < x < .06: out += r.choice(["!!str ", "!local ", "!!map "][:2])
        return out
    def key(s, flow):
        r = s.r; x = r.random()
        if x < .7: return r.choice(["a", "b", "c", "key", "aa", "1", "null", "true", "1.5", "0x10", "é", "k k", "a", "b"])
        if x < .95: return yquoted(r)
        if x < .97 and s.anchors: return "*" + r.choice(s.anchors) + " "
        if x < .98: return r.choice(["[1]", "{a: 1}"])
        return yplain(r, flow)
    def flow(s, d):
        r = s.r; x = r.random()
        if d <= 0 or x < .4:
            if x < .01 and s.anchors: return "*" + r.choice(s.anchors)
            return s.props() + (yplain(r, True) if r.random() < .65 else yquoted(r))
        n = r.choice([0, 1, 2, 3]); sep = r.choice([", ", ",", " , ", ",\n    "])
        if x < .7: return s.props() + "[" + sep.join(s.flow(d - 1) for _ in range(n)) + (r.choice([",", ""]) if n else "") + "]"
        return s.props() + "{" + sep.join(s.key(True) + ": " + s.flow(d - 1) if r.random() < .95 else s.key(True) for _ in range(n)) + "}"
    def comment(s): return s.r.choice(["  # c: [", " # x", "\n# y\n", "\n\n"])[: None if s.r.random() < .08 else 0]
    def block(s, d, ind):
        """Text that follows 'key:' or '-', ending in a newline."""
        r = s.r; x = r.random(); pad = " " * ind
        if d <= 0 or x < .4:
            y = r.random()
            if y < .06: return "\n"
            if y < .6: return " " + s.props() + yplain(r) + s.comment() + "\n"
            if y < .8: return " " + yquoted(r) + "\n"
            if y < .9: return " " + r.choice(["|", ">", "|-", ">-", "|+", ">+"]) + "\n" + "".join(pad + "  " + r.choice(["line", "1", "a: b", "- x", "  more", "true"]) + "\n" for _ in range(r.randrange(1, 4)))
            if y < .92 and s.anchors: return " *" + r.choice(s.anchors) + "\n"
            return " " + s.flow(2) + "\n"
        if x < .5: return " " + s.flow(d) + "\n"
        n = r.choice([1, 1, 2, 3, 4])
        if x < .75: return s.comment() + "\n" + s.mapping(d, ind + r.choice([1, 2, 2, 4]), n)
        return s.comment() + "\n" + s.seq(d, ind + r.choice([0, 2, 2]) if ind else ind + r.choice([1, 2]), n)
    def mapping(s, d, ind, n):
        r = s.r
        return "".join((" " * ind + ("? " + s.flow(1) + "\n" + " " * ind + ":" + s.block(d - 1, ind) if r.random() < .04 else s.pre(ind) + s.key(False) + ":" + s.block(d - 1, ind))) for _ in range(n))
    def pre(s, ind): return ""
    def seq(s, d, ind, n):
        out = ""
        for _ in range(n):
            x = s.r.random()
            if x < .12: m = s.mapping(d - 1, ind + 2, s.r.choice([1, 2])); out += " " * ind + "- " + m[ind + 2:]
            elif x < .2: m = s.seq(d - 1, ind + 2, s.r.choice([1, 2])); out += " " * ind + "- " + m[ind + 2:]
            else: out += " " * ind + "-" + s.block(d - 1, ind)
        return out
    def doc(s):
        r = s.r; x = r.random(); d = r.choice([1, 2, 3, 4])
        if x < .5: t = s.mapping(d, 0, r.choice([1, 2, 3, 4]))
        elif x < .65: t = s.seq(d, 0, r.choice([1, 2, 3]))
        elif x < .97: t = s.flow(d) + "\n"
        else: t = yplain(r) + "\n"
        y = r.random()
        if y < .08: t = "---\n" + t
        elif y < .1: t = "%YAML 1.1\n---\n" + t
        elif y < .14: t = t + "...\n"
        elif y < .18: t = t + "---\n" + r.choice(["b: 2\n", "[", "*x\n", "{}\n"])
        elif y < .22: t = "# head\n" + t
        return t

YBAD = ["", " ", "\n", "# only\n", "---\n", "---\n...\n", "--- {}\n", "{", "[", "]", "}", "{a", "{a:", "{a: 1", "[1, 2", "a: b: c\n", "a:\n\tb: 1\n", "\ta: 1\n", "- a\nb: 1\n", "a: 1\n- b\n", "a: 'x\n", 'a: "x\n', 'a: "\\q"\n', 'a: "\\xzz"\n', "a: *x\n", "*x: 1\n", "&x\n", "a: &x\n", "a: &x 1\nb: *x\n", "? [a]\n: 1\n", "? {a: 1}\n: 1\n",
        "{[a]: 1}", "{{a: 1}: 2}", "? a\n: 1\n", "? a\n", "{a, b}", "[a: 1, b]", "[? a : b]", "a: |\n  x\n  y\n", "a: >\n  x\n  y\n", "a: |x\n", "%YAML 2.0\n---\na: 1\n", "%FOO\n---\na: 1\n", "%YAML\n", "@a\n", "`a\n", "a: @b\n", "a: 1\na: 2\n", "a: {b: 1}\na: [1]\n", "a: 1\n---\nb: 2\n", "a: 1\n...\nb: 2\n", "a: 1\n--- [\n", "5\n", "foo\n", "'foo'\n", "null\n", "|\n x\n", "- - - a\n    - b\n", "- a: 1\n  b: 2\n- - c\n",
        "a: [1, {b: [2, {c: 3}]}, 4]\n", "[[{a: [[]]}], {b: {}}]\n", "a: [{b: 1}, {c: 2}]\nd: 3\n", "a: [{b: [{c: 1}, {d: 2}]}, 5]\ne: {f: [{g: 1}]}\n", "- {a: 1}\n- {b: [1, {c: {}}]}\n- c\n", "a:\n- b: 1\n- c: 2\nd: e\n", "a:\n  b:\n    c:\n      d: 1\n  e: 2\nf: 3\n", "'': 1\n", "? ''\n: ''\n", ": 1\n", "a:\n", "- \n- \n", "{a: , b: }", "[,]", "[a,,b]", "{,}", "~: ~\n", "!!str 5\n", "a: !!str 5\n", "a: !!int \"5\"\n", "a: ! 5\n",
        "a: \x01\n", "\ufeffa: 1\n", "a: é\n", "a: \x7f\n", "a\x00b: 1\n", "a: b\x00c\n", "a: 1 # c\n", "a: 'it''s'\n", 'a: "x\\\n  y"\n', "a: x\n  y\n", "a: 1\n  2\n", "a: 'x\n\n  y'\n", "'a': \"b\"\n", "<<: {a: 1}\nb: 2\n", "a: [\n1,\n2\n]\n", "a: {\nb: 1\n}\n", "{\"a\": 1, 'b': \"1\"}", "[\"1\", '1', 1, \"null\", null, 'true', true]", "a: \"1.5\"\nb: 1.5\nc: '0x10'\nd: 0x10\n", "a: >-\n  1\nb: |-\n  true\n"]
YMUT = list("{}[]:,-?&*!|>'\"%@`# \n\t01a~.") + ["- ", ": ", "\n  ", "&a ", "*a", "---\n", "...\n", "\x00", "\x01", "é", "null", "? ", "!!str "]

def c12_cases(r, n):
    out = []
    def one(t, raw=False): out.append([dict(o="yaml", t=rle(t) if raw else enc(t), h=r.randrange(240))])
    for t in YBAD: one(t)
    for s in YPLAIN:
        one("a: %s\n" % s); one("[%s]\n" % s); one("'%s': '%s'\n" % (s, s.replace("'", "''")))
    one(b"a: \xff\n", True); one(b"\xff\xfea\x00:\x00 \x001\x00", True); one("a: é".encode("utf-16"), True); one(b"\xc3(: 1\n", True)
    one("? %s\n: 1\n" % ("k" * 65535)); one("? %s\n: 1\n" % ("k" * 65536)); one("- ? '%s'\n  : 1\n" % ("k" * 70000)); one("a: %s\n" % ("v" * 65536)); one("%s: 1\n" % ("k" * 2000))
    one("[" * 60 + "]" * 60); one("".join(" " * i + "a:\n" for i in range(50))); one("- " * 50 + "a\n")
    for _ in range(n):
        t = Y(r).doc()
        if len(t) > 700: continue
        if r.random() < .3:
            for _ in range(r.choice([1, 1, 2])):
                i = r.randrange(len(t) + 1); x = r.random()
                t = t[:i] + r.choice(YMUT) + t[i:] if x < .5 else t[:max(0, i - 1)] + t[i:] if x < .8 else t[:i]
        one(t)
    return out
