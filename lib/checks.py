"""What each check runs."""
import os, random
from vp import VM, Run, Violation, ToolError, store_cfg, CPUS
import json
import vgen, vals, qgen, tgen, thgen, abigen, cgen, wgen
from vp import REPO

def scale(run, quick, thorough): return quick if run.quick else thorough

def store_shards(run, plan):
    """plan: [(variant, packet?, weights, generator options, programs, steps, shards)]"""
    shards = []
    for pi, (variant, packet, w, kw, progs, steps, n) in enumerate(plan):
        for i in range(n):
            f = os.path.join(run.dir, "p%d_%s_%d.nd" % (pi, variant, i))
            k = max(1, progs // n)
            vgen.write(f, [vgen.Gen("%d/%s/%d/%d/%d" % (run.seed, run.prop, pi, i, j), packet, weights=w, **kw).program(steps) for j in range(k)])
            shards.append(("p%d_%s_%d" % (pi, variant, i), "vm_" + variant, f))
    return shards

def no_fin(w): return {k: v for k, v in w.items() if k not in ("fin", "lift", "it")}

MC_CFG = """SPECIFICATION Spec
CONSTANTS SsoMax = 23
 Switching = %s
 TrackRc = FALSE
 NSlots = %d
 MaxNodes = %d
 MaxHist = %d
 MaxLen = 2
 Emit = %s
 Rich = %s
 NoCow = %s
INVARIANTS WellFormed ScratchFree NoGarbage
PROPERTIES Refines UniqueWriter
VIEW ViewSmall
CHECK_DEADLOCK FALSE
"""

def small_world(run, packet, hist, emit=True, rich=True, slots=2, nodes=3, nocow=False):
    """Exhaustive exploration of the storage design; returns the transitions as programs."""
    b = lambda x: "TRUE" if x else "FALSE"
    cfg = MC_CFG % (b(packet), slots, nodes, hist, b(emit), b(rich), b(nocow))
    if emit: cfg += "ACTION_CONSTRAINT EmitIt\n"
    out = run.model("DartStoreMC", cfg, name="DartStoreMC_%s_h%d_s%d%s" % ("packet" if packet else "heap", hist, slots, "_nocow" if nocow else ""),
                    expect="Refines" if nocow else None)
    import json
    return [json.loads(json.loads(l)[5:]) for l in out.splitlines() if l.startswith('"PROG ')] if emit else []

def enum_shards(run, progs, variant, n, shards, slots=2, keep=None):
    """Every transition (or n of them, by seed) becomes a program; only its last step is projected."""
    import random
    r = random.Random("%d/%s/%s" % (run.seed, run.prop, variant))
    progs = [p for p in progs if keep is None or keep(p)]
    progs.sort(key=str)
    if n < len(progs): progs = r.sample(progs, n)
    out = []
    for i in range(shards):
        f = os.path.join(run.dir, "e_%s_%d.nd" % (variant, i)); ps = []
        for p in progs[i::shards]:
            ls = [{"o": "reset", "slots": slots, "its": 0}]
            for k, op in enumerate(p):
                op = dict(op); op["h"] = r.randrange(240)
                if k < len(p) - 1: op["np"] = 1
                ls.append(op)
            ps.append(ls)
        vgen.write(f, ps); out.append(("e_%s_%d" % (variant, i), "vm_" + variant, f))
    run.parts["enumerated_programs_" + variant] = len(progs)
    return out

def c01(run):
    run.vm("heap", "uheap", "packet")
    m = scale(run, 1, 12)
    shards = store_shards(run, [
        ("heap", False, vgen.W_COW, {}, 60 * m, 45, 3),
        ("uheap", False, vgen.W_COW, dict(weird=.15), 20 * m, 45, 1),
        ("packet", True, vgen.W_COW, dict(queries=1), 40 * m, 45, 2),
        ("packet", True, vgen.W_FIN, {}, 40 * m, 45, 2)])
    h = small_world(run, False, scale(run, 3, 4)); p = small_world(run, True, scale(run, 3, 4))
    small_world(run, False, 3, emit=False, rich=False, nocow=True)
    if not run.quick:
        small_world(run, False, 6, emit=False); small_world(run, True, 6, emit=False); small_world(run, False, 5, emit=False, rich=False, slots=3, nodes=4)
    shards += enum_shards(run, h, "heap", scale(run, 9000, 10**9), 4) + enum_shards(run, p, "packet", scale(run, 9000, 10**9), 4)
    run.validate("TrStore", store_cfg(rc=0, live=0, trackrc=0), shards)

def c02(run):
    run.vm("heap", "packet")
    m = scale(run, 1, 12)
    shards = store_shards(run, [
        ("heap", False, vgen.W_OBJ, dict(queries=3, weird=.15), 60 * m, 45, 3),
        ("heap", False, vgen.W_OBJ, dict(queries=2, weird=.3, keys=vals.KEYS, slots=3, big=.02), 40 * m, 60, 2),
        ("packet", True, vgen.W_OBJ, dict(queries=3, weird=.15, keys=vals.KEYS, slots=3), 60 * m, 45, 3)])
    muts = lambda p: p[-1]["o"] in ("ins", "set", "del", "clear", "inj", "proj")
    shards += enum_shards(run, small_world(run, False, scale(run, 3, 4)), "heap", scale(run, 4000, 10**9), 4, keep=muts)
    run.validate("TrStore", store_cfg(rc=0, live=0, trackrc=0), shards)

def c03(run):
    run.vm("heap", "packet")
    m = scale(run, 1, 12)
    shards = store_shards(run, [
        ("heap", False, vgen.W_ARR, dict(queries=3, slots=3), 80 * m, 45, 4),
        ("packet", True, vgen.W_ARR, dict(queries=3, slots=3), 80 * m, 45, 4)])
    muts = lambda p: p[-1]["o"] in ("ins", "set", "del", "clear", "pushb", "pushf", "popb", "popf", "resize", "reserve")
    shards += enum_shards(run, small_world(run, False, scale(run, 3, 4)), "heap", scale(run, 4000, 10**9), 4, keep=muts)
    run.validate("TrStore", store_cfg(rc=0, live=0, trackrc=0), shards)

def c15(run):
    run.vm("cheap", "cpacket", "packet", "heap")
    m = scale(run, 1, 12)
    shards = store_shards(run, [
        ("cheap", False, no_fin(vgen.W_OWN), {}, 40 * m, 45, 2),
        ("cpacket", True, vgen.W_OWN, {}, 40 * m, 45, 2),
        ("cpacket", True, vgen.W_FIN, {}, 40 * m, 45, 2),
        ("packet", True, vgen.W_FIN, dict(weird=.1), 20 * m, 45, 1),
        ("heap", False, no_fin(vgen.W_OWN), dict(err=.4), 20 * m, 45, 1)])
    shards += enum_shards(run, small_world(run, False, scale(run, 3, 4)), "cheap", scale(run, 4000, 10**9), 3)
    shards += enum_shards(run, small_world(run, True, scale(run, 3, 4)), "cpacket", scale(run, 5000, 10**9), 3)
    run.validate("TrStore", store_cfg(), shards)

PLAIN_CFG = "SPECIFICATION Spec\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n"
QD = {"qd_%d" % g: ("qd.cc", ["-DQD_GROUP=%d" % g]) for g in range(6)}
ONE = '"o":'     # every line is a program of its own

def rng(run, *tag): return random.Random("/".join(map(str, (run.seed, run.prop) + tag)))

def case_shards(run, drivers, cases, n, tag="q"):
    """The same cases go to every driver; n shards per driver."""
    shards = []
    for i in range(n):
        f = os.path.join(run.dir, "%s_%d.nd" % (tag, i)); vgen.write(f, cases[i::n])
        for d in drivers: shards.append(("%s_%s_%d" % (tag, d, i), d, f))
    run.parts["cases_" + tag] = len(cases)
    return shards

def c04(run):
    run.compile(QD)
    cases = qgen.c04_cases(rng(run), scale(run, 260, 6000))
    run.validate("TrQuery", PLAIN_CFG, case_shards(run, QD, cases, scale(run, 2, 8)), resets=ONE)

def c06(run):
    ds = {k: QD[k] for k in ("qd_0", "qd_1", "qd_2", "qd_4")}
    run.compile(ds)
    cases = qgen.c06_cases(rng(run), scale(run, 400, 8000))
    run.validate("TrQuery", PLAIN_CFG, case_shards(run, ds, cases, scale(run, 3, 12)), resets=ONE)

def c08(run):
    ds = {k: QD[k] for k in ("qd_0", "qd_1", "qd_2")}
    run.compile(dict(ds, vm_heap=("vm.cc", VM["heap"]), vm_packet=("vm.cc", VM["packet"])))
    cases = qgen.c08_cases(rng(run), scale(run, 150, 4000))
    run.validate("TrQuery", PLAIN_CFG, case_shards(run, ds, cases, scale(run, 2, 8)), resets=ONE)
    m = scale(run, 1, 10)
    shards = store_shards(run, [
        ("heap", False, vgen.W_IMM, dict(err=.5, queries=2, weird=.1, big=.02), 50 * m, 45, 2),
        ("packet", True, vgen.W_IMM, dict(err=.4, queries=2), 60 * m, 45, 3),
        ("packet", True, vgen.W_FIN, dict(err=.5, queries=1), 40 * m, 45, 2)])
    run.validate("TrStore", store_cfg(rc=0, live=0, trackrc=0), shards)

def c14(run):
    ds = {k: QD[k] for k in ("qd_0", "qd_1", "qd_2")}
    run.compile(dict(ds, vm_heap=("vm.cc", VM["heap"]), vm_packet=("vm.cc", VM["packet"])))
    cases = qgen.c14_cases(rng(run), scale(run, 400, 8000))
    m = scale(run, 1, 10)
    run.validate("TrQuery", PLAIN_CFG, case_shards(run, ds, cases, scale(run, 2, 8)), resets=ONE)
    shards = store_shards(run, [
        ("packet", True, dict(vgen.W_FIN, it=40), dict(its=4), 80 * m, 60, 4),
        ("heap", False, vgen.W_ARR, dict(queries=2), 25 * m, 45, 1),
        ("heap", False, vgen.W_OBJ, dict(queries=2), 25 * m, 45, 1)])
    run.validate("TrStore", store_cfg(rc=0, live=0, trackrc=0), shards)

EQ = {"eq_%d" % g: ("eq.cc", ["-DEQ_GROUP=%d" % g]) for g in range(11)}
def c13(run):
    run.compile(EQ)
    pairs = qgen.c13_pairs(rng(run, "pairs"), scale(run, 350, 6000)); nats = qgen.c13_natives(rng(run, "nat"), scale(run, 400, 4000))
    n = scale(run, 1, 6)
    run.validate("TrEq", PLAIN_CFG, case_shards(run, [k for k in EQ if k != "eq_10"], pairs, n, "eq") + case_shards(run, ["eq_10"], nats, n, "nat"), resets=ONE)

BY = {"by_%d" % g: ("bytes.cc", ["-DBY_GROUP=%d" % g]) for g in range(2)}
WIRE_CFG = """SPECIFICATION Spec
CONSTANTS MaxFields = 3
 MaxLevel = %d
 Deep = %s
 Mutations = %s
INVARIANTS RoundTrip Padded Safe Fits AnyMutationSafe
CHECK_DEADLOCK FALSE
"""
def wire_model(run, level, deep, muts):
    run.model("DartWireMC", WIRE_CFG % (level, str(deep).upper(), str(muts).upper()), name="DartWireMC_l%d_%s%s" % (level, "deep" if deep else "flat", "_mut" if muts else ""))

def c05(run):
    run.compile(BY)
    wire_model(run, 3, False, False)
    if not run.quick: wire_model(run, 3, True, False)
    cases = qgen.c05_cases(rng(run), scale(run, 500, 12000))
    run.validate("TrWire", PLAIN_CFG, case_shards(run, BY, cases, scale(run, 4, 16), "img"), resets=ONE)

def c07(run):
    run.compile(dict(BY, vm_heap=("vm.cc", VM["heap"]), vm_packet=("vm.cc", VM["packet"])))
    wire_model(run, 3, False, False)
    cases = qgen.c07_cases(rng(run), scale(run, 900, 20000))
    run.validate("TrWire", PLAIN_CFG, case_shards(run, BY, cases, scale(run, 3, 12), "mrg"), resets=ONE)
    m = scale(run, 1, 10)
    shards = store_shards(run, [
        ("packet", True, dict(vgen.W_FIN, inj=40, proj=40), dict(keys=vals.KEYS), 60 * m, 40, 3),
        ("heap", False, dict(vgen.W_OBJ, inj=40, proj=40), dict(weird=.2), 40 * m, 40, 2)])
    run.validate("TrStore", store_cfg(rc=0, live=0, trackrc=0), shards)

def c09(run):
    run.compile({"val": ("val.cc", [], ["-O1", "-g1", "-fsanitize=address"])})
    wire_model(run, scale(run, 2, 3), True, True)
    cases = qgen.c09_cases(rng(run), scale(run, 60, 1500))
    random.Random(1).shuffle(cases)
    run.validate("TrVal", PLAIN_CFG, case_shards(run, ["val"], cases, scale(run, 16, 64), "val"), resets=ONE)

TEXT = {"text": ("text.cc", [], ["-O1", "-g1", "-fsanitize=address"])}
def c10(run):
    run.compile(TEXT)
    r = rng(run)
    cases = tgen.c10_cases(r, scale(run, 900, 20000)) + (tgen.c10_tokens(r, 2, .5) if run.quick else tgen.c10_tokens(r, 3))
    r.shuffle(cases)
    run.validate("TrText", PLAIN_CFG, case_shards(run, TEXT, cases, scale(run, 14, 56), "txt"), resets=ONE)

def c11(run):
    run.compile(TEXT)
    r = rng(run)
    cases = tgen.c11_cases(r, scale(run, 900, 25000))
    r.shuffle(cases)
    run.validate("TrText", PLAIN_CFG, case_shards(run, TEXT, cases, scale(run, 14, 56), "wr"), resets=ONE)

YAML = {"yaml": ("yaml.cc", [], ["-O1", "-g1", "-fsanitize=address"])}
def c12(run):
    run.compile(YAML)
    r = rng(run)
    cases = tgen.c12_cases(r, scale(run, 12000, 250000))
    r.shuffle(cases)
    run.validate("TrYaml", PLAIN_CFG, case_shards(run, YAML, cases, scale(run, 8, 48), "yml"), resets=ONE)

THREADS_CFG = """SPECIFICATION Spec
CONSTANTS Thread = {%s}
 Node = {%s}
 MaxOps = %d
 AcquireOnCount = %s
 ReleaseOnDrop = %s
 AtomicInc = %s
 CheckCount = %s
 CopyFirst = %s
INVARIANTS %s
CHECK_DEADLOCK FALSE
"""
def threads_model(run, threads, ops, off=None, broken=None):
    flags = ["FALSE" if off == k else "TRUE" for k in ("AcquireOnCount", "ReleaseOnDrop", "AtomicInc", "CheckCount", "CopyFirst")]
    cfg = THREADS_CFG % ((", ".join(map(str, range(1, threads + 1))), ", ".join(map(str, range(1, threads * ops + 2))), ops) + tuple(flags) + (broken or "Clean Isolated Counted Released",))
    run.model("DartThreads", cfg, name="DartThreads_%dx%d%s" % (threads, ops, "_no" + off if off else ""), expect=broken)

def _thr(handle, packet, free):
    opt = ["-O1", "-g1", "-fsanitize=thread" if free else "-fsanitize=address"]
    fl = ["-DVM_P=dart::" + handle, "-DVM_PACKET=%d" % packet, "-DVM_COUNTED=0", "-pthread"] + (["-DTHR_FREE", "-DSCHED_POINT=[]{}"] if free else [])
    return ("thr.cc", fl, opt)
THR = {"thr_heap": _thr("basic_heap<sched_ptr>", 0, False), "thr_packet": _thr("basic_packet<sched_ptr>", 1, False),
       "thr_ts_packet": _thr("basic_packet<sched_ptr>", 1, True), "thr_ts_skinny": _thr("basic_packet<dart::skinny_ptr>", 1, True)}
def c16(run):
    run.compile(THR)
    threads_model(run, 2, 3)
    if not run.quick: threads_model(run, 2, 4); threads_model(run, 3, 2)
    for k, inv in (("AcquireOnCount", "Clean"), ("ReleaseOnDrop", "Clean"), ("AtomicInc", "Counted"), ("CheckCount", "Isolated"), ("CopyFirst", "Counted")): threads_model(run, 2, 2, k, inv)
    shards = []
    def add(drv, packet, n, progs, budget, **kw):
        for i in range(n):
            f = os.path.join(run.dir, "%s_%d.nd" % (drv, i))
            vgen.write(f, thgen.programs("%d/%s/%d" % (run.seed, drv, i), progs, packet, **kw))
            shards.append(("%s_%d" % (drv, i), drv, f, (str(budget), str(run.seed * 1000 + i))))
    m = scale(run, 1, 6)
    add("thr_heap", 0, 3 * m, 12, scale(run, 400, 800)); add("thr_packet", 1, 3 * m, 12, scale(run, 350, 600), finalize=.6)
    add("thr_ts_packet", 1, 2 * m, 20, scale(run, 60, 200), finalize=.6); add("thr_ts_skinny", 1, 2 * m, 20, scale(run, 60, 200), finalize=.5)
    for drv in ("thr_ts_packet", "thr_ts_skinny"):
        for i in range(m):
            f = os.path.join(run.dir, "%s_busy%d.nd" % (drv, i))
            vgen.write(f, thgen.busy_programs("%d/busy/%s/%d" % (run.seed, drv, i), 12, 1))
            shards.append(("%s_busy%d" % (drv, i), drv, f, (str(scale(run, 20, 80)), str(run.seed * 1000 + i))))
    run.validate("TrStore", store_cfg(rc=0, trackrc=0), shards)
    runs = 0
    for s in shards:
        last = open(os.path.join(run.dir, s[0] + ".tr")).read().splitlines()[-1]
        runs += json.loads(last)["runs"]
    run.parts["interleavings_executed"] = runs

ABI_CFG = """SPECIFICATION Spec
CONSTANTS SsoMax = 23
 Switching = TRUE
 TrackRc = TRUE
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
"""

def c17(run):
    units = ["heap", "buffer", "generic"]
    run.compile(dict([("abi_%s.o" % u, (os.path.join(REPO, "src", u + ".cc"), ["-c"])) for u in reversed(units)] + [("abi_main.o", ("abi.cc", ["-c"]))]))
    run.compile({"abi": (run.bins["abi_main.o"], [run.bins["abi_%s.o" % u] for u in units])})
    n, progs = scale(run, 2, 10), scale(run, 70, 220)
    shards = []
    for wi, w in enumerate((abigen.W_MIX, abigen.W_MUT, abigen.W_FIN, abigen.W_MAKE)):
        for i in range(n):
            f = os.path.join(run.dir, "abi%d_%d.nd" % (wi, i)); err = .12 if i % 2 else .3
            vgen.write(f, [abigen.Gen("%d/C17/%d/%d/%d" % (run.seed, wi, i, j), weights=w, err=err).program(30 if j % 4 else 60) for j in range(progs)])
            shards.append(("abi%d_%d" % (wi, i), "abi", f))
    for i in range(4):
        f = os.path.join(run.dir, "abitour%d.nd" % i); vgen.write(f, abigen.tour(rng(run, "tour"), i, 4)); shards.append(("abitour%d" % i, "abi", f))
    run.validate("TrAbi", ABI_CFG, shards)

CONV_CFG = """SPECIFICATION Spec
CONSTANTS Depth = %d
 Weak = %s
INVARIANTS Survives MadeIsRep RepIsEqual ReadIsEqual Separates Reflexive
CHECK_DEADLOCK FALSE
"""
CONV = {"conv_%d" % g: ("conv.cc", ["-DPART=%d" % g]) for g in range(8)}
def c18(run):
    run.compile(CONV)
    run.model("DartConvMC", CONV_CFG % (scale(run, 1, 2), "FALSE"))
    run.model("DartConvMC", CONV_CFG % (1, "TRUE"), name="DartConvMC_weak", expect="Separates")
    shards, total = [], scale(run, 1200, 16000); n = scale(run, 1, 4)
    for g in range(8):
        cases = cgen.cases(rng(run, g), g, total)
        shards += case_shards(run, ["conv_%d" % g], cases, n, "conv%d" % g)
    run.validate("TrConv", PLAIN_CFG, shards, resets=ONE)

WRAP_MC_CFG = """SPECIFICATION Spec
CONSTANTS PureSwitching = TRUE
 Weak = %s
 Pairs = %s
VIEW View
INVARIANT KeepsType
PROPERTIES Unchanged Delivered Others
CHECK_DEADLOCK FALSE
"""
WRAP_CFG = "SPECIFICATION Spec\nCONSTANT PureSwitching = TRUE\n%sPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n"
WRAP = {"wrap_%s" % k: ("wrap.cc", ["-DWR=%d" % g]) for g, k in enumerate(["heap", "packet", "buffer", "heap_unsafe", "packet_unsafe"])}
def c19(run):
    run.compile(WRAP)
    run.model("DartWrapMC", WRAP_MC_CFG % ("FALSE", scale(run, "{3, 9}", "{3, 5, 7, 9, 11}")))
    run.model("DartWrapMC", WRAP_MC_CFG % ("TRUE", "{3}"), name="DartWrapMC_weak", expect="KeepsType")
    def mode(m, tag, drivers, progs, n):
        out = []
        for i in range(n):
            f = os.path.join(run.dir, "%s_%d.nd" % (tag, i)); vgen.write(f, progs[i::n])
            out += [("%s_%s_%d" % (tag, d, i), d, f, (m,)) for d in drivers]
        run.parts["cases_" + tag] = len(progs)
        return out
    n = scale(run, 1, 6)
    run.validate("TrWrap", WRAP_CFG % "INVARIANT KeepsType\n", mode("machine", "mach", [d for d in WRAP if d != "wrap_buffer"], wgen.programs(rng(run, "m"), scale(run, 400, 6000)), n))
    run.validate("TrOffer", WRAP_CFG % "", mode("offer", "offer", WRAP, wgen.offers(rng(run, "o"), scale(run, 400, 5000)), n), resets=ONE)
    run.validate("TrQuery", PLAIN_CFG, mode("ask", "ask", WRAP, wgen.asks(rng(run, "q"), scale(run, 500, 6000)), n), resets=ONE)

CHECKS = {"C19": c19, "C18": c18, "C17": c17, "C16": c16, "C12": c12, "C10": c10, "C11": c11, "C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C13": c13, "C14": c14, "C15": c15}
