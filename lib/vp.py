"""Shared machinery of the checks: build drivers from /repo, run them, let TLC decide, write evidence."""
import glob, json, os, re, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar"
for j in sorted(glob.glob("/opt/veriftools/tla/*ommunity*.jar")): JARS += ":" + j
CPUS = os.cpu_count() or 4
ASAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:max_allocation_size_mb=4096",
            "UBSAN_OPTIONS": "print_stacktrace=0", "TSAN_OPTIONS": "halt_on_error=1"}

# Variants of the handle machine.
VM = {"heap": ["-DVM_P=dart::heap", "-DVM_PACKET=0", "-DVM_COUNTED=0"],
      "uheap": ["-DVM_P=dart::unsafe_heap", "-DVM_PACKET=0", "-DVM_COUNTED=0"],
      "packet": ["-DVM_P=dart::packet", "-DVM_PACKET=1", "-DVM_COUNTED=0"],
      "cheap": ["-DVM_P=dart::basic_heap<counted_ptr>", "-DVM_PACKET=0", "-DVM_COUNTED=1"],
      "cpacket": ["-DVM_P=dart::basic_packet<counted_ptr>", "-DVM_PACKET=1", "-DVM_COUNTED=1"]}

class ToolError(Exception): pass

class Violation(Exception):
    def __init__(s, what, files=(), detail=""):
        super().__init__(what); s.what = what; s.files = list(files); s.detail = detail

def tail(s, n=2000): return s if len(s) <= n else "..." + s[-n:]

class Run:
    """One execution of one check."""
    def __init__(s, prop, tier, seed):
        s.prop, s.tier, s.seed = prop, tier, seed
        s.t0 = time.time()
        s.dir = os.path.join(VERIF, "build", prop + "-" + tier)
        if os.path.isdir(s.dir): shutil.rmtree(s.dir)
        os.makedirs(s.dir)
        s.replays = os.path.join(VERIF, "replays", prop)
        s.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        s.assumptions = []
        s.quick = tier == "quick"
        s.bins = {}
        s.parts = {}
        s.known = {}          # id of a known finding -> how often it was seen

    # -------------------------------------------------------------- compiling
    def compile(s, jobs):
        """jobs: {name: (source, flags, libs, opts)}; all in parallel. Extra sources may be listed in flags."""
        def one(item):
            name, spec = item
            src, flags = spec[0], spec[1]
            opt = spec[2] if len(spec) > 2 else ["-O0", "-g1", "-fsanitize=address"]
            out = os.path.join(s.dir, name)
            cmd = ["g++", "-std=c++14", "-w"] + opt + ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "harness")] + \
                  flags + [os.path.join(VERIF, "harness", src), "-o", out, "-lyaml"]
            for attempt in range(2):
                p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
                if p.returncode == 0: return name, out, None
            return name, out, p.stdout
        with ThreadPoolExecutor(CPUS) as ex:
            for name, out, err in ex.map(one, list(jobs.items())):
                if err is not None:
                    if "error" in err or "undefined reference" in err:
                        if "Killed" in err or "internal compiler error" in err or "No space" in err: raise ToolError(tail(err))
                        log = os.path.join(s.dir, name + ".compile.log")
                        open(log, "w").write(err)
                        lines = [l for l in err.splitlines() if "error" in l or "undefined" in l][:3]
                        raise Violation("the public interface used by driver %s no longer compiles: %s" % (name, " | ".join(l[:200] for l in lines)), [log])
                    raise ToolError(tail(err))
                s.bins[name] = out
        s.parts["compiled_s"] = round(time.time() - s.t0, 1)

    def vm(s, *variants):
        s.compile({"vm_" + v: ("vm.cc", VM[v]) for v in variants})

    # ---------------------------------------------------------------- running
    def drive(s, name, prog, trace, timeout=240, env=None, args=()):
        """Run a driver; returns None if it completed, else a description of the failure."""
        e = dict(os.environ); e.update(ASAN_ENV); e.update(env or {})
        try:
            p = subprocess.run([s.bins[name], prog, trace] + list(args), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=s.dir)
        except subprocess.TimeoutExpired:
            return "driver did not terminate within %ds" % timeout
        if p.returncode == 0: return None
        err = p.stderr.decode(errors="replace")
        if p.returncode == 3: raise ToolError("driver %s: %s" % (name, tail(err)))
        m = re.search(r"(ERROR: AddressSanitizer[^\n]*|runtime error[^\n]*|terminate called[^\n]*(\n[^\n]*what[^\n]*)?|WARNING: ThreadSanitizer[^\n]*|Assertion[^\n]*)", err)
        open(trace + ".stderr", "w").write(err)
        return "driver died (%s): %s" % (p.returncode, m.group(1) if m else tail(err, 300))

    # -------------------------------------------------------------------- TLC
    def tlc(s, module, cfg, env=None, workers=1, timeout=600, heap="2g", extra=(), name=None):
        """Returns (ok, output, states, distinct, diameter)."""
        name = name or module
        md = os.path.join(s.dir, "md_" + re.sub(r"\W", "_", name)); os.makedirs(md, exist_ok=True)
        cfgf = os.path.join(s.dir, re.sub(r"\W", "_", name) + ".cfg"); open(cfgf, "w").write(cfg)
        e = dict(os.environ); e.update(env or {}); e.pop("JAVA_TOOL_OPTIONS", None)
        gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
        cmd = ["java", gc, "-Xss64m", "-Xmx" + heap, "-XX:TieredStopAtLevel=%d" % (4 if workers > 1 or not s.quick else 4), "-cp", JARS, "tlc2.TLC", "-workers", str(workers),
               "-noGenerateSpecTE", "-metadir", md, "-config", cfgf] + list(extra) + [os.path.join(SPEC, module + ".tla")]
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, env=e, cwd=s.dir)
            out, rc = p.stdout, p.returncode
        except subprocess.TimeoutExpired as x:
            raise ToolError("TLC timed out on " + name)
        shutil.rmtree(md, ignore_errors=True)
        for k in re.findall(r'<<"KNOWN", "([\w-]+)">>', out): s.known[k] = s.known.get(k, 0) + 1
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        d = re.search(r'<<"DIAMETER", (\d+), "OF", (\d+)>>', out)
        return "No error has been found" in out and rc == 0, out, gen, dist, int(d.group(1)) if d else None

    def model(s, module, cfg, workers=None, timeout=800, heap="8g", extra=(), name=None, expect=None):
        """Model check a specification; raises ToolError if it fails (that is a fault of the specification, not of the code).
        expect: name of an invariant that must be violated (negative control)."""
        ok, out, gen, dist, _ = s.tlc(module, cfg, workers=workers or CPUS, timeout=timeout, heap=heap, extra=extra, name=name)
        if expect:
            if ok or expect not in out: raise ToolError("negative control %s: %s was not violated\n%s" % (name or module, expect, tail(out)))
        elif not ok: raise ToolError("specification %s fails\n%s" % (name or module, tail(out, 4000)))
        s.cov["states"] += dist; s.cov["transitions"] += gen
        s.parts.setdefault("models", {})[name or module] = {"generated": gen, "distinct": dist, "expected_violation": expect} if expect else {"generated": gen, "distinct": dist}
        return out

    # ------------------------------------------------------ trace validation
    def validate(s, module, cfg, shards, heap="2g", parallel=None, resets='"o":"reset"', timeout=700):
        """shards: [(name, driver, program file)]. Runs the driver on every program file and TLC on every trace, in parallel."""
        def one(sh):
            name, drv, prog = sh[:3]
            trace = os.path.join(s.dir, name + ".tr")
            fail = s.drive(drv, prog, trace, args=sh[3] if len(sh) > 3 else ())
            if fail: return sh, trace, fail, None
            ok, out, gen, dist, dia = s.tlc(module, cfg, env={"TRACE": trace}, heap=heap, name="tr_" + name, timeout=timeout)
            return sh, trace, None, (ok, out, gen, dist, dia)
        with ThreadPoolExecutor(parallel or CPUS) as ex: res = list(ex.map(one, shards))
        for sh, trace, fail, r in res:
            if fail: s._crash(sh, trace, fail, module, cfg, resets)
            ok, out, gen, dist, dia = r
            if not ok: s._reject(sh, trace, r, module, cfg, resets, heap)
            n = sum(1 for _ in open(trace)); progs = sum(1 for l in open(trace) if resets in l[:60])
            s.cov["states"] += dist; s.cov["transitions"] += gen
            s.cov["traces_validated_against_impl"] += max(progs, 1)
            s.parts["trace_lines"] = s.parts.get("trace_lines", 0) + n
            if len(s.cov["samples"]) < 6:
                with open(trace) as f:
                    ls = f.readlines()
                s.cov["samples"].append({"shard": sh[0], "lines": [l.strip()[:400] for l in ls[min(3, len(ls) - 1):min(5, len(ls))]]})

    def _program_at(s, prog, idx, resets):
        """The program (list of lines) that contains line idx (0-based) of the program file."""
        ls = open(prog).read().splitlines()
        idx = min(idx, len(ls) - 1)
        a = idx
        while a > 0 and resets not in ls[a][:60]: a -= 1
        b = idx + 1
        while b < len(ls) and resets not in ls[b][:60]: b += 1
        return ls[a:b]

    def _crash(s, sh, trace, fail, module, cfg, resets):
        name, drv, prog = sh[:3]
        if len(sh) > 3: raise Violation("%s while executing %s" % (fail, prog), [prog, trace, trace + ".stderr"])
        done = sum(1 for _ in open(trace)) if os.path.exists(trace) else 0
        lines = s._program_at(prog, done, resets)
        mini = os.path.join(s.dir, name + ".fail.nd"); open(mini, "w").write("\n".join(lines) + "\n")
        again = s.drive(drv, mini, mini + ".tr", timeout=120)
        if again is None:
            again = s.drive(drv, prog, trace)
            if again is None:
                if "did not terminate" in fail: raise ToolError("driver failure did not reproduce: " + fail)
                raise Violation("%s while executing %s (not every time)" % (fail, prog), [prog, trace])
            mini = prog
        op = lines[-1] if len(lines) < 2 else lines[min(max(done - _index(prog, lines), 0), len(lines) - 1)]
        raise Violation("%s while executing %s" % (again, op[:300]), [mini, mini + ".tr", mini + ".tr.stderr", trace + ".stderr"])

    def _reject(s, sh, trace, r, module, cfg, resets, heap):
        name, drv, prog = sh[:3]
        ok, out, gen, dist, dia = r
        if dia is None and "Attempted to" not in out and "evaluat" not in out: raise ToolError("TLC failed on %s\n%s" % (name, tail(out, 3000)))
        if dia is None:   # evaluation error: the recorded value has a shape the specification does not know
            m = re.findall(r"\bl = (\d+)", out); dia = int(m[-1]) if m else 1
        tl = open(trace).read().splitlines()
        bad = tl[min(dia - 1, len(tl) - 1)]
        if len(sh) > 3:      # what happens depends on the driver's arguments as well: keep the recorded trace
            log = os.path.join(s.dir, name + ".tlc.log"); k = out.find('"STUCK"'); open(log, "w").write(out[k - 10 if k > 0 else 0:][:60000])
            raise Violation("no behaviour of %s explains the recorded step %s" % (module, bad[:600]), [prog, trace, log])
        lines = s._program_at(prog, min(dia - 1, len(tl) - 1), resets)
        mini = os.path.join(s.dir, name + ".fail.nd"); open(mini, "w").write("\n".join(lines + lines) + "\n")
        mtr = mini + ".tr"
        fail = s.drive(drv, mini, mtr)
        why = "isolated program"
        if fail: why = fail
        else:
            ok2, out2, _, _, dia2 = s.tlc(module, cfg, env={"TRACE": mtr}, heap=heap, name="tr2_" + name)
            if ok2:      # needs the context: run the whole shard again
                shutil.copyfile(trace, trace + ".first"); fail = s.drive(drv, prog, trace); mini, mtr = prog, trace
                if not fail:
                    ok2, out2, _, _, dia2 = s.tlc(module, cfg, env={"TRACE": trace}, heap=heap, name="tr3_" + name)
                    if ok2: raise Violation("no behaviour of %s explains the recorded step %s (not every time)" % (module, bad[:600]), [prog, trace + ".first"])
            out = out2
            if dia2:
                tl2 = open(mtr).read().splitlines(); bad = tl2[min(dia2 - 1, len(tl2) - 1)]
        log = os.path.join(s.dir, name + ".tlc.log")
        k = out.find('"STUCK"'); open(log, "w").write(out[k - 10 if k > 0 else 0:][:60000])
        raise Violation("no behaviour of %s explains the recorded step %s" % (module, bad[:600]), [mini, mtr, log], why)

    # ------------------------------------------------------------------ ending
    def evidence(s, violations=0):
        ev = {"property": s.prop, "tier": s.tier, "seed": s.seed, "level": "model_checking",
              "coverage": dict(s.cov, **{"detail": s.parts}), "wall_s": round(time.time() - s.t0, 1), "violations": violations, "assumptions": s.assumptions}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", s.prop + ".json"), "w") as f: json.dump(ev, f, indent=1)

    def report(s, v):
        os.makedirs(s.replays, exist_ok=True)
        keep = []
        for f in v.files:
            if f and os.path.exists(f):
                dst = os.path.join(s.replays, os.path.basename(f)); shutil.copyfile(f, dst); keep.append(dst)
        rp = os.path.join(s.replays, "%s-%s-%d.json" % (s.prop, s.tier, s.seed))
        json.dump({"property": s.prop, "tier": s.tier, "seed": s.seed, "what": v.what, "detail": v.detail, "files": keep,
                   "rerun": "VERIF_SEED=%d VERIF_TIER=%s python3 %s/bin/check.py %s" % (s.seed, s.tier, VERIF, s.prop)}, open(rp, "w"), indent=1)
        s.cov["samples"].append({"violation": v.what[:800]})
        s.evidence(1)
        print("%s: %s" % (s.prop, v.what[:1500]))
        print("VIOLATION property=%s replay=%s" % (s.prop, rp))

def _index(prog, lines):
    ls = open(prog).read().splitlines()
    for i in range(len(ls)):
        if ls[i:i + len(lines)] == lines: return i
    return 0

def store_cfg(val=1, rc=1, fin=1, live=1, out=1, qr=1, trackrc=1):
    b = lambda x: "TRUE" if x else "FALSE"
    return ("SPECIFICATION Spec\nCONSTANTS SsoMax <- TrSso\n Switching <- TrSw\n TrackRc = %s\n ChkVal = %s\n ChkRc = %s\n ChkFin = %s\n ChkLive = %s\n"
            " ChkOut = %s\n ChkQr = %s\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n") % tuple(map(b, (trackrc, val, rc, fin, live, out, qr)))

def known_findings(prop):
    """known-findings.txt: 'property=<id> id=<name> <what fails>' lists a finding; 'fixed:' lines suppress nothing."""
    out = {}
    f = os.path.join(VERIF, "known-findings.txt")
    for l in open(f) if os.path.exists(f) else []:
        m = re.match(r"property=(\S+) id=(\S+) (.*)", l.strip())
        if m and m.group(1) == prop: out[m.group(2)] = m.group(3)
    return out

def main(checks):
    import argparse
    ap = argparse.ArgumentParser(); ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = "thorough" if a.tier == "thorough" else "quick"
    run = Run(a.prop, tier, seed)
    try:
        checks[a.prop](run)
        known = known_findings(a.prop)
        for k in run.known:
            if k not in known: raise Violation("finding %s is not listed for %s" % (k, a.prop))
        if run.known: run.parts["known_findings_seen"] = run.known
        run.evidence(0)
        for k in run.known: print("KNOWN-FINDING: property=%s %s" % (a.prop, known[k]))
        print("%s %s: held; %d states, %d transitions, %d traces, %.0fs" % (a.prop, tier, run.cov["states"], run.cov["transitions"], run.cov["traces_validated_against_impl"], time.time() - run.t0))
        shutil.rmtree(run.dir, ignore_errors=True)
        return 0
    except Violation as v:
        run.report(v); return 1
    except ToolError as t:
        print("TOOL ERROR %s: %s" % (a.prop, t)); return 2
