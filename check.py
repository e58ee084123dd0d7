#!/usr/bin/env python3
"""Solver-based check of one property of FFCL.

check.py PROPERTY [--tier quick|thorough] [--entry NAME]
 1. builds the symbolic executor (once, cached under build/),
 2. compiles the property's harnesses with /repo/include to LLVM IR (engine) and natively (replay),
 3. runs symx on every entry: z3 decides every branch and every assertion within the stated bounds,
 4. replays every counterexample against the native build of the real code; only confirmed ones are violations,
 5. replays sampled complete paths natively and compares the observed outputs (encoding validation),
 6. rewrites evidence/PROPERTY.json.
"""
import argparse, concurrent.futures as cf, errno, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("FFCL_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
sys.path.insert(0, ROOT)
from checks import CHECKS, COMMON_ASSUMPTIONS  # noqa: E402

CLANG = "clang++-18" if shutil.which("clang++-18") else "clang++"
DEFS = ["-DNDEBUG", "-DTHREADS_ENABLED=false", "-DVERBOSE=false"]
INC = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(ROOT, "engine"), "-I" + os.path.join(ROOT, "harness")]
IRFLAGS = ["-std=gnu++17", "-O2", "-fno-pic", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-ffp-contract=off", "-fno-math-errno",
           "-fno-strict-aliasing", "-gline-tables-only", "-w", "-DSX_ENGINE", "-D_GLIBCXX_EXTERN_TEMPLATE=0",
           "-mllvm", "-two-entry-phi-node-folding-threshold=12"]
NATFLAGS = ["-std=gnu++17", "-O2", "-g0", "-ffp-contract=off", "-w", "-rdynamic"]
OMPFLAGS = ["-fopenmp", "-UTHREADS_ENABLED", "-DTHREADS_ENABLED=true", "-I" + os.path.join(ROOT, "engine", "omp"), "-mllvm", "-openmp-opt-disable"]
NOOMPFLAGS = ["-D_OPENMP=201511"] + OMPFLAGS[1:]   # the parallel branches, run by one thread: where clang's OpenMP rejects the code
OMPNATIVE = ["-fsanitize=thread", "-mllvm", "-tsan-instrument-atomics=0", "-mllvm", "-tsan-instrument-func-entry-exit=0", "-fno-builtin"]
ASANFLAGS = ["-std=gnu++17", "-O1", "-g1", "-ffp-contract=off", "-w", "-rdynamic", "-fsanitize=address,undefined", "-fno-sanitize=vptr",
             "-fno-sanitize-recover=undefined", "-D_GLIBCXX_ASSERTIONS"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def execute(cmd, **kw):
    """run a program that was just built; a concurrent fork may still hold it open for writing for a moment"""
    for attempt in range(200):
        try:
            return subprocess.run(cmd, **kw)
        except OSError as e:
            if e.errno != errno.ETXTBSY or attempt == 199:
                raise
            time.sleep(0.05)


def build_engine():
    src = [os.path.join(ROOT, "engine", f) for f in ("symx.cpp", "expr.hpp")]
    h = hashlib.sha256(b"".join(open(f, "rb").read() for f in src)).hexdigest()[:16]
    exe = os.path.join(BUILD, "symx-" + h)
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    cfg = "llvm-config-18" if shutil.which("llvm-config-18") else "llvm-config"
    cxx = subprocess.check_output([cfg, "--cxxflags"], text=True).split()
    cxx = [f for f in cxx if f not in ("-fno-exceptions",) and not f.startswith("-std")]
    ld = subprocess.check_output([cfg, "--ldflags", "--libs"], text=True).split()
    tmp = exe + ".%d" % os.getpid()
    r = sh(["g++", "-O2", "-std=c++17", "-w", src[0], "-o", tmp] + cxx + ["-fexceptions"] + ld + ["-lz3"])
    if r.returncode:
        print(r.stdout); sys.exit(2)
    os.rename(tmp, exe)
    return exe


class Overlay:
    """A copy of /repo/include that clang accepts.  FFCL is compiled with g++, which is more permissive: clang wants the
    'template' keyword before dependent template names, rejects deduction guides that can never be used and, with
    OpenMP, lambdas that capture a structured binding.  Exactly these diagnostics are repaired, where clang reports
    them; nothing that is executed changes."""
    def __init__(self, scratch):
        self.dir = os.path.join(scratch, "include")
        shutil.copytree(os.path.join(REPO, "include"), self.dir)

    def repair(self, diagnostics):
        changed = False
        todo = {}
        for m in re.finditer(r"^(%s/[^:\n]+):(\d+):(\d+): (?:error|note): (use 'template' keyword to treat|non-deducible template parameter|capturing a structured binding is not yet supported in OpenMP)" % re.escape(self.dir), diagnostics, re.M):
            todo.setdefault(m.group(1), set()).add((int(m.group(2)), int(m.group(3)), m.group(4)[:3]))
        for path, items in todo.items():
            lines = open(path).read().split("\n")
            for ln, col, kind in sorted(items, reverse=True):
                if kind == "use":
                    lines[ln - 1] = lines[ln - 1][:col - 1] + "template " + lines[ln - 1][col - 1:]
                elif kind == "cap":  # [&name] to [&name = name]
                    m = re.match(r"\w+", lines[ln - 1][col - 1:])
                    if not m or re.match(r"\s*=", lines[ln - 1][col - 1 + m.end():]):
                        continue
                    lines[ln - 1] = lines[ln - 1][:col - 1 + m.end()] + " = " + m.group(0) + lines[ln - 1][col - 1 + m.end():]
                else:  # blank the deduction guide: from its 'template' line to the terminating ';'
                    i = ln - 1
                    while "template" not in lines[i]:
                        i -= 1
                    while True:
                        end = ";" in lines[i]
                        lines[i] = ""
                        if end:
                            break
                        i += 1
                changed = True
            with open(path, "w") as f:
                f.write("\n".join(lines))
        return changed

    def compile(self, cmd, omp=False):
        """-> the compiler's result; with omp, what cannot be compiled as OpenMP is compiled for one thread"""
        for flags in ([OMPFLAGS, NOOMPFLAGS] if omp else [[]]):
            for _ in range(6):
                r = sh(cmd + flags + ["-I" + self.dir, "-I" + os.path.join(ROOT, "engine"), "-I" + os.path.join(ROOT, "harness"), "-ferror-limit=0"])
                if r.returncode == 0 or not self.repair(r.stdout):
                    break
            if r.returncode == 0:
                break
        return r

    def compile_ir(self, src, out, defs=(), omp=False):
        return self.compile([CLANG] + IRFLAGS + DEFS + list(defs) + ["-emit-llvm", "-c", src, "-o", out], omp)


def native_run(binary, entry, inputs, timeout=20):
    fd, path = tempfile.mkstemp(prefix="sx-in-")
    with os.fdopen(fd, "w") as f:
        for v in inputs:
            f.write("%d\n" % v)
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=1", UBSAN_OPTIONS="print_stacktrace=0", MALLOC_PERTURB_="165")
    try:
        r = execute([binary, entry, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, env=env)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return "timeout", ""
    finally:
        os.unlink(path)


class Native:
    """native binaries of one harness file, built on demand"""
    def __init__(self, scratch, name, defs, omp=False):
        self.scratch, self.name, self.defs, self.omp, self.bins, self.lock = scratch, name, defs, omp, {}, threading.Lock()

    def get(self, kind):
        with self.lock:
            return self.build(kind)

    def build(self, kind):
        if kind not in self.bins:
            out = os.path.join(self.scratch, self.name + "." + kind)
            if self.omp:
                self.bins[kind] = self.build_omp(out) if kind == "opt" else None
                return self.bins[kind]
            fl = NATFLAGS if kind == "opt" else ASANFLAGS
            r = sh(["g++"] + fl + DEFS + self.defs + INC + [os.path.join(ROOT, "harness", self.name + ".cpp"), os.path.join(ROOT, "engine", "sx_native.cpp"), "-o", out, "-ldl", "-ltbb"])
            if r.returncode:
                r = sh(["g++"] + fl + DEFS + self.defs + INC + [os.path.join(ROOT, "harness", self.name + ".cpp"), os.path.join(ROOT, "engine", "sx_native.cpp"), "-o", out, "-ldl"])
            if r.returncode:
                print(r.stdout[-4000:])
            self.bins[kind] = out if r.returncode == 0 else None
        return self.bins[kind]

    def build_omp(self, out):
        """the multithreaded build, instrumented to attribute every access to its logical thread"""
        ov = Overlay(os.path.join(self.scratch, self.name + ".native"))
        r = ov.compile([CLANG] + NATFLAGS + DEFS + self.defs + OMPNATIVE + ["-c", os.path.join(ROOT, "harness", self.name + ".cpp"), "-o", out + ".o"], True)
        if r.returncode == 0:
            r = sh(["g++"] + NATFLAGS + [os.path.join(ROOT, "engine", "sx_native.cpp"), os.path.join(ROOT, "engine", "sx_omp_native.cpp"), out + ".o", "-o", out, "-ldl"])
        if r.returncode:
            print(r.stdout[-4000:])
        return out if r.returncode == 0 else None


def confirm(nat, entry, v):
    ins = [x[1] for x in v["inputs"]]
    b = nat.get("opt")
    order = ["opt", "asan"] if nat.omp or v["kind"] in ("assert", "exception", "hang") else ["asan", "opt"]
    for k in order:
        b = nat.get(k)
        if not b:
            continue
        rc, out = native_run(b, entry, ins, timeout=20)
        if rc == 78 or rc == 79:
            continue
        if rc == "timeout":
            return True, k + ": does not terminate within 20 s"
        if rc != 0:
            line = [l for l in out.splitlines() if l.startswith(("ASSERT", "THROW")) or "ERROR: AddressSanitizer" in l or "runtime error" in l or "Assertion" in l]
            return True, "%s: exit %s %s" % (k, rc, line[0] if line else "")
    return False, ""


def never(nat, entry, label, tries=400):
    """native support for an impossibility decided by the solver: no pseudo-random run shows the event either"""
    b = nat.get("opt")
    if not b:
        return False

    def one(i):
        r = execute([b, entry, "/dev/null"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", timeout=20, env=dict(os.environ, SX_RANDOM=str(i + 1)))
        return ("POSSIBLE " + label) in r.stdout.splitlines()
    with cf.ThreadPoolExecutor(8) as p:
        return not any(p.map(one, range(tries)))


def merge(a, b):
    for k, v in b.items():
        if k not in a:
            a[k] = v
        elif isinstance(v, (int, float)):
            a[k] += v
        elif isinstance(v, list) and k == "functions":
            a[k] = sorted(set(a[k]) | set(v))
        elif isinstance(v, list):
            a[k] = a[k] + v
        elif isinstance(v, dict):
            for kk, vv in v.items():
                if kk not in a[k]:
                    a[k][kk] = vv
                elif isinstance(vv, list):
                    a[k][kk] = [x + y for x, y in zip(a[k][kk], vv)]
                else:
                    a[k][kk] += vv
    return a


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--entry")
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    spec = CHECKS[a.property]
    symx = build_engine()
    scratch = tempfile.mkdtemp(prefix="ffcl-%s-" % a.property)
    try:
        rc = run(a, spec, symx, scratch, seed, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def run(a, spec, symx, scratch, seed, t0):
    jobs = []  # (harness, entry, opts, finding)
    for h in spec["harnesses"]:
        es = list(h.get("quick", []))
        if a.tier == "thorough":
            es += h.get("thorough", [])
        for e in es:
            if isinstance(e, str):
                e = (e, {})
            if a.entry and e[0] != a.entry:
                continue
            jobs.append((h["file"], e[0], e[1], None))
        for f in h.get("findings", []):
            if a.entry and f["entry"] != a.entry:
                continue
            jobs.append((h["file"], f["entry"], f.get("opts", {}), f["what"]))
    files = sorted({j[0] for j in jobs})
    defs = ["-DSX_THOROUGH=1"] if a.tier == "thorough" else []
    omp = {h["file"] for h in spec["harnesses"] if h.get("omp")}
    nats = {f: Native(scratch, f, defs, f in omp) for f in files}

    def compile_ir(f):
        out = os.path.join(scratch, f + ".bc")
        r = Overlay(os.path.join(scratch, f)).compile_ir(os.path.join(ROOT, "harness", f + ".cpp"), out, defs, f in omp)
        return f, r.returncode, r.stdout

    pool = cf.ThreadPoolExecutor(8)
    irs = [pool.submit(compile_ir, f) for f in files]
    natf = [pool.submit(nats[f].get, "opt") for f in files]
    for x in irs:
        f, rc, out = x.result()
        if rc:
            print("cannot compile harness %s against %s:\n%s" % (f, REPO, out[-6000:]))
            return 2
    deadline = float(spec.get("budget", 150 if a.tier == "quick" else 3000))
    width = spec.get("parallel", 4)
    per = max(1, 8 // min(width, max(1, len(jobs))))

    def run_entry(j):
        f, e, o, finding = j
        if stop:  # a violation is already confirmed
            return j, None, {}, 0.0
        out = os.path.join(scratch, f + "." + e + ".json")
        budget = o.get("budget", deadline)
        left = max(5.0, 780 - (time.time() - t0)) if a.tier == "quick" else 1e9
        cmd = [symx, os.path.join(scratch, f + ".bc"), "--entry", e, "--out", out, "--budget", str(min(budget, left)), "--jobs", str(o.get("jobs", per)), "--seed", str(seed)]
        for k in ("max-inst", "prefix", "models", "vset-cap", "pair-cap", "fan", "samples"):
            if k in o:
                cmd += ["--" + k, str(o[k])]
        ts = time.time()
        r = sh(cmd)
        res = {}
        d = os.path.dirname(out)
        parts = sorted(p for p in os.listdir(d) if p.startswith(os.path.basename(out) + "."))
        for p in parts:
            res = merge(res, json.load(open(os.path.join(d, p))))
        return j, r, res, time.time() - ts

    total, viol, unconfirmed, findings_seen = {}, [], [], []
    entries_info, validated, mismatches, samples = [], 0, [], []
    vacuous, broken, incompletes = [], [], {}
    stop = []
    runner = cf.ThreadPoolExecutor(width)
    for fut in cf.as_completed([runner.submit(run_entry, j) for j in jobs]):
        (f, e, o, finding), r, res, wall = fut.result()
        if r is None:
            continue
        if r.returncode or not res:
            broken.append((e, r.stdout[-2000:]))
            continue
        if a.verbose:
            print("%s: %.1fs paths=%d assumed=%d throws=%d sat=%d unsat=%d unk=%d solver=%.1f inst=%d vforks=%d incomplete=%s viol=%d reach=%s" % (e, wall, res["paths"], res["assumed_out"], res["throws"], res["sat"], res["unsat"], res["unknown"], res["solver_s"], res["inst"], res["vsetforks"], res["why_incomplete"], res["violating"], res["reach"]), flush=True)
        if finding is not None:
            ok = False
            for v in res["violations"]:
                c, how = confirm(nats[f], e, v)
                if c:
                    ok = True
                    findings_seen.append({"entry": e, "what": finding, "label": v["label"], "inputs": v["inputs"], "how": how})
                    break
            entries_info.append({"entry": e, "known_finding": finding, "reproduced": ok})
            continue
        seen = set()
        confirmed_here = 0
        for v in res["violations"]:
            key = v["label"] + v["detail"]
            if (key in seen and len(seen) and confirmed_here) or confirmed_here >= 4:
                continue
            c, how = confirm(nats[f], e, v)
            if c:
                seen.add(key); confirmed_here += 1
                viol.append((f, e, v, how)); stop.append(e)
            else:
                unconfirmed.append({"entry": e, "label": v["label"], "detail": v["detail"], "inputs": v["inputs"]})
        for label, (asked, possible) in res.get("possible", {}).items():
            if asked and not possible and not res["incomplete"] and not res["violating"]:
                v = {"label": label, "detail": "cannot happen: the solver refutes it on all %d paths" % asked, "inputs": [], "kind": "impossible"}
                if never(nats[f], e, label):
                    viol.append((f, e, v, "never in 400 native runs with pseudo-random inputs")); stop.append(e)
                else:
                    unconfirmed.append({"entry": e, "label": label, "detail": v["detail"], "inputs": []})
        nb = nats[f].get("opt")
        for s in (res.get("samples") or [])[:16]:
            if not s or not nb:
                continue
            rc, out = native_run(nb, e, [x[1] for x in s["inputs"]])
            em = [int(l.split()[1]) for l in out.splitlines() if l.startswith("EMIT ")]
            if rc == 0 and em == s["emits"]:
                validated += 1
            elif res["violating"] == 0:
                mismatches.append({"entry": e, "inputs": s["inputs"], "engine": s["emits"], "native": em, "rc": rc})
        if res.get("samples"):
            samples += [dict(entry=e, **s) for s in res["samples"] if s][:1]
        if not res["reach"] and not res["violating"]:
            vacuous.append(e)
        if res["incomplete"]:
            incompletes[e] = res["why_incomplete"]
        entries_info.append({"entry": e, "harness": "harness/%s.cpp" % f, "paths": res["paths"] + res["throws"], "paths_cut_by_assumptions": res["assumed_out"], "incomplete_paths": res["incomplete"], "instructions": res["inst"],
                             "solver_queries": {"sat": res["sat"], "unsat": res["unsat"], "unknown": res["unknown"]}, "solver_s": round(res["solver_s"], 2), "wall_s": round(wall, 2),
                             "assertions": {k: {"constant_true": x[0], "discharged_by_solver": x[1], "violated": x[2]} for k, x in res["asserts"].items()}, "possibilities": {k: x[1] > 0 for k, x in res.get("possible", {}).items()}, "reachability_witnesses": res["reach"]})
        total = merge(total, {k: v for k, v in res.items() if k not in ("samples", "violations", "asserts", "reach", "possible")})

    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    code = 0
    for fs in findings_seen:
        print("KNOWN-FINDING: property=%s %s" % (a.property, fs["what"]))
    printed = set()
    for n, (f, e, v, how) in enumerate(viol):
        path = os.path.join(ROOT, "replays", "%s-%s-%d.txt" % (a.property, e, n))
        with open(path, "w") as fo:
            fo.write("# property %s, entry %s of harness/%s.cpp\n# violated: %s %s\n# native replay: %s\n" % (a.property, e, f, v["label"], v["detail"], how))
            fo.write("# replay: g++ %s -o /tmp/replay && /tmp/replay %s %s\n" % (" ".join(NATFLAGS + DEFS + INC + [os.path.join(ROOT, "harness", f + ".cpp"), os.path.join(ROOT, "engine", "sx_native.cpp"), "-ldl", "-ltbb"]), e, path))
            for nm, val in v["inputs"]:
                fo.write("%d # %s\n" % (val, nm))
        print("VIOLATION property=%s replay=%s" % (a.property, path))
        if v["label"] not in printed:
            printed.add(v["label"])
            print("  entry %s: %s %s [%s]" % (e, v["label"], v["detail"], how))
        code = 1
    if a.verbose or a.entry:
        for u in unconfirmed[:5]:
            print("unconfirmed:", u)
        for m in mismatches[:5]:
            print("mismatch:", m)
    for b in broken:
        print("engine failure on %s: %s" % b)
    for v in vacuous:
        print("no witness reached in %s (%s)" % (v, incompletes.get(v)))
    if code == 0 and (broken or (vacuous and not unconfirmed)):
        code = 2
    ev = {
        "property": a.property, "tier": a.tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": total.get("paths", 0) + total.get("throws", 0),
            "transitions": total.get("forks", 0),
            "traces_validated_against_impl": validated,
            "samples": samples[:6],
            "exhaustive": not incompletes and not unconfirmed and not broken,
            "explanation": "states = feasible symbolic paths executed to the end (each covers every input satisfying its path condition); transitions = solver-decided two-way branches; traces = sampled path models replayed natively with identical observations",
            "bounds": spec.get("bounds", []),
            "entries": entries_info,
            "functions_encoded": total.get("functions", []),
            "queries": {"sat": total.get("sat", 0), "unsat": total.get("unsat", 0), "unknown": total.get("unknown", 0)},
            "solver_s": round(total.get("solver_s", 0.0), 2),
            "instructions_executed": total.get("inst", 0),
            "incomplete": incompletes, "unconfirmed_counterexamples": unconfirmed[:10], "trace_mismatches": mismatches[:10],
            "known_findings": findings_seen,
        },
        "assumptions": COMMON_ASSUMPTIONS + spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", a.property + ".json"), "w") as fo:
        json.dump(ev, fo, indent=1)
    print("%s %s: %d entries, %d paths, %d queries (%d unsat), solver %.1fs, %d traces validated, %d mismatches, incomplete=%s, violations=%d, wall %.1fs" % (
        a.property, a.tier, len(entries_info), ev["coverage"]["states"], total.get("sat", 0) + total.get("unsat", 0), total.get("unsat", 0), ev["coverage"]["solver_s"], validated, len(mismatches), {k: sum(v.values()) for k, v in incompletes.items()} or 0, len(viol), ev["wall_s"]))
    return code


if __name__ == "__main__":
    main()
