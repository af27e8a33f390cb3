#!/usr/bin/env python3
"""Driver: compiles each property's harnesses against /repo's current headers to LLVM IR, decides every harness with the
symbolic executor (engine/sx), replays every counterexample against the natively compiled real code, writes the evidence.
  vp.py check ID [--tier quick|thorough]      vp.py run FILE.cpp [harness...]      vp.py replay REPLAYFILE"""
import sys, os, re, json, subprocess, hashlib, time, shutil, tempfile, threading
from concurrent.futures import ThreadPoolExecutor, as_completed
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
B = os.path.join(V, "build"); ENG = os.path.join(V, "engine"); H = os.path.join(V, "harness")
SX = os.path.join(B, "sx")
UB = "-fsanitize=signed-integer-overflow,shift-exponent,integer-divide-by-zero,bounds,return,unreachable"
IRF = ("-O2 -S -emit-llvm -fno-vectorize -fno-slp-vectorize -fno-builtin -fno-delete-null-pointer-checks -fno-pic -fno-jump-tables -ffp-contract=off "
       "-mllvm -disable-loop-idiom-all -w -ftemplate-depth=2048 -fconstexpr-depth=2048 -fbracket-depth=1024 " + UB + " -fsanitize-trap=all").split()
NJ = os.cpu_count() or 4

def sh(cmd, timeout=None, mem=None, **kw):
    def pre():
        os.setsid()
        if mem:
            import resource; resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=pre, **kw)
    try:
        o, _ = p.communicate(timeout=timeout); return p.returncode, o.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except Exception: pass
        o, _ = p.communicate(); return -999, o.decode("utf8", "replace")

def directives(src):
    d = {"std": ["11", "17"], "variants": [("", [])], "opt": {}, "natstd": "17"}
    for line in open(src):
        m = re.match(r"\s*//\s*VP-(\w+):\s*(.*)", line)
        if not m: continue
        k, v = m.group(1), m.group(2).split()
        if k == "STD": d["std"] = v
        elif k == "NATSTD": d["natstd"] = v[0]
        elif k == "VARIANT": d["variants"].append((v[0], v[1:]))
        elif k == "ONLY-VARIANT" or k == "ONLY": d["variants"] = [(v[0], v[1:])]
        elif k == "OPT": d["opt"].setdefault(v[0], {}).update(dict(x.split("=") for x in v[1:]))
    return d

FN = re.compile(r'^define [^@]*@("?[\w.$]+"?|"[^"]+")\(')
def closures(ll):
    """harness name -> hash of the harness's IR and of everything it reaches"""
    txt = open(ll).read(); defs = {}; cur = None; buf = []
    for line in txt.split("\n"):
        if cur is None:
            m = FN.match(line)
            if m: cur = m.group(1).strip('"'); buf = [line]; continue
            m = re.match(r'^@("?[\w.$]+"?) = (.*)', line)
            if m: defs[m.group(1).strip('"')] = line
        else:
            buf.append(line)
            if line == "}": defs[cur] = "\n".join(buf); cur = None
    norm = {k: re.sub(r"(#|!)\d+|!tbaa|!srcloc|^; .*$|section \"[^\"]*\"|mustprogress|, !\w+", "", v, flags=re.M) for k, v in defs.items()}
    refs = {k: set(x.strip('"') for x in re.findall(r'@("?[\w.$]+"?)', v)) - {k} for k, v in norm.items()}
    out = {}
    for h in defs:
        if not re.match(r"h[kt]?_\w+$", h): continue
        seen, st = set(), [h]
        while st:
            x = st.pop()
            if x in seen or x not in norm: continue
            seen.add(x); st += list(refs[x])
        out[h] = hashlib.sha256("\n".join(norm[x] for x in sorted(seen)).encode()).hexdigest()
    return out

def block_of(src, n):
    """first and last line (from 0) of the harness that line n (from 1) belongs to"""
    a = n - 1
    while a >= 0 and not src[a].startswith("HARNESS"): a -= 1
    if a < 0: return None
    depth = 0; opened = False
    for b in range(a, len(src)):
        t = re.sub(r'"(\\.|[^"\\])*"|\'(\\.|[^\'\\])\'', "", src[b]).split("//")[0]
        for ch in t:
            if ch == "{": depth += 1; opened = True
            elif ch == "}": depth -= 1
        if opened and depth == 0: return (a, b) if b >= n - 1 else None
    return None

class Check:
    def __init__(s, pid, tier, files, only=None):
        s.pid, s.tier, s.files, s.only = pid, tier, files, only
        s.dead = time.time() + float(os.environ.get("VP_DEADLINE", "660" if tier == "quick" else "3000"))
        s.tmp = tempfile.mkdtemp(prefix="vp_%s_" % pid); s.lock = threading.Lock(); s.nat = {}; s.natlock = {}; s.left_out = []; s.errors = []; s.t0 = time.time()
        s.tflags = ["-DVP_THOROUGH=%d" % (tier == "thorough")]
    def left(s): return s.dead - time.time()
    def compile(s, f, std, var):
        out = os.path.join(s.tmp, "%s.%s.%s.ll" % (os.path.basename(f)[:-4], std, var[0]))
        rc, o = sh(["clang++", "-std=c++" + std] + IRF + s.tflags + var[1] + ["-ferror-limit=0", "-ftemplate-backtrace-limit=0", "-DVP_SYM=1", "-I" + REPO, "-I" + ENG, "-I" + H, f, "-o", out], timeout=max(10, s.left()))
        if rc == 0 or s.left() < 60: return (f, std, var, out if rc == 0 else None, o)
        # leave out the harnesses the compiler names and decide the rest
        src = open(f).read().split("\n"); gone = []; first = o
        part = os.path.join(V, "replays", "%s.%s.%s.part.cpp" % (os.path.basename(f)[:-4], std, var[0])); os.makedirs(os.path.dirname(part), exist_ok=True); name = os.path.basename(f)
        for _ in range(6):
            bad = set(); err = False
            for l in o.split("\n"):
                if "error:" in l: err = True
                m = re.search(re.escape(name) + r":(\d+):\d+: (error:|note: .*(requested here|while substituting|in call to))", l)
                if m: bad.add(int(m.group(1)))
            blocks = set(b for b in (block_of(src, n) for n in bad) if b)
            if not err or not blocks: break
            for a, b in blocks:
                gone.append(re.match(r"HARNESS(?:_T)?\((\w+)\)|", src[a]).group(1) or "?")
                for i in range(a, b + 1): src[i] = ""
            open(part, "w").write("\n".join(src)); name = os.path.basename(part)
            rc, o = sh(["clang++", "-std=c++" + std] + IRF + ["-ferror-limit=0", "-ftemplate-backtrace-limit=0"] + s.tflags + var[1] + ["-DVP_SYM=1", "-I" + REPO, "-I" + ENG, "-I" + H, part, "-o", out], timeout=max(10, s.left()))
            if rc == 0:
                left = len(re.findall(r"(?m)^HARNESS", "\n".join(src)))
                with s.lock: s.left_out.append((name, std, var[0], sorted(set(gone)), left, "\n".join(x for x in first.split("\n") if "error:" in x)[:500]))
                return (part, std, var, out if left else None, first)
            if s.left() < 60: break
        return (f, std, var, None, first)
    def native(s, f, std, var, cfg):
        key = (f, std, var[0], cfg)
        with s.lock: lk = s.natlock.setdefault(key, threading.Lock())
        with lk:
            if key in s.nat: return s.nat[key]
            exe = os.path.join(s.tmp, "nat_" + hashlib.md5(repr(key).encode()).hexdigest()[:12])
            cc, fl = NAT[cfg]
            rc, o = sh([cc, "-std=c++" + std] + fl.split() + s.tflags + var[1] + ["-w", "-g0", "-rdynamic", "-ftemplate-depth=2048", "-I" + REPO, "-I" + ENG, "-I" + H, f, os.path.join(ENG, "vp_native.cpp"), "-ldl", "-o", exe], timeout=max(20, min(300, s.left())))
            s.nat[key] = (exe, "") if rc == 0 else (None, o)
            return s.nat[key]
    def sx(s, job):
        f, std, var, ll, h, opt = job
        outp = os.path.join(s.tmp, "r_%s.json" % hashlib.md5(repr((ll, h)).encode()).hexdigest()[:12])
        tmo = float(opt.get("timeout", 150 if s.tier == "quick" else 1200))
        if s.tier == "thorough": tmo = max(tmo, 1200)
        tmo = min(tmo, s.left() - 15)
        if tmo < 1: return job, {"status": "skipped", "why": "time budget of the check", "violations": []}
        cmd = [SX, ll, h, outp, "--timeout", str(tmo)] + (["--cross", "1"] if s.tier == "thorough" else [])
        for k in ("max-instr", "conflicts", "qhard", "max-paths"):
            if k in opt: cmd += ["--" + k, opt[k]]
        rc, o = sh(cmd, timeout=tmo + 60, mem=(8 << 30) + (5 << 30))
        try: r = json.load(open(outp))
        except Exception: r = {"status": "error", "why": "sx ended with %s: %s" % (rc, o[-300:]), "violations": []}
        return job, r
    def confirm(s, job, v):
        """replay a solver model on the real code; returns (configuration, output) or None"""
        f, std, var, ll, h, opt = job
        inp = os.path.join(s.tmp, "in_%s" % hashlib.md5(repr((h, v)).encode()).hexdigest()[:12])
        open(inp, "w").write("\n".join(x[1] for x in v["inputs"]) + "\n")
        for cfg in ("g++-san", "clang-san", "g++-O2", "clang-O2"):
            exe, o = s.native(f, std, var, cfg)
            if not exe: continue
            rc, o = sh([exe, "replay", h, inp], timeout=20, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=0"))
            if rc == -999: return (cfg, "no result within 20 s (non-termination)\n" + o[-300:]) if v["kind"].startswith("NON-TERM") else None
            if rc not in (0, 77, 3): return cfg, o[-1500:]
        return None
    def run(s):
        jobs = []; seen = {}; dup = 0; comp = []; failedTU = []; natjobs = []
        ex = ThreadPoolExecutor(NJ)
        futs = []
        for f in s.files:
            d = directives(f)
            for std in d["std"]:
                for var in d["variants"]: futs.append((d, ex.submit(s.compile, f, std, var)))
        results = []; runf = []
        nat_f = {}
        for d, fu in futs:
            f, std, var, ll, o = fu.result()
            if not ll:
                failedTU.append((f, std, var[0], o)); continue
            for h, hh in sorted(closures(ll).items()):
                if h.startswith("ht_") and s.tier == "quick" and not s.only: continue
                if s.only and h not in s.only and h.split("_", 1)[1] not in s.only: continue
                if (f, h, hh) in seen: dup += 1; continue
                seen[(f, h, hh)] = 1
                job = (f, std, var, ll, h, dict(d["opt"].get("*", {}), **d["opt"].get(h.split("_", 1)[1], {})))
                jobs.append(job)
        # long jobs first when a previous timing is known to be long (directive order hint: opt 'w')
        jobs.sort(key=lambda j: -float(j[5].get("w", 1)))
        for job in jobs: runf.append(ex.submit(s.sx, job))
        for fu in as_completed(runf):
            results.append(fu.result())
        s.results, s.dup, s.failedTU = results, dup, failedTU
        # traces: path models replayed natively
        groups = {}
        for job, r in results:
            if job[4].startswith("hk_"): continue
            for t in r.get("traces", []): groups.setdefault((job[0], job[1], job[2][0]), (job, []))[1].append("%s\t%s\t%s" % (job[4], t[0], ",".join(t[1:])))
        def tr(k):
            job, lines = groups[k]; p = os.path.join(s.tmp, "tr_" + hashlib.md5(repr(k).encode()).hexdigest()[:12]); open(p, "w").write("\n".join(lines) + "\n")
            if s.left() < 30: return job, lines, "", 0, 0
            exe, o = s.native(job[0], job[1], job[2], "g++-O0")
            if not exe: return job, lines, "native build failed: " + o[-400:], 0, 0
            rc, o = sh([exe, "trace", p], timeout=60); m = re.search(r"TRACES (\d+) bad (\d+)", o)
            if not m and rc < 0 and rc != -999:
                # the real code crashed on the model of a path: find the models that do it
                o = "trace run ended with signal %d\n" % -rc; n = 0
                for i, l in enumerate(lines):
                    if s.left() < 30: break
                    open(p + "_1", "w").write(l + "\n")
                    rc1, o1 = sh([exe, "trace", p + "_1"], timeout=20); m1 = re.search(r"TRACES (\d+) bad (\d+)", o1); t = l.split("\t")
                    if m1: n += 1; o += o1
                    elif rc1 < 0 and rc1 != -999: o += "MISMATCH %s failed=1 crash with signal %d: %s\n" % (t[0], -rc1, t[2])
                return job, lines, o, n, len(lines) - n
            return job, lines, o if m else "trace run ended with %s after: %s" % (rc, o[-300:]), int(m.group(1)) if m else 0, int(m.group(2)) if m else 0
        # one std per file is enough for the traces in the quick tier
        keys = sorted(groups)
        if s.tier == "quick":
            pick = {}
            for k in keys: pick.setdefault((k[0], k[2]), []).append(k)
            keys = [sorted(v, key=lambda k: (-len(groups[k][1]), k[1] != "17"))[0] for v in pick.values()]
        s.traces = [fu.result() for fu in [ex.submit(tr, k) for k in keys]]
        # confirm
        s.viol, s.unconf, s.known = [], [], []
        cj = []
        for job, r in results:
            for v in r.get("violations", []): cj.append((job, v, ex.submit(s.confirm, job, v) if len(cj) < 60 else None))
        for job, v, fu in cj:
            c = fu.result() if fu else None
            (s.viol if c else s.unconf).append((job, v, c))
        ex.shutdown()
        for job, lines, o, n, bad in s.traces:
            for line in o.split("\n"):
                m = re.match(r"MISMATCH (\S+) failed=(\d) .*: ([\d,]*)$", line)
                if m and m.group(2) == "1": s.viol.append((job[:4] + (m.group(1), {}), {"kind": "CHECK (path model, native)", "where": "", "inputs": [[0, x] for x in m.group(3).split(",") if x]}, ("g++-O0", line)))
        return s
NAT = {"g++-O0": ("g++", "-O0"), "g++-san": ("g++", "-O0 -fsanitize=address,undefined -fno-sanitize-recover=all"), "clang-san": ("clang++", "-O0 -fsanitize=address,undefined -fno-sanitize-recover=all"),
       "g++-O2": ("g++", "-O2"), "clang-O2": ("clang++", "-O2")}

def demangle(names):
    names = sorted(names)
    if not names: return []
    p = subprocess.run(["llvm-cxxfilt-18"] if shutil.which("llvm-cxxfilt-18") else ["c++filt"], input="\n".join(names).encode(), stdout=subprocess.PIPE)
    out = set()
    for x in p.stdout.decode().split("\n"):
        # drop template arguments and parameters
        y, dep = "", 0
        for i, ch in enumerate(x):
            if ch == "<" and not x[:i].endswith("operator") and not x[:i].endswith("operator<"): dep += 1
            elif ch == ">" and dep and x[i-1] != "-" : dep -= 1
            elif dep == 0:
                if ch == "(" and not x[i:].startswith("(anonymous") and not x[:i].endswith("operator"): break
                y += ch
        y = y.split(" ")[-1] if "operator" not in y else y[y.find("sprout"):]
        if "sprout" in y: out.add(y)
    return sorted(out)

def known_findings():
    d = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) harness=(\S+) (.*)", line.strip())
            if m: d.append(m.groups())
    return d

def main_check(pid, tier):
    files = sorted(os.path.join(H, f) for f in os.listdir(H) if f.startswith(pid + "_") and f.endswith(".cpp"))
    if not files: print("no harness for", pid); return 2
    if not os.path.exists(SX): subprocess.check_call([os.path.join(ENG, "build.sh")])
    s = Check(pid, tier, files)
    try:
        s.run(); rc = report(s)
    finally:
        shutil.rmtree(s.tmp, ignore_errors=True)
    return rc

def report(s):
    pid = s.pid; kf = {(h): w for p, h, w in known_findings() if p == pid}
    rdir = os.path.join(V, "replays"); os.makedirs(rdir, exist_ok=True)
    for x in os.listdir(rdir):
        if x.startswith(pid + "_"): os.unlink(os.path.join(rdir, x))
    shown = set(); nviol = 0
    for job, v, c in s.viol:
        h = job[4]
        if h in kf:
            if h not in shown: print("KNOWN-FINDING: property=%s %s" % (pid, kf[h])); shown.add(h)
            continue
        key = (h, v["kind"], v["where"])
        if key in shown: continue
        shown.add(key); nviol += 1
        p = os.path.join(rdir, "%s_%s_%d.txt" % (pid, h, nviol))
        with open(p, "w") as o:
            o.write("#VP property=%s file=%s harness=%s std=%s variant=%s flags=%s config=%s\n# %s %s\n" % (pid, os.path.relpath(job[0], V), h, job[1], job[2][0] or "-", json.dumps(job[2][1] + s.tflags), c[0], v["kind"], v["where"]))
            o.write("# re-run on the real code:  python3 vp.py replay %s\n" % os.path.relpath(p, V))
            o.write("".join("# | " + l + "\n" for l in c[1].split("\n")[:25]))
            o.write("\n".join(x[1] for x in v["inputs"]) + "\n")
        print("VIOLATION property=%s replay=%s" % (pid, p))
        print("  %s: %s %s; inputs %s; confirmed with %s" % (h, v["kind"], v["where"][:200], [x[1] for x in v["inputs"]][:24], c[0]))
    rs = s.results
    tot = lambda k: sum(r.get(k, 0) or 0 for _, r in rs)
    undec = [{"harness": j[4], "std": j[1], "variant": j[2][0], "status": r["status"], "why": r.get("why", ""), "lines": r.get("undecided", []), "notes": r.get("incomplete", []), "paths": r.get("paths", 0)} for j, r in rs if r["status"] != "complete"]
    fns = set()
    for _, r in rs: fns |= set(r.get("functions", []))
    decided = [j for j, r in rs if r["status"] == "complete"]
    ntr = sum(t[3] for t in s.traces); bad = sum(t[4] for t in s.traces)
    samples = []
    for j, r in rs[:40]:
        for t in r.get("traces", [])[:1]: samples.append({"harness": j[4], "inputs_of_one_path": t[1:25]})
    ev = {"property": pid, "tier": s.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
      "coverage": {"states": tot("paths"), "transitions": tot("instructions"), "traces_validated_against_impl": ntr - bad, "samples": samples[:20] or ["none"],
        "explanation": "states = execution paths of the harnesses explored symbolically (each stands for all inputs that follow it); transitions = IR instructions executed symbolically; traces = path models replayed on the g++-built real code with identical outcome",
        "exhaustive": not undec and not s.failedTU and not s.left_out,
        "harnesses": len(rs), "harnesses_decided": len(decided), "harnesses_same_ir_in_both_standards": s.dup, "completed_paths": tot("completed"), "branch_queries": tot("branch_queries"), "assertion_queries": tot("check_queries"),
        "assertions_evaluated": tot("checks"), "assertions_decided_by_simplification": tot("checks_trivial"), "query_cache_hits": tot("cache_hits"), "z3_queries": tot("z3_queries"), "z3_cross_checked": tot("cross_checked"), "z3_cross_agreed": tot("cross_agreed"),
        "unknown_queries": tot("unknown"), "solver_s": round(tot("solver_s"), 2), "symbolic_execution_s": round(tot("wall_s"), 2),
        "functions_encoded": len(fns), "library_functions_encoded": demangle(fns), "trace_mismatches": bad,
        "bounds": BOUNDS.get(pid, "see DESIGN.md and the harness sources: element counts, value ranges and string lengths are those of the harness; every loop and recursion is followed to its end"),
        "undecided": undec, "unconfirmed_models": [{"harness": j[4], "kind": v["kind"], "where": v["where"], "inputs": [x[1] for x in v["inputs"]][:30]} for j, v, c in s.unconf],
        "tu_failed_to_compile": [{"file": os.path.basename(f), "std": st, "variant": va, "error": o[:600]} for f, st, va, o in s.failedTU],
        "harnesses_left_out_because_they_do_not_compile": [{"file": a, "std": b, "variant": c, "harnesses": g, "error": e} for a, b, c, g, l, e in s.left_out],
        "per_harness": [{"h": j[4], "std": j[1], "variant": j[2][0], "status": r["status"], "paths": r.get("paths", 0), "queries": (r.get("branch_queries", 0) or 0) + (r.get("check_queries", 0) or 0), "wall_s": round(r.get("wall_s", 0) or 0, 2)} for j, r in sorted(rs, key=lambda x: x[0][4])]},
      "assumptions": ["clang 18's front end and -O2 pipeline translate the source faithfully (path models are replayed on g++ builds)", "engine/sx.cpp, engine/blast.hpp, MiniSat and Z3 are correct", "sequential execution; little-endian LP64"],
      "wall_s": round(time.time() - s.t0, 2), "violations": nviol}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    print("%s: %d harness runs, %d decided, %d undecided, %d paths, %d queries, solver %.1fs, wall %.1fs, traces %d/%d ok" % (pid, len(rs), len(decided), len(undec), tot("paths"), tot("branch_queries") + tot("check_queries"), tot("solver_s"), time.time() - s.t0, ntr - bad, ntr))
    for u in undec: print("  undecided: %s c++%s %s: %s %s %s %s" % (u["harness"], u["std"], u["variant"], u["status"], u["why"][:200], u["lines"], u["notes"]))
    for j, v, c in s.unconf: print("  unconfirmed: %s c++%s %s %s inputs %s" % (j[4], j[1], v["kind"], v["where"][:150], [x[1] for x in v["inputs"]][:20]))
    for f, st, va, o in s.failedTU: print("  did not compile: %s c++%s %s\n%s" % (os.path.basename(f), st, va, "\n".join(l for l in o.split("\n") if "error" in l)[:600] if os.environ.get("VP_BRIEF") else o[:3000]))
    for t in s.traces:
        if t[4] or not t[3]: print("  traces: %s %s" % (os.path.basename(t[0][0]), "\n".join(l[:300] for l in t[2].split("\n") if "TRACES" not in l)[:1500]))
    for a, b, c, g, l, e in s.left_out: print("  do not compile and were left out: %s c++%s %s: %s\n%s" % (a, b, c, " ".join(g), e))
    if nviol: return 1
    if sum(len(g) for a, b, c, g, l, e in s.left_out) > sum(l for a, b, c, g, l, e in s.left_out): return 2
    if not decided: return 2
    if s.failedTU:
        # does the g++ build fail as well?  then the public interface the harness uses is gone: no answer
        for f, st, va, o in s.failedTU:
            var = [v for v in directives(f)["variants"] if v[0] == va][0]
            rc, o2 = sh(["g++", "-std=c++" + st, "-fsyntax-only", "-w", "-ftemplate-depth=2048"] + s.tflags + var[1] + ["-I" + REPO, "-I" + ENG, "-I" + H, f], timeout=200)
            if rc != 0: return 2
    return 0
BOUNDS = {}
try: BOUNDS = json.load(open(os.path.join(V, "bounds.json")))
except Exception: pass

def main_replay(path):
    head = open(path).readline(); m = re.match(r"#VP property=(\S+) file=(\S+) harness=(\S+) std=(\S+) variant=(\S+) flags=(\[.*\]) config=(\S+)", head)
    pid, f, h, std, var, flags, cfg = m.groups(); cc, fl = NAT[cfg]
    t = tempfile.mkdtemp(prefix="vp_replay_")
    try:
        rc, o = sh([cc, "-std=c++" + std] + fl.split() + json.loads(flags) + ["-w", "-rdynamic", "-ftemplate-depth=2048", "-I" + REPO, "-I" + ENG, "-I" + H, os.path.join(V, f), os.path.join(ENG, "vp_native.cpp"), "-ldl", "-o", t + "/x"])
        if rc: print(o); return 2
        rc, o = sh([t + "/x", "replay", h, path], timeout=30, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0")); print(o)
        if rc == -999: print("no result within 30 s")
        return 0 if rc == 0 else 1
    finally: shutil.rmtree(t, ignore_errors=True)

if __name__ == "__main__":
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--tier" in a: i = a.index("--tier"); tier = a[i + 1]; del a[i:i + 2]
    if a[0] == "check": sys.exit(main_check(a[1], tier))
    if a[0] == "replay": sys.exit(main_replay(a[1]))
    if a[0] == "run":
        only = set(a[2:]) or None
        os.environ.setdefault("VP_BRIEF", "")
        s = Check("X00", tier, [os.path.abspath(a[1])], only)
        try: s.run(); rc = report(s)
        finally: shutil.rmtree(s.tmp, ignore_errors=True)
        for j, r in sorted(s.results, key=lambda x: x[0][4]): print("%-28s c++%s %-8s %-10s paths %6d  queries %6d  solver %7.2f  wall %7.2f" % (j[4], j[1], j[2][0], r["status"], r.get("paths", 0), r.get("branch_queries", 0) + r.get("check_queries", 0), r.get("solver_s", 0), r.get("wall_s", 0)))
        sys.exit(rc)
