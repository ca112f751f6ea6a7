#!/usr/bin/env python3
"""Driver: decides one property by symbolic execution of the repository's current code.

usage: check.py <PROPERTY> [quick|thorough]      exit 0 holds / 1 VIOLATION / 2 no answer
"""
import sys, os, re, json, time, glob, hashlib, subprocess, mmap, struct, shutil, fnmatch
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
Z3 = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
NCPU = min(8, os.cpu_count() or 4)
INC = [VERIF + "/stubs/include", VERIF + "/harness", VERIF + "/stubs", REPO + "/include", REPO + "/src", REPO + "/src/Crypto", REPO + "/deps", REPO + "/deps/stduuid/include", REPO + "/deps/ghc",
       REPO + "/deps/jsoncpp", REPO + "/deps/cppcodec", REPO + "/deps/scheduler/include", REPO + "/deps/bitcoin/include", REPO + "/deps/chachapoly", REPO + "/deps/caches/include", REPO + "/deps/rfc6234"]
CXXFLAGS = ["-std=c++17", "-include", "cstdint", "-include", "cstring", "-include", "stdexcept", "-DNDEBUG", "-DUNICODE", "-Wno-everything", "-Xclang", "-disable-llvm-passes", "-O1", "-gline-tables-only", "-D_GLIBCXX_EXTERN_TEMPLATE=0",
            "-fno-threadsafe-statics", "-emit-llvm", "-c"] + ["-I" + i for i in INC]

def log(*a):
    print(*a, file=sys.stderr, flush=True)

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b"\0")
    return h.hexdigest()[:24]

_fh = {}
def fhash(f):
    if f not in _fh:
        try:
            with open(f, "rb") as fp: _fh[f] = hashlib.sha256(fp.read()).hexdigest()
        except OSError:
            _fh[f] = None
    return _fh[f]

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)

# ---------------------------------------------------------------- build
def engine_jobs():
    src = sorted(glob.glob(VERIF + "/engine/*"))
    key = sha(*[fhash(f) or "" for f in src])
    out = f"{BUILD}/engine-{key}"
    if os.path.exists(out): return out, []
    jobs = []
    for t in ["expr", "solver", "prep", "exec", "main"]:
        o = f"{BUILD}/{key}-{t}.o"
        jobs.append((o, ["g++", "-std=c++17", "-O2", "-fno-rtti", "-c", f"{VERIF}/engine/{t}.cpp", "-o", o, "-I/usr/lib/llvm-18/include", f"-I{Z3}/include"]))
    return out, jobs

def engine_link(out, jobs):
    if os.path.exists(out): return
    tmp = out + ".tmp%d" % os.getpid()
    r = run(["g++", "-o", tmp] + [j[0] for j in jobs] + [f"-L{Z3}/lib", "-lz3", "-L/usr/lib/llvm-18/lib", "-lLLVM-18", "-lpthread", f"-Wl,-rpath,{Z3}/lib"])
    if r.returncode: raise SystemExit("engine link failed: " + r.stderr)
    os.rename(tmp, out)

def compile_bc(src, extra=()):
    """compile one file to bitcode; cached by the contents of everything it includes"""
    flags = [f.replace("$VERIF", VERIF) for f in extra] + CXXFLAGS
    isc = src.endswith(".c")
    base = sha(src, *flags)
    dep = f"{BUILD}/{base}.dep"
    def key_from(deps):
        return sha(base, *[d + ":" + (fhash(d) or "-") for d in deps])
    if os.path.exists(dep):
        deps = open(dep).read().split("\n")
        out = f"{BUILD}/{key_from(deps)}.bc"
        if os.path.exists(out): return out, None
    tmp = f"{BUILD}/{base}.{os.getpid()}"
    fl = flags
    cc = "clang++"
    if isc:
        cc = "clang"; fl = [f for f in flags if f not in ("-std=c++17", "-include", "cstdint", "cstring", "stdexcept")]
    r = run([cc] + fl + ["-MD", "-MF", tmp + ".d", src, "-o", tmp + ".bc"])
    if r.returncode: return None, r.stderr
    txt = open(tmp + ".d").read().replace("\\\n", " ")
    deps = sorted(set(d for d in txt.split(":", 1)[1].split() if not d.startswith("/usr/") or False))
    open(tmp + ".d", "w").write("\n".join(deps)); os.rename(tmp + ".d", dep)
    out = f"{BUILD}/{key_from(deps)}.bc"
    os.rename(tmp + ".bc", out)
    return out, None

def directives(src):
    d = {"repo": [], "stubs": ["common"], "merge": [], "flags": [], "deps": [], "timeout": [], "bounds": [], "outside": [], "exclude": [], "qtimeout": [], "concretize": [], "nomerge": []}
    for line in open(src):
        m = re.match(r"//@(\w+)\s+(.*)", line)
        if m and m.group(1) in d:
            v = m.group(2).strip()
            if m.group(1) in ("bounds", "outside"): d[m.group(1)].append(v)
            elif m.group(1) in ("merge", "concretize", "nomerge"): d[m.group(1)].append(v)
            else: d[m.group(1)] += v.split()
    return d

RTC = ("-fno-builtin", "-Wno-everything", "-std=gnu11")
DEFAULT_EXCLUDE = ["src/Core/File/MappedFile_*.cpp", "src/Common/ChildProcess.cpp", "src/Server/*", "src/Common/Logger.cpp"]

def expand(globs, exclude):
    out = []
    def braces(g):
        m = re.match(r"([^{]*)\{([^}]*)\}(.*)", g)
        return [m.group(1) + a + m.group(3) for a in m.group(2).split(",")] if m else [g]
    globs = [x for g in globs for x in braces(g)]
    for g in globs:
        for f in sorted(glob.glob(os.path.join(REPO, g), recursive=True)):
            rel = os.path.relpath(f, REPO)
            if f.endswith((".cpp", ".c")) and f not in out: out.append(f)
    res = []
    for f in out:
        rel = os.path.relpath(f, REPO)
        if rel not in globs and any(fnmatch.fnmatch(rel, e) for e in exclude): continue
        res.append(f)
    return res

# ---------------------------------------------------------------- replay
def replay(engine, linked, model, entry, workdir):
    exe = f"{workdir}/replay-{entry}"
    if not os.path.exists(exe):
        r = run(["clang++", "-O1", "-g", "-fsanitize=address", "-Wno-everything", f"-DVERIF_ENTRY={entry}", "-std=c++17", linked, VERIF + "/rt/replay.cpp", "-o", exe, "-lpthread", "-Wl,--unresolved-symbols=ignore-all"])
        if r.returncode:
            return False, "replay build failed: " + r.stderr[-2000:]
    try:
        r = run([exe, model], timeout=60, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=4096"))
    except subprocess.TimeoutExpired:
        return True, "replay did not terminate within 60 s"
    ok = r.returncode != 0
    return ok, (r.stdout[-1500:] + r.stderr[-2500:])

def known_findings():
    res = []
    f = VERIF + "/known_findings.txt"
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r"finding:\s+property=(\S+)\s+label=(\S+)\s*(.*)", line)
            if m: res.append(m.groups())
    return res

def setup():
    """builds the engine; everything else is rebuilt by each check from the current tree"""
    os.makedirs(BUILD, exist_ok=True)
    engine, jobs = engine_jobs()
    with ThreadPoolExecutor(NCPU) as ex: rs = list(ex.map(lambda j: run(j[1]), jobs))
    for r in rs:
        if r.returncode: log(r.stderr); return 2
    engine_link(engine, jobs)
    return 0

def main():
    if sys.argv[1] == "--setup": return setup()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[3] if len(sys.argv) > 3 else None
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    harnesses = sorted(glob.glob(f"{VERIF}/harness/{prop}*.cpp"))
    harnesses = [h for h in harnesses if re.match(rf"{prop}(_\w+)?\.cpp$", os.path.basename(h))]
    if not harnesses: log("no harness for", prop); return 2
    workdir = f"{BUILD}/run-{prop}-{tier}-{os.getpid()}"
    os.makedirs(workdir, exist_ok=True)
    engine, ejobs = engine_jobs()
    units = []
    for h in harnesses:
        d = directives(h)
        stubs = [f"{VERIF}/stubs/{s}.cpp" for s in d["stubs"] if s != "none"]
        repo = expand(d["repo"] or ["src/Core/**/*.cpp"], DEFAULT_EXCLUDE + d["exclude"]) + expand(d["deps"], [])
        units.append((h, d, stubs, repo))
    todo = {}
    for h, d, stubs, repo in units:
        for f in [h] + stubs + repo: todo[(f, tuple(d["flags"]))] = None
    todo[(VERIF + "/rt/rt.cpp", ())] = None
    todo[(VERIF + "/rt/rt_c.c", RTC)] = None
    errs = {}
    def job(k):
        if isinstance(k, list):
            r = run(k)
            return r.stderr if r.returncode else None
        o, e = compile_bc(k[0], k[1])
        todo[k] = o
        if o is None: errs[k[0]] = e
    with ThreadPoolExecutor(NCPU) as ex:
        futs = [(j[1], ex.submit(job, j[1])) for j in ejobs] + [(k, ex.submit(job, k)) for k in sorted(todo, key=lambda k: 0 if "/harness/" in k[0] else 1)]
        for k, f in futs:
            e = f.result()
            if e: log("compile error:", e[-3000:]); return 2
    engine_link(engine, ejobs)
    t_build = time.time() - t0
    for f, e in errs.items():
        log("cannot compile", f, "\n".join([l for l in (e or "").splitlines() if "error" in l][:3])[:600])
        if f.startswith(VERIF): return 2
    # ---- link
    entries = []
    def prep(u):
        h, d, stubs, repo = u
        name = os.path.basename(h)[:-4]
        fl = tuple(d["flags"])
        bcs = [todo[(f, fl)] for f in repo if todo[(f, fl)]]
        open(f"{workdir}/{name}.repo", "w").write("\n".join(bcs))
        cmd = [engine, "prep", "--harness", todo[(h, fl)]] + [todo[(s, fl)] for s in stubs] + ["--repo", f"@{workdir}/{name}.repo", "--rt", todo[(VERIF + "/rt/rt.cpp", ())], todo[(VERIF + "/rt/rt_c.c", RTC)],
               "--linked", f"{workdir}/{name}.linked.bc", "--out", f"{workdir}/{name}.bc"]
        for m in d["merge"]: cmd += ["--merge", m]
        for m in d["nomerge"]: cmd += ["--nomerge", m]
        for m in d["concretize"]: cmd += ["--concretize", m]
        r = run(cmd)
        return name, r
    with ThreadPoolExecutor(NCPU) as ex:
        for (h, d, stubs, repo), (name, r) in zip(units, ex.map(prep, units)):
            if r.returncode: log("link failed:", r.stderr[-3000:]); return 2
            text = open(h).read()
            for m in re.finditer(r"^HARNESS(_T|_Q)?\((\w+)\)", text, re.M):
                if m.group(1) == "_T" and tier != "thorough": continue
                if m.group(1) == "_Q" and tier == "thorough": continue
                if only and not re.search(only, m.group(2)): continue
                entries.append((name, "H_" + m.group(2), d))
    t_link = time.time() - t0 - t_build
    # ---- run
    slots = f"{workdir}/slots"
    with open(slots, "wb") as fp: fp.write(struct.pack("iiii", NCPU, 0, 0, int(t0 + 800) if tier == "quick" else 0) + b"\0" * 4080)
    limit = int(os.environ.get("VERIF_LIMIT", 600 if tier == "quick" else 3300))
    procs = []
    if any(k[0] == prop for k in known_findings()): os.environ["VERIF_NOSTOP"] = "1"
    for name, e, d in entries:
        tmo = float(d["timeout"][0]) if d["timeout"] else limit
        if tier == "thorough": tmo = max(tmo, limit)
        cmd = [engine, "exec", "--bc", f"{workdir}/{name}.bc", "--entry", e, "--out", f"{workdir}/{e}.json", "--model-dir", workdir, "--timeout", str(min(tmo, limit)), "--tier", tier, "--slots", slots]
        if d["qtimeout"]: cmd += ["--query-timeout", d["qtimeout"][0]]
        if os.environ.get("VERIF_PROFILE"): cmd.append("--profile")
        procs.append((name, e, d, subprocess.Popen(cmd, stderr=open(f"{workdir}/{e}.log", "w"))))
    noanswer = []
    results = []
    for name, e, d, p in procs:
        rc = p.wait()
        rs = []
        for f in sorted(glob.glob(f"{workdir}/{e}.json") + glob.glob(f"{workdir}/{e}.json.*")):
            try: rs.append(json.load(open(f)))
            except Exception as x: noanswer.append(f"{e}: bad result file {x}")
        if rc != 0 or not rs: noanswer.append(f"{e}: engine exit {rc}: " + open(f"{workdir}/{e}.log").read()[-1500:])
        agg = {"entry": e, "unit": name, "violations": [], "incomplete": [], "reached": set(), "checked": set(), "functions": set()}
        for k in ["paths", "forks", "instructions", "merges", "mergeFail", "checks", "decisions", "queries", "cacheHits", "modelHits", "solverTime"]: agg[k] = sum(r[k] for r in rs)
        agg["maxQuery"] = max([r["maxQuery"] for r in rs] or [0]); agg["wall"] = max([r["wall"] for r in rs] or [0])
        for r in rs:
            agg["violations"] += r["violations"]; agg["incomplete"] += r["incomplete"]
            for k in ["reached", "checked", "functions"]: agg[k] |= set(r[k])
        for inc in agg["incomplete"]: noanswer.append(f"{e}: incomplete: {inc}")
        results.append(agg)
        log(f"{e}: paths={agg['paths']} queries={agg['queries']} solver={agg['solverTime']:.1f}s wall={agg['wall']:.1f}s instr={agg['instructions']} merges={agg['merges']}/{agg['mergeFail']} viol={[v['label'] for v in agg['violations']]}" + (f" INCOMPLETE({len(agg['incomplete'])})" if agg['incomplete'] else ""))
        if os.environ.get("VERIF_PROFILE"): log(open(f"{workdir}/{e}.log").read()[-6000:])
    # ---- vacuity
    if not only:
        for (h, d, stubs, repo) in units:
            text = open(h).read(); name = os.path.basename(h)[:-4]
            got = set(); ran = [r for r in results if r["unit"] == name]
            for r in ran: got |= r["reached"] | r["checked"] | set(v["label"] for v in r["violations"])
            parts = re.split(r"^HARNESS(_T|_Q)?\((\w+)\)", text, flags=re.M)
            for i in range(1, len(parts), 3):
                e = "H_" + parts[i + 1]
                rr = [r for r in ran if r["entry"] == e]
                if not rr: continue
                want = set(re.findall(r'REACH\("([^"]+)"\)', parts[i + 2]))
                miss = want - rr[0]["reached"]
                if miss and not rr[0]["violations"]: noanswer.append(f"{e}: not reached: {sorted(miss)}")
    # ---- violations
    known = known_findings()
    bad = []; knownHits = []; unconfirmed = []; validated = 0
    seen = set()
    for r in results:
        for v in r["violations"]:
            key = (r["entry"], v["label"])
            if key in seen: continue
            seen.add(key)
            k = [x for x in known if x[0] == prop and x[1] == v["label"]]
            ok, out = replay(engine, f"{workdir}/{r['unit']}.linked.bc", v["model"], r["entry"], workdir)
            validated += ok
            os.makedirs(f"{VERIF}/build/replays", exist_ok=True)
            dst = f"{VERIF}/build/replays/{prop}-{r['entry']}-{re.sub(r'[^A-Za-z0-9_-]', '_', v['label'])[:60]}.txt"
            shutil.copy(v["model"], dst)
            with open(dst, "a") as fp: fp.write(f"# {v['detail']}\n# at {v['where']}\n# native replay confirmed: {ok}\n" + "".join("# " + l + "\n" for l in out.splitlines()))
            if not ok: unconfirmed.append(f"{r['entry']}: {v['label']}: {v['detail']} at {v['where']}: counterexample did not reproduce natively: {out[-600:]}")
            elif k: knownHits.append((v["label"], k[0][2]))
            else: bad.append((r["entry"], v, dst, out))
    wall = time.time() - t0
    funcs = sorted(set().union(*[r["functions"] for r in results])) if results else []
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    bounds = []; outside = []
    for h, d, s, rr in units: bounds += d["bounds"]; outside += d["outside"]
    ev = {"property": prop, "tier": "thorough" if tier == "thorough" else "quick", "seed": seed, "level": "model_checking",
          "coverage": {"states": max(1, sum(r["paths"] for r in results)), "transitions": max(1, sum(r["decisions"] for r in results)), "traces_validated_against_impl": validated,
                       "samples": [f"{r['entry']}: {r['paths']} symbolic paths, {r['queries']} solver queries ({r['solverTime']:.1f} s), {r['checks']} assertion evaluations, assertions {sorted(r['checked'])[:40]}" for r in results],
                       "evaluations": sum(r["checks"] for r in results),
                       "functions_encoded": funcs[:400], "functions_encoded_count": len(funcs), "bounds": bounds, "outside": outside,
                       "queries": sum(r["queries"] for r in results), "query_cache_hits": sum(r["cacheHits"] for r in results), "solver_time_s": round(sum(r["solverTime"] for r in results), 2),
                       "max_query_s": max([r["maxQuery"] for r in results] or [0]), "instructions_executed": sum(r["instructions"] for r in results),
                       "build_s": round(t_build, 1), "link_s": round(t_link, 1), "no_answer": noanswer[:20] + unconfirmed[:10], "known_findings": [k[0] for k in knownHits],
                       "explanation": "states = symbolic paths explored to completion by the executor, transitions = solver-decided branch points; every assertion is decided by the solver over all values of the symbolic inputs on that path"},
          "wall_s": round(wall, 1)}
    ev_path = f"{VERIF}/evidence/{prop}.json"
    tmp = ev_path + f".{os.getpid()}"
    json.dump(ev, open(tmp, "w"), indent=1); os.rename(tmp, ev_path)
    for l, t in knownHits: print(f"KNOWN-FINDING: property={prop} {l} {t}")
    for e, v, dst, out in bad:
        print(f"{e}: {v['label']}: {v['detail']} at {v['where']}")
        print(f"VIOLATION property={prop} replay={dst}")
    seen_n = []
    for n in noanswer + unconfirmed:
        k = re.sub(r"\d+", "", n)[:120]
        if k not in seen_n: seen_n.append(k); len(seen_n) <= 10 and log("NO ANSWER:", n[:400].replace("\n", " "))
    if not os.environ.get("VERIF_KEEP"): shutil.rmtree(workdir, ignore_errors=True)
    log(f"{prop}: build {t_build:.1f}s link {t_link:.1f}s total {wall:.1f}s, {len(funcs)} repository functions executed")
    if bad: return 1
    if noanswer or unconfirmed: return 2
    print(f"OK property={prop} paths={sum(r['paths'] for r in results)} queries={sum(r['queries'] for r in results)}")
    return 0

if __name__ == "__main__":
    sys.exit(main())
