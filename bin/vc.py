#!/usr/bin/env python3
"""Driver: decides one property by solver-based symbolic execution of the real code.

  vc.py check <ID>            run the check (tier from VERIF_TIER, default quick)
  vc.py replay <file.json>    replay a recorded counterexample natively
  vc.py setup                 build engine + warm caches
"""
import concurrent.futures as cf
import fnmatch, glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VC_REPO", "/repo")
CACHE = os.environ.get("VC_CACHE", os.path.join(VERIF, ".cache"))
sys.path.insert(0, os.path.join(VERIF, "bin"))
CLANG = "clang++-18" if shutil.which("clang++-18") else "clang++"
LLVM_LINK = "llvm-link-18" if shutil.which("llvm-link-18") else "llvm-link"
OPT = "opt-18" if shutil.which("opt-18") else "opt"
NPROC = os.cpu_count() or 8

BASE = ["-std=gnu++14", "-DNDEBUG", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops",
        "-ffp-contract=off", "-fno-math-errno", "-fno-strict-aliasing", "-w", "-O1"]
DEFS = ["-DHPGEM_FORCE_ASSERTS", "-DHPGEM_LOGLEVEL=Log::DEFAULT", "-DHPGEM_USE_ANY_PETSC", "-DHPGEM_USE_METIS",
        "-DHPGEM_USE_MPI", "-DHPGEM_USE_SLEPC"]


def sysincs(config):
    r = ["/usr/lib/x86_64-linux-gnu/openmpi/include", "/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"]
    r += [f"/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-{config}/include",
          f"/usr/lib/slepcdir/slepc3.19/x86_64-linux-gnu-{config}/include"]
    out = []
    for x in r:
        out += ["-isystem", x]
    return out


def flags(spec):
    config = spec.get("config", "real")
    f = list(BASE)
    for r in spec.get("cflags", []):
        f.append(r)
    f += DEFS + (["-DHPGEM_USE_COMPLEX_PETSC"] if config == "complex" else ["-DHPGEM_USE_PETSC"])
    f += [f"-I{REPO}/kernel"] + [f"-I{REPO}/{i}" for i in spec.get("includes", [])] + [f"-I{VERIF}/harness"]
    f += sysincs(config)
    return f


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:32]


def read(p):
    with open(p, "rb") as f:
        return f.read()


_hdr = None


def header_hash():
    global _hdr
    if _hdr is None:
        hs = []
        for root in ("kernel", "applications"):
            for d, ds, fs in os.walk(os.path.join(REPO, root)):
                ds.sort()
                for f in sorted(fs):
                    if f.endswith((".h", ".hpp", ".impl")) or "_Impl" in f:
                        p = os.path.join(d, f)
                        hs.append(p + sha(read(p)))
        for p in sorted(glob.glob(os.path.join(VERIF, "harness", "*.h"))):
            hs.append(p + sha(read(p)))
        _hdr = sha("\n".join(hs))
    return _hdr


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def compile_bc(src, fl):
    key = sha(read(src), header_hash(), " ".join(fl), src)
    out = os.path.join(CACHE, "bc", key + ".bc")
    bad = out + ".fail"
    if os.path.exists(out):
        return src, out, ""
    if os.path.exists(bad):
        return src, None, read(bad).decode(errors="replace")
    tmp = out + f".tmp{os.getpid()}"
    r = run([CLANG] + fl + ["-I" + os.path.dirname(src), "-emit-llvm", "-c", src, "-o", tmp])
    if r.returncode != 0:
        with open(bad, "w") as f:
            f.write(r.stdout)
        return src, None, r.stdout
    os.rename(tmp, out)
    return src, out, ""


def build_engine():
    eng = os.path.join(VERIF, "engine")
    key = sha(*[read(p) for p in sorted(glob.glob(eng + "/*.*pp") + glob.glob(eng + "/*.inc") + glob.glob(eng + "/Makefile"))])
    d = os.path.join(CACHE, "engine-" + key)
    exe = os.path.join(d, "symx")
    if not os.path.exists(exe):
        os.makedirs(d, exist_ok=True)
        r = run(["make", "-s", "-j3", "-C", eng, "OUT=" + d])
        if r.returncode != 0 or not os.path.exists(exe):
            print(r.stdout[-3000:])
            raise SystemExit("engine build failed")
    return exe


def sources(spec):
    out = []
    for pat in spec.get("srcs", ["kernel/**/*.cpp"]):
        neg = pat.startswith("!")
        m = set(glob.glob(os.path.join(REPO, pat.lstrip("!")), recursive=True))
        if neg:
            out = [x for x in out if x not in m]
        else:
            out += sorted(x for x in m if x not in out)
    return out


def build_program(spec, ex, log):
    """harness + models + repo sources -> one bitcode file (symbolic), one list for native"""
    os.makedirs(os.path.join(CACHE, "bc"), exist_ok=True)
    fl = flags(spec)
    hs = [os.path.join(VERIF, "harness", h) for h in spec["harness"]]
    ms = [os.path.join(VERIF, "models", m) for m in spec.get("models", ["blas.cpp"])]
    rs = sources(spec)
    futs = [ex.submit(compile_bc, s, fl) for s in hs + ms + rs]
    res = [f.result() for f in futs]
    nh, nm = len(hs), len(ms)
    for s, o, e in res[:nh + nm]:
        if o is None:
            log.append(f"harness {os.path.basename(s)} does not compile: {e[:1500]}")
            return None, None, log
    skipped = [os.path.relpath(s, REPO) for s, o, e in res[nh + nm:] if o is None]
    spec["_skipped"] = skipped
    repo_bc = [o for s, o, e in res[nh + nm:] if o]
    h_bc = [o for s, o, e in res[:nh]]
    m_bc = [o for s, o, e in res[nh:nh + nm]]
    key = sha(*(h_bc + m_bc + repo_bc))
    d = os.path.join(CACHE, "prog")
    os.makedirs(d, exist_ok=True)
    sym = os.path.join(d, key + ".sym.bc")
    if not os.path.exists(sym):
        tmp = sym + f".{os.getpid()}"
        r = run([LLVM_LINK, "-o", tmp] + sum([["--override=" + m] for m in m_bc], []) + h_bc + repo_bc)
        if r.returncode != 0:
            log.append("link failed: " + r.stdout[-1500:])
            return None, None, log
        os.rename(tmp, sym)
    return sym, (key, h_bc + repo_bc), log


def build_native(key, bcs, spec, asan=False):
    d = os.path.join(CACHE, "prog")
    exe = os.path.join(d, key + (".asan" if asan else ".native"))
    if os.path.exists(exe):
        return exe
    nat = os.path.join(d, key + ".nat.bc")
    run([LLVM_LINK, "-o", nat] + bcs)
    # keep only what the cases reach
    red = os.path.join(d, key + ".red.bc")
    r = run([OPT, "-passes=internalize,globaldce", "-internalize-public-api-list=hsx_case_*", nat, "-o", red])
    if r.returncode != 0:
        red = nat
    san = []
    if asan:
        red2 = os.path.join(d, key + ".as.bc")
        r = run([OPT, "-passes=forceattrs", "-force-attribute=sanitize_address", red, "-o", red2])
        if r.returncode == 0:
            red = red2
        san = ["-fsanitize=address"]
    config = spec.get("config", "real")
    cmd = [CLANG, "-O1", "-w", "-x", "ir", red, "-x", "c++", "-I" + os.path.join(VERIF, "harness"),
           os.path.join(VERIF, "harness", "hsx_rt.cpp"), "-x", "none", "-o", exe, "-rdynamic",
           "-Wl,--unresolved-symbols=ignore-all", "-Wl,-z,lazy", "-no-pie"] + san + \
          ["-llapack", "-lblas", "-lmpi", f"-lpetsc_{config}", f"-lslepc_{config}", "-lmetis", "-ldl", "-lpthread"] + spec.get("libs", [])
    r = run(cmd)
    if r.returncode != 0:
        spec.setdefault("_log", []).append("native link: " + r.stdout[-1500:])
        return None
    return exe


def native_env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99:detect_odr_violation=0"
    e["OMPI_MCA_btl"] = "self"
    return e


def replay_values(exe, case, vals, tmpdir, tag):
    f = os.path.join(tmpdir, f"{tag}.vals")
    with open(f, "w") as fh:
        for k, v in vals.items():
            fh.write(f"{k}\t{v}\n")
    try:
        r = subprocess.run([exe, case, f], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=120, env=native_env(), cwd=tmpdir)
    except subprocess.TimeoutExpired:
        return False, "timeout"
    m = re.search(r"^REPRODUCED (.*)$", r.stdout, re.M)
    return bool(m), (m.group(1) if m else r.stdout.strip()[-200:])


def random_search(exe, case, n, seed, tmpdir, budget=15):
    df = os.path.join(tmpdir, f"rnd-{case}.drawn")
    try:
        r = subprocess.run([exe, case, f"@random:{n}:{seed}", df, str(budget)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                           timeout=budget + 90, env=native_env(), cwd=tmpdir)
    except subprocess.TimeoutExpired:
        return None
    m = re.search(r"^REPRODUCED (.*)$", r.stdout, re.M)
    if not m:
        return None
    vals = {}
    if os.path.exists(df):
        for l in open(df):
            k, _, v = l.rstrip("\n").partition("\t")
            vals[k] = v
    return m.group(1), vals


def demangle_list(names):
    try:
        r = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
        return r.stdout.split("\n")
    except OSError:
        return names


def known_findings():
    p = os.path.join(VERIF, "known-findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def check(pid):
    import props
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = props.PROPS[pid]
    tmpdir = os.path.join(CACHE, "run", f"{pid}-{os.getpid()}")
    os.makedirs(tmpdir, exist_ok=True)
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    for f in glob.glob(os.path.join(evdir, f"{pid}-replay-*.json")):
        os.remove(f)
    units = [dict(u) for u in P["units"] if tier == "thorough" or not u.get("thorough_only")]
    log = []
    ex = cf.ThreadPoolExecutor(NPROC)
    ex2 = cf.ThreadPoolExecutor(2)
    engf = ex2.submit(build_engine)
    progs = []
    for u in units:
        progs.append(build_program(u, ex, log))
    symx = engf.result()
    tb = time.time()
    stats = {}
    fns = set()
    reach = {}
    cands, und, engs = [], [], []
    cases_run = []
    if os.environ.get("VC_BUDGET"):
        P.setdefault("budget", {})[tier] = int(os.environ["VC_BUDGET"])
    budget = P.get("budget", {}).get(tier, 420 if tier == "quick" else 3000)
    for ui, (u, (sym, nat, _)) in enumerate(zip(units, progs)):
        if sym is None:
            continue
        out = os.path.join(tmpdir, f"u{ui}.jsonl")
        listing = run([symx, sym, "--list"]).stdout.split()
        cases = [c[len("hsx_case_"):] for c in listing]
        sel = u.get("cases")
        if sel:
            cases = [c for c in cases if any(fnmatch.fnmatch(c, s) for s in sel)]
        if tier != "thorough":
            cases = [c for c in cases if not c.startswith("deep_")]
        cases_run += [(ui, c) for c in cases]
        left = max(30, budget - (time.time() - tb))
        cmd = [symx, sym, "-o", out, "-j", str(NPROC), "-t", str(int(left))]
        cmd += ["--ext-timeout", str(u.get("ext_timeout", 20 if tier == "quick" else 120))]
        if u.get("max_instr"):
            cmd += ["--max-instr", str(u["max_instr"])]
        if u.get("max_paths"):
            cmd += ["--max-paths", str(u["max_paths"])]
        if tier == "thorough":
            cmd += ["--rlimit", "300000000"]
        for c in cases:
            cmd += ["-c", c]
        for p in u.get("preload", []):
            cmd += ["--preload", p]
        try:
            subprocess.run(cmd, timeout=left + 120, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=tmpdir)
        except subprocess.TimeoutExpired:
            log.append(f"unit {ui}: engine timeout")
        if os.path.exists(out):
            for l in open(out):
                try:
                    j = json.loads(l)
                except ValueError:
                    continue
                j["unit"] = ui
                t = j["type"]
                if t == "stats":
                    for k, v in j.items():
                        if isinstance(v, (int, float)) and k != "unit":
                            stats[k] = stats.get(k, 0) + v
                    fns.update(j["functions"])
                elif t == "reach":
                    reach.setdefault((ui, j["case"]), set()).add(j["label"])
                elif t == "candidate":
                    cands.append(j)
                elif t == "undecided":
                    und.append(j)
                elif t == "engine":
                    engs.append(j)
                elif t == "print":
                    print("PRINT", j["case"], j["msg"])
        else:
            log.append(f"unit {ui}: engine produced no output")
    # ---- replay
    violations, unrepro, known_hit = [], [], []
    natives = {}

    def native(ui, asan=False):
        if (ui, asan) not in natives:
            sym, nat, _ = progs[ui]
            natives[(ui, asan)] = build_native(nat[0], nat[1], units[ui], asan)
        return natives[(ui, asan)]
    known = [k for k in known_findings() if k.get("property") == pid and k.get("status") == "open"]
    groups = {}
    for c in cands:
        groups.setdefault((c["unit"], c["case"], c["kind"], re.sub(r" \[.*", "", c["msg"])), []).append(c)
    n = 0
    for key, cs in sorted(groups.items(), key=lambda kv: str(kv[0])):
        if len(violations) >= int(os.environ.get("HSX_MAX", "8")):
            break
        hit = None
        for c in cs[:6]:
            exe = native(c["unit"], c["kind"] == "memory")
            if exe is None:
                continue
            n += 1
            ok, why = replay_values(exe, c["case"], c["vars"], tmpdir, f"r{n}")
            if not ok and c["kind"] == "memory":
                exe2 = native(c["unit"], False)
                if exe2:
                    ok, why = replay_values(exe2, c["case"], c["vars"], tmpdir, f"r{n}b")
            if ok:
                hit = (c, why)
                break
        if hit:
            c, why = hit
            kf = next((k for k in known if k["case"] == c["case"] and k["match"] in c["msg"] + " " + why), None)
            if kf:
                known_hit.append(kf)
                continue
            violations.append((c, why))
        else:
            unrepro.append(cs[0])
    # ---- inconclusive parts: search natively for a violation before giving up on them
    incon = {}
    for j in und + engs + unrepro:
        incon.setdefault((j["unit"], j["case"]), []).append(j)
    novac = []
    for ui, c in cases_run:
        if "end" not in reach.get((ui, c), ()) and (ui, c) not in incon and not any(x["case"] == c for x in cands):
            novac.append((ui, c))
            incon.setdefault((ui, c), []).append({"msg": "end of harness never reached", "kind": "vacuity"})
    if not violations:
        tleft = 200
        for (ui, c), js in sorted(incon.items()):
            if c == "static-init":
                continue
            exe = native(ui)
            if exe is None or tleft <= 0:
                continue
            ts = time.time()
            per = max(5, min(20, 160 // max(1, len(incon))))
            r = random_search(exe, c, 3000, seed, tmpdir, per)
            tleft -= time.time() - ts
            if r:
                j = {"unit": ui, "case": c, "kind": "native-search", "msg": r[0], "vars": r[1], "where": ""}
                kf = next((k for k in known if k["case"] == c and k["match"] in r[0]), None)
                if kf:
                    known_hit.append(kf)
                else:
                    violations.append((j, r[0]))
                    break
    for kf in {json.dumps(k, sort_keys=True) for k in known_hit}:
        kf = json.loads(kf)
        print(f"KNOWN-FINDING: property={pid} {kf['what']}")
    vids = []
    for i, (c, why) in enumerate(violations):
        p = os.path.join(evdir, f"{pid}-replay-{i}.json")
        with open(p, "w") as f:
            json.dump({"property": pid, "unit": c["unit"], "case": c["case"], "kind": c["kind"], "msg": c["msg"], "where": c.get("where", ""),
                       "vars": c["vars"], "native": why, "how": f"bin/vc.py replay {os.path.relpath(p, VERIF)}"}, f, indent=1)
        print(f"  {c['case']}: {c['kind']}: {c['msg']} | native: {why} | {c.get('where','')[:200]}")
        print(f"VIOLATION property={pid} replay={os.path.relpath(p, VERIF)}")
        vids.append(p)
    # ---- evidence
    names = sorted(x for x in demangle_list(sorted(fns)) if x.startswith(("hpgem", "void hpgem", "Preprocessor", "DGMax")) or "hpgem::" in x or "Preprocessor::" in x)
    samples = []
    for (ui, c), ls in list(sorted(reach.items()))[:4]:
        samples.append({"case": c, "reached": sorted(ls)})
    for j in (und + unrepro)[:4]:
        samples.append({"case": j["case"], "open": j["msg"], "model": dict(list(j.get("vars", {}).items())[:12])})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Bounded symbolic execution of the LLVM IR of the current /repo sources; every assertion over the symbolic inputs is decided by an SMT solver (z3, cvc5) over all values within the bounds.",
            "cases": len(cases_run), "symbolic_paths": stats.get("paths", 0), "paths_infeasible": stats.get("paths_infeasible", 0),
            "assertions_checked": stats.get("asserts", 0), "assertions_symbolic": stats.get("asserts_symbolic", 0),
            "assertions_concrete": stats.get("asserts_concrete", 0), "assertions_undecided": stats.get("undecided", 0),
            "queries": stats.get("queries", 0), "queries_unsat": stats.get("unsat", 0), "queries_sat": stats.get("sat", 0), "queries_unknown": stats.get("unknown", 0),
            "queries_external_portfolio": stats.get("external", 0), "solver_s": round(stats.get("solver_s", 0), 3),
            "ir_instructions": stats.get("instructions", 0), "candidates_replayed": n, "candidates_not_reproduced": len(unrepro),
            "paths_truncated": stats.get("truncated", 0), "engine_errors": len(engs), "cases_vacuous": [c for _, c in novac],
            "functions_encoded": len(names), "functions": names[:400], "bounds": P.get("bounds", ""),
            "samples": samples or [{"case": c} for _, c in cases_run[:3]],
            "sources_not_compiled": sorted({s for u in units for s in u.get("_skipped", [])}),
        },
        "assumptions": P.get("assumptions", []) + props.COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    with open(os.path.join(evdir, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for l in log + sum([u.get("_log", []) for u in units], []):
        print("NOTE", l)
    agg = {}
    for j in engs + und + unrepro:
        k = (j["type"], j["case"], j["msg"], j.get("where", "")[:160])
        agg[k] = agg.get(k, 0) + 1
    for k, v in list(agg.items())[:25]:
        print("INCONCLUSIVE", v, *k)
    for _, c in novac:
        print("INCONCLUSIVE vacuous", c)
    print(f"{pid} {tier}: cases={len(cases_run)} paths={stats.get('paths',0)} asserts={stats.get('asserts',0)} symbolic={stats.get('asserts_symbolic',0)} "
          f"queries={stats.get('queries',0)} solver={stats.get('solver_s',0):.1f}s undecided={len(und)} engine={len(engs)} unrepro={len(unrepro)} trunc={stats.get('truncated',0)} "
          f"build={tb-t0:.0f}s wall={time.time()-t0:.0f}s violations={len(violations)}")
    shutil.rmtree(tmpdir, ignore_errors=True)
    return 1 if violations else 0


def replay(path):
    import props
    j = json.load(open(path))
    P = props.PROPS[j["property"]]
    u = dict(P["units"][j["unit"]])
    log = []
    with cf.ThreadPoolExecutor(NPROC) as ex:
        sym, nat, _ = build_program(u, ex, log)
    exe = build_native(nat[0], nat[1], u, j["kind"] == "memory")
    tmp = os.path.join(CACHE, "run", "replay")
    os.makedirs(tmp, exist_ok=True)
    print(replay_values(exe, j["case"], j["vars"], tmp, "x"))


if __name__ == "__main__":
    if sys.argv[1] == "check":
        sys.exit(check(sys.argv[2]))
    if sys.argv[1] == "replay":
        replay(sys.argv[2])
    if sys.argv[1] == "setup":
        print(build_engine())
