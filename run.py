#!/usr/bin/env python3
"""Driver of the checks: builds a harness and the EKAT sources it needs from /repo's working tree,
runs it under its instrumentation, and turns what the monitors saw into a verdict and evidence.

  run.py <ID>                  run the check (VERIF_SEED, VERIF_TIER from the environment)
  run.py <ID> --replay FILE    run only the case a replay file names
  run.py --list
"""
import array, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
HARN = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, VERIF)
from checks import CHECKS, VARIANTS, COMPONENTS, ENV, MPI_ENV   # noqa: E402

NCPU = os.cpu_count() or 4


def die(msg, code=2):
    print("ERROR: " + msg, flush=True)
    sys.exit(code)


def sh_hash():
    h = hashlib.sha256(open(os.path.abspath(__file__), "rb").read())
    for root in (SRC, HARN):
        for d, dn, fn in sorted(os.walk(root)):
            dn.sort()
            for f in sorted(fn):
                p = os.path.join(d, f)
                h.update(p.encode())
                try:
                    with open(p, "rb") as fh:
                        h.update(fh.read())
                except OSError:
                    pass
    return h.hexdigest()


def overlay():
    """A copy of the headers of Kokkos 3.7 that lack what EKAT uses of Kokkos 4, with just that added
    (View::rank callable, element_type, is_view_v). EKAT's own sources are compiled unchanged."""
    d = os.path.join(BUILD, "overlay")
    os.makedirs(d, exist_ok=True)
    s = open("/usr/include/Kokkos_View.hpp").read()
    a = "  enum { Rank = map_type::Rank };"
    if a not in s:
        return d
    s = s.replace(a, a + """
  struct vmon_rank_t {
    constexpr operator unsigned() const { return unsigned(Rank); }
    constexpr unsigned operator()() const { return unsigned(Rank); }
  };
  static constexpr vmon_rank_t rank{};
  using element_type = typename traits::value_type;
""")
    b = "struct is_view<const View<D, P...>> : public std::true_type {};"
    if b in s and "is_view_v" not in s:
        s = s.replace(b, b + "\ntemplate <class T> inline constexpr bool is_view_v = is_view<T>::value;\n")
    write_if_changed(os.path.join(d, "Kokkos_View.hpp"), s)
    return d


def tsan_overlay():
    """Headers through which the race detector sees Kokkos's synchronisation: atomics order memory (as they do on
    x86; the detector does not understand fences), and a wait that ended in the library is seen to end."""
    d = os.path.join(BUILD, "tsan_overlay")
    os.makedirs(os.path.join(d, "impl"), exist_ok=True)
    s = open("/usr/include/Kokkos_Atomics_Desul_Wrapper.hpp").read()
    write_if_changed(os.path.join(d, "Kokkos_Atomics_Desul_Wrapper.hpp"), s.replace("desul::MemoryOrderRelaxed()", "desul::MemoryOrderSeqCst()"))
    os.makedirs(os.path.join(d, "desul", "atomics"), exist_ok=True)
    s = open("/usr/include/desul/atomics/Generic.hpp").read()
    a = "reinterpret_cast<cas_t&>(*dest);"
    assert s.count(a) == 2
    write_if_changed(os.path.join(d, "desul", "atomics", "Generic.hpp"), s.replace(a, "__atomic_load_n(reinterpret_cast<cas_t*>(dest), __ATOMIC_RELAXED);"))
    s = open("/usr/include/impl/Kokkos_HostBarrier.hpp").read()
    a = "      impl_backoff_wait_until_equal(ptr, v, active_wait);\n"
    assert s.count(a) == 1
    s = s.replace(a, a + "      (void)test_equal(ptr, v);\n")
    write_if_changed(os.path.join(d, "impl", "Kokkos_HostBarrier.hpp"), s)
    return d


def write_if_changed(p, s):
    if os.path.exists(p) and open(p).read() == s:
        return
    tmp = p + ".%d" % os.getpid()
    with open(tmp, "w") as f:
        f.write(s)
    os.replace(tmp, p)


def compile_all(check, cfg):
    """Returns {(variant, build): exe}. Objects are cached under build/, keyed by all sources and the command."""
    key = sh_hash()
    ov = overlay()
    jobs, exes, links = {}, {}, []
    base = cfg
    for v, b in sorted({(r["variant"], r.get("build", "")) for r in cfg["runs"]}):
        var = VARIANTS[v]
        cfg = dict(base, **base["builds"][b]) if b else base
        flags = [f.replace("@TSANOVERLAY@", tsan_overlay() if "@TSANOVERLAY@" in f else "") for f in var["flags"]] + list(cfg.get("flags", []))
        ld = list(var.get("ld", [])) + list(cfg.get("ld", []))
        srcs = [os.path.join(HARN, f) for f in cfg["src"]]
        incs = ["-I" + HARN]
        for c in cfg["components"]:
            comp = COMPONENTS[c]
            flags += [f.replace("@OVERLAY@", ov) for f in comp.get("flags", [])]
            incs += ["-I" + os.path.join(SRC, i) for i in comp.get("inc", [])]
            for pat in comp.get("src", []):
                for f in sorted(glob.glob(os.path.join(SRC, pat))):
                    if os.path.basename(f) not in comp.get("exclude", []):
                        srcs.append(f)
            ld += comp.get("ld", [])
        srcs += [os.path.join(HARN, f) for f in var.get("src", [])]
        objs = []
        for s in srcs:
            fl = flags
            if os.path.basename(s) in var.get("noinstr", []):
                fl = [f for f in flags if not f.startswith("-fsanitize")]
            cmd = ["g++", "-std=c++17"] + fl + incs + ["-c", s]
            h = hashlib.sha256((key + " ".join(cmd)).encode()).hexdigest()[:20]
            o = os.path.join(BUILD, "obj", h + ".o")
            objs.append(o)
            jobs[o] = cmd
        linkcmd = ["g++"] + [f for f in flags if f.startswith("-fsanitize") or f in ("-fopenmp", "-g1")] + objs + ld
        h = hashlib.sha256((key + " ".join(linkcmd)).encode()).hexdigest()[:20]
        exe = os.path.join(BUILD, "exe", "%s%s-%s-%s" % (check, b, v, h))
        exes[(v, b)] = exe
        links.append((exe, linkcmd))
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "exe"), exist_ok=True)

    def one(item):
        o, cmd = item
        if os.path.exists(o):
            return None
        tmp = "%s.%d" % (o, os.getpid())
        p = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            return " ".join(cmd) + "\n" + p.stdout[-60000:]
        os.replace(tmp, o)
        return None

    todo = {o: c for o, c in jobs.items()}
    if not all(os.path.exists(e) for e, _ in links):
        with cf.ThreadPoolExecutor(NCPU) as ex:
            errs = [e for e in ex.map(one, sorted(todo.items(), key=lambda kv: HARN not in " ".join(kv[1]))) if e]
        if errs:
            # The compiler observes, too: assertions of a harness on types that EKAT computes, and uses of EKAT's interface that
            # it compiles when right. Missing files and tools, and sources of EKAT that do not compile at all, are no verdict.
            bad = []
            for e in errs:
                if re.search(r"fatal error:|internal compiler error|Killed", e) or (" -c " + HARN + "/") not in e.split("\n", 1)[0]:
                    bad = None
                    break
                bad += re.findall(r"(?m)^[^\n]*: error: [^\n]*", e)
            if bad:
                os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
                p = os.path.join(VERIF, "replays", check + "-types.json")
                json.dump(dict(property=check, run=base["runs"][0]["name"], seed=1, tier="quick", sub="compile", case=-1, key="types", detail="\n".join(bad[:5])[:4000]), open(p, "w"), indent=1)
                print("  a use of the interface does not compile: " + bad[0][:600])
                print("VIOLATION property=%s replay=%s" % (check, p), flush=True)
                sys.exit(1)
            die("the harness does not compile against this tree:\n" + "\n".join(e[-6000:] for e in errs))
        for exe, cmd in links:
            if not os.path.exists(exe):
                for old in glob.glob(exe.rsplit("-", 1)[0] + "-*"):
                    try:
                        os.remove(old)
                    except OSError:
                        pass
                tmp = "%s.%d" % (exe, os.getpid())
                p = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if p.returncode != 0:
                    die("link failed: " + p.stdout[-4000:])
                os.replace(tmp, exe)
    for o in jobs:        # keep the cache small: only executables survive
        if not os.environ.get("VERIF_KEEP_OBJ"):
            try:
                os.remove(o)
            except OSError:
                pass
    return exes


SAN_RE = re.compile(r"(ERROR: \w*Sanitizer[^\n]*|WARNING: ThreadSanitizer[^\n]*|[^\n]*runtime error:[^\n]*|SUMMARY: [^\n]*|VMON-HANG[^\n]*|terminate called[^\n]*|Assertion[^\n]*failed[^\n]*)")


def launch(*args):
    res = launch_once(*args)
    return launch_once(*args) if res["infra"] and "orte_init failed" in res["err"] else res


def launch_once(check, run, exe, wd, seed, tier, replay=None):
    os.makedirs(wd, exist_ok=True)
    out = os.path.join(wd, "out.json")
    cmd = [exe, "--vm-out", out, "--vm-seed", str(seed), "--vm-tier", tier, "--vm-scale", str(run.get("scale", 1)),
           "--vm-timeout", str(run.get("case_timeout", 120))]
    if replay:
        cmd += ["--vm-only", replay["sub"], "--vm-case", str(replay["case"])]
    cmd += run.get("args", [])
    env = dict(os.environ)
    env.update(ENV)
    env.update(run.get("env", {}))
    env["VMON_REPO"] = REPO
    env["VMON_SCRATCH"] = wd
    # a session directory of its own: mpiexecs that start or end together in one race over it
    env["TMPDIR"] = tmpd = tempfile.mkdtemp(prefix="vmon")
    np = run.get("mpi", 0)
    if np:
        env.update(MPI_ENV)
        cmd = ["mpiexec", "--oversubscribe", "--bind-to", "none", "-n", str(np)] + cmd
    t0 = time.time()
    limit = run.get("timeout", 420 if tier == "quick" else 3600)
    lo = open(os.path.join(wd, "stdout"), "wb")
    le = open(os.path.join(wd, "stderr"), "wb")
    p = subprocess.Popen(cmd, stdout=lo, stderr=le, env=env, cwd=wd, start_new_session=True, stdin=subprocess.DEVNULL)
    timed_out = False
    try:
        p.wait(timeout=limit)
    except subprocess.TimeoutExpired:
        timed_out = True
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    p.wait()
    shutil.rmtree(tmpd, ignore_errors=True)
    lo.close()
    le.close()
    err = open(os.path.join(wd, "stderr"), errors="replace").read()
    res = dict(rc=p.returncode, wall=time.time() - t0, err=err[-8000:], data=[], crash=None, infra=None, distinct=set())
    ranks = range(np) if np else [None]
    for r in ranks:
        f = out if r is None else "%s.%d" % (out, r)
        if os.path.exists(f):
            try:
                res["data"].append(json.load(open(f)))
            except ValueError as e:
                res["infra"] = "unreadable result %s: %s" % (f, e)
            if os.path.exists(f + ".distinct"):
                a = array.array("Q")
                a.frombytes(open(f + ".distinct", "rb").read())
                res["distinct"].update(a)
        else:
            pf = f + ".progress"
            prog = open(pf, errors="replace").read().split("\0")[0].split() if os.path.exists(pf) else []
            sans = SAN_RE.findall(err)
            if timed_out:
                res["infra"] = "time limit of %ds reached (at %s)" % (limit, " ".join(prog))
            elif p.returncode == -signal.SIGKILL:
                res["infra"] = "killed (out of memory?)"
            elif len(prog) < 2 and (sans or p.returncode < 0):
                res["crash"] = dict(sub="start" if not prog else "end", case=0, what=sans[0].strip() if sans else "process died, rc=%s" % p.returncode)
            elif len(prog) < 2:
                res["infra"] = "died before the first case, rc=%s: %s" % (p.returncode, err[-1500:])
            else:
                if res["crash"] is None or ("VMON-HANG" not in err and sans):
                    what = sans[0].strip() if sans else "process died, rc=%s" % p.returncode
                    res["crash"] = dict(sub=" ".join(prog[:-1]), case=int(prog[-1]), what=what)
    return res


def load_known():
    known = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\w+) key=(\S+) (.*)", line.strip())
            if m:
                known.append(m.groups())
    return known


def main():
    if len(sys.argv) < 2:
        die(__doc__)
    if sys.argv[1] == "--list":
        print("\n".join(sorted(CHECKS)))
        return 0
    check = sys.argv[1]
    cfg = CHECKS[check]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    replay = None
    if "--replay" in sys.argv:
        replay = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        seed, tier = replay["seed"], replay["tier"]
    t0 = time.time()
    only = os.environ.get("VERIF_RUNS")      # for development: some of the runs
    if only or replay:
        cfg = dict(cfg, runs=[r for r in cfg["runs"] if r["name"] in (only.split(",") if only else [replay["run"]])], floors={})
    exes = compile_all(check, cfg)
    t_build = time.time() - t0
    runs = [r for r in cfg["runs"] if not replay or r["name"] == replay["run"]]
    runs = [r for r in runs if tier == "thorough" or not r.get("thorough_only")]
    top = os.path.join(BUILD, "run", "%s-%d" % (check, os.getpid()))
    shutil.rmtree(top, ignore_errors=True)
    width = max(1, min(cfg.get("parallel", 4), NCPU))
    results = {}
    with cf.ThreadPoolExecutor(width) as ex:
        futs = {}
        for i, r in enumerate(runs):
            rseed = seed if replay else seed * 1000 + [q["name"] for q in CHECKS[check]["runs"]].index(r["name"])
            futs[ex.submit(launch, check, r, exes[(r["variant"], r.get("build", ""))], os.path.join(top, r["name"]), rseed, tier, replay)] = (r, rseed)
        for f in cf.as_completed(futs):
            r, rseed = futs[f]
            results[r["name"]] = (r, rseed, f.result())
    # verdict
    known = [k for k in load_known() if k[0] == check]
    viols, infra, knownhit = [], [], {}
    ev = dict(evaluations=0, checks=0, subs={}, counters={}, samples=[], runs=[])
    distinct = set()
    for name in [r["name"] for r in runs]:
        r, rseed, res = results[name]
        rinfo = dict(run=name, variant=r["variant"], wall_s=round(res["wall"], 2), rc=res["rc"])
        if r.get("env"):
            rinfo["env"] = r["env"]
        if r.get("mpi"):
            rinfo["mpi_ranks"] = r["mpi"]
        if res["infra"]:
            infra.append("%s: %s" % (name, res["infra"]))
        if res["crash"]:
            c = res["crash"]
            viols.append(dict(run=name, seed=rseed, sub=c["sub"], case=c["case"], key="crash." + c["sub"], detail=c["what"] + " | " + res["err"][-3000:]))
        cases = 0
        for d in res["data"]:
            for s, st in d["subs"].items():
                e = ev["subs"].setdefault(s, dict(cases=0, checks=0))
                e["cases"] += st["cases"]
                e["checks"] += st["checks"]
                cases += st["cases"]
            ev["checks"] += d["checks"]
            for k, v in d["counters"].items():
                ev["counters"][k] = max(ev["counters"].get(k, 0), v) if k.startswith("max_") else ev["counters"].get(k, 0) + v
            if len(ev["samples"]) < 40:
                ev["samples"] += [s for s in d["samples"] if s not in ev["samples"]][:40 - len(ev["samples"])]
            for v in d["violations"]:
                viols.append(dict(run=name, seed=rseed, **v))
            if d["nviols"] == 0 and res["rc"] not in (0,) and not res["crash"] and not any(x["nviols"] for x in res["data"]):
                sans = SAN_RE.findall(res["err"])
                if sans:
                    viols.append(dict(run=name, seed=rseed, sub="process", case=0, key="sanitizer", detail=sans[0] + " | " + res["err"][-3000:]))
                else:
                    infra.append("%s: exit %s without a report: %s" % (name, res["rc"], res["err"][-800:]))
        # reports of a sanitizer that does not stop the program
        if res["rc"] == 0 or res["data"]:
            for m in re.findall(r"WARNING: ThreadSanitizer[^\n]*", res["err"])[:1]:
                viols.append(dict(run=name, seed=rseed, sub="process", case=0, key="tsan", detail=m + " | " + res["err"][:6000]))
        ev["evaluations"] += cases
        rinfo["cases"] = cases
        ev["runs"].append(rinfo)
        distinct |= res["distinct"]
    new = []
    for v in viols:
        k = next((k for k in known if k[1] == v["key"]), None)
        if k:
            knownhit[k[1]] = k
        else:
            new.append(v)
    for k in knownhit.values():
        print("KNOWN-FINDING: property=%s %s" % (check, k[2]))
    # floors: what the monitors must have observed for a quiet run to mean anything
    if not new and not infra and not replay:
        for cname, floor in cfg.get("floors", {}).items():
            if ev["counters"].get(cname, 0) < floor:
                infra.append("the run observed too little: %s=%d < %d" % (cname, ev["counters"].get(cname, 0), floor))
    wall = time.time() - t0
    if not replay:
        cov = dict(evaluations=ev["evaluations"], distinct_nontrivial=len(distinct), rule=cfg["rule"], samples=ev["samples"][:12],
                   oracle_comparisons=ev["checks"], observed=ev["counters"], workloads=ev["subs"], runs=ev["runs"], build_s=round(t_build, 1))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", check + ".json"), "w") as f:
            json.dump(dict(property=check, tier=tier, seed=seed, level="exploration", coverage=cov, wall_s=round(wall, 2),
                           violations=len(new), assumptions=cfg.get("assumptions", [])), f, indent=1)
            f.write("\n")
    shutil.rmtree(top, ignore_errors=True)
    if new:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        seen = set()
        for i, v in enumerate(new):
            if (v["key"], v["run"]) in seen or len(seen) >= 12:
                continue
            seen.add((v["key"], v["run"]))
            p = os.path.join(VERIF, "replays", "%s-%d.json" % (check, i))
            json.dump(dict(property=check, tier=tier, **v), open(p, "w"), indent=1)
            print("  [%s/%s case %s] %s: %s" % (v["run"], v["sub"], v["case"], v["key"], v["detail"][:600]))
            print("VIOLATION property=%s replay=%s" % (check, p))
        sys.stdout.flush()
        return 1
    if infra:
        die("\n".join(infra))
    print("OK property=%s cases=%d comparisons=%d distinct=%d build=%.1fs wall=%.1fs" % (check, ev["evaluations"], ev["checks"], len(distinct), t_build, wall))
    return 0


if __name__ == "__main__":
    sys.exit(main())
