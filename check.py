#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   -- decides one property on /repo's working tree.

Compiles the unmodified sources of /repo with the HpvPass instrumentation, links them with
the contracts of the property (contracts/*.cpp), runs every contract case symbolically,
discharges the obligations and replays counterexamples natively.
exit 0: all obligations discharged; 1: VIOLATION; 2: no answer (tool/build problem, undecided).
"""
import atexit, concurrent.futures as cf, glob, hashlib, json, os, re, subprocess, sys, time, shutil, tempfile

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("HPV_REPO", "/repo")
ENG = os.path.join(VERIF, "engine")
CACHE = os.environ.get("HPV_CACHE", os.path.join(VERIF, ".cache"))
OUT = os.path.join(VERIF, "out")
CXX = os.environ.get("HPV_CXX", "clang++").split()
NPROC = int(os.environ.get("HPV_JOBS", 0)) or os.cpu_count() or 8
sys.path.insert(0, VERIF)
from properties_config import PROPERTIES, SUITES  # noqa

KINC = ["-I" + os.path.join(REPO, d) for d in ("kernel", "kernel/Base", "kernel/Geometry", "kernel/FE")]
BASE = ["-std=gnu++14", "-O1", "-w", "-g0", "-DHPGEM_FORCE_ASSERTS", "-DHPGEM_LOGLEVEL=Log::DEFAULT",
        "-ffp-contract=off", "-fno-vectorize", "-fno-slp-vectorize", "-fno-math-errno"]
CFG = {"real": [], "complex": ["-DHPGEM_USE_COMPLEX_PETSC"],
       "mpi": ["-DHPGEM_USE_MPI", "-I" + os.path.join(VERIF, "contracts", "mpi")]}


class NoAnswer(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def fhash(*paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:24]


_tree = None


def tree_hash():
    """content hash of everything a kernel object can include"""
    global _tree
    if _tree is None:
        h = hashlib.sha256()
        for root in ("kernel", "applications", "Preprocessor"):
            for d, dirs, files in sorted(os.walk(os.path.join(REPO, root))):
                dirs.sort()
                for f in sorted(files):
                    if f.endswith((".h", ".hpp", ".cpp", ".inl", ".tpp")):
                        p = os.path.join(d, f)
                        h.update(p.encode())
                        with open(p, "rb") as fh:
                            h.update(fh.read())
        _tree = h.hexdigest()[:24]
    return _tree


def compile_one(args):
    cmd, out = args
    tmp = out + ".tmp%d" % os.getpid()
    r = sh(cmd + ["-o", tmp])
    if r.returncode == 0:
        os.replace(tmp, out)
    return r.returncode, r.stdout


def cached(name, key, builder):
    os.makedirs(CACHE, exist_ok=True)
    p = os.path.join(CACHE, name + "-" + key)
    if not os.path.exists(p):
        builder(p)
    return p


def build_plugin():
    src = os.path.join(ENG, "HpvPass.cpp")

    def b(p):
        r, o = compile_one((["clang++", "-O1", "-fPIC", "-shared", "-fno-rtti", "-I/usr/lib/llvm-18/include", src], p))
        if r:
            raise NoAnswer("plugin does not build:\n" + o)
    return cached("HpvPass.so", fhash(src), b)


def build_rt():
    src = os.path.join(ENG, "hpv_rt.cpp")

    def b(p):
        r, o = compile_one((["clang++", "-std=c++17", "-O2", "-w", "-c", src], p))
        if r:
            raise NoAnswer("runtime does not build:\n" + o)
    return cached("hpv_rt.o", fhash(src), b)


def kernel_sources(roots):
    out = []
    for root in roots:
        if root.endswith(".cpp"):
            out.append(os.path.join(REPO, root))
            continue
        for d, dirs, files in os.walk(os.path.join(REPO, root)):
            dirs[:] = sorted(x for x in dirs if x not in ("tests", "CMakeFiles"))
            out += [os.path.join(d, f) for f in sorted(files) if f.endswith(".cpp")]
    return out


def build_archive(cfg, native, plugin):
    """instrumented (or native) archive of all kernel sources of the current tree"""
    flags = BASE + CFG[cfg] + KINC
    if not native:
        flags = flags + ["-fpass-plugin=" + plugin]
    key = tree_hash() + ("n" if native else fhash(plugin)) + cfg + (fhash(os.path.join(VERIF, "contracts", "mpi", "mpi.h")) if cfg == "mpi" else "")

    def b(p):
        tmp = tempfile.mkdtemp(prefix="hpvobj", dir=CACHE)
        try:
            jobs, srcs = [], kernel_sources(["kernel"])
            for i, s in enumerate(srcs):
                jobs.append((CXX + flags + ["-c", s], os.path.join(tmp, "%03d_%s.o" % (i, os.path.basename(s)[:-4]))))
            with cf.ThreadPoolExecutor(NPROC) as ex:
                res = list(ex.map(compile_one, jobs))
            objs, skipped = [], []
            for (r, o), (cmd, out) in zip(res, jobs):
                if r == 0:
                    objs.append(out)
                else:
                    skipped.append(os.path.relpath(cmd[-1], REPO))
                    with open(os.path.join(CACHE, "compile_errors.txt"), "a") as f:
                        f.write(o)
            at = p + ".tmp"
            if os.path.exists(at):
                os.remove(at)
            r = sh(["ar", "rcs", at] + objs)
            if r.returncode:
                raise NoAnswer("ar failed " + r.stdout)
            with open(p + ".skipped", "w") as f:
                json.dump(skipped, f)
            os.replace(at, p)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return cached("libk_%s_%s.a" % (cfg, "nat" if native else "sym"), hashlib.sha256(key.encode()).hexdigest()[:24], b)


ALLOWED_LIBM = set()
LIBM = set("sqrt fabs sin cos tan exp log log2 log10 asin acos atan sinh cosh tanh floor ceil round trunc cbrt expm1 log1p erf exp2 rint "
           "nearbyint j0 j1 y0 y1 lgamma tgamma pow atan2 hypot fmod fmax fmin copysign remainder fdim cabs carg fma cpow cexp csin ccos csqrt clog".split())


def build_suite(suite, native, plugin, rt):
    s = SUITES[suite]
    cfg = s.get("config", "real")
    flags = BASE + CFG[cfg] + KINC + ["-I" + ENG, "-I" + REPO] + [x.replace("{repo}", REPO) for x in s.get("flags", [])]
    flags += ["-DHPV_NATIVE"] if native else ["-fpass-plugin=" + plugin]
    arch = build_archive(cfg, native, plugin)
    srcs = [os.path.join(VERIF, "contracts", c) for c in s["sources"]]
    hdrs = sorted(glob.glob(os.path.join(VERIF, "contracts", "*.h")) + glob.glob(os.path.join(VERIF, "contracts", "mpi", "*.h")) + glob.glob(os.path.join(ENG, "*.h")))
    extra = [os.path.join(REPO, c) for c in s.get("repo_sources", [])]
    extra = [c for c in extra if os.path.exists(c)]
    srcs += extra
    srcs += [os.path.join(ENG, "canary.cpp"), os.path.join(ENG, "hpv_logger.cpp")]
    srcs += [os.path.join(ENG, "hpv_native.cpp")] if native else [os.path.join(ENG, "blas_contract.cpp")]
    key = hashlib.sha256((os.path.basename(arch) + fhash(*srcs, *hdrs, extra=" ".join(flags)) + (fhash(rt) if rt else "")).encode()).hexdigest()[:24]

    def b(p):
        tmp = tempfile.mkdtemp(prefix="hpvobj", dir=CACHE)
        try:
            jobs = []
            for i, c in enumerate(srcs):
                f = ["-O0" if x == "-O1" and c not in extra else x for x in flags]
                if os.path.basename(c) == "hpv_native.cpp":
                    f = ["-std=c++17", "-O1", "-w"]
                jobs.append((CXX + f + ["-c", c], os.path.join(tmp, "%03d.o" % i)))
            with cf.ThreadPoolExecutor(NPROC) as ex:
                res = list(ex.map(compile_one, jobs))
            for (r, o), (cmd, out) in zip(res, jobs):
                if r:
                    raise NoAnswer("contract/source does not compile: " + cmd[-1] + "\n" + o[-6000:])
            objs = [j[1] for j in jobs]
            cmd = ["clang++", "-o", p + ".tmp"] + objs + ([] if native else [rt]) + [arch]
            cmd += ["-llapack", "-lblas"] if native else ["-lgmpxx", "-lgmp", "-lz3"]
            r = sh(cmd)
            if r.returncode and "undefined" in r.stdout:
                # code may have moved to another file of the same directory
                more = sorted({c for d in {os.path.dirname(e) for e in extra} for c in glob.glob(d + "/*.cpp")} - set(extra))
                mjobs = [(CXX + flags + ["-c", c], os.path.join(tmp, "more%03d.o" % i)) for i, c in enumerate(more)]
                with cf.ThreadPoolExecutor(NPROC) as ex:
                    mres = list(ex.map(compile_one, mjobs))
                mobjs = [j[1] for (rc, o), j in zip(mres, mjobs) if rc == 0]
                if mobjs:
                    lib = os.path.join(tmp, "more.a")
                    sh(["ar", "rcs", lib] + mobjs)
                    k = cmd.index(arch)
                    r = sh(cmd[:k] + [lib] + cmd[k:])
                    objs = objs + mobjs
            if r.returncode:
                raise NoAnswer("link failed:\n" + r.stdout[-4000:])
            if not native:
                u = sh(["nm", "-u", "-A"] + objs + [arch]).stdout
                bad = set()
                for line in filter(str.strip, u.splitlines()):
                    sym = line.split()[-1]
                    if sym in LIBM:
                        bad.add(line.strip())
                if bad:
                    raise NoAnswer("uninstrumented libm references: " + "; ".join(sorted(bad)[:5]))
            os.replace(p + ".tmp", p)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return cached("suite_%s_%s" % (suite, "nat" if native else "sym"), key, b)


STOPPED = "stopped: the property is violated elsewhere"


GRACE = int(os.environ.get("HPV_GRACE", "100"))


def run_case(binp, case, seed, tmo, workdir, deadline, stop):
    tmo = min(tmo, deadline - time.time())
    if time.time() > stop["at"]:
        return case, STOPPED, [], 0
    if tmo < 1:
        return case, "not run: time budget of the check used up", [], 0
    out = os.path.join(workdir, hashlib.sha1((binp + case).encode()).hexdigest() + ".jsonl")
    t0 = time.time()
    status = "ok"
    try:
        p = subprocess.Popen([binp, "--run", case, out, str(seed)], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                             start_new_session=True, cwd=workdir)
        while True:
            left = min(t0 + tmo, stop["at"]) - time.time()
            try:
                _, err = p.communicate(timeout=max(0.01, min(left, 5)))
                if p.returncode != 0:
                    status = "runner exit %d: %s" % (p.returncode, err[-500:].decode(errors="replace"))
                break
            except subprocess.TimeoutExpired:
                if left > 0:
                    continue
                os.killpg(p.pid, 9)
                p.communicate()
                status = STOPPED if time.time() > stop["at"] else "timeout after %ds" % tmo
                break
    except OSError as e:
        status = "cannot run: %s" % e
    recs = []
    if os.path.exists(out):
        with open(out, errors="replace") as f:
            for line in f:
                try:
                    recs.append(json.loads(line))
                except ValueError:
                    pass
        os.remove(out)
    return case, status, recs, time.time() - t0


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
    only = sys.argv[3] if len(sys.argv) > 3 else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    conf = PROPERTIES[prop]
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(CACHE, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        known = json.load(f)
    def known_for(name, label):
        return [k for k in known["findings"] if k.get("status") == "known" and k["property"] == prop and
                re.fullmatch(k["case"], name) and re.fullmatch(k["label"], label)]

    work = tempfile.mkdtemp(prefix="hpvrun", dir=OUT)
    scratch = tempfile.mkdtemp(prefix="hpvtmp")
    atexit.register(shutil.rmtree, scratch, True)
    os.environ["TMPDIR"] = scratch  # scratch files of the cases go here, and away with it
    errors, fails, unknown, suspects = [], [], [], []
    obligations, byback, solver_time = 0, {}, 0.0
    functions, bounded_obs, covers, paths, ncases = set(), 0, {}, 0, 0
    percase, skipped_src, stopped = {}, set(), 0
    try:
        plugin, rt = build_plugin(), build_rt()
        bins = {}
        for s in conf["suites"]:
            bins[s] = build_suite(s, False, plugin, rt)
            cfg = SUITES[s].get("config", "real")
            try:
                skipped_src.update(json.load(open(build_archive(cfg, False, plugin) + ".skipped")))
            except OSError:
                pass
        tasks = []
        canary_done = False
        for s, bp in bins.items():
            lst = sh([bp, "--list"]).stdout.splitlines()
            pre = conf.get("cases", "")
            n = 0
            for line in lst:
                name, _, fu = line.partition("\t")
                if name.startswith("canary_"):
                    tasks.append((s, name, fu))
                    continue
                if pre and not re.match(pre, name):
                    continue
                if "@thorough" in name and tier == "quick":
                    continue
                if only and not re.search(only, name):
                    continue
                tasks.append((s, name, fu))
                n += 1
            if n == 0 and not only:
                raise NoAnswer("no contract cases in suite " + s)
        tmo = int(os.environ.get("HPV_TMO", 0)) or conf.get("timeout", 300 if tier == "quick" else 1500)
        deadline = t0 + (760 if tier == "quick" else 6 * 3600)
        with cf.ThreadPoolExecutor(NPROC) as ex:
            # after a violation the cases that still run get some time to end: one answer is enough
            stop = {"at": float("inf")}
            futs = {ex.submit(run_case, bins[s], n, seed, tmo, work, deadline, stop): (s, n, fu) for s, n, fu in tasks}
            results = []
            for f in cf.as_completed(futs):
                results.append((futs[f], f.result()))
                name, recs = futs[f][1], f.result()[2]
                if tier == "quick" and not name.startswith("canary_") and any(r["t"] == "fail" and not known_for(name, r["label"]) for r in recs):
                    stop["at"] = min(stop["at"], time.time() + GRACE)
        results.sort(key=lambda r: r[0][:2])
        for (s, name, fu), (_, status, recs, wall) in results:
            ob = sum(r["n"] for r in recs if r["t"] == "ob")
            fl = [r for r in recs if r["t"] == "fail"]
            un = [r for r in recs if r["t"] == "unknown"]
            er = [r for r in recs if r["t"] == "error"]
            end = [r for r in recs if r["t"] == "end"]
            if name.startswith("canary_"):
                if status == STOPPED:
                    continue
                good = status == "ok" and not er and not un and (bool(fl) == (name != "canary_true")) and (ob > 0 or fl)
                if not good:
                    errors.append("vacuity guard %s/%s failed: %s %s" % (s, name, status, recs[:3]))
                continue
            ncases += 1
            for fx in fu.split(","):
                if fx.strip():
                    functions.add(fx.strip())
            for r in fl:
                fails.append((s, name, r))
            for r in un:
                unknown.append("%s/%s: %s: %s" % (s, name, r["label"], r["msg"]))
            for r in er:
                errors.append("%s/%s: %s" % (s, name, r["msg"]))
            nerr = len(errors) - len(er)
            if status == STOPPED:
                stopped += 1
            elif status != "ok":
                errors.append("%s/%s: %s" % (s, name, status))
            elif not end:
                errors.append("%s/%s: no end record" % (s, name))
            elif end[0]["sig"] or (end[0]["rc"] not in (0,) and not fl and not er):
                errors.append("%s/%s: path process died (%s)" % (s, name, end[0]))
            elif not fl and (end[0]["paths"] < 1 or ob == 0):
                errors.append("%s/%s: vacuous (no completed path or no obligation)" % (s, name))
            else:
                paths += end[0]["paths"]
            if len(errors) > nerr or un:
                suspects.append((s, name, (un + er)[:1] or [{"label": "the case runs to its end", "msg": errors[-1]}]))
            isb = "@bounded" in name
            for r in recs:
                if r["t"] == "ob":
                    solver_time += r.get("time", 0)
                    if isb:
                        bounded_obs += r["n"]
                    else:
                        obligations += r["n"]
                    byback[r["by"]] = byback.get(r["by"], 0) + r["n"]
            percase[s + "/" + name] = {"obligations": ob, "paths": end[0]["paths"] if end else 0, "wall_s": round(wall, 2)}
    except NoAnswer as e:
        errors.append(str(e))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    violations, knownlines = [], []
    natbins = {}

    def replay(s, name, inputs, inp):
        """runs the contract natively against the uninstrumented code; (confirmed, output)"""
        nat = ""
        try:
            if s not in natbins:
                natbins[s] = build_suite(s, True, None, None)
            # the model first (it may sit on an IEEE-hard point), then generic inputs of the same contract
            for vs in [inputs, {}, {"#seed": 1}, {"#seed": 2}]:
                if vs is None:
                    continue
                with open(inp, "w") as f:
                    for k, v in vs.items():
                        f.write("%s %.17g\n" % (k, v))
                try:
                    p = subprocess.run([natbins[s], "--run", name, inp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                       timeout=60, errors="replace", cwd=OUT)
                except subprocess.TimeoutExpired:
                    return True, "native run does not terminate (60 s)"
                nat = p.stdout[-4000:]
                bad = [l for l in p.stdout.splitlines() if l.startswith("FAIL ") and not known_for(name, l[5:].rsplit(" : ", 1)[0])]
                if p.returncode == 1 and bad:
                    return True, ("" if vs is inputs else "(generic inputs)\n") + nat
        except NoAnswer as e:
            nat = "native replay not available: " + str(e)
        return False, nat

    for s, name, r in fails:
        kf = known_for(name, r["label"])
        if kf:
            line = "KNOWN-FINDING: property=%s %s" % (prop, kf[0]["what"])
            if line not in knownlines:
                knownlines.append(line)
            continue
        violations.append((s, name, r))
    todo, seen = [], set()
    for s, name, r in violations:
        if (s, name) not in seen and len(todo) < 12:
            seen.add((s, name))
            todo.append((s, name, r, True))
    # cases without a verdict (crash, undecided obligation, time-out): the contract itself is run natively; only
    # a postcondition that is really violated there is reported
    todo += [(s, name, r[0], False) for s, name, r in suspects[:6] if (s, name) not in seen]
    lines = []
    for s, name, r, proven in todo:
        rp = os.path.join(OUT, "replay_%s_%s.txt" % (prop, re.sub(r"[^A-Za-z0-9_.-]", "_", s + "_" + name)[:120]))
        confirmed, nat = replay(s, name, r.get("vars") or None, rp + ".in")
        if not proven:
            if not confirmed:
                continue
            violations.append((s, name, {"label": r["label"] if "label" in r else "case completes", "msg": r["msg"] + " | native: " + nat[:300]}))
        with open(rp, "w") as f:
            f.write("property: %s\nsuite: %s\ncontract case: %s\nfailed obligation: %s\nkind: %s\nverifier output: %s\ninputs: %s\n"
                    % (prop, s, name, r.get("label"), r.get("kind"), r["msg"], json.dumps(r.get("vars"))))
            f.write("\nnative replay against the uninstrumented code (%s):\n%s\n" % ("CONFIRMED" if confirmed else "not confirmed", nat))
            f.write("\nreproduce: %s %s\n" % (os.path.join(VERIF, "check.py"), prop))
        lines.append("VIOLATION property=%s replay=%s%s" % (prop, rp, "" if confirmed else " no-failing-input-found"))
    # confirmed ones first
    lines.sort(key=lambda l: l.endswith("no-failing-input-found"))
    for l in knownlines + lines:
        print(l)
    for s, name, r in violations[:30]:
        print("  failed obligation %s/%s: %s -- %s" % (s, name, r["label"], r["msg"]))
    for e in (unknown + errors)[:30]:
        print("  UNDECIDED/ERROR: " + e)
    if stopped:
        print("  %d cases stopped early" % stopped)
    discharged = obligations
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": conf.get("level", "proof"),
        "coverage": {
            "obligations": obligations + len(fails) + len(unknown), "discharged": discharged,
            "checker_cmd": "python3 /verif/check.py %s %s" % (prop, tier),
            "trusted_base": conf.get("trusted_base", []) + COMMON_TRUST,
            "back_ends": byback, "solver_time_s": round(solver_time, 3),
            "contract_cases": ncases, "paths": paths, "functions_under_contract": sorted(functions),
            "bounded_obligations_not_proved": bounded_obs, "per_case": percase,
            "cases_stopped_after_a_violation": stopped, "undecided": unknown[:20], "errors": errors[:20], "sources_not_compiling_and_skipped": sorted(skipped_src),
        },
        "assumptions": conf.get("assumptions", []) + COMMON_ASSUME,
        "wall_s": round(time.time() - t0, 2),
        "violations": [{"suite": s, "case": n, "obligation": r["label"], "msg": r["msg"]} for s, n, r in violations],
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d cases, %d obligations discharged + %d bounded (%s), %d failed, %d undecided, %d errors, %.1fs"
          % (prop, tier, ncases, discharged, bounded_obs, ", ".join("%s:%d" % kv for kv in sorted(byback.items())), len(violations), len(unknown), len(errors), time.time() - t0))
    if violations:
        return 1
    if errors or unknown:
        return 2
    return 0


COMMON_TRUST = ["clang 18 front end and LLVM IR semantics", "HpvPass instrumentation and hpv_rt runtime (engine/)",
                "GMP exact rationals", "z3 4.8.12 (nlsat)", "contracts of BLAS/LAPACK (engine/blas_contract.cpp)"]
COMMON_ASSUME = ["double arithmetic is treated as real arithmetic; decimal constants in the source as the simplest rational p/q (q<=20000) rounding to them, otherwise their exact binary value",
                 "equalities may differ by the rounding of source constants (relative coefficient tolerance, default 1e-9)",
                 "libm functions are uninterpreted apart from sqrt(x)^2=x, sin^2+cos^2=1 and derivatives",
                 "identities of polynomial normal forms too large to expand are decided by evaluation modulo the prime 2^61-1 (back end 'pit', error probability < 1e-15 per obligation)"]

if __name__ == "__main__":
    sys.exit(main())
