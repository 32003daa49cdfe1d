"""Runs the harnesses of one property: symbolic exploration in worker processes, replay of counterexamples and witnesses on a real build
of the tree, verdict and evidence."""
import os, sys, time, json, re, pickle, shutil, signal, subprocess, tempfile, importlib.util, hashlib, traceback, select

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
Z3DIR = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
OUT = os.path.join(VERIF, "replay_out")


sys.path.append(Z3DIR)


def load_prop(pid):
    spec = importlib.util.spec_from_file_location("prop_" + pid, os.path.join(VERIF, "props", pid + ".py"))
    m = importlib.util.module_from_spec(spec)
    sys.modules["prop_" + pid] = m
    spec.loader.exec_module(m)
    return m.R


# ------------------------------------------------------------------------------------------------ real build
def real_tree(scratch):
    """Copy of the package without build products, and one compiler process per extension module."""
    dst = os.path.join(scratch, "real")
    os.makedirs(dst, exist_ok=True)
    shutil.copytree(os.path.join(REPO, "xboa"), os.path.join(dst, "xboa"), ignore=shutil.ignore_patterns("*.so", "__pycache__", "example_data", "test"))
    return dst


def build_real(dst, asan=False):
    from .rt import setup_sources
    procs = []
    for m, srcs in setup_sources(REPO).items():
        o = os.path.join(dst, "xboa", "core", m + ".cpython-312-x86_64-linux-gnu.so")
        cmd = ["g++", "-shared", "-fPIC", "-w", "-O1", "-std=c++17", "-I" + os.path.join(dst, "xboa/core"), "-I/usr/include/python3.12"]
        if asan:
            cmd += ["-fsanitize=address", "-g", "-fno-omit-frame-pointer"]
        cmd += [os.path.join(dst, s) for s in srcs] + ["-o", o]
        procs.append((m, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
    return procs


def wait_build(procs):
    for m, p in procs:
        _, err = p.communicate()
        if p.returncode:
            raise RuntimeError("building %s failed: %s" % (m, err.decode()[-1500:]))


def concrete_batch(pid, real, items, env=None, timeout=240, scratch=None):
    """Run recorded assignments on the real build, each in the order given; results list (None where the process died)."""
    res = [None] * len(items)
    todo = list(range(len(items)))
    status = {}
    while todo:
        fin = tempfile.NamedTemporaryFile("w", suffix=".json", delete=False, dir=scratch)
        json.dump([items[i] for i in todo], fin)
        fin.close()
        e = dict(os.environ)
        e.pop("PYTHONPATH", None)
        e.update(env or {})
        e["VERIF_REAL"] = real
        e["MPLBACKEND"] = "Agg"
        e["MPLCONFIGDIR"] = scratch or "/tmp"
        cwd = tempfile.mkdtemp(dir=scratch)
        try:
            p = subprocess.run([PY, os.path.join(VERIF, "check"), "--concrete", pid, fin.name], capture_output=True, text=True, env=e,
                               timeout=timeout, cwd=cwd, errors="replace")
            rc, so, se = p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired as x:
            rc, so, se = "timeout", (x.stdout or b"").decode("utf-8", "replace") if isinstance(x.stdout, bytes) else (x.stdout or ""), ""
        n = 0
        for l in so.split("\n"):
            if l.startswith("RESULT "):
                k, r = l[7:].split(" ", 1)
                res[todo[int(k)]] = json.loads(r)
                n = max(n, int(k) + 1)
        if n >= len(todo) and rc == 0:
            break
        if n >= len(todo):
            break
        res[todo[n]] = {"died": str(rc), "stderr": se[-3000:], "failed": [], "exc": None}
        todo = todo[n + 1:]
    return res


def concrete_main(pid, path):
    """Child process: real package on the path."""
    real = os.environ["VERIF_REAL"]
    sys.path.insert(0, real)
    import warnings
    warnings.simplefilter("ignore")
    R = load_prop(pid)
    from . import harness
    if R.setup:
        R.setup(False)
    cases = {c.name: c for c in R.cases}
    for k, it in enumerate(json.load(open(path))):
        c = cases[it["case"]]
        r = harness.run_concrete(c, it["inputs"], it["choices"])
        print("RESULT %d %s" % (k, json.dumps(r, default=str)))
        sys.stdout.flush()


# ------------------------------------------------------------------------------------------------ symbolic side
def boot(R, scratch):
    """VM with the extension modules of the tree, xboa imported on top of it with the shims in place."""
    sys.setrecursionlimit(30000)
    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    import warnings
    warnings.simplefilter("ignore")
    os.environ.setdefault("MPLBACKEND", "Agg")
    os.environ.setdefault("MPLCONFIGDIR", scratch)
    from . import sx, rt, capi, shim
    t0 = time.time()
    ir = os.path.join(scratch, "ir")
    os.makedirs(ir)
    texts = rt.compile_ir(REPO, ir)
    shutil.rmtree(ir)
    t1 = time.time()
    br = capi.Bridge()
    br.boot(texts)
    sx.E.bridge = br
    import xboa.core
    import xboa.hit, xboa.bunch, xboa.common
    if R.setup:
        R.setup(True)
    shim.install()
    sx.E.hooks_start.append(br.reset)
    return br, t1 - t0


class PyCover:
    """Functions of the package that the symbolic runs entered."""
    def __init__(self):
        self.seen = {}
        m = sys.monitoring
        self.tool = 3
        m.use_tool_id(self.tool, "verif")
        root = os.path.join(REPO, "xboa")

        def start(code, off):
            if code.co_filename.startswith(root):
                self.seen[os.path.relpath(code.co_filename, REPO) + ":" + code.co_qualname] = len(set(l for _, _, l in code.co_lines() if l))
            return m.DISABLE
        m.register_callback(self.tool, m.events.PY_START, start)
        m.set_events(self.tool, m.events.PY_START)


def worker(case, br, budget, max_paths, wfd):
    import resource, gc
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    signal.alarm(int(budget * 1.3) + 60)
    gc.disable()
    sys.unraisablehook = lambda u: None   # a path that ends inside __del__
    from . import harness
    cov = PyCover()
    br.encoded.clear()
    for m in br.modules.values():
        for f in m.funcs.values():
            if f.py is not None:
                f.py = None
    run = harness.Run(case, budget, max_paths)
    try:
        d = run.go()
    except BaseException as e:
        d = dict(case=case.name, cands=[], incs=["engine failure: %s %s" % (e, traceback.format_exc()[-800:])], wits=[], paths=0, decisions=0, infeasible=0,
                 queries=0, solver_time=0, checks=0, symbolic_checks=0, structural=0, tolerance=0, reached={}, labels=[], raised={}, unknown_feas=0, wall=0, done=0)
    d["py"] = cov.seen
    d["ir"] = {"%s:%s" % k: v for k, v in br.encoded.items()}
    with os.fdopen(wfd, "wb") as f:
        f.write(pickle.dumps(d))
    sys.stdout.flush()
    os._exit(0)


def run_cases(cases, br, tier, jobs, deadline, known=lambda c: False):
    dflt = {"quick": 100.0, "thorough": 900.0}[tier]
    pend = sorted(cases, key=lambda c: -c.kw.get("weight", c.kw.get("budget", 1)))
    active, out = {}, []
    stop = 1e18
    while pend or active:
        while pend and len(active) < jobs and time.time() < deadline:
            c = pend.pop(0)
            r, w = os.pipe()
            b = c.kw.get("budget_thorough", dflt) if tier == "thorough" else c.kw.get("budget", dflt)
            b = min(b, max(5.0, deadline - time.time()))
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                worker(c, br, b, c.kw.get("max_paths", 20000), w)
            os.close(w)
            active[r] = (pid, c, [], time.time())
        if time.time() > stop:
            for r, (pid, c, buf, t0) in active.items():
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                out.append(dead(c, "stopped after a counterexample in another case"))
            active = {}
        if pend and not active:
            for c in pend:
                out.append(dead(c, "not started: overall time limit"))
            break
        rd, _, _ = select.select(list(active), [], [], 1.0)
        for r in rd:
            b = os.read(r, 1 << 20)
            if b:
                active[r][2].append(b)
                continue
            pid, c, buf, t0 = active.pop(r)
            os.close(r)
            _, st = os.waitpid(pid, 0)
            try:
                out.append(pickle.loads(b"".join(buf)))
            except Exception:
                out.append(dead(c, "worker ended with status %d after %.0f s" % (st, time.time() - t0)))
            if any(not known(x) for x in out[-1]["cands"]):
                deadline = min(deadline, time.time() + 60)
                stop = min(stop, time.time() + 75)
            if os.environ.get("VERIF_VERBOSE"):
                d = out[-1]
                print("  %-50s %5.1fs paths %d checks %d/%d q %d cand %d inc %d %s" % (d["case"], d["wall"], d["paths"], d["symbolic_checks"], d["checks"], d["queries"], len(d["cands"]), len(d["incs"]), d["reached"]))
                sys.stdout.flush()
    return out


def dead(c, why):
    return dict(case=c.name, cands=[], incs=[why], wits=[], paths=0, decisions=0, infeasible=0, queries=0, solver_time=0.0, checks=0, symbolic_checks=0,
                structural=0, tolerance=0, reached={}, labels=[], raised={}, unknown_feas=0, wall=0.0, done=0, py={}, ir={})


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"open: property=(\S+) case=(\S+) label=/(.*)/ :: (.*)$", l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out


def confirms(cand, r):
    """Does the concrete run on the real build show the violation?"""
    if r is None:
        return False
    if r.get("died"):
        return r["died"] != "timeout" or "hang" in cand["label"]
    if r["failed"]:
        return True
    if r["exc"] and not r["assumption"]:
        return True
    return False


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--no-replay", action="store_true")
    a = ap.parse_args(argv)
    pid, tier = a.pid, a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="xboa_check_%s_" % pid)
    try:
        rc = check(pid, tier, a, scratch, t0)
    except SystemExit:
        raise
    except BaseException as e:
        traceback.print_exc()
        print("ERROR: property=%s %s: %s" % (pid, type(e).__name__, e))
        rc = 3
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


def check(pid, tier, a, scratch, t0):
    real = real_tree(scratch)
    builders = build_real(real)
    R = load_prop(pid)
    cases = [c for c in R.cases if (tier == "thorough" or c.tier == "quick")]
    if a.case:
        cases = [c for c in cases if re.search(a.case, c.name)]
    br, tcomp = boot(R, scratch)
    deadline = t0 + (620 if tier == "quick" else 6 * 3600)
    kf = known_findings(pid)
    res = run_cases(cases, br, tier, a.jobs, deadline, lambda c: any(x[0] == c["case"] and x[1].search(c["label"]) for x in kf))
    wait_build(builders)
    # counterexamples
    cands = [c for d in res for c in d["cands"]]
    keep, seen = [], {}
    for c in cands:
        k = (c["case"], c["label"])
        seen[k] = seen.get(k, 0) + 1
        if seen[k] <= 3:
            keep.append(c)
    keep = keep[:60]
    rr = concrete_batch(pid, real, keep, scratch=scratch, timeout=200) if keep else []
    crash = [i for i, c in enumerate(keep) if c["label"].startswith("crash") and not confirms(c, rr[i])]
    if crash:
        areal = real_tree(os.path.join(scratch, "asan"))
        wait_build(build_real(areal, asan=True))
        lib = subprocess.run(["g++", "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip()
        for i in crash:
            r = concrete_batch(pid, areal, [keep[i]], scratch=scratch, timeout=120, env={
                "LD_PRELOAD": lib, "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:detect_odr_violation=0", "PYTHONMALLOC": "malloc"})[0]
            if r and (r.get("died") and ("AddressSanitizer" in (r.get("stderr") or "") or r["died"].startswith("-"))):
                rr[i] = r
    viol, unconf = [], []
    for c, r in zip(keep, rr):
        if confirms(c, r):
            viol.append((c, r))
        else:
            unconf.append((c, r))
    # witnesses
    wits = [w for d in res for w in d["wits"]]
    if tier == "quick":
        wits = wits[:120]
    wr = concrete_batch(pid, real, wits, scratch=scratch) if wits and not a.no_replay else []
    validated = mismatch = 0
    mism = []
    for w, r in zip(wits, wr):
        if r is None or r.get("assumption"):
            continue
        if r.get("died") or r["failed"] or r["exc"]:
            if r.get("died") == "timeout":
                continue
            c = dict(w, label=(r["failed"] or [r["exc"] or "the process died"])[0])
            viol.append((c, r))
            continue
        bad = None
        for (l1, v1), (l2, v2) in zip(w["obs"], r["obs"]):
            if l1 == l2 and v1 is not None and v2 is not None and abs(v1 - v2) > 1e-5 * (1 + abs(v1)):
                bad = (l1, v1, v2)
                break
        if bad:
            mismatch += 1
            mism.append((w["case"], bad))
        else:
            validated += 1
    if mism and os.environ.get("VERIF_VERBOSE"):
        print("mismatches", mism[:5])
    # verdict
    known = known_findings(pid)
    lines, shown, nviol = [], set(), 0
    confirmed = {(c["case"], c["label"]) for c, r in viol}
    kshown = set()
    os.makedirs(os.path.join(OUT, pid), exist_ok=True)
    for c, r in viol:
        k = next((x for x in known if (x[0] == c["case"]) and x[1].search(c["label"])), None)
        if k:
            if k[2] not in kshown:
                kshown.add(k[2])
                lines.append("KNOWN-FINDING: property=%s %s" % (pid, k[2]))
            continue
        key = (c["case"], c["label"])
        if key in shown:
            continue
        shown.add(key)
        nviol += 1
        if nviol > 6:
            continue
        path = os.path.join(OUT, pid, "%d.json" % nviol)
        json.dump(dict(property=pid, case=c["case"], label=c["label"], inputs=c["inputs"], choices=c["choices"], result=r, detail=c.get("detail"),
                       rerun="%s --replay %s" % (os.path.join(VERIF, "check"), path)), open(path, "w"), indent=1, default=str)
        lines.append("VIOLATION property=%s replay=%s" % (pid, path))
        lines.append("   case %s: %s; inputs %s choices %s; real build: %s" % (c["case"], c["label"], c["inputs"], c["choices"],
                     r.get("died") or r["failed"] or r["exc"]))
    incs = [(d["case"], m) for d in res for m in d["incs"]]
    incs += [(c["case"], "counterexample not confirmed on the real build: %s inputs %s choices %s (%s): %s" % (c["label"], c["inputs"], c["choices"], c.get("detail"), r)) for c, r in unconf
             if (c["case"], c["label"]) not in confirmed]
    for d in res:
        if d["done"] == 0 and not d["cands"] and not d["incs"]:
            incs.append((d["case"], "vacuous: no path completed"))
        need = next((c.kw.get("reach") for c in cases if c.name == d["case"]), None)
        for tag in need or ():
            if not d["reached"].get(tag) and not d["cands"] and not d["incs"]:
                incs.append((d["case"], "witness not reached: " + tag))
    for l in lines:
        print(l)
    for cs, m in incs[:40]:
        print("INCONCLUSIVE property=%s case %s: %s" % (pid, cs, m))
    for cs, m in mism[:10]:
        print("NOTE: witness differs on the real build: case %s %s" % (cs, m))
    py, ir = {}, {}
    for d in res:
        py.update(d["py"])
        ir.update(d["ir"])
    tot = lambda k: sum(d[k] for d in res)
    samples = [dict(case=w["case"], inputs=w["inputs"], choices=w["choices"]) for w in wits[:4]]
    if not samples:
        samples = [dict(case=d["case"], labels=d["labels"][:3]) for d in res[:3]]
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="model_checking", wall_s=round(time.time() - t0, 2),
              violations=nviol, assumptions=R.assumptions + [
                  "doubles are modelled as exact reals; machine integers keep their width",
                  "the CPython API, libc and libstdc++ tree/exception primitives are host models (engine/capi.py, engine/rt.py)",
                  "clang 18 -O1 IR stands for the compiled extension; numpy linear algebra is replaced by exact equivalents (engine/shim.py)"],
              coverage=dict(
                  states=tot("paths"), transitions=tot("decisions"), traces_validated_against_impl=validated, samples=samples,
                  trace_mismatches=mismatch, infeasible_paths=tot("infeasible"), queries_discharged=tot("queries"), solver_time_s=round(tot("solver_time"), 2),
                  assertions_evaluated=tot("checks"), assertions_symbolic=tot("symbolic_checks"), assertions_structurally_equal=tot("structural"),
                  assertions_within_tolerance=tot("tolerance"), cases={d["case"]: dict(paths=d["paths"], assertions=d["checks"], queries=d["queries"], wall_s=round(d["wall"], 1), reached=d["reached"]) for d in res},
                  python_functions_encoded=sorted(py), ir_functions_encoded=len(ir), ir_instructions_encoded=sum(ir.values()),
                  ir_functions=sorted(k for k in ir if "xboa" in k or "Hit" in k or "Bunch" in k or "Weight" in k or "Smart" in k)[:400],
                  bounds=R.bounds, known_findings=sorted(kshown), inconclusive=[list(x) for x in incs[:20]], ir_compile_s=round(tcomp, 2)))
    if not a.case:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1, default=str)
    print("%s tier=%s cases=%d paths=%d decisions=%d assertions=%d (%d symbolic) queries=%d solver=%.1fs validated=%d/%d wall=%.1fs" % (
        pid, tier, len(res), tot("paths"), tot("decisions"), tot("checks"), tot("symbolic_checks"), tot("queries"), tot("solver_time"), validated, len(wits), time.time() - t0))
    if nviol:
        return 1
    if incs:
        return 2
    print("OK property=%s" % pid)
    return 0


def replay_main(path):
    it = json.load(open(path))
    scratch = tempfile.mkdtemp(prefix="xboa_replay_")
    try:
        real = real_tree(scratch)
        wait_build(build_real(real))
        r = concrete_batch(it["property"], real, [dict(case=it["case"], inputs=it["inputs"], choices=it["choices"])], scratch=scratch)[0]
        print(json.dumps(r, indent=1, default=str))
        return 1 if confirms(it, r) else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
