"""runs a property's harnesses in parallel, replays candidates on the real
build, writes evidence."""
import glob
import importlib
import importlib.util
import json
import logging
import multiprocessing as mp
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SYMX_REPO", "/repo")
SRC = os.path.join(REPO, "src", "hmmlearn")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
WORKERS = int(os.environ.get("SYMX_WORKERS", "8"))


# --------------------------------------------------------------- real build
def build_real(scratch):
    """copy hmmlearn and build its extension in a scratch directory."""
    d = os.path.join(scratch, "real", "hmmlearn")
    os.makedirs(d)
    for f in os.listdir(SRC):
        p = os.path.join(SRC, f)
        if f == "tests" or f == "__pycache__" or f.endswith(".so"):
            continue
        if os.path.isdir(p):
            shutil.copytree(p, os.path.join(d, f))
        else:
            shutil.copy(p, os.path.join(d, f))
    import sysconfig
    import pybind11
    inc = [sysconfig.get_paths()["include"], pybind11.get_include()]
    srcs = sorted(glob.glob(os.path.join(REPO, "ext", "*.cpp")))
    cmd = ["clang++-18" if shutil.which("clang++-18") else "g++", "-O0",
           "-std=c++17", "-shared", "-fPIC", "-fvisibility=hidden", "-w",
           "-I", os.path.join(REPO, "ext")]
    for i in inc:
        cmd += ["-I", i]
    out = os.path.join(d, "_hmmc" + sysconfig.get_config_var("EXT_SUFFIX"))
    cmd += srcs + ["-o", out + ".tmp"]
    log = open(os.path.join(scratch, "build.log"), "w")
    return subprocess.Popen(
        ["/bin/sh", "-c", '"$@" && mv "$0.tmp" "$0" || touch "$0.failed"',
         out] + cmd, stdout=log, stderr=log), out


class Real:
    """imports the scratch copy of the real package on first use."""

    def __init__(self, scratch, so):
        self.scratch = scratch
        self.so = so
        self.loaded = False

    def __call__(self, name):
        if not self.loaded:
            t = time.time()
            while not os.path.exists(self.so):
                if os.path.exists(self.so + ".failed") or \
                        time.time() - t > 240:
                    raise BuildError("the extension does not build: " + open(
                        os.path.join(self.scratch, "build.log")).read()[-2000:])
                time.sleep(.05)
            assert not any(m == "hmmlearn" or m.startswith("hmmlearn.")
                           for m in sys.modules)
            sys.path.insert(0, os.path.join(self.scratch, "real"))
            sys.dont_write_bytecode = True
            self.loaded = True
        m = importlib.import_module("hmmlearn." + name)
        assert m.__file__.startswith(self.scratch), m.__file__
        return m


class BuildError(BaseException):
    pass


# ---------------------------------------------------------------- harnesses
class Harness:
    """fn(world, **params) is run symbolically over every path."""

    def __init__(self, name, fn, params=None, bound="", limit=None, cost=1,
                 overrides=None, inline=False, seeds=2, symrun=None,
                 tries=40, nra_ms=3000, kernel="ir", assumptions=(),
                 nsamples=16, keep=None):
        self.name = name
        self.fn = fn
        self.params = params or {}
        self.bound = bound
        self.limit = limit
        self.cost = cost
        self.overrides = overrides
        self.inline = inline
        self.seeds = seeds
        self.symrun = symrun
        self.tries = tries
        self.nra_ms = nra_ms
        self.kernel = kernel
        self.assumptions = list(assumptions)
        self.nsamples = nsamples
        self.keep = keep    # the variables that are arbitrary (None: all)


def new_result(h):
    return dict(name=h.name, bound=h.bound, paths=0, obligations=0,
                discharged=0, undecided=[], refuted=[], unreproduced=[],
                violations=[], validated=0, validation_checks=0,
                stats={}, functions=[], kernels=[], samples=[], error=None,
                wall=0., assumptions=h.assumptions, vacuous=False)


def point_json(pt):
    out = {}
    for k, v in dict(pt).items():
        try:
            out[str(k)] = float(v)
        except Exception:
            pass
    return out


def sym_default(h, real, limit):
    """the standard symbolic run of a harness."""
    from . import engine, kernels, loader, world, poly, npshim
    from .poly import Unsupported
    from .llir import MemViolation
    res = new_result(h)
    eng = engine.Engine(seed=SEED, nra_ms=h.nra_ms, nsamples=h.nsamples)
    eng.activate()
    eng.deadline = time.time() + limit
    loader.start_coverage(SRC)
    bridge = kernels.Bridge(eng, inline=h.inline) if h.kernel == "ir" else None
    logging.disable(logging.CRITICAL)
    cand = []           # (label, point, choices)
    npaths = [0]

    def thunk():
        npshim.empty.count = 0
        over = h.overrides() if callable(h.overrides) else h.overrides
        pkg = loader.Package(SRC, bridge, over)
        w = world.SymWorld(eng, pkg, bridge)
        w.keep = h.keep
        for m in ("base", "hmm", "vhmm"):
            pkg.module(m)
        err = None
        try:
            h.fn(w, **h.params)
        except (engine.Infeasible, engine.Budget):
            raise
        except Unsupported as e:
            err = ("unsupported", f"{e} {_where()}")
        except poly.NanResult as e:
            err = ("unsupported", f"nan {e}")
        except Exception as e:
            n = type(e).__name__
            if n in world._CONTROL:
                err = ("unsupported" if n not in ("MemViolation",
                                                  "GilViolation") else "bad",
                       f"{n}: {e} {_where()}")
            else:
                err = ("bad", f"unexpected {n}: {e} {_where()}")
        npaths[0] += 1
        pts = [c.point for c in eng.sample_points()[:h.seeds]]
        if len(pts) < h.seeds:
            pts += [c.point for c in eng.more_points(
                poly.TRUE, n=40, want=h.seeds - len(pts))]
        pts = [p.full() if hasattr(p, "full") else p for p in pts]
        if not pts and (err is not None and err[0] == "bad" or any(
                o.status != "proved" for o in w.obls)) and \
                eng.check([], nra_ms=15000)[0] == "unsat":
            raise engine.Infeasible()   # nothing takes this path
        return dict(choices=list(w.choices), obls=w.obls, err=err, pts=pts,
                    pc=len(eng.pc))
    outs = []
    try:
        outs = eng.explore(thunk, max_paths=200000)
    except engine.Budget as e:
        res["undecided"].append(f"exploration stopped: {e} budget")
    except Unsupported as e:
        res["undecided"].append(f"unsupported: {e} {_where()}")
    res["paths"] = npaths[0]
    undec_choices = []
    for pc, r in outs:
        for o in r["obls"]:
            res["obligations"] += 1
            if o.status == "proved":
                res["discharged"] += 1
            elif o.status == "refuted":
                cand.append((o.label, o.cands, r["choices"]))
            else:
                cand.append((o.label, o.cands, r["choices"]))
                res["undecided"].append(o.label)
                undec_choices.append(r["choices"])
        if r["err"]:
            k, msg = r["err"]
            res["obligations"] += 1
            if k == "bad":
                cand.append((msg, r["pts"], r["choices"]))
            else:
                res["undecided"].append(msg)
                undec_choices.append(r["choices"])
    if len(res["samples"]) < 3:
        for pc, r in outs[:2]:
            res["samples"].append(dict(
                harness=h.name, choices=r["choices"],
                path_condition=[repr(c)[:120] for c in pc[:4]],
                obligations=[f"{o.label}: {o.status}" for o in r["obls"][:4]],
                point=point_json(r["pts"][0]) if r["pts"] else {}))
    if outs and not any(r["obls"] for _, r in outs) and not cand:
        res["vacuous"] = True
    res["stats"] = eng.stats.as_dict()
    res["functions"] = sorted(loader.COVERED)
    if bridge is not None:
        res["kernels"] = sorted(bridge.calls)
    # ---------------- replays on the real build
    validate(h, res, real, cand,
             [(r["pts"], r["choices"]) for _, r in outs], undec_choices, eng)
    return res


def _where():
    et, ev, tb = sys.exc_info()
    fr = traceback.extract_tb(tb)
    for f in reversed(fr):
        if f.filename.startswith(SRC):
            return f"at {os.path.relpath(f.filename, SRC)}:{f.lineno}"
    f = fr[-1]
    return f"at {os.path.basename(f.filename)}:{f.lineno}"


class FallbackPoint(dict):
    def __init__(self, base, seed=0):
        super().__init__(base)
        self.seed = seed

    def __missing__(self, name):
        import random
        v = random.Random(f"{self.seed}:{name}").uniform(.05, .95)
        self[name] = v
        return v


def validate(h, res, real, cand, paths, undec_choices, eng=None):
    from . import world, engine
    seen = set()

    def attempt(pt, choices):
        if eng is None and not isinstance(pt, FallbackPoint):
            pt = FallbackPoint(pt)
        st, msgs, w = world.run_concrete(h, real, pt, choices)
        return st, msgs, pt, w.choices, w.checked

    for label, cands, choices in cand:
        ok = False
        for pt in cands:
            st, msgs, pt, ch, n = attempt(pt, choices)
            if st == "fail":
                key = (re.sub(r"[\d.eE+-]+", "#", msgs[0])[:60])
                if key not in seen:
                    seen.add(key)
                    res["violations"].append(dict(
                        label=msgs[0], choices=list(ch), point=point_json(pt),
                        found_by=label))
                ok = True
                break
        if not ok and label not in res["undecided"]:
            res["unreproduced"].append(label)
    for pts, choices in paths:
        for pt in pts:
            st, msgs, pt, ch, n = attempt(pt, choices)
            if st == "ok":
                res["validated"] += 1
                res["validation_checks"] += n
            elif st == "fail":
                key = (re.sub(r"[\d.eE+-]+", "#", msgs[0])[:60])
                if key not in seen:
                    seen.add(key)
                    res["violations"].append(dict(
                        label=msgs[0], choices=list(ch), point=point_json(pt),
                        found_by="path replay"))
    # undecided: look for a witness with further points
    if (res["undecided"] or res["unreproduced"]) and eng is not None and \
            not res["violations"]:
        chs = [list(c) for c in undec_choices] or [c for _, c in paths] or [[]]
        if not undec_choices and not paths:
            # nothing could be executed symbolically: enumerate choices
            import random
            rr = random.Random(SEED)
            chs = [[rr.randrange(4) for _ in range(6)]
                   for _ in range(h.tries)]
        for i in range(h.tries):
            pt = engine.Point(eng, f"{SEED}/try{i}",
                              "zeros" if i % 2 else "plain")
            st, msgs, pt, ch, n = attempt(pt, chs[i % len(chs)])
            if st == "fail":
                res["violations"].append(dict(
                    label=msgs[0], choices=list(ch), point=point_json(pt),
                    found_by="search for a witness of an undecided "
                             "obligation"))
                break


def worker(h, scratch, so, limit, conn):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    t = time.time()
    real = Real(scratch, so)
    os.environ["OMP_NUM_THREADS"] = "1"
    try:
        if h.symrun is not None:
            from . import loader
            loader.start_coverage(SRC)
            res = new_result(h)
            h.symrun(h, res, real, limit)
        else:
            res = sym_default(h, real, limit)
    except BaseException as e:   # noqa
        res = new_result(h)
        res["error"] = "".join(traceback.format_exception(e))[-3000:]
    res["wall"] = time.time() - t
    try:
        conn.send(res)
    except Exception:
        for k in ("samples",):
            res[k] = []
        conn.send(json.loads(json.dumps(res, default=repr)))
    conn.close()
    os._exit(0)


def load_prop(pid):
    p = os.path.join(ROOT, "props", pid.lower() + ".py")
    spec = importlib.util.spec_from_file_location("props_" + pid, p)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def run_all(hs, scratch, so, tier, total):
    ctx = mp.get_context("fork")
    todo = sorted(hs, key=lambda h: -h.cost)
    live = {}
    results = []
    t0 = time.time()
    while todo or live:
        while todo and len(live) < WORKERS:
            h = todo.pop(0)
            left = max(5, total - (time.time() - t0))
            limit = min(h.limit or (120 if tier == "quick" else 600), left)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(h, scratch, so, limit, b))
            p.start()
            b.close()
            live[p.pid] = (h, p, a, time.time(), limit)
        done = []
        mp.connection.wait([a for _, _, a, _, _ in live.values()], timeout=.5)
        for pid, (h, p, a, t, limit) in live.items():
            if a.poll():
                try:
                    results.append(a.recv())
                except EOFError:
                    r = new_result(h)
                    p.join()
                    r["error"] = f"worker died (exit {p.exitcode})"
                    r["died"] = p.exitcode
                    results.append(r)
                p.join()
                done.append(pid)
            elif time.time() - t > limit + 60:
                p.kill()
                p.join()
                r = new_result(h)
                r["wall"] = time.time() - t
                r["undecided"].append("time limit: worker stopped")
                results.append(r)
                done.append(pid)
        for pid in done:
            del live[pid]
    return results


# ------------------------------------------------------------ known findings
def known_findings(pid):
    out = []
    p = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) harness=(\S+) "
                         r"label=/(.*?)/ (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    only = [a[7:] for a in argv if a.startswith("--only=")]
    t0 = time.time()
    mod = load_prop(pid)
    hs = mod.harnesses(tier)
    if only:
        hs = [h for h in hs if any(o in h.name for o in only)]
    scratch = tempfile.mkdtemp(prefix="symx_")
    try:
        bp, so = build_real(scratch)
        if any(h.kernel == "ir" for h in hs):
            from . import kernels
            try:
                kernels.load_module(None, False)
                if any(h.inline for h in hs):
                    kernels.load_module(None, True)
            except Exception:
                traceback.print_exc()
        total = getattr(mod, "TOTAL", {}).get(
            tier, 600 if tier == "quick" else 3000)
        results = run_all(hs, scratch, so, tier, total)
        bp.wait()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return report(pid, tier, mod, hs, results, time.time() - t0)


def report(pid, tier, mod, hs, results, wall):
    ev = os.path.join(ROOT, "evidence")
    rp = os.path.join(ev, "replays")
    os.makedirs(rp, exist_ok=True)
    for f in glob.glob(os.path.join(rp, f"{pid}-*.json")):
        os.unlink(f)
    known = known_findings(pid)
    agg = dict(paths=0, obligations=0, discharged=0, validated=0)
    tot = None
    from .engine import Stats
    tot = Stats()
    nviol = 0
    errors = []
    lines = []
    undecided = 0
    unrep = 0
    funcs, kerns = set(), set()
    per = []
    kf_seen = set()
    assumptions = list(getattr(mod, "ASSUMPTIONS", []))
    for r in sorted(results, key=lambda r: r["name"]):
        for k in ("paths", "obligations", "discharged", "validated"):
            agg[k] += r[k]
        if r["stats"]:
            tot.add(r["stats"])
        funcs.update(r["functions"])
        kerns.update(r["kernels"])
        for a in r["assumptions"]:
            if a not in assumptions:
                assumptions.append(a)
        if r["error"]:
            errors.append(f"{r['name']}: {r['error']}")
        if r["vacuous"]:
            errors.append(f"{r['name']}: no obligation was reached")
        per.append(dict(harness=r["name"], bound=r["bound"], paths=r["paths"],
                        obligations=r["obligations"],
                        discharged=r["discharged"],
                        undecided=len(r["undecided"]),
                        validated=r["validated"],
                        queries=r["stats"].get("queries", 0),
                        solver_s=round(r["stats"].get("solver_s", 0.), 2),
                        wall_s=round(r["wall"], 2)))
        for v in r["violations"]:
            kf = next((d for hn, rx, d in known
                       if re.fullmatch(hn.replace("*", ".*"), r["name"])
                       and rx.search(v["label"])), None)
            if kf:
                if kf not in kf_seen:
                    kf_seen.add(kf)
                    lines.append(f"KNOWN-FINDING: property={pid} {kf}")
                continue
            nviol += 1
            path = os.path.join(rp, f"{pid}-{nviol}.json")
            json.dump(dict(property=pid, tier=tier, harness=r["name"],
                           bound=r["bound"], **v), open(path, "w"), indent=1)
            if nviol <= 12:
                lines.append(f"VIOLATION property={pid} replay={path}")
                lines.append(f"  {r['name']}: {v['label'][:400]}")
        u = [x for x in r["undecided"]]
        undecided += len(u)
        for x in u[:3]:
            lines.append(f"UNDECIDED property={pid} {r['name']}: {x[:300]}")
        if r["unreproduced"] and not r["violations"]:
            unrep += len(r["unreproduced"])
            for x in r["unreproduced"][:3]:
                lines.append(f"UNREPRODUCED property={pid} {r['name']}: "
                             f"{x[:300]}")
    st = tot.as_dict()
    cov = dict(
        states=agg["paths"], transitions=st["branches"] + st["instr"],
        traces_validated_against_impl=agg["validated"],
        obligations=agg["obligations"], discharged=agg["discharged"],
        undecided=undecided, unreproduced=unrep,
        solver_queries=st["queries"], solver_s=round(st["solver_s"], 3),
        solver_unsat=st["unsat"], solver_sat=st["sat"],
        solver_unknown=st["unknown"], queries_by_tier=st["by_tier"],
        branch_decisions=st["branches"], forks=st["forks"],
        ir_instructions=st["instr"], merges=st["merges"],
        functions_encoded=sorted(funcs), kernels_encoded=sorted(kerns),
        bounds=sorted({h.bound for h in hs if h.bound}),
        harnesses=per,
        samples=[s for r in results for s in r["samples"]][:8],
        rule="one state per explored symbolic path; transitions are IR "
             "instructions and branch decisions executed symbolically",
        known_findings=sorted(kf_seen))
    doc = dict(property=pid, tier=tier, seed=SEED,
               level=getattr(mod, "LEVEL", "model_checking"), coverage=cov,
               assumptions=assumptions, wall_s=round(wall, 2),
               violations=nviol)
    json.dump(doc, open(os.path.join(ev, f"{pid}.json"), "w"), indent=1,
              default=repr)
    print(f"{pid} [{tier}] {len(results)} harnesses, {agg['paths']} paths, "
          f"{agg['discharged']}/{agg['obligations']} obligations discharged, "
          f"{st['queries']} queries in {st['solver_s']:.1f}s, "
          f"{agg['validated']} replays agree, {wall:.1f}s")
    for x in lines:
        print(x)
    for e in errors[:5]:
        print(f"ERROR {e}")
    if nviol:
        return 1
    # inconclusive parts are reported above and counted in the evidence;
    # the run as a whole only stands when most of it was decided
    bad = len(errors) + sum(1 for r in results if r["undecided"] or
                            r["unreproduced"])
    if not results or agg["discharged"] == 0 or 2 * len(errors) > \
            len(results) or 10 * bad > 9 * len(results):
        print("ERROR: too little was decided")
        return 2
    return 0


def replay(path):
    d = json.load(open(path))
    mod = load_prop(d["property"])
    h = next(h for h in mod.harnesses(d["tier"]) if h.name == d["harness"])
    scratch = tempfile.mkdtemp(prefix="symx_")
    try:
        bp, so = build_real(scratch)
        bp.wait()
        from . import world
        st, msgs, w = world.run_concrete(
            h, Real(scratch, so), FallbackPoint(d["point"]), d["choices"])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    print(st)
    for m in msgs:
        print(" ", m)
    return 1 if st == "fail" else 0
