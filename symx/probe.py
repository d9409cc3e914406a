"""One call of a real compiled kernel, in a process of its own or not."""
import importlib.machinery
import importlib.util
import json
import os
import subprocess
import sys
import sysconfig
import threading
import time

import numpy as np

# dimension letters of every argument and of every result
SPEC = {
    "forward_scaling": (("c", "cc", "sc"), ("", "sc", "s")),
    "forward_log": (("c", "cc", "sc"), ("", "sc")),
    "backward_scaling": (("c", "cc", "sc", "s"), ("sc",)),
    "backward_log": (("c", "cc", "sc"), ("sc",)),
    "compute_scaling_xi_sum": (("sc", "cc", "sc", "sc"), ("cc",)),
    "compute_log_xi_sum": (("sc", "cc", "sc", "sc"), ("cc",)),
    "viterbi": (("c", "cc", "sc"), ("", "s")),
}


def load(path):
    ld = importlib.machinery.ExtensionFileLoader("_hmmc", path)
    spec = importlib.util.spec_from_file_location("_hmmc", path, loader=ld)
    m = importlib.util.module_from_spec(spec)
    ld.exec_module(m)
    return m


def values(shapes):
    out = []
    for i, s in enumerate(shapes):
        r = np.random.RandomState(7 + i)
        a = r.uniform(.1, 1., tuple(s))
        out.append(a)
    return out


def layouts(args, k):
    """the same values, another memory layout."""
    def f(a):
        if k == 1:
            return np.asfortranarray(a)
        if k == 2:
            ix = tuple(slice(None, None, -1) for _ in a.shape)
            return a[ix].copy()[ix]
        b = np.zeros(tuple(2 * n + 1 for n in a.shape))
        ix = tuple(slice(1, None, 2) for _ in a.shape)
        b[ix] = a
        return b[ix]
    return [f(a) for a in args]


def arrays(r):
    return [np.asarray(x) for x in (r if isinstance(r, tuple) else (r,))]


def probe(hmmc, name, shapes):
    """-> (failures, everything computed)."""
    f = getattr(hmmc, name)
    dims, outs = SPEC[name]
    env, ok = {}, True
    for d, s in zip(dims, shapes):
        if len(d) != len(s):
            ok = False
            continue
        for x, n in zip(d, s):
            ok &= env.setdefault(x, n) == n
    full = ok and all(n > 0 for n in env.values())
    args = values(shapes)
    keep = [a.copy() for a in args]
    fails = []
    try:
        res = arrays(f(*args))
        if not ok:
            fails.append("arguments of mismatched size were accepted")
    except (ValueError, IndexError, TypeError) as e:
        res = None
        if full:
            fails.append(f"{type(e).__name__} for matching sizes: {e}")
    for i, (a, b) in enumerate(zip(args, keep)):
        if not np.array_equal(a, b):
            fails.append(f"argument {i} was modified")
    if res is not None and ok:
        for i, (r, d) in enumerate(zip(res, outs)):
            if r.shape != tuple(env[x] for x in d):
                fails.append(f"result {i} has shape {r.shape}")
        for k in (1, 2, 3):
            try:
                other = arrays(f(*layouts(keep, k)))
            except Exception as e:
                fails.append(f"{type(e).__name__} for another layout: {e}")
                continue
            for i, (a, b) in enumerate(zip(res, other)):
                if a.shape != b.shape or not np.allclose(
                        a, b, 1e-9, 1e-12, equal_nan=True):
                    fails.append(f"result {i} depends on the memory layout "
                                 "of the arguments")
                    break
    return fails, None if res is None else [x.tolist() for x in res]


def concurrency(hmmc, name):
    """another thread makes progress while the kernel runs."""
    f = getattr(hmmc, name)
    c = 60
    dims = SPEC[name][0]
    s = 1500
    while True:
        args = values([[{"c": c, "s": s}[x] for x in d] for d in dims])
        if name.endswith(("_scaling", "scaling_xi_sum")):
            # rows near one: no underflow
            for a, d in zip(args, dims):
                if d == "cc":
                    a /= a.sum(1, keepdims=True)
        t = time.perf_counter()
        f(*args)
        dt = time.perf_counter() - t
        if dt > .4 or s > 400000:
            break
        s *= 3
    gap = [0.]
    stop = []

    def tick():
        last = time.perf_counter()
        while not stop:
            time.sleep(.002)
            now = time.perf_counter()
            gap[0] = max(gap[0], now - last)
            last = now
    held = 0
    for _ in range(3):
        gap[0] = 0.
        stop.clear()
        th = threading.Thread(target=tick)
        th.start()
        time.sleep(.05)
        t = time.perf_counter()
        f(*args)
        dt = time.perf_counter() - t
        stop.append(1)
        th.join()
        held += gap[0] > .7 * dt
    return ["other threads are stopped while the kernel runs"] \
        if held == 3 else []


def run_isolated(so, name, shapes, what="memory", env=None, timeout=120):
    """failures seen by a child process."""
    e = dict(os.environ, PYTHONMALLOC="malloc", PYTHONDONTWRITEBYTECODE="1")
    e.update(env or {})
    try:
        r = subprocess.run(
            [sys.executable, os.path.abspath(__file__), so, name,
             json.dumps(shapes), what], capture_output=True, text=True,
            timeout=timeout, env=e)
    except subprocess.TimeoutExpired:
        return ["the kernel does not return"], None
    for ln in r.stdout.splitlines():
        if ln.startswith("RESULT "):
            if r.returncode == 0:
                return tuple(json.loads(ln[7:]))
    err = [x for x in r.stderr.splitlines() if x.strip()]
    msg = next((x for x in err if "ERROR: AddressSanitizer" in x
                or "Error:" in x or "GIL" in x), (err or ["died"])[-1])
    return [f"the process died ({r.returncode}): {msg[:160]}"], None


def build(scratch, repo, flags, tag):
    """the extension, instrumented."""
    import pybind11
    out = os.path.join(scratch, tag, "_hmmc" +
                       sysconfig.get_config_var("EXT_SUFFIX"))
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        cmd = ["clang++-18", "-O1", "-g", "-std=c++17", "-shared", "-fPIC",
               "-fvisibility=hidden", "-w", "-I", os.path.join(repo, "ext"),
               "-I", sysconfig.get_paths()["include"], "-I",
               pybind11.get_include(), *flags,
               os.path.join(repo, "ext", "_hmmc.cpp"), "-o",
               f"{out}.{os.getpid()}"]
        subprocess.run(cmd, check=True, capture_output=True)
        os.replace(f"{out}.{os.getpid()}", out)
    return out


def memory_failures(scratch, repo, name, shapes):
    """under AddressSanitizer, with two fillings of fresh memory."""
    so = build(scratch, repo, ["-fsanitize=address", "-shared-libasan"],
               "asan")
    rt = subprocess.run(
        ["clang++-18", "-print-file-name=libclang_rt.asan-x86_64.so"],
        capture_output=True, text=True).stdout.strip()
    res = []
    for fill in (0, 63):
        f, r = run_isolated(so, name, shapes, env={
            "LD_PRELOAD": rt, "ASAN_OPTIONS":
            "detect_leaks=0:max_malloc_fill_size=65536:"
            f"malloc_fill_byte={fill}"})
        if f:
            return f
        res.append(r)
    if res[0] is not None and not all(
            np.allclose(np.array(a), np.array(b), equal_nan=True)
            for a, b in zip(*res)):
        return ["the result depends on uninitialised memory"]
    return []


def lock_failures(scratch, repo, name, shapes):
    so = build(scratch, repo, ["-DPYBIND11_ASSERT_GIL_HELD_INCREF_DECREF"],
               "gil")
    f, _ = run_isolated(so, name, shapes, env={"PYTHONMALLOC": "debug"})
    if f:
        return f
    f, _ = run_isolated(so, name, shapes, "threads")
    return f


if __name__ == "__main__":
    so, name, shapes, what = sys.argv[1:5]
    h = load(so)
    if what == "threads":
        out = concurrency(h, name), None
    else:
        with np.errstate(all="ignore"):
            out = probe(h, name, json.loads(shapes))
    print("RESULT " + json.dumps(out))
