"""Concurrent use of the extension: under ThreadSanitizer, and at full speed with results compared."""

import glob, os, random, re, sys, threading, time
import numpy as np
from .. import build, gen, oracle as o

PROPERTY = "C12"
RULE = ("One evaluation is one call made while other threads were using the extension, whose result was compared bit by bit with the "
        "same call made alone; calls that overlapped a call of another thread in time count as non-trivial and are distinct by "
        "(objects, function, workload, build, round). ThreadSanitizer watches every access of the extension in the tsan build.")
MIN_EVALS = 1000
WORKERS = 3
ASSUMPTIONS = ["ThreadSanitizer reports count when both accesses are in the extension and the memory is its own (JAX, NumPy and Python are not instrumented)",
               "under ThreadSanitizer compiled functions run on the calling threads (synchronous dispatch), so that all synchronisation is visible to it"]

SO = "BF."


def tsan_env(scratch):
    return {"LD_PRELOAD": build.runtime("libtsan"), "VF_TSAN": os.path.join(scratch, "tsan"),
            "TSAN_OPTIONS": "ignore_noninstrumented_modules=1:exitcode=0:halt_on_error=0:history_size=4:report_thread_leaks=0:"
                            "log_path=" + os.path.join(scratch, "tsan"),
            "JAX_CPU_ENABLE_ASYNC_DISPATCH": "false"}


def custom(tier, seed, so, scratch):
    from .. import main
    mod = sys.modules[__name__]
    rng = random.Random("C12-%s-%d" % (tier, seed))
    tsan = [c for c in cases(rng, tier)]
    fast = [dict(c) for c in cases(rng, tier)]
    for i, c in enumerate(tsan + fast):
        c["_n"] = i
        c["build"] = "tsan" if i < len(tsan) else "release"
    try:
        tso = build.build("tsan")
    except build.BuildError as e:
        return [], ["the tsan build failed: %s" % e], [], 0, 0
    a = main.run_cases(mod, tier, tsan, tso, scratch, WORKERS, tsan_env(scratch))
    half = len(fast) // 2
    b = main.run_cases(mod, tier, fast[:half], so, scratch, 2, {"XLA_FLAGS": ""})
    c = main.run_cases(mod, tier, fast[half:], so, scratch, 2, {"XLA_FLAGS": "", "JAX_CPU_ENABLE_ASYNC_DISPATCH": "false"})
    return a[0] + b[0] + c[0], a[1] + b[1] + c[1], a[2] + b[2] + c[2], a[3] + b[3] + c[3], a[4] + b[4] + c[4]


def setup():
    global BF, utfc, mtfc, jnp, jax
    import jax, jax.numpy as jnp
    from tfc import utfc, mtfc
    from tfc.utils import BF
    sys.setswitchinterval(2e-5)


def cases(rng, tier):
    q = tier == "quick"
    out = []
    for s in gen.seeds(rng, 6 if q else 60):
        out.append({"kind": "mixed", "seed": s})
    for s in gen.seeds(rng, 3 if q else 20):
        out.append({"kind": "same", "seed": s})
    for s in gen.seeds(rng, 2 if q else 20):
        out.append({"kind": "churn", "seed": s})
    for b in gen.UTFC:
        out.append({"kind": "basis", "basis": b, "seed": rng.randrange(2 ** 31)})
    return out


# ---------------------------------------------------------------- ThreadSanitizer's log
_read = {}


def reports():
    """The reports written since the last call."""
    pre = os.environ.get("VF_TSAN")
    if not pre:
        return []
    out = []
    for f in glob.glob("%s.%d" % (pre, os.getpid())):
        text = open(f, errors="replace").read()
        new = text[_read.get(f, 0):]
        # only whole reports
        end = new.rfind("==================\n")
        if end < 0:
            continue
        _read[f] = _read.get(f, 0) + end + len("==================\n")
        out += [x for x in new[:end].split("==================\n") if "WARNING: ThreadSanitizer" in x]
    return out


def relevant(rep):
    """Is this report about the extension?"""
    inside = lambda s: ("(" + SO) in s or "/tfc/utils/" in s
    parts = [p for p in re.split(r"\n\s*\n", rep) if p.strip()]
    acc = [p for p in parts if re.search(r"^\s*(WARNING: ThreadSanitizer.*\n)?\s*(Previous |Atomic |Previous atomic )?(write|read|Write|Read) of size", p, re.M)]
    if "data race" in rep or "use-after-free" in rep:
        if not acc or not all(inside(p) for p in acc):
            return False
        loc = [p for p in parts if "Location is heap block" in p]
        # memory that belongs to XLA or NumPy is handed over by synchronisation the sanitizer cannot see
        return all(inside(p) for p in loc)
    if "lock-order" in rep or "mutex" in rep:
        return inside(rep)
    return False


def judge_reports(mon, case):
    n = 0
    for rep in reports():
        n += 1
        if relevant(rep):
            lines = rep.splitlines()
            mon.fail("ThreadSanitizer, workload %s:\n%s" % (case["kind"], "\n".join(l[:220] for l in lines if l.strip())[:3500]))
    if os.environ.get("VF_TSAN"):
        mon.seen("sanitizer log examined", (case["kind"], case["seed"]), sample="%d reports" % n)


# ---------------------------------------------------------------- workloads
def make(r, basis=None):
    """An object and a compiled function of it with its argument and its result when nothing else runs."""
    basis = basis or gen.UTFC[int(r.integers(0, len(gen.UTFC)))]
    elm = basis in o.ELMS
    n = int(r.choice([3, 50, 400]))
    if r.integers(0, 3):
        deg = int(r.choice([4, 15, 40]))
        u = utfc(n, gen.nc1(r, deg + 1, 4), deg, basis=basis, x0=-1.0, xf=float(r.uniform(0, 2)))
        d = [u.H, u.dH, u.d2H, u.d4H][int(r.integers(0, 4))]
        full = bool(r.integers(0, 2))
        f = jax.jit(lambda x: d(x, full=full))
        args = (jnp.asarray(u.x),)
    else:
        deg = int(r.choice([2, 5, 8]))
        u = mtfc([4, max(n // 4, 2)], gen.nc1(r, deg + 1, 2) if elm else [2, 1], deg, basis=basis, x0=[0.0, -1.0], xf=[1.0, float(r.uniform(0, 2))])
        d = [u.H, u.Hx, u.Hxy, u.Hy2][int(r.integers(0, 4))]
        f = jax.jit(lambda x, y: d(x, y))
        args = tuple(jnp.asarray(v) for v in u.x)
    want = np.array(f(*args))
    return {"obj": u, "f": f, "args": args, "want": want, "basis": basis}


def drive(mon, case, workers, seconds_limit=150):
    """Runs the workers, each a function(thread number), at the same time."""
    go = threading.Barrier(len(workers))
    errs = []

    def wrap(i, f):
        try:
            go.wait()
            f(i)
        except BaseException as e:
            import traceback
            errs.append("thread %d: %s" % (i, traceback.format_exc()[-1500:]))

    ts = [threading.Thread(target=wrap, args=(i, f), daemon=True) for i, f in enumerate(workers)]
    for t in ts:
        t.start()
    end = time.monotonic() + seconds_limit
    for t in ts:
        t.join(max(0.1, end - time.monotonic()))
    if any(t.is_alive() for t in ts):
        mon.fail("deadlock: %d of %d threads did not finish within %d s" % (sum(t.is_alive() for t in ts), len(ts), seconds_limit))
    if errs:
        mon.fail("a thread failed: " + errs[0])


def evaluator(pool, log, rounds, seed):
    def f(i):
        r = random.Random(seed * 1000 + i)
        for k in range(rounds):
            I = pool[r.randrange(len(pool))]
            a = time.perf_counter_ns()
            got = I["f"](*I["args"])
            got.block_until_ready()
            b = time.perf_counter_ns()
            log.append((a, b, i, k, I, np.asarray(got)))
            if r.random() < 0.1:
                time.sleep(r.random() * 1e-4)
    return f


def judge(mon, case, log, busy=()):
    """Offline check of the recorded calls."""
    log.sort(key=lambda e: e[0])
    spans = sorted([(e[0], e[1], e[2]) for e in log] + list(busy))
    for a, b, i, k, I, got in log:
        over = any(s < b and e > a and t != i for s, e, t in spans)
        same = got.shape == I["want"].shape and got.tobytes() == I["want"].tobytes()
        mon.check(same, "concurrent call", (case["kind"], case["build"], case["seed"], i, k), lambda: "%s: a result differs from the one computed alone: %d of %d entries, worst %.3g"
                  % (I["basis"], int(np.sum(got != I["want"])), got.size, float(np.nanmax(np.abs(got - I["want"])))), nontrivial=over)


def creator(busy, rounds, seed, keep):
    """Creates and destroys objects of the extension, checks the eager results of its own ones."""
    def f(i):
        r = np.random.default_rng(seed + i)
        x = np.linspace(0.1, 0.9, 7)
        for k in range(rounds):
            a = time.perf_counter_ns()
            b = gen.ALL1[int(r.integers(0, len(gen.ALL1)))]
            m = int(r.integers(1, 12))
            B = getattr(BF, b)(0.0, 1.0, np.array([0], dtype=np.int32) if m > 1 else np.array([], dtype=np.int32), m)
            if hasattr(B, "w"):
                B.w = r.uniform(-1, 1, m)
                B.b = r.uniform(-1, 1, m)
            h = B.H(x, 1, True)
            w, bb = gen.wb(B)
            want, tol = o.H1(b, 0.0, 1.0, m, x, 1, w, bb)
            if o.worst(h, want, tol) is not None:
                raise AssertionError("%s created while others were evaluated gives wrong values" % b)
            if r.integers(0, 4) == 0:
                keep.append(B)
            del B
            if r.integers(0, 6) == 0:
                t = mtfc([2, 2], 1 if b in o.ELMS else [1, 1], 2, basis=b if b in gen.UTFC and b not in o.ELMS else "CP", x0=[0.0, 0.0], xf=[1.0, 1.0]) if b not in o.ELMS else utfc(3, 1, 3, basis=b, x0=0.0, xf=1.0)
                if b in o.ELMS:
                    y = jnp.linspace(0.0, 1.0, 3)
                    g = np.asarray(jax.jit(lambda q: t.dH(q))(y))
                    ww, wb_ = gen.wb(t.basisClass)
                    want, tol = o.H1(b, 0.0, 1.0, 4, np.asarray(y), 1, ww, wb_)
                    if o.worst(g, want[:, 1:], tol[:, 1:]) is not None:
                        raise AssertionError("%s created and compiled while others were evaluated gives wrong values" % b)
            busy.append((a, time.perf_counter_ns(), i))
    return f


def run(case, mon):
    r = gen.rng(case)
    slow = case["build"] == "tsan"
    rounds = 60 if slow else 150
    log, busy, keep = [], [], []
    k = case["kind"]
    ids = []
    if k == "same":
        pool = [make(r)]
        ws = [evaluator(pool, log, rounds, case["seed"]) for _ in range(6)]
    elif k == "basis":
        pool = [make(r, case["basis"]) for _ in range(3)]
        ws = [evaluator(pool, log, rounds // 2, case["seed"]) for _ in range(4)] + [creator(busy, rounds // 4, case["seed"], keep)]
    elif k == "mixed":
        pool = [make(r) for _ in range(6)]
        ws = [evaluator(pool, log, rounds, case["seed"]) for _ in range(4)] + [creator(busy, rounds // 2, case["seed"], keep) for _ in range(2)]
    else:
        pool = [make(r) for _ in range(2)]
        ws = [evaluator(pool, log, rounds, case["seed"]) for _ in range(2)] + [creator(busy, rounds, case["seed"], keep) for _ in range(4)]
    drive(mon, case, ws)
    judge(mon, case, log, busy)
    ids = [B.identifier for B in keep]
    mon.check(len(set(ids)) == len(ids), "identifiers of objects created at the same time", (k, case["seed"]), "two objects have the same identifier")
    # every object is still the one it was
    for I in pool:
        got = np.asarray(I["f"](*I["args"]))
        mon.check(got.tobytes() == I["want"].tobytes(), "call afterwards", (k, case["seed"], I["basis"]), "an object gives another result after concurrent use")
    judge_reports(mon, case)
