"""Runs a check: the parent hands the cases to worker processes, so that a crash, an exit or a hang of the monitored
code is observed like any other violation."""

import gc, importlib, json, os, random, selectors, shutil, signal, subprocess, sys, tempfile, time, traceback

from . import build, core

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = [f[:-3].upper() for f in sorted(os.listdir(os.path.join(VERIF, "vf", "checks")))
       if f.endswith(".py") and not f.startswith("_")]

# A case that needs seconds gets minutes: only a hang runs into this.
CASE_LIMIT = {"quick": 240, "thorough": 400}
# No new cases after this, so that a slow machine still gets an answer.
SOFT_LIMIT = {"quick": 420, "thorough": 780}


def load(prop):
    return importlib.import_module("vf.checks." + prop.lower())


def cases_of(mod, tier, seed):
    rng = random.Random("%s-%s-%d" % (mod.PROPERTY, tier, seed))
    # The quick tier draws its workload several times where that is cheap.
    repeat = getattr(mod, "REPEAT", 1) if tier == "quick" else 1
    out, seen = [], set()
    for _ in range(repeat):
        for c in mod.cases(rng, tier):
            text = json.dumps(c, sort_keys=True)
            if text not in seen:
                seen.add(text)
                out.append(dict(c, _n=len(out)))
    return out


# ---------------------------------------------------------------- worker
def worker(prop, so, scratch):
    """Reads cases from stdin, one JSON per line, and answers each on the original stdout."""
    out = os.fdopen(os.dup(1), "w", buffering=1)
    # What the monitored code prints must not mix with the answers
    devnull = os.open(os.path.join(scratch, "stdout.%d" % os.getpid()), os.O_CREAT | os.O_WRONLY | os.O_TRUNC)
    os.dup2(devnull, 1)
    sys.stdout = os.fdopen(devnull, "w", buffering=1)
    os.environ["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
    work = tempfile.mkdtemp(dir=scratch)
    os.chdir(work)
    mod = load(prop)
    mon = core.Monitor()

    def answer(**kw):
        out.write(json.dumps(kw, default=str) + "\n")

    try:
        if so:
            build.install(so)
        elif getattr(mod, "NEEDS_TFC", True):
            build.install("/nonexistent/BF.so")
        if hasattr(mod, "setup"):
            mod.setup()
    except BaseException:
        # The package does not even import: that is the code's fault, and every guarantee is gone with it.
        answer(kind="setup-failed", msg=traceback.format_exc()[-3000:])
        return
    answer(kind="ready")
    for line in sys.stdin:
        case = json.loads(line)
        try:
            mod.run(case, mon)
        except core.Violation as v:
            answer(kind="violation", msg=str(v)[:4000], n=case.get("_n"))
            continue
        except MemoryError:
            answer(kind="inconclusive", msg="out of memory", n=case.get("_n"))
            continue
        except SystemExit as e:
            answer(kind="violation", msg="the code ended the program (SystemExit %s) on valid input\n%s"
                   % (e, traceback.format_exc()[-2500:]), n=case.get("_n"))
            continue
        except BaseException:
            tb = traceback.format_exc()
            answer(kind="violation", msg="unexpected exception on valid input\n" + tb[-3500:], n=case.get("_n"))
            continue
        answer(kind="ok", n=case.get("_n"))
        tidy()
    answer(kind="end", mon=mon.dump())


def tidy():
    """A process may have 65530 memory mappings, and every program that JAX keeps takes some."""
    if "jax" in sys.modules:
        with open("/proc/self/maps") as f:
            n = sum(1 for _ in f)
        if n > 20000:
            sys.modules["jax"].clear_caches()
            gc.collect()


# ---------------------------------------------------------------- parent
class Worker:
    def __init__(self, prop, so, scratch, env):
        self.err = open(os.path.join(scratch, "stderr.%d.%d" % (os.getpid(), id(self))), "w+b")
        self.p = subprocess.Popen([sys.executable, "-m", "vf.main", "--worker", prop, so or "-", scratch], cwd=VERIF,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env,
                                  start_new_session=True)
        os.set_blocking(self.p.stdout.fileno(), False)
        self.buf = b""
        self.case = None
        self.since = time.monotonic()
        self.ready = False
        self.ended = False

    def lines(self):
        try:
            data = os.read(self.p.stdout.fileno(), 1 << 20)
        except BlockingIOError:
            return [], False
        if not data:
            return [], True
        self.buf += data
        *ls, self.buf = self.buf.split(b"\n")
        return [json.loads(x) for x in ls if x.strip()], False

    def stderr_tail(self, n=3000):
        self.err.flush()
        self.err.seek(0)
        text = self.err.read().decode("utf-8", "replace")
        # A sanitizer's report starts with what happened and ends with a shadow memory dump
        for mark in ("==ERROR: AddressSanitizer", "runtime error:", "WARNING: ThreadSanitizer"):
            i = text.find(mark)
            if i >= 0:
                i = max(0, i - 200)
                return text[i:i + n]
        return text[-n:]

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()


def run_cases(mod, tier, cases, so, scratch, nworkers, extra=None):
    prop = mod.PROPERTY
    env = dict(os.environ)
    env.setdefault("XLA_FLAGS", "--xla_cpu_multi_thread_eigen=false")
    env.update(getattr(mod, "ENV", {}))
    if hasattr(mod, "env"):
        env.update(mod.env())
    env.update(extra or {})
    start = time.monotonic()
    queue = list(reversed(cases))
    violations, problems, mons = [], [], []
    done = 0
    workers = [Worker(prop, so, scratch, env) for _ in range(min(nworkers, max(1, len(cases))))]
    sel = selectors.DefaultSelector()
    for w in workers:
        sel.register(w.p.stdout, selectors.EVENT_READ, w)
    stop = False

    def feed(w):
        nonlocal stop
        if time.monotonic() - start > SOFT_LIMIT[tier]:
            stop = True
        if queue and not stop and len(violations) < 5:
            w.case = queue.pop()
            w.since = time.monotonic()
            try:
                w.p.stdin.write(json.dumps(w.case).encode() + b"\n")
                w.p.stdin.flush()
            except BrokenPipeError:
                pass
        else:
            w.case = None
            w.since = time.monotonic()
            try:
                w.p.stdin.close()
            except BrokenPipeError:
                pass

    def gone(w, why):
        sel.unregister(w.p.stdout)
        workers.remove(w)
        if w.ended:
            w.kill()
            return
        tail = w.stderr_tail()
        w.kill()
        if w.case is not None:
            violations.append((w.case, "the process running the code %s\n%s" % (why, tail)))
            if queue and len(violations) < 5 and not stop:
                n = Worker(prop, so, scratch, env)
                workers.append(n)
                sel.register(n.p.stdout, selectors.EVENT_READ, n)
        elif w.ready:
            violations.append(({"_n": None}, "the process running the code %s after its last case\n%s" % (why, tail)))
        else:
            problems.append("a worker %s before it was ready\n%s" % (why, tail))

    while workers:
        for key, _ in sel.select(timeout=1.0):
            w = key.data
            msgs, eof = w.lines()
            for m in msgs:
                k = m["kind"]
                if k == "ready":
                    w.ready = True
                    feed(w)
                elif k == "setup-failed":
                    violations.append(({"_n": None}, "the package does not load\n" + m["msg"]))
                    w.ended = True
                elif k == "end":
                    mons.append(m["mon"])
                    w.ended = True
                else:
                    if k == "violation":
                        violations.append((w.case, m["msg"]))
                    elif k == "inconclusive":
                        problems.append(m["msg"])
                    done += 1
                    feed(w)
            if eof:
                try:
                    rc = w.p.wait(timeout=20)
                except subprocess.TimeoutExpired:
                    rc = "?"
                gone(w, "died (exit status %s)" % rc)
        for w in list(workers):
            limit = CASE_LIMIT[tier] if w.ready else 300
            if time.monotonic() - w.since > limit and not w.ended:
                if w.case is not None:
                    gone(w, "gave no answer within %d s" % limit)
                else:
                    problems.append("a worker hung outside a case")
                    sel.unregister(w.p.stdout)
                    workers.remove(w)
                    w.kill()
    return violations, problems, mons, done, len(queue)


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("known", []) if k["property"] == prop]


def check(prop, tier):
    t0 = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = load(prop)
    scratch = tempfile.mkdtemp(prefix="vf_%s." % prop)
    os.environ["VF_TIER"] = tier
    os.environ["VF_SCRATCH"] = scratch
    try:
        so = None
        if getattr(mod, "NEEDS_EXT", True):
            try:
                so = build.build(getattr(mod, "VARIANT", "release"))
            except build.BuildError as e:
                print("the extension does not build:\n%s" % e)
                return 2
        if hasattr(mod, "custom"):
            violations, problems, mons, done, left = mod.custom(tier, seed, so, scratch)
        else:
            cases = cases_of(mod, tier, seed)
            violations, problems, mons, done, left = run_cases(
                mod, tier, cases, so, scratch, getattr(mod, "WORKERS", 6))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    evals = sum(m["evals"] for m in mons)
    distinct = set()
    kinds = {}
    samples = []
    for m in mons:
        distinct.update(m["distinct"])
        samples += m["samples"]
        for k, v in m["kinds"].items():
            kinds[k] = kinds.get(k, 0) + v
    known = known_findings(prop)
    real = []
    for case, msg in violations:
        k = next((k for k in known if k["match"] in core.dumps(case) + "\n" + msg), None)
        if k is not None:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        else:
            real.append((case, msg))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {"evaluations": evals, "distinct_nontrivial": len(distinct), "rule": mod.RULE,
                     "samples": samples[:12], "events": kinds, "cases_run": done, "cases_left": left},
        "wall_s": round(time.monotonic() - t0, 2), "violations": len(real),
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    print("%s %s seed=%d: %d cases (%d not started), %d observations, %d distinct, %.1f s"
          % (prop, tier, seed, done, left, evals, len(distinct), time.monotonic() - t0))
    print("observed: " + ", ".join("%s=%d" % kv for kv in sorted(kinds.items())))
    if real:
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        for i, (case, msg) in enumerate(real):
            path = os.path.join(rdir, "%s-%d.json" % (prop, i))
            with open(path, "w") as f:
                json.dump({"property": prop, "tier": tier, "seed": seed, "case": case, "message": msg}, f, indent=1,
                          default=str)
            print(msg[:1800])
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if problems:
        print("INCONCLUSIVE: " + "\n".join(problems))
        return 2
    floor = getattr(mod, "MIN_EVALS", 10)
    if evals < floor:
        print("INCONCLUSIVE: the monitors made only %d observations" % evals)
        return 2
    return 0


def replay(path):
    r = json.load(open(path))
    mod = load(r["property"])
    scratch = tempfile.mkdtemp(prefix="vf_replay.")
    os.environ["VF_TIER"] = r["tier"]
    os.environ["VF_SCRATCH"] = scratch
    try:
        so = build.build(getattr(mod, "VARIANT", "release")) if getattr(mod, "NEEDS_EXT", True) else None
        if hasattr(mod, "custom"):
            violations, problems, *_ = mod.custom(r["tier"], r["seed"], so, scratch)
        else:
            violations, problems, *_ = run_cases(mod, r["tier"], [r["case"]], so, scratch, 1)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    for _, m in violations:
        print(m)
    print("violated" if violations else "held", problems or "")
    return 1 if violations else (2 if problems else 0)


def main(argv):
    if argv and argv[0] == "--worker":
        worker(argv[1], None if argv[2] == "-" else argv[2], argv[3])
        return 0
    if argv and argv[0] == "--replay":
        return replay(argv[1])
    if argv and argv[0] == "--build":
        for v in argv[1:] or ["release"]:
            print(build.build(v))
        return 0
    if not argv or argv[0].upper() not in ALL:
        print("usage: run.sh PROPERTY [quick|thorough]; properties: " + " ".join(ALL))
        return 2
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    return check(argv[0].upper(), tier)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
