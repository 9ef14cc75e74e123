"""Requests outside of what is offered, next to the nearest ones that are."""

import contextlib, io
import numpy as np
from .. import gen, lsq, oracle as o

PROPERTY = "C24"
RULE = ("One evaluation is one request: an invalid one, which has to end in an exception or in an exit with a message, or the nearest valid "
        "one, which has to be accepted; objects made before are evaluated again after every refusal. Distinct: by kind of request, arguments, basis and backend.")
REPEAT = 2
MIN_EVALS = 1500
ASSUMPTIONS = ["an exit without a message is not a refusal", "the kind of exception is not judged"]


def setup():
    global jax, jnp, utfc, mtfc, HybridUtfc, BF, BF_Py, U
    import jax, jax.numpy as jnp
    from tfc import utfc, mtfc, HybridUtfc
    from tfc.utils import BF, BF_Py
    import tfc.utils as U


def cases(rng, tier):
    q = tier == "quick"
    out = [{"kind": k, "seed": s} for k, n in (("utfc", 50), ("mtfc", 50), ("points", 40), ("weights", 20), ("low", 40), ("solver", 16), ("graph", 10), ("hybrid", 6), ("printer", 6), ("plots", 6))
           for s in gen.seeds(rng, n if q else 15 * n)]
    rng.shuffle(out)
    return out


def pick(r, seq):
    return seq[int(r.integers(0, len(seq)))]


class Old:
    """An object made before; it has to go on giving the same."""

    def __init__(self, r):
        self.be = pick(r, ["C++", "Python"])
        self.basis = pick(r, ["CP", "LeP", "FS"])
        self.u = utfc(5, 2, 5, basis=self.basis, x0=-1.0, xf=2.0, backend=self.be)
        self.t = mtfc([3, 3], [1, 2], 3, dim=2, basis=self.basis, x0=[0.0, 0.0], xf=[1.0, 2.0], backend=self.be)
        self.seen = self.look()

    def look(self):
        u, t = self.u, self.t
        return [lsq.snapshot(x) for x in (u.x, u.H(u.x), u.d2H(u.x), u.H(u.x, full=True), tuple(t.x), t.H(*t.x), t.Hxy(*t.x))]

    def again(self, mon, key):
        mon.check(self.look() == self.seen, "objects made before", (key, self.be, self.basis), lambda: "after %s an object made before gives something else" % (key,))


def attempt(f):
    """('value', v), ('exception', e) or ('exit', what was printed)."""
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        try:
            return "value", f()
        except SystemExit as e:
            said = out.getvalue() + err.getvalue() + (e.code if isinstance(e.code, str) else "")
            return "exit", said
        except Exception as e:
            return "exception", e


def refused(mon, old, kind, key, f):
    how, v = attempt(f)
    if how == "exit":
        mon.check(v.strip() != "", kind, key, lambda: "%s: exit without a message" % (key,))
    else:
        mon.check(how == "exception", kind, key, lambda: "%s was accepted: %r" % (key, v), sample="%s refused with %r" % (key, v))
    if old is not None:
        old.again(mon, key)


def accepted(mon, kind, key, f):
    how, v = attempt(f)
    mon.check(how == "value", kind, key, lambda: "%s was refused: %r" % (key, v), sample="%s accepted" % (key,))
    return v


def run(case, mon):
    r = np.random.default_rng(case["seed"])
    return globals()["do_" + case["kind"]](case, mon, r)


NOBASIS = ["cp", "LaP ", "", "ELM", "Chebyshev", "CP ", "nCP", "ELMsin", "None", "ELMSigmoi"]
NOBACK = ["c++", "python", "Numpy", "", "C", "C++ ", "JAX"]
FORMS = [list, tuple, np.array, lambda v: jnp.array(v), lambda v: np.array(v, dtype=np.int64), lambda v: np.array(v, dtype=np.int16)]


def cols(mon, kind, key, got, want):
    mon.check(got == want, kind, key, lambda: "%s gives %s columns instead of %s" % (key, got, want))


def do_utfc(case, mon, r):
    old = Old(r)
    basis = pick(r, gen.UTFC)
    be = pick(r, ["C++", "Python"]) if not gen.slow(basis, "Python") or r.integers(0, 4) == 0 else "C++"
    deg = int(r.integers(1, 9))
    N = int(r.integers(2, 8))
    a = float(r.uniform(-2, 2))
    b = a + float(r.uniform(0.5, 3))
    make = lambda nC, **k: utfc(N, nC, deg, **{**dict(basis=basis, x0=a, xf=b, backend=be), **k})
    name = "utfc(%d, %%s, %d, %s, %s)" % (N, deg, basis, be)
    form = pick(r, FORMS)
    H = lambda u: np.shape(u.H(u.x))[1]
    # how many
    for n in (deg + 1, deg + int(r.integers(2, 6))):
        refused(mon, old, "too many removed", name % n, lambda: make(n))
        refused(mon, old, "too many removed", name % ("list of %d" % n), lambda: make(form(list(range(n)))))
    cols(mon, "limit accepted", name % deg, H(accepted(mon, "limit accepted", name % deg, lambda: make(deg))), 1)
    cols(mon, "limit accepted", name % "np.int", H(accepted(mon, "limit accepted", name % "np.int", lambda: make(np.int64(deg)))), 1)
    perm = [int(k) for k in r.permutation(deg + 1)[:deg]]
    cols(mon, "limit accepted", name % perm, H(accepted(mon, "limit accepted", name % perm, lambda: make(form(perm)))), 1)
    # which
    for k in (deg + 1, deg + int(r.integers(2, 1000)), 2 ** 31 - 1):
        few = [int(v) for v in r.permutation(deg + 1)[:max(0, int(r.integers(0, deg)))]]
        bad = few + [k]
        r.shuffle(bad)
        f = form if k < 2 ** 15 else list
        refused(mon, old, "removed functions that do not exist", name % bad, lambda: H(make(f(bad))))
    cols(mon, "limit accepted", name % [deg], H(accepted(mon, "limit accepted", name % [deg], lambda: make(form([deg])))), deg)
    # negative
    few = [int(v) for v in r.permutation(deg + 1)[:int(r.integers(0, deg))]]
    bad = few + [-int(r.integers(1, 5))]
    r.shuffle(bad)
    refused(mon, old, "negative numbers", name % bad, lambda: make(form(bad)))
    for n in (-1, 0):
        cols(mon, "limit accepted", name % n, H(accepted(mon, "limit accepted", name % n, lambda: make(n))), deg + 1)
    cols(mon, "limit accepted", name % [], H(accepted(mon, "limit accepted", name % [], lambda: make([]))), deg + 1)
    # names
    no = pick(r, [pick(r, NOBASIS), nearly(r, gen.UTFC)])
    refused(mon, old, "unknown basis", "basis %r" % no, lambda: make(0, basis=no))
    no = pick(r, [pick(r, NOBACK), nearly(r, ["C++", "Python"])])
    refused(mon, old, "unknown backend", "backend %r" % no, lambda: make(0, backend=no))
    accepted(mon, "limit accepted", name % 1, lambda: make(1))


def wrong_length(r, dim, v):
    n = dim + pick(r, [-1, 1, 2]) if dim > 1 else dim + 1
    return (list(v) + [v[-1]] * 3)[:n]


def do_mtfc(case, mon, r):
    old = Old(r)
    basis = pick(r, gen.UTFC)
    be = pick(r, ["C++", "Python"]) if not gen.slow(basis, "Python") or r.integers(0, 4) == 0 else "C++"
    elm = basis in o.ELMS
    dim = int(pick(r, [1, 2, 2, 3, 4]))
    deg = int(r.integers(2, 6 if dim < 3 else 4))
    n = [int(k) for k in r.integers(2, 4, dim)]
    x0 = [float(v) for v in r.uniform(-2, 2, dim)]
    xf = [v + float(r.uniform(0.5, 3)) for v in x0]
    nC = int(r.integers(0, deg)) if elm else [int(k) for k in r.integers(-1, deg + 1, dim)]

    def make(**k):
        kw = {**dict(n=n, nC=nC, deg=deg, dim=dim, basis=basis, x0=x0, xf=xf, backend=be), **k}
        return mtfc(kw.pop("n"), kw.pop("nC"), kw.pop("deg"), **kw)

    H = lambda t: np.shape(t.H(*t.x))[1]
    name = "mtfc(dim %d, deg %d, %s, %s) with %%s" % (dim, deg, basis, be)
    t = accepted(mon, "limit accepted", name % nC, lambda: make())
    form = pick(r, FORMS)
    fform = pick(r, [list, tuple, np.array, lambda v: jnp.array(v)])
    for what, v, f in (("n", n, form), ("x0", x0, fform), ("xf", xf, fform)):
        bad = wrong_length(r, dim, v)
        refused(mon, old, "wrong length of " + what, name % ("%s %s" % (what, bad)), lambda: make(**{what: f(bad)}))
        accepted(mon, "limit accepted", name % what, lambda: make(**{what: f(v)}))
    if not elm:
        bad = wrong_length(r, dim, nC)
        refused(mon, old, "wrong length of nC", name % ("nC %s" % bad), lambda: make(nC=form(bad)))
        sets = wrong_length(r, dim, [[0]] * dim)
        refused(mon, old, "wrong length of nC", name % ("nC %s" % sets), lambda: make(nC=sets))
        refused(mon, old, "wrong length of nC", name % "integer nC", lambda: make(nC=int(r.integers(0, deg))))
        for k in (deg + 1, deg + int(r.integers(2, 9))):
            bad = list(nC)
            bad[int(r.integers(0, dim))] = k
            refused(mon, old, "too many removed", name % ("nC %s" % bad), lambda: make(nC=form(bad)))
            bad = [[0]] * dim
            bad[int(r.integers(0, dim))] = list(range(k))
            refused(mon, old, "too many removed", name % ("nC %s" % bad), lambda: make(nC=bad))
        good = [[0, 1] for _ in range(dim)]
        for g in good:
            g[int(r.integers(0, 2))] = deg
        idx = o.indices(deg + 1, dim)
        for f in (list, np.array):
            want = sum(1 for v in idx if not o.removed([set(g) for g in good], v))
            cols(mon, "limit accepted", name % ("nC %s" % good), H(accepted(mon, "limit accepted", name % ("nC %s" % good), lambda: make(nC=f(good)))), want)
        lim = [deg] * dim
        want = sum(1 for v in idx if not o.removed(o.rows_of(lim), v))
        cols(mon, "limit accepted", name % ("nC %s" % lim), H(accepted(mon, "limit accepted", name % ("nC %s" % lim), lambda: make(nC=form(lim)))), want)
        cols(mon, "limit accepted", name % "-1", H(accepted(mon, "limit accepted", name % "-1", lambda: make(nC=form([-1] * dim)))), len(idx))
    else:
        for k in (deg + 1, deg + int(r.integers(2, 6))):
            refused(mon, old, "too many removed", name % k, lambda: make(nC=k))
            refused(mon, old, "too many removed", name % ("list of %d" % k), lambda: make(nC=form(list(range(k)))))
            few = [int(v) for v in r.permutation(deg + 1)[:int(r.integers(0, deg - 1))]]
            refused(mon, old, "removed functions that do not exist", name % (few + [k]), lambda: H(make(nC=form(few + [k]))))
        refused(mon, old, "negative numbers", name % [-1], lambda: make(nC=form([-1])))
        refused(mon, old, "negative numbers", name % [0, -2], lambda: make(nC=form([0, -2])))
        cols(mon, "limit accepted", name % deg, H(accepted(mon, "limit accepted", name % deg, lambda: make(nC=deg))), 1)
        cols(mon, "limit accepted", name % [deg], H(accepted(mon, "limit accepted", name % [deg], lambda: make(nC=form([deg])))), deg)
        for k in (0, -1):
            cols(mon, "limit accepted", name % k, H(accepted(mon, "limit accepted", name % k, lambda: make(nC=k))), deg + 1)
    no = pick(r, [pick(r, NOBASIS), nearly(r, gen.UTFC)])
    for c in ([1] * dim, 1):
        refused(mon, old, "unknown basis", "mtfc basis %r, nC %s" % (no, c), lambda: make(nC=c, basis=no))
    no = pick(r, [pick(r, NOBACK), nearly(r, ["C++", "Python"])])
    refused(mon, old, "unknown backend", "mtfc backend %r" % no, lambda: make(backend=no))


def do_points(case, mon, r):
    old = Old(r)
    basis = pick(r, gen.UTFC)
    be = pick(r, ["C++", "Python"]) if not gen.slow(basis, "Python") or r.integers(0, 4) == 0 else "C++"
    arr = pick(r, [np.array, lambda v: jnp.array(v)])
    dim = int(r.integers(2, 5))
    u = utfc(4, 1, 4, basis=basis, x0=0.0, xf=1.0, backend=be)
    t = mtfc([2] * dim, 1 if basis in o.ELMS else [1] * dim, 2, dim=dim, basis=basis, x0=[0.0] * dim, xf=[1.0] * dim, backend=be)
    ways = [("eager", lambda f: f)] + ([("jit", jax.jit)] if be == "C++" else []) + [("eval_shape", lambda f: lambda *x: jax.eval_shape(f, *x)), ("jacfwd", jax.jacfwd)]
    m = lambda *s: arr(r.uniform(0, 1, s))
    for meth in ("H", "dH", "d2H"):
        for wn, way in ways:
            key = "utfc.%s (%s, %s, %s)" % (meth, basis, be, wn)
            f = lambda x: getattr(u, meth)(x)
            for s in ((3, 2), (1, 4), (4, 1), (2, 2, 2)):
                if be == "Python" and wn in ("eager", "jacfwd") and s[1:] == (1,):
                    continue  # a column of points is taken for a list of points
                refused(mon, old, "rank of points", key + " of shape %s" % (s,), lambda: way(f)(m(*s)))
            accepted(mon, "points accepted", key, lambda: way(f)(m(int(r.integers(1, 6)))))
    # the low level refuses what does not say where the points are
    for meth in ("H", "Hx", "Hxy", "Hy2"):
        for wn, way in ways:
            key = "mtfc.%s (dim %d, %s, %s, %s)" % (meth, dim, basis, be, wn)
            f = lambda *x: getattr(t, meth)(*x)
            k = int(r.integers(2, 6))
            refused(mon, old, "count of points", key + " with too few arrays", lambda: way(f)(*[m(k) for _ in range(dim - 1)]))
            refused(mon, old, "count of points", key + " with too many arrays", lambda: way(f)(*[m(k) for _ in range(dim + 1)]))
            lens = [k] * dim
            lens[int(r.integers(0, dim))] += pick(r, [-1, 1])
            refused(mon, old, "count of points", key + " with lengths %s" % lens, lambda: way(f)(*[m(j) for j in lens]))
            refused(mon, old, "rank of points", key + " with matrices", lambda: way(f)(*[m(k, 2) for _ in range(dim)]))
            accepted(mon, "points accepted", key, lambda: way(f)(*[m(k) for _ in range(dim)]))


def do_weights(case, mon, r):
    old = Old(r)
    basis = pick(r, o.ELMS)
    be = pick(r, ["C++", "Python"]) if r.integers(0, 3) == 0 or basis == "ELMReLU" else "C++"
    m = int(r.integers(2, 9))
    dim = int(r.integers(2, 4))
    B1 = utfc(4, 0, m - 1, basis=basis, x0=0.0, xf=1.0, backend=be).basisClass
    Bn = mtfc([2] * dim, 0, m - 1, dim=dim, basis=basis, x0=[0.0] * dim, xf=[1.0] * dim, backend=be).basisClass
    x1, xn = r.uniform(0, 1, 3), r.uniform(0, 1, (dim, 3))
    for B, x, d, what in ((B1, x1, 0, "1-D"), (Bn, xn, (0,) * dim, "%d-D" % dim)):
        look = lambda: (lsq.snapshot(B.w), lsq.snapshot(B.b), lsq.snapshot(B.H(x, d, False)))
        for att in ("w", "b"):
            shape = np.shape(getattr(B, att))
            for _ in range(4):
                bad = list(shape)
                ax = int(r.integers(0, len(bad)))
                bad[ax] = max(0, bad[ax] + pick(r, [-1, 1, 3, m]))
                if tuple(bad) == tuple(shape):
                    continue
                seen = look()
                key = "%s %s %s (%s) of shape %s for %s" % (what, basis, att, be, bad, shape)
                refused(mon, old, "size of weights", key, lambda: setattr(B, att, r.uniform(-1, 1, bad)))
                mon.check(look() == seen, "object after refusal", key, lambda: "%s: the refused weights changed the object" % key)
            v = r.uniform(-1, 1, shape)
            accepted(mon, "weights accepted", "%s %s %s (%s)" % (what, basis, att, be), lambda: setattr(B, att, v))
            mon.check(np.array_equal(np.asarray(getattr(B, att)), v), "weights accepted", (what, basis, att, be), "the weights read back differ")


def do_low(case, mon, r):
    """The binding itself: what it cannot use safely has to be refused before memory is touched."""
    old = Old(r)
    i32 = lambda v: np.array(v, dtype=np.int32)
    m = int(r.integers(2, 9))
    basis = pick(r, gen.ALL1)
    C = getattr(BF, basis)
    x = r.uniform(0, 1, 4)
    new = lambda nC: C(0.0, 1.0, nC, m)
    key = "BF.%s" % basis
    bads = [("rank of nC", i32([[0, 1]])), ("nC too large", i32([m])), ("nC too large", i32([0, m + 3])), ("nC negative", i32([-1])), ("nC too large", i32([2 ** 31 - 1]))]
    for what, v in bads:
        refused(mon, old, what, "%s with nC %s" % (key, v.tolist()), lambda: new(v).H(x, 0, False))
    B = accepted(mon, "low level accepted", key, lambda: new(i32([m - 1])))
    for s in ((2, 2), (4, 1), (1, 1, 3)):
        refused(mon, old, "rank of points", "%s.H of shape %s" % (key, s), lambda: B.H(r.uniform(0, 1, s), 0, False))
    accepted(mon, "low level accepted", key, lambda: B.H(x, 0, False))
    nb = pick(r, gen.UTFC)
    elm = nb in o.ELMS
    C = getattr(BF, "n" + nb)
    dim = int(r.integers(1, 4))
    key = "BF.n%s (dim %d, m %d)" % (nb, dim, m)
    x0, xf = np.zeros(dim), np.ones(dim)
    ok = i32([0]) if elm else i32([[0, -1]] * dim)
    trials = [("length of x0", (np.zeros(dim + 1), xf, ok)), ("length of xf", (x0, np.ones(dim + 1), ok)), ("rank of x0", (np.zeros((dim, 1)), xf, ok)), ("rank of xf", (x0, np.ones((dim, 2)), ok))]
    if elm:
        trials += [("rank of nC", (x0, xf, i32([[0]]))), ("nC too large", (x0, xf, i32([m]))), ("nC negative", (x0, xf, i32([-2]))), ("nC negative", (x0, xf, i32([0, -1])))]
    else:
        trials += [("rank of nC", (x0, xf, i32([0] * dim))), ("length of nC", (x0, xf, i32([[0]] * (dim + 1))))]
    for what, a in trials:
        refused(mon, old, what, "%s with %s" % (key, [v.tolist() for v in a]), lambda: C(*a, m))
    B = accepted(mon, "low level accepted", key, lambda: C(x0, xf, ok, m))
    good = r.uniform(0, 1, (dim, 3))
    d = i32([0] * dim)
    for what, xx, dd in (("rank of points", good[0], d), ("count of points", r.uniform(0, 1, (dim + 1, 3)), d), ("count of points", good[:dim - 1], d), ("rank of points", good[None], d),
                         ("length of d", good, i32([0] * (dim + 1))), ("rank of d", good, i32([[0] * dim]))):
        refused(mon, old, what, "%s.H of shape %s, d %s" % (key, np.shape(xx), dd.tolist()), lambda: B.H(xx, dd, False))
    v = accepted(mon, "low level accepted", key, lambda: B.H(good, d, True))


def nearly(r, good):
    """A name one slip away from a valid one."""
    while True:
        s = str(pick(r, list(good)))
        k, i = int(r.integers(0, 7)), int(r.integers(0, len(s)))
        c = str(pick(r, list("aelnqrstv_ 0")))
        t = [s[:i] + s[i + 1:], s[:i] + c + s[i:], s[:i] + c + s[i + 1:], s.upper(), s.capitalize(), s + str(pick(r, list(good))), s[::-1]][k]
        if t not in good:
            return t


def do_solver(case, mon, r):
    old = Old(r)
    n = int(r.integers(2, 6))
    A = jnp.array(r.standard_normal((n + 2, n)) + 3 * np.eye(n + 2, n))
    y = jnp.array(r.standard_normal(n + 2))
    un = lsq.Unknowns(r, n)
    res = lambda xi, y: A @ un.flat(xi) - y
    guess = un.make(np.zeros(n))
    const = pick(r, [[], [1]])
    rest = () if const else (y,)
    calls = {
        "LS": lambda m: U.LS(guess, res, y, method=m, constant_arg_nums=const),
        "LS with timer": lambda m: U.LS(guess, res, y, method=m, constant_arg_nums=const, timer=True),
        "LsClass": lambda m: U.LsClass(guess, res, y, method=m, constant_arg_nums=const).run(guess, *rest),
        "NLLS": lambda m: U.NLLS(guess, res, y, method=m, constant_arg_nums=const),
        "NllsClass": lambda m: U.NllsClass(guess, res, y, method=m, constant_arg_nums=const).run(guess, *rest),
    }
    want = np.linalg.lstsq(np.asarray(A), np.asarray(y), rcond=None)[0]
    for k, f in calls.items():
        names = r.permutation(np.array(["qr", "", "PINV", "svd", "lstsq ", "lst", None, "cholesky", "lsq", "solve", "ls", "inv", "LSTSQ", "default", "normal", "scaledQr", 0, True], dtype=object))[:6]
        for no in [*names, nearly(r, ["pinv", "lstsq"])]:
            refused(mon, old, "unknown method", "%s with method %r" % (k, no), lambda: f(no))
        good = pick(r, ["pinv", "lstsq"])
        v = accepted(mon, "method accepted", (k, good), lambda: f(good))
        got = np.asarray(un.flat(v[0] if isinstance(v, tuple) else v))
        mon.check(np.allclose(got, want, rtol=1e-8, atol=1e-8), "method accepted", (case["seed"], k, good), lambda: "%s after a refusal gives %s instead of %s" % (k, got, want))


def do_graph(case, mon, r):
    old = Old(r)
    names = ["u", "v", "w", "p"][:int(r.integers(2, 5))]
    E = lambda a, b, k: {"name": "e%d" % k, "node0": a, "node1": b}
    good = [E(names[k], names[(k + 1) % len(names)], k) for k in range(len(names) - 1)]
    for side in ("node0", "node1"):
        for no in ("q", "U", "", "u ", "uv"):
            bad = [dict(e) for e in good]
            bad[int(r.integers(0, len(bad)))][side] = no
            refused(mon, old, "unknown node", "edges %s of nodes %s" % (bad, names), lambda: U.ComponentConstraintGraph(names, bad))
    g = accepted(mon, "graph accepted", str(good), lambda: U.ComponentConstraintGraph(names, good))


def do_hybrid(case, mon, r):
    old = Old(r)
    be = pick(r, ["C++", "Python"])
    N = int(r.integers(3, 9))
    a = utfc(N, 1, 3, basis="CP", x0=0.0, xf=1.0, backend=be)
    b = utfc(N, 0, 4, basis="FS", x0=0.0, xf=1.0, backend=be)
    for other in (N + 1, N - 1, N + 10):
        c = utfc(other, 0, 4, basis="LeP", x0=0.0, xf=1.0, backend=be)
        for parts in ([a, c], [c, a], [a, b, c], [a, c, b]):
            refused(mon, old, "different numbers of points", "HybridUtfc of parts with %s points" % [p.N for p in parts], lambda: HybridUtfc(parts))
    h = accepted(mon, "hybrid accepted", N, lambda: HybridUtfc([a, b]))
    H = np.asarray(h.H(a.x))
    cols(mon, "hybrid accepted", (N, be), H.shape[1], 3 + 5)


def do_printer(case, mon, r):
    import sympy as sp
    old = Old(r)
    x, y0 = sp.symbols("x y0")
    s = accepted(mon, "solver made", 1, lambda: U.CeSolver([lambda f: f.subs(x, 0)], [y0], [sp.Integer(1)], sp.Function("g")(x)))
    before = s.ce

    def put(v):
        s.print_type = v

    for no in ("html", "", "LaTeX", "Tfc", None, "string", "PRETTY", "tfc ", "repr", "srepr", "mathml", "plain", "python", "unicode", "ascii", "code", "numpy", "default", *[nearly(r, ["tfc", "latex", "pretty", "str"]) for _ in range(4)]):
        refused(mon, old, "unknown print type", "print_type %r" % no, lambda: put(no))
        mon.check(s.ce == before, "object after refusal", (no, "ce"), lambda: "the constrained expression changed after %r was refused" % no)
        yes = pick(r, ["tfc", "latex", "pretty", "str"])
        accepted(mon, "print type accepted", yes, lambda: put(yes))
        mon.check(s.print_type == yes and s.ce == before, "print type accepted", (yes, "read"), lambda: "print_type reads back as %r instead of %r" % (s.print_type, yes))


def do_plots(case, mon, r):
    from tfc.utils import MakePlot
    import tfc.utils.PlotlyMakePlot as PM
    old = Old(r)
    for no in (3, 2.5, {"a": "b"}, object()):
        for lib, M in (("MakePlot", MakePlot), ("PlotlyMakePlot", PM.MakePlot)):
            refused(mon, old, "labels", "%s with x labels of type %s" % (lib, type(no).__name__), lambda: M(no, "y"))
            refused(mon, old, "labels", "%s with y labels of type %s" % (lib, type(no).__name__), lambda: M("x", no))
    for lib, M in (("MakePlot", MakePlot), ("PlotlyMakePlot", PM.MakePlot)):
        for xl, yl in (("x", "y"), (["x"], ["y"]), (("x",), ("y",)), (np.array([["x"]]), np.array([["y"]]))):
            accepted(mon, "labels accepted", (lib, type(xl).__name__), lambda: M(xl, yl))
    p = PM.MakePlot("x", "y")
    refused(mon, old, "view of a flat plot", "view", lambda: p.view(30, 40))
    p = PM.MakePlot("x", "y", zlabs="z")
    accepted(mon, "view accepted", "view", lambda: p.view(30, 40))
    import matplotlib.pyplot as plt
    plt.close("all")
