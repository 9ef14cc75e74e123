"""Constrained expressions: constraints hold for every free function, projection property, and the switching space."""

import random
import mpmath as mp
import numpy as np
import sympy as sp
from .. import ce as K, gen

PROPERTY = "C01"
NEEDS_EXT = True
RULE = ("One evaluation is one constraint applied to a constrained expression with an explicit free function in place, compared with its "
        "kappa at random points with 40 digits; or one projection or span comparison. Distinct: by constraint set, free function and constraint.")
REPEAT = 3
MIN_EVALS = 500
ASSUMPTIONS = ["equality of expressions is decided at three random rational points with 40 digits",
               "constraint operators are built from values, derivatives and integrals of polynomials, sines, cosines and exponentials"]


def setup():
    global CeSolver
    from tfc.utils import CeSolver


def cases(rng, tier):
    q = tier == "quick"
    out = [{"kind": k, "seed": s} for k, n in (("one", 50), ("many", 24), ("several", 24), ("system", 6), ("float", 24), ("scaled", 16), ("irrational", 16), ("param", 16), ("large", 8)) for s in gen.seeds(rng, n if q else n * 14)]
    rng.shuffle(out)
    return out


def satisfied(mon, r, what, key, C, Ks, u, vs):
    for i, (c, k) in enumerate(zip(C, Ks)):
        e = c(u) - k
        bad = K.vanishes(e, vs, r, tol=1e-15)
        mon.check(bad is None, "constraint", key + (i,), lambda: "%s: constraint %d (%r) is violated at %s by %s" % (what, i, c, bad[0], bad[1]), sample=what)


def same(mon, r, kind, what, key, a, b, vs):
    bad = K.vanishes(a - b, vs, r, tol=1e-15)
    mon.check(bad is None, kind, key, lambda: "%s: differs at %s by %s" % (what, bad[0], bad[1]))


def span(mon, r, what, key, diff, s, v, others):
    """diff is a combination of s with coefficients that do not depend on v."""
    pt = {o: sp.Rational(r.randint(-20, 20), 7) for o in others}
    n = len(s)
    xs = K.distinct(r, n + 3, -4, 4)
    with mp.workdps(40):
        A = mp.matrix(n + 3, n)
        b = mp.matrix(n + 3, 1)
        for i, a in enumerate(xs):
            for j, f in enumerate(s):
                A[i, j] = K.num(f, {v: a})
            b[i] = K.num(diff, {v: a, **pt})
        # least squares with the normal equations in 40 digits
        scale = max(1, max(abs(b[i]) for i in range(n + 3)))
        try:
            c = mp.lu_solve(A.T * A, A.T * b)
        except ZeroDivisionError:
            return  # the support functions are dependent on these points
        res = max(abs((A * c - b)[i]) for i in range(n + 3))
    mon.check(res < 1e-12 * scale, "span", key, lambda: "%s: the difference from the free function is not a combination of the support functions (%s)" % (what, mp.nstr(res, 5)))


def floats(r, mon, key):
    """Constraint points, coefficients and values that are Python floats; the constraints hold to rounding error."""
    g = sp.Function("g")
    v = r.choice([K.x, K.t])
    num = lambda lo, hi: r.choice([round(r.uniform(lo, hi), r.choice([1, 3, 7])), r.uniform(lo, hi)])
    for _ in range(500):
        n = r.choice([1, 2, 2, 3, 4])
        C, s = [], K.supports(r, v, n, poly=r.random() < 0.7)
        for _ in range(n):
            k = r.randrange(5)
            if k < 3:
                C.append(K.Op(v, [(sp.Integer(1), "val", r.choice([0, 0, 0, 1, 2]), num(-2, 2))]))
            elif k == 3:
                C.append(K.Op(v, [(sp.Integer(1), "val", 0, num(-2, 0)), (sp.Integer(-1), "val", 0, num(0.1, 2))]))
            else:
                C.append(K.Op(v, [(num(0.5, 3), "val", 0, num(-2, 2)), (num(-3, 3), "val", 1, num(-2, 2))]))
        if len(s) < n:
            continue
        M = K.matrix(C, s)
        A = np.array([[float(K.num(M[i, j], {})) for j in range(n)] for i in range(n)])
        cond = np.linalg.cond(A) if np.linalg.matrix_rank(A) == n else np.inf
        if cond < 1e4:
            break
    else:
        return
    ks = [num(-3, 3) if r.random() < 0.7 else r.uniform(-1, 1) * 10 ** r.uniform(-6, 6) for _ in C]
    cs = CeSolver(C, ks, s, g(v))
    e = cs.ce
    for j in range(2):
        f = K.concrete(r, [v])
        u = K.put(e, [v], f)
        scale = max([1.0] + [abs(float(K.num(c(f), {}))) for c in C] + [abs(k) for k in ks])
        for i, (c, k) in enumerate(zip(C, ks)):
            d = float(abs(K.num(c(u) - k, {v: sp.Integer(0)})))
            mon.check(d < 1e-12 * float(cond) * scale, "constraint with floats", key + (j, i),
                      lambda: "C=%r, kappa=%r, s=%r, g=%s: constraint %d is violated by %s (condition number %.3g)" % (C, ks, s, f, i, d, cond))


def scaled(r, mon, key):
    """Very small and very large coordinates: points, values and derivatives in a unit of 10^e."""
    g = sp.Function("g")
    v = K.x
    for _ in range(500):
        n = r.choice([1, 2, 2, 3])
        e = r.choice([-14, -12, -10, -8, -6, 6, 8, 10])
        h = 10.0 ** e
        exact = r.random() < 0.4
        num = lambda: sp.Rational(r.randint(-40, 40), 13) * sp.Integer(10) ** e if exact else float(r.uniform(-3, 3)) * h
        C, M0 = [], []
        for _ in range(n):
            d = r.choice([0, 0, 0, 1, 2])
            C.append(K.Op(v, [(sp.Integer(1), "val", d, num())]))
        s = K.supports(r, v, n, poly=True)
        if len(s) < n:
            continue
        # in the unit the problem is an ordinary one
        A = np.array([[float(sp.diff(f, v, c.terms[0][2]).subs(v, sp.Float(float(c.terms[0][3] / h)))) for f in s] for c in C])
        cond = np.linalg.cond(A) if np.linalg.matrix_rank(A) == n else np.inf
        if cond < 1e3:
            break
    else:
        return
    num = lambda: round(r.uniform(-3, 3), 4)
    ks = [num() * 10.0 ** (-e * c.terms[0][2]) for c in C]
    if exact:
        ks = [sp.Rational(str(num())) / sp.Integer(10) ** (e * c.terms[0][2]) for c in C]
    E = CeSolver(C, ks, s, g(v)).ce
    mon.check(not E.has(sp.nan, sp.zoo, sp.oo), "finite", key, lambda: "C=%r, kappa=%r, s=%r: the constrained expression is %s" % (C, ks, s, E))
    for j in range(2):
        f = K.concrete(r, [v], smooth=False).subs(v, v / (sp.Integer(10) ** e))
        u = K.put(E, [v], f)
        for i, (c, k) in enumerate(zip(C, ks)):
            unit = 10.0 ** (-e * c.terms[0][2])
            q = float(abs(K.num(c(u) - k, {v: sp.Integer(0)}))) / unit
            scale = max([1.0] + [abs(float(K.num(w(f), {}))) * 10.0 ** (e * w.terms[0][2]) for w in C])
            mon.check(q < 1e-11 * float(cond) * scale, "constraint in small or large units", key + (j, i),
                      lambda: "C=%r, kappa=%r, s=%r, g=%s: constraint %d is violated by %s (in units of %g)" % (C, ks, s, f, i, q, unit))


def irrational(r, mon, key):
    g = sp.Function("g")
    v = K.x
    pts = [sp.pi, sp.pi / 3, -sp.pi / 2, sp.sqrt(2), -sp.sqrt(3) / 2, sp.E, sp.Rational(1, 3), sp.Integer(0), sp.Integer(1), sp.log(2)]
    for _ in range(100):
        n = r.choice([1, 2, 2, 3])
        p = r.sample(pts, n)
        C = [K.Op(v, [(sp.Integer(1), "val", r.choice([0, 0, 1]), a)]) for a in p]
        s = K.supports(r, v, n, poly=True)
        if len(s) == n and K.well(C, s):
            break
    else:
        return
    ks = [r.choice([sp.pi, sp.sqrt(2), K.kappa(r), sp.sin(1)]) for _ in C]
    e = CeSolver(C, ks, s, g(v)).ce
    for j in range(2):
        f = K.concrete(r, [v])
        satisfied(mon, r, "C=%r, kappa=%r, s=%r, g=%s" % (C, ks, s, f), key + (j,), C, ks, K.put(e, [v], f), [v])


def param(r, mon, key):
    """Symbols of any sign as constraint points, coefficients, values and inside the support functions."""
    g = sp.Function("g")
    v = K.x
    p, q = sp.symbols("p q")
    one = sp.Integer(1)
    point = lambda: r.choice([p, q, p + q, p * q, -p, sp.Integer(0), one, p - 1, p / 2])
    for _ in range(200):
        n = r.choice([1, 2, 2, 3])
        C = []
        for _ in range(n):
            k = r.randrange(6)
            if k < 3:
                C.append(K.Op(v, [(one, "val", 0, point())]))
            elif k == 3:
                C.append(K.Op(v, [(one, "val", 1, point())]))
            elif k == 4:
                C.append(K.Op(v, [(r.choice([p, q, one]), "val", 0, point()), (r.choice([p, -q, p ** 2]), "val", r.choice([0, 1]), point())]))
            else:
                C.append(K.Op(v, [(one, "int", 0, (sp.Integer(0), r.choice([p, q])))]))
        s = r.choice([K.supports(r, v, n, poly=True), [sp.re(1), v, v ** 2][:n], [sp.re(1), sp.exp(v), v][:n], [sp.re(1), sp.sin(v), p * v][:n]])
        subs = []
        for _ in range(12):
            d = {p: sp.Rational(r.randint(-30, 30), 13), q: sp.Rational(r.randint(-30, 30), 11)}
            if d[p] == 0 or d[q] == 0:
                continue
            M = K.matrix(C, s)
            A = np.array([[float(K.num(M[i, j], d)) for j in range(n)] for i in range(n)])
            if np.linalg.matrix_rank(A) == n and np.linalg.cond(A) < 1e4:
                subs.append(d)
        if len(subs) >= 3:
            break
    else:
        return
    ks = [r.choice([sp.sqrt(p ** 2), p * q, sp.re(1), sp.sqrt((p + q) ** 2 + 1), sp.cos(q), p ** 2, sp.sqrt(q ** 2) + 1]) for _ in C]
    what = "C=%r, kappa=%r, s=%r" % (C, ks, s)
    e = CeSolver(C, ks, s, g(v)).ce
    f = K.concrete(r, [v], smooth=False)
    u = K.put(e, [v], f)
    for d in subs[:3]:
        ud = u.subs(d)
        for i, (c, k) in enumerate(zip(C, ks)):
            cd = K.Op(v, [(sp.sympify(a).subs(d), kk, o, tuple(sp.sympify(w).subs(d) for w in b) if kk == "int" else sp.sympify(b).subs(d)) for a, kk, o, b in c.terms])
            bad = K.vanishes(cd(ud) - sp.sympify(k).subs(d), [v], r, tol=1e-15)
            mon.check(bad is None, "constraint with parameters", key + (i,), lambda: "%s, g=%s: constraint %d is violated for %s by %s" % (what, f, i, d, bad), sample=what)


def large(r, mon, key):
    """Many constraints: values, derivatives and integrals at rational points, with powers as support functions."""
    g = sp.Function("g")
    v = K.x
    n = r.choice([6, 6, 7, 8, 9])
    pts = r.sample([sp.Rational(k, 4) for k in range(-12, 13)], n)
    # Hermite conditions (a value before each derivative) have one polynomial solution
    C, i = [], 0
    while len(C) < n:
        for d in range(min(r.choice([1, 1, 2, 3]), n - len(C))):
            C.append(K.Op(v, [(sp.Integer(1), "val", d, pts[i])]))
        i += 1
    if r.random() < 0.5:
        # and some of their sums
        a, b = r.sample(range(n), 2)
        C[a] = K.Op(v, C[a].terms + [(K.rat(r), *C[b].terms[0][1:])])
    r.shuffle(C)
    s = [sp.re(1)] + [v ** k for k in range(1, n)]
    r.shuffle(s)
    ks = [K.kappa(r) for _ in C]
    e = CeSolver(C, ks, s, g(v)).ce
    f = K.concrete(r, [v])
    what = "%d constraints %r, kappa=%r, s=%r, g=%s" % (n, C, ks, s, f)
    u = K.put(e, [v], f)
    satisfied(mon, r, what, key, C, ks, u, [v])
    span(mon, r, what, key, u - f, s, v, [])


def run(case, mon):
    # what the symbolic algebra cannot judge in time stays without a verdict
    if K.patient(lambda: judge(case, mon) or True, 100) is None:
        mon.seen("given up", (case["kind"], case["seed"]), nontrivial=False)


def judge(case, mon):
    r = random.Random(case["seed"])
    g = sp.Function("g")
    key = (case["kind"], case["seed"])
    kind = case["kind"]
    if kind == "float":
        return floats(r, mon, key)
    if kind == "scaled":
        return scaled(r, mon, key)
    if kind == "param":
        return param(r, mon, key)
    if kind == "large":
        return large(r, mon, key)
    if kind == "irrational":
        return irrational(r, mon, key)
    if kind in ("one", "many"):
        v = r.choice([K.x, K.t])
        n = None if kind == "one" else r.choice([4, 5])
        C, s = K.constraint_set(r, v, n, poly=kind == "many")
        ks = [K.kappa(r) for _ in C]
        wrap = r.choice([list, tuple])
        what = "C=%r, kappa=%r, s=%r" % (C, ks, s)
        cs = CeSolver(wrap(C), wrap(ks), wrap(s), g(v))
        e = cs.ce
        for j in range(2):
            f = K.concrete(r, [v])
            u = K.put(e, [v], f)
            w = "%s, g=%s" % (what, f)
            satisfied(mon, r, w, key + (j,), C, ks, u, [v])
            span(mon, r, w, key + (j,), u - f, s, v, [])
            # an explicit free function from the start
            c2 = CeSolver(wrap(C), wrap(ks), wrap(s), f)
            same(mon, r, "explicit free function", w, key + (j,), c2.ce, u, [v])
            # projection
            c3 = CeSolver(wrap(C), wrap(ks), wrap(s), u)
            same(mon, r, "projection", w, key + (j,), c3.ce, u, [v])
        cs4 = CeSolver(wrap(C), wrap(ks), wrap(s), e)
        f = K.concrete(r, [v])
        same(mon, r, "projection", what + " (constrained expression as free function)", key + ("ce",), K.put(cs4.ce, [v], f), K.put(e, [v], f), [v])
        # free function with parameters, and another name
        h = sp.Function("h")
        c5 = CeSolver(wrap(C), wrap(ks), wrap(s), h(v, K.z) + g(v))
        f2 = K.concrete(r, [v, K.z])
        u = K.put(K.put(c5.ce, [v, K.z], f2, "h"), [v], f)
        satisfied(mon, r, what + ", g=%s" % (f2 + f), key + ("two",), C, ks, u, [v, K.z])
        return
    if kind == "several":
        vs = [K.x, K.y] if r.random() < 0.6 else [K.x, K.y, K.z]
        v = r.choice(vs)
        others = [w for w in vs if w is not v]
        C, s = K.constraint_set(r, v)
        ks = [K.kappa(r, others) for _ in C]
        # the support functions may not depend on the other variables, the free function does
        cs = CeSolver(C, ks, s, g(*vs))
        what = "variables %s, C in %s=%r, kappa=%r, s=%r" % (vs, v, C, ks, s)
        e = cs.ce
        f = K.concrete(r, vs)
        u = K.put(e, vs, f)
        satisfied(mon, r, what + ", g=%s" % f, key, C, ks, u, vs)
        span(mon, r, what, key, u - f, s, v, others)
        same(mon, r, "projection", what, key, CeSolver(C, ks, s, u).ce, u, vs)
        # recursive: constraints in a second variable, compatible ones (taken from an explicit function)
        v2 = others[0]
        C2, s2 = K.constraint_set(r, v2, integrals=False)
        sol = K.concrete(r, vs)
        k1 = [c(sol) for c in C]
        k2 = [c(sol) for c in C2]
        e1 = CeSolver(C, k1, s, g(*vs)).ce
        f = K.concrete(r, vs)
        u1 = K.put(e1, vs, f)
        u2 = CeSolver(C2, k2, s2, u1).ce
        if not any(t[1] == "int" for c in C for t in c.terms):
            satisfied(mon, r, "recursive, first variable: %r %r %r" % (C, k1, f), key + ("r1",), C, k1, u2, vs)
        satisfied(mon, r, "recursive, second variable: %r %r %r" % (C2, k2, f), key + ("r2",), C2, k2, u2, vs)
        return
    # two coupled unknowns: a constraint on u + v, kappa holding the other unknown
    v = K.x
    a, b = K.distinct(r, 2)
    w = sp.Function("w")
    C, s = [K.Op(v, [(sp.Integer(1), "val", 0, a)]), K.Op(v, [(sp.Integer(1), "val", 1, b)])], [sp.re(1), v]
    ks = [sp.re(5) - w(a), K.kappa(r)]
    cs = CeSolver(C, ks, s, g(v))
    fu, fw = K.concrete(r, [v]), K.concrete(r, [v])
    u = K.put(K.put(cs.ce, [v], fu), [v], fw, "w")
    satisfied(mon, r, "coupled", key, C, [K.put(k, [v], fw, "w") for k in ks], u, [v])
    # parameters in the constraint points
    p, q = sp.symbols("p q", positive=True)
    C = [lambda e: e.subs(v, p), lambda e: e.subs(v, p + q)]
    cs = CeSolver(C, [sp.re(1), q], [sp.re(1), v], g(v))
    u = K.put(cs.ce, [v], fu)
    sub = {p: sp.Rational(r.randint(1, 9), 4), q: sp.Rational(r.randint(1, 9), 5)}
    for i, (c, k) in enumerate(zip(C, [sp.re(1), q])):
        bad = K.vanishes((c(u) - k).subs(sub), [v], r, tol=1e-15)
        mon.check(bad is None, "constraint with parameters", key + (i,), lambda: "constraint at a symbolic point is violated: %s" % (bad,))
