"""Manufactured boundary and initial value problems, solved the documented way."""

import math
import random
import numpy as np
from numpy.polynomial import polynomial as P
from .. import gen, lsq, oracle as o

PROPERTY = "C20"
RULE = ("One evaluation is one constraint of one constrained expression evaluated for one coefficient vector, or one solved problem compared "
        "with its known solution (function values, derivative and coefficients). Distinct: by problem, way of solving and coefficient vector.")
REPEAT = 2
MIN_EVALS = 400
ASSUMPTIONS = ["solutions lie in the span of the constrained expression", "problems whose Jacobian, computed independently, has a condition number above 1e6 are not judged",
               "nonlinear problems start near the solution", "the Python backend is used with constant points, since its matrices cannot be compiled for unknown ones"]


def setup():
    global jax, jnp, utfc, mtfc, egrad, LS, NLLS, LsClass, NllsClass, TFCDict, TFCDictRobust
    import jax, jax.numpy as jnp
    from tfc import utfc, mtfc
    from tfc.utils import egrad, LS, NLLS, LsClass, NllsClass, TFCDict, TFCDictRobust


def cases(rng, tier):
    q = tier == "quick"
    out = [{"kind": k, "seed": s} for k, n in (("ode", 34), ("system", 10), ("pde", 14)) for s in gen.seeds(rng, n if q else 14 * n)]
    rng.shuffle(out)
    return out


def run(case, mon):
    r = np.random.default_rng(case["seed"])
    return {"ode": ode, "system": system, "pde": pde}[case["kind"]](case, mon, r)


def pick(r, seq):
    return seq[int(r.integers(0, len(seq)))]


# ------------------------------------------------------------------ univariate constrained expressions
def constraints(r, k, a, b):
    """k linear functionals, each a list of (weight, point, derivative order), independent on polynomials of degree < k."""
    L = b - a
    for _ in range(200):
        style = int(r.integers(0, 5))
        cs = []
        for i in range(k):
            if style == 0:  # initial values
                cs.append([(1.0, a, i)])
            elif style == 1:  # final values
                cs.append([(1.0, b, i)])
            elif style == 2 or i == 0:  # values at different points
                cs.append([(1.0, pick(r, [a, b, a + L * float(r.uniform(0.1, 0.9))]), 0)])
            elif style == 3:
                cs.append([(1.0, pick(r, [a, b, a + L * float(r.uniform(0.1, 0.9))]), int(r.integers(0, k)))])
            else:  # relative and mixed ones
                cs.append([(float(r.uniform(0.5, 2)), a, int(r.integers(0, k))), (float(r.uniform(-2, -0.5)), b, int(r.integers(0, k)))])
        S = support_matrix(cs, k, a, L)
        if np.linalg.cond(S) < 100:
            return cs, S
    cs = [[(1.0, a, i)] for i in range(k)]
    return cs, support_matrix(cs, k, a, L)


def mono(i, d, x, a, L):
    """d-th derivative of ((x - a) / L) ** i."""
    if d > i:
        return 0.0 * x
    return math.factorial(i) / math.factorial(i - d) * ((x - a) / L) ** (i - d) / L ** d


def support_matrix(cs, k, a, L):
    # derivatives are weighed by the length of the domain, so that the functionals are of one size
    return np.array([[sum(w * mono(i, d, p, a, L) for w, p, d in c) * L ** max(d for _, _, d in c) for i in range(k)] for c in cs])


class Expression:
    """y = g + sum phi_j (kappa_j - C_j[g]) built on the package, and its definition by the oracle."""

    def __init__(self, r, basis, be, k, deg, a, b, N):
        self.basis, self.be, self.k, self.a, self.b, self.L = basis, be, k, a, b, b - a
        nC = k if basis in ("CP", "LeP") else (1 if basis == "FS" and k else 0)
        self.nC = nC
        self.u = utfc(N, nC, deg, basis=basis, x0=a, xf=b, backend=be)
        self.m = deg + 1
        self.n = self.m - nC
        self.cs, S = constraints(r, k, a, b)
        scale = np.array([self.L ** max(d for _, _, d in c) for c in self.cs])
        self.phi = np.linalg.inv(S) * scale  # column j: coefficients of phi_j on the monomials
        self.bf = gen.wb(self.u.basisClass)
        self.xi = r.standard_normal(self.n) / np.maximum(1.0, np.arange(self.n))
        self.alpha = r.standard_normal(k)
        self.kappa = np.array([sum(w * float(self.true(np.array([p]), d)[0]) for w, p, d in c) for c in self.cs])
        # functionals of g with the matrices of the package
        mats = [self.u.H, self.u.dH, self.u.d2H, lambda x: egrad(lambda x: self.u.d2H(x))(x)]
        self.CH = [sum(w * jnp.asarray(mats[d](jnp.array([p]))) for w, p, d in c) for c in self.cs]

    def G(self, x, d):
        return np.asarray(o.H1(self.basis, self.a, self.b, self.m, x, d, *self.bf)[0], dtype=float)[:, self.nC:]

    def true(self, x, d=0):
        x = np.asarray(x, dtype=float)
        return self.G(x, d) @ self.xi + sum((self.alpha[i] * mono(i, d, x, self.a, self.L) for i in range(self.k)), np.zeros(x.shape))

    def rows(self, x, d):
        """d-th derivative of y with respect to the coefficients, by the oracle."""
        out = self.G(x, d).copy()
        for j, c in enumerate(self.cs):
            Cg = sum(w * self.G(np.array([p]), e) for w, p, e in c)[0]
            phi = sum((self.phi[i, j] * mono(i, d, x, self.a, self.L) for i in range(self.k)), np.zeros(x.shape))
            out -= np.outer(phi, Cg)
        return out

    def y(self, x, xi):
        out = jnp.dot(self.u.H(x), xi)
        for j in range(self.k):
            phi = sum(self.phi[i, j] * ((x - self.a) / self.L) ** i for i in range(self.k))
            out = out + phi * (self.kappa[j] - jnp.dot(self.CH[j], xi)[0])
        return out

    def size(self, xi):
        return 1 + float(np.max(np.abs(self.kappa), initial=0)) + float(np.sum(np.abs(np.asarray(xi))))

    def hold(self, mon, r, xi, key, way="eager"):
        """Every constraint, for these coefficients."""
        fs = [lambda x: self.y(x, xi)]
        for _ in range(max(d for c in self.cs for _, _, d in c) if self.cs else 0):
            fs.append(egrad(fs[-1]))
        for j, c in enumerate(self.cs):
            v = 0.0
            mag = 0.0
            for w, p, d in c:
                x = jnp.array([p, p])
                f = jax.jit(fs[d]) if way == "jit" else fs[d]
                v += w * float(np.asarray(f(x))[0])
                mag += abs(w) * float(np.sum(np.abs(self.G(np.array([p]), d)) @ np.abs(np.asarray(xi)))) + abs(w) * self.L ** -d
            tol = 1e-10 * (mag * (1 + np.max(np.abs(self.phi))) + abs(self.kappa[j]) + self.size(xi) * np.max(np.abs(self.phi)) * max(1, self.L ** -max(d for _, _, d in c)))
            mon.check(abs(v - self.kappa[j]) <= tol, "constraint", (key, j, way),
                      lambda: "constraint %s of an expression on %s (%s) over [%r, %r] is %r instead of %r with coefficients %s" % (c, self.basis, self.be, self.a, self.b, v, self.kappa[j], xi),
                      sample="%s over [%.3g, %.3g] with %s" % (c, self.a, self.b, self.basis))

    def compare(self, mon, xi, cond, key, what, extra=1.0):
        xi = np.asarray(xi)
        tol = extra * (1e-10 + 1e-14 * cond) * (1 + np.max(np.abs(self.xi)) + np.max(np.abs(self.alpha), initial=0)) * 10
        x = np.linspace(self.a, self.b, 17)
        got = np.asarray(self.y(jnp.array(x), jnp.asarray(xi)))
        want = self.true(x)
        err = float(np.max(np.abs(got - want)))
        mon.check(err <= tol * self.n, "solution", key, lambda: "%s: the solution is off by %.3g (condition number %.3g): coefficients %s instead of %s" % (what, err, cond, xi, self.xi), sample=what)
        mon.check(np.all(np.abs(xi - self.xi) <= tol * (1 + cond)), "coefficients", key, lambda: "%s: coefficients %s instead of %s" % (what, xi, self.xi))


BASES = ["CP", "CP", "LeP", "LeP", "FS", "ELMSin", "ELMTanh", "ELMSigmoid", "ELMSwish"]


def interval(r):
    a = float(pick(r, [0.0, -1.0, float(r.uniform(-3, 3))]))
    return a, a + float(pick(r, [1.0, 2.0, float(10 ** r.uniform(-0.7, 0.8))]))


class Ode:
    """sum_d p_d(x) L^d y^(d) + nonlinear terms = f."""

    def __init__(self, r, E, nonlinear):
        self.E = E
        k = E.k
        self.co = [(float(r.uniform(-1, 1)), float(r.uniform(-1, 1))) for _ in range(k)] + [(float(r.uniform(1.5, 3)), float(r.uniform(-1, 1)))]
        self.nl = [(pick(r, ["square", "sin", "product", "cube"]), float(r.uniform(-0.3, 0.3)))] if nonlinear else []

    def p(self, d, x, np_):
        return (self.co[d][0] + self.co[d][1] * np_.sin(x)) * self.E.L ** d

    def value(self, ys, x, np_):
        v = sum(self.p(d, x, np_) * ys[d] for d in range(self.E.k + 1))
        for name, w in self.nl:
            v = v + w * {"square": lambda: ys[0] ** 2, "sin": lambda: np_.sin(ys[0]), "product": lambda: ys[0] * ys[1] * self.E.L, "cube": lambda: ys[0] ** 3}[name]()
        return v

    def jac(self, x):
        E = self.E
        R = [E.rows(x, d) for d in range(E.k + 1)]
        T = [E.true(x, d) for d in range(E.k + 1)]
        J = sum(self.p(d, x, np)[:, None] * R[d] for d in range(E.k + 1))
        for name, w in self.nl:
            J = J + w * {"square": lambda: 2 * T[0][:, None] * R[0], "sin": lambda: np.cos(T[0])[:, None] * R[0],
                         "product": lambda: E.L * (T[1][:, None] * R[0] + T[0][:, None] * R[1]), "cube": lambda: 3 * (T[0] ** 2)[:, None] * R[0]}[name]()
        return J


def ode(case, mon, r):
    nonlinear = bool(r.integers(0, 2))
    for attempt in range(40):
        basis = pick(r, BASES)
        k = int(pick(r, [1, 1, 2, 2, 2, 3]))
        a, b = interval(r)
        elm = basis in o.ELMS
        deg = int(r.integers(3, 6)) if elm else int(r.integers(k + 2, 13))
        N = int(deg + r.integers(3, 25))
        first = pick(r, ["C++", "C++", "Python"]) if not elm else "C++"
        E = Expression(r, basis, first, k, deg, a, b, N)
        prob = Ode(r, E, nonlinear)
        X = np.asarray(E.u.x)
        J = prob.jac(X)
        cond = np.linalg.cond(J)
        if cond < 1e6:
            break
    else:
        return
    f = prob.value([E.true(X, d) for d in range(k + 1)], X, np)
    for i in range(3):
        E.hold(mon, r, jnp.array(r.standard_normal(E.n) * 10.0 ** r.integers(-2, 4)), (case["seed"], i), "jit" if i == 2 and first == "C++" else "eager")
    derivs = [E.y]
    for _ in range(k):
        derivs.append(egrad(derivs[-1]))
    F = jnp.array(f)
    start = E.xi + (0.01 if nonlinear else 1.0) * r.standard_normal(E.n) / (1 + np.arange(E.n) ** 2)
    ways = []
    for _ in range(4):
        U = lsq.Unknowns(r, E.n)
        how = pick(r, ["NLLS", "NLLS", "NllsClass"] if nonlinear else ["LS", "LS", "LsClass", "NLLS"])
        xarg = int(r.integers(0 if first == "C++" else 1, 3))
        method = pick(r, ["pinv", "lstsq"])
        const = ([1] if xarg == 1 else [2, 1]) if xarg and (first == "Python" or r.integers(0, 2)) else []
        if xarg == 0:
            res = lambda xi: prob.value([g(E.u.x, U.flat(xi)) for g in derivs], E.u.x, jnp) - F
            args = ()
        elif xarg == 1:
            res = lambda xi, x: prob.value([g(x, U.flat(xi)) for g in derivs], x, jnp) - F
            args = (E.u.x,)
        else:
            res = lambda xi, x, rhs: prob.value([g(x, U.flat(xi)) for g in derivs], x, jnp) - rhs
            args = (E.u.x, F)
        what = "%s (%s, constant_arg_nums %s, %s) of order %d on %s (%s) over [%r, %r]" % (how, U.kind, const, method, k, basis, first, a, b)
        guess = U.make(start)
        if how == "LS":
            xi = LS(guess, res, *args, constant_arg_nums=const, method=method)
        elif how == "LsClass":
            c = LsClass(guess, res, *args, constant_arg_nums=const, method=method) if const else LsClass(guess, res, *args, method=method)
            xi = c.run(guess, *[v for i, v in enumerate(args) if i + 1 not in const])
        elif how == "NLLS":
            xi, it = NLLS(guess, res, *args, constant_arg_nums=const, method=method, tol=1e-11 * (1 + np.max(np.abs(f))), maxIter=40)
        else:
            c = NllsClass(guess, res, *args, constant_arg_nums=const, method=method, tol=1e-11 * (1 + np.max(np.abs(f))), maxIter=40)
            xi, it = c.run(guess, *[v for i, v in enumerate(args) if i + 1 not in const])
        v = U.look(mon, xi, what)
        E.compare(mon, v, cond, (case["seed"], what), what)
        E.hold(mon, r, jnp.asarray(v), (case["seed"], "solved", what))


def system(case, mon, r):
    """Two coupled equations, one entry of the container for each function."""
    for attempt in range(40):
        a, b = interval(r)
        deg = int(r.integers(4, 10))
        N = int(deg + r.integers(3, 15))
        be = pick(r, ["C++", "Python"])
        bases = [pick(r, ["CP", "LeP"]), pick(r, ["CP", "LeP", "FS"])]
        ks = [int(r.integers(1, 3)), int(r.integers(1, 3))]
        u, v = (Expression(r, bs, be, k, deg + i, a, b, N) for i, (bs, k) in enumerate(zip(bases, ks)))
        X = np.asarray(u.u.x)
        L = b - a
        p = r.uniform(-1, 1, 6)
        nonlinear = bool(r.integers(0, 2))

        def eqs(U, V, x, np_):
            e1 = 2 * U[ks[0]] * L ** ks[0] + p[0] * U[0] + p[1] * V[0] * np_.cos(x)
            e2 = 2 * V[ks[1]] * L ** ks[1] + p[2] * U[0] + p[3] * V[0] + p[4] * U[1] * L
            if nonlinear:
                e1 = e1 + 0.3 * p[5] * U[0] * V[0]
                e2 = e2 + 0.2 * np_.sin(U[0])
            return e1, e2

        TU, TV = [u.true(X, d) for d in range(3)], [v.true(X, d) for d in range(3)]
        RU, RV = [u.rows(X, d) for d in range(3)], [v.rows(X, d) for d in range(3)]
        c = lambda z: z[:, None]
        J11 = 2 * RU[ks[0]] * L ** ks[0] + p[0] * RU[0]
        J12 = p[1] * RV[0] * c(np.cos(X))
        J21 = p[2] * RU[0] + p[4] * RU[1] * L
        J22 = 2 * RV[ks[1]] * L ** ks[1] + p[3] * RV[0]
        if nonlinear:
            J11, J12, J21 = J11 + 0.3 * p[5] * c(TV[0]) * RU[0], J12 + 0.3 * p[5] * c(TU[0]) * RV[0], J21 + 0.2 * c(np.cos(TU[0])) * RU[0]
        cond = np.linalg.cond(np.block([[J11, J12], [J21, J22]]))
        if cond < 1e6:
            break
    else:
        return
    f1, f2 = eqs(TU, TV, X, np)
    D = []
    for E in (u, v):
        fs = [E.y]
        for _ in range(2):
            fs.append(egrad(fs[-1]))
        D.append(fs)
    names = [str(k) for k in r.permutation(["z", "a", "xi"])[:2]]

    def res(xi, x):
        U = [g(x, xi[names[0]]) for g in D[0]]
        V = [g(x, xi[names[1]]) for g in D[1]]
        e1, e2 = eqs(U, V, x, jnp)
        return jnp.hstack((e1 - f1, e2 - f2))

    amount = 0.01 if nonlinear else 1.0
    pert = lambda E: jnp.array(E.xi + amount * r.standard_normal(E.n) / (1 + np.arange(E.n) ** 2))
    guess_of = {"TFCDict": TFCDict, "TFCDictRobust": TFCDictRobust}
    for kind in ("TFCDict", "TFCDictRobust"):
        guess = guess_of[kind]([(names[0], pert(u)), (names[1], pert(v))])
        const = [1] if be == "Python" or r.integers(0, 2) else []
        method = pick(r, ["pinv", "lstsq"])
        what = "coupled %s equations (%s, %s, %s, constant_arg_nums %s) on %s over [%r, %r]" % ("nonlinear" if nonlinear else "linear", be, kind, method, const, bases, a, b)
        before = lsq.snapshot(guess)
        if nonlinear or r.integers(0, 3) == 0:
            xi, it = NLLS(guess, res, u.u.x, constant_arg_nums=const, method=method, tol=1e-11 * (1 + np.max(np.abs(f1)) + np.max(np.abs(f2))), maxIter=40)
        else:
            xi = LS(guess, res, u.u.x, constant_arg_nums=const, method=method)
        mon.check(type(xi) is guess_of[kind] and list(xi) == names, "structure", (case["seed"], kind), lambda: "%s: the result is %s" % (what, xi))
        mon.check(lsq.snapshot(guess) == before, "arguments", (case["seed"], kind), "%s: the guess was changed" % what)
        for E, n in ((u, names[0]), (v, names[1])):
            E.compare(mon, xi[n], cond, (case["seed"], kind, n), what)
            E.hold(mon, r, jnp.asarray(xi[n]), (case["seed"], kind, n))


# ------------------------------------------------------------------ two variables
def functional(i_max, p, d):
    """Values of the d-th derivative of s^0..s^(i_max) at p, in the normalised variable."""
    return np.array([0.0 if d > i else math.factorial(i) / math.factorial(i - d) * p ** (i - d) for i in range(i_max + 1)])


def axis(r):
    """Constraints along one axis: (normalised point, derivative) each; s runs over [-1, 1]."""
    return [[(-1.0, 0)], [(1.0, 0)], [(-1.0, 0), (1.0, 0)], [(-1.0, 0), (1.0, 0)], [(-1.0, 0), (-1.0, 1)], [(-1.0, 1), (1.0, 0)], [(0.0, 0), (1.0, 0)], []][int(r.integers(0, 8))]


def pde(case, mon, r):
    for attempt in range(60):
        basis = pick(r, ["CP", "LeP"])
        be = pick(r, ["C++", "C++", "Python"])
        deg = int(r.integers(4, 8 if be == "C++" else 6))
        dom = [interval(r), interval(r)]
        c = [2 / (b - a) for a, b in dom]
        ax = [axis(r), axis(r)]
        if not ax[0] and not ax[1]:
            continue
        K = [len(ax[0]), len(ax[1])]
        nxy = [int(r.integers(deg + 1, deg + 5)), int(r.integers(deg + 1, deg + 5))]
        # the true solution: a polynomial of total degree deg in the normalised variables
        T = np.array([[float(r.standard_normal()) / (1 + i + j) if i + j <= deg else 0.0 for j in range(deg + 1)] for i in range(deg + 1)])
        V = [np.array([functional(deg, p, d) for p, d in ax[k]]).reshape(K[k], deg + 1) for k in (0, 1)]
        phis = []
        ok = True
        for k in (0, 1):
            if K[k]:
                S = V[k][:, :K[k]]
                if np.linalg.cond(S) > 50:
                    ok = False
                    break
                co = np.zeros((deg + 1, K[k]))
                co[:K[k]] = np.linalg.inv(S)
                phis.append(co)
            else:
                phis.append(np.zeros((deg + 1, 0)))
        if not ok:
            continue
        proj = [np.eye(deg + 1) - phis[k] @ V[k] for k in (0, 1)]  # coefficients of the homogeneous expression along one axis
        orders = [(2, 0), (0, 2), (1, 1), (1, 0), (0, 1), (0, 0)]
        w = r.uniform(-0.5, 0.5, 6)
        w[0] = float(pick(r, [1.0, -1.0])) if K[0] == 2 else 0.0
        w[1] = float(pick(r, [1.0, -1.0])) if K[1] == 2 else 0.0
        if K[0] == 1:
            w[3] = 1.5
        if K[1] == 1:
            w[4] = 1.5
        nonlinear = bool(r.integers(0, 3) == 0)
        nl = 0.2 * float(r.uniform(-1, 1)) if nonlinear else 0.0
        nC = [-1 if K[0] == 0 and K[1] == 0 else K[0], K[1]]
        # columns that remain: tensor products not made of supports only
        M = np.zeros((deg + 1, deg + 1))  # basis polynomials by normalised powers
        for j in range(deg + 1):
            e = [0.0] * j + [1.0]
            pc = np.polynomial.chebyshev.cheb2poly(e) if basis == "CP" else np.polynomial.legendre.leg2poly(e)
            M[j, :len(pc)] = pc
        cols = [v for v in o.indices(deg + 1, 2) if not o.removed(o.rows_of(nC), v)]
        basis_polys = [np.outer(M[i], M[j]) for i, j in cols]
        hom = [proj[0] @ B @ proj[1].T for B in basis_polys]
        tt = mtfc(nxy, nC, deg, dim=2, basis=basis, x0=[a for a, _ in dom], xf=[b for _, b in dom], backend=be)
        X, Y = np.asarray(tt.x[0]), np.asarray(tt.x[1])
        s, t = c[0] * (X - dom[0][0]) - 1, c[1] * (Y - dom[1][0]) - 1

        def ev(Q, i, j, s, t):
            """Derivative of a polynomial in the normalised variables, with respect to them."""
            D = P.polyder(P.polyder(Q, i, axis=0), j, axis=1) if i <= deg and j <= deg else np.zeros((1, 1))
            return P.polyval2d(s, t, D)

        J = np.array([sum(w[q] * ev(B, i, j, s, t) for q, (i, j) in enumerate(orders)) + 2 * nl * ev(T, 0, 0, s, t) * ev(B, 0, 0, s, t) for B in hom]).T
        cond = np.linalg.cond(J)
        if cond < 1e6:
            break
    else:
        return
    f = sum(w[q] * ev(T, i, j, s, t) for q, (i, j) in enumerate(orders)) + nl * ev(T, 0, 0, s, t) ** 2
    norm = [lambda x, k=k: c[k] * (x - dom[k][0]) - 1 for k in (0, 1)]
    phys = [[(dom[k][0] + (p + 1) / c[k], d) for p, d in ax[k]] for k in (0, 1)]
    poly1 = lambda co, z: sum(float(co[i]) * z ** i for i in range(len(co)))
    full = bool(r.integers(0, 2))

    def g(xi, x, y):
        return jnp.dot(tt.H(x, y), xi)

    def along(fun, k):
        """The constrained expression of fun along axis k."""
        ds = [fun, egrad(fun, 1 + k)]

        def h(xi, x, y):
            z = (x, y)[k]
            out = fun(xi, x, y)
            for j, (p, d) in enumerate(phys[k]):
                fixed = [x, y]
                fixed[k] = p * jnp.ones_like(z)
                edge = V[k][j] @ T if k == 0 else T @ V[k][j]  # what the solution does there, as a polynomial of the other variable
                kap = poly1(edge, norm[1 - k]((x, y)[1 - k]))
                out = out + poly1(phis[k][:, j], norm[k](z)) * (kap - ds[d](xi, *fixed) / c[k] ** d)
            return out

        return h

    order = [0, 1] if r.integers(0, 2) else [1, 0]
    u = along(along(g, order[0]), order[1])
    n = len(cols)
    mon.check(np.shape(tt.H(*tt.x)) == (X.size, n), "columns", (case["seed"],), lambda: "H has shape %s instead of %s" % (np.shape(tt.H(*tt.x)), (X.size, n)))
    ux, uy = egrad(u, 1), egrad(u, 2)
    table = {(0, 0): u, (1, 0): ux, (0, 1): uy, (2, 0): egrad(ux, 1), (0, 2): egrad(uy, 2), (1, 1): egrad(ux, 2)}

    def value(xi, x, y):
        v = sum(w[q] / (c[0] ** i * c[1] ** j) * table[i, j](xi, x, y) for q, (i, j) in enumerate(orders) if w[q] != 0)
        return v + nl * u(xi, x, y) ** 2 if nl else v

    what0 = "%s PDE on %s (%s) over %s with constraints %s, degree %d" % ("nonlinear" if nl else "linear", basis, be, dom, ax, deg)

    def hold(xi, key):
        pts = np.array(r.uniform(-1, 1, 5))
        for k in (0, 1):
            other = 1 - k
            zo = dom[other][0] + (pts + 1) / c[other]
            for j, (p, d) in enumerate(phys[k]):
                xy = [None, None]
                xy[k], xy[other] = jnp.full(5, p), jnp.array(zo)
                got = np.asarray((u if d == 0 else (ux, uy)[k])(xi, *xy)) / c[k] ** d
                edge = V[k][j] @ T if k == 0 else T @ V[k][j]
                want = P.polyval(pts, edge)
                tol = 1e-9 * (1 + float(np.sum(np.abs(np.asarray(xi)))) * deg ** (2 * d + 2) * (1 + max(np.max(np.abs(q), initial=0) for q in phis)) ** 2)
                mon.check(np.all(np.abs(got - want) <= tol), "constraint", (case["seed"], key, k, j), lambda: "%s: constraint %s along axis %d is %s instead of %s with coefficients %s" % (what0, (p, d), k, got, want, xi), sample=what0)

    for i in range(2):
        hold(jnp.array(r.standard_normal(n) * 10.0 ** r.integers(-1, 3)), i)
    F = jnp.array(f)
    # the coefficients of the solution: those of T on the remaining columns, unique since cond is finite
    C = np.linalg.solve(M.T, T)
    C = np.linalg.solve(M.T, C.T).T
    want = np.array([C[i, j] for i, j in cols])
    tol = (1e-10 + 1e-14 * cond) * 10 * n
    for _ in range(2):
        U = lsq.Unknowns(r, n)
        const = [1, 2] if be == "Python" else pick(r, [[], [], [1, 2], [2, 1], [1, 2, 3], [3]])
        rhs_arg = 3 in const or bool(r.integers(0, 2))
        method = pick(r, ["pinv", "lstsq"])
        res = (lambda xi, x, y, q: value(U.flat(xi), x, y) - q) if rhs_arg else (lambda xi, x, y: value(U.flat(xi), x, y) - F)
        args = tuple(tt.x) + ((F,) if rhs_arg else ())
        guess = U.make((want if nl else 0) + (0.01 if nl else 1.0) * r.standard_normal(n) / (1 + np.arange(n)))
        how = "NLLS" if nl or r.integers(0, 4) == 0 else "LS"
        what = "%s, %s (%s, %s, constant_arg_nums %s)" % (what0, how, U.kind, method, const)
        if how == "LS":
            xi = LS(guess, res, *args, constant_arg_nums=const, method=method)
        else:
            xi, it = NLLS(guess, res, *args, constant_arg_nums=const, method=method, tol=1e-11 * (1 + np.max(np.abs(f))), maxIter=40)
        v = U.look(mon, xi, what)
        ss, tn = r.uniform(-1, 1, 20), r.uniform(-1, 1, 20)
        got = np.asarray(u(jnp.asarray(v), jnp.array(dom[0][0] + (ss + 1) / c[0]), jnp.array(dom[1][0] + (tn + 1) / c[1])))
        true = P.polyval2d(ss, tn, T)
        err = float(np.max(np.abs(got - true)))
        mon.check(err <= tol * (1 + np.max(np.abs(true))), "solution", (case["seed"], what), lambda: "%s: the solution is off by %.3g (condition number %.3g)" % (what, err, cond), sample=what)
        mon.check(np.all(np.abs(v - want) <= tol * (1 + cond)), "coefficients", (case["seed"], what), lambda: "%s: coefficients %s instead of %s" % (what, v, want))
        hold(jnp.asarray(v), what)
