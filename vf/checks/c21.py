"""HybridUtfc against the matrices of its parts."""

import numpy as np
from .. import gen, oracle as o

PROPERTY = "C21"
RULE = ("One evaluation is one matrix of a HybridUtfc (one derivative order, eager, compiled or differentiated) compared with the "
        "matrices of its parts; or one list of parts refused. Distinct: by list of parts, order and way of calling.")
REPEAT = 5
MIN_EVALS = 1000
ASSUMPTIONS = ["compiled evaluation needs parts of the C++ backend"]

ORDERS = {0: "H", 1: "dH", 2: "d2H", 3: "d3H", 4: "d4H", 8: "d8H"}


def setup():
    global jnp, jax, utfc, HybridUtfc, egrad
    import jax, jax.numpy as jnp
    from tfc import utfc, HybridUtfc
    from tfc.utils import egrad


def cases(rng, tier):
    q = tier == "quick"
    out = [{"kind": "lists", "seed": s, "be": be} for be in ("C++", "Python", "mixed") for s in gen.seeds(rng, 14 if q else 250)]
    out += [{"kind": "refused", "seed": s} for s in gen.seeds(rng, 6 if q else 60)]
    rng.shuffle(out)
    return out


def part(r, N, be):
    if be == "mixed":
        be = ("C++", "Python")[int(r.integers(0, 2))]
    basis = gen.UTFC[int(r.integers(0, len(gen.UTFC)))]
    if be == "Python" and basis in gen.TRACED:
        basis = ("CP", "LeP", "FS", "ELMReLU")[int(r.integers(0, 4))]
    deg = int(r.integers(1, 9))
    x0, xf = gen.domain(r)
    nC = gen.nc1(r, deg + 1, deg)
    u = utfc(N, nC, deg, basis=basis, x0=x0, xf=xf, backend=be)
    return u, (basis, be, deg, str(nC), x0, xf)


def run(case, mon):
    r = gen.rng(case)
    if case["kind"] == "refused":
        return refused(case, mon, r)
    N = int(r.integers(2, 9))
    k = int(r.integers(1, 5))
    parts, desc = zip(*[part(r, N, case["be"]) for _ in range(k)])
    parts = list(parts)
    if r.integers(0, 4) == 0:
        parts.append(parts[0])  # the same one twice
        desc = desc + (desc[0],)
    given = list(parts)
    h = HybridUtfc(given)
    mon.check(given == parts, "arguments", case["seed"], "the list of parts was changed")
    x = np.array(parts[0].x) if r.integers(0, 2) else r.uniform(-2, 2, int(r.integers(1, 9)))
    if r.integers(0, 2):
        x = jnp.array(x)
    comp = all(d[1] == "C++" for d in desc)
    for d, name in ORDERS.items():
        for full in (False, True):
            # the parts' own native evaluation
            want = np.hstack([np.asarray(p.basisClass.H(np.asarray(x), d, full)) for p in parts])
            key = (case["seed"], name, full)
            f = getattr(h, name)
            got = [("eager", f(x, full) if r.integers(0, 2) else f(x, full=full))]
            if not full:
                got.append(("without full", f(x)))
            if comp and d in (0, 1, 2, 4) or (comp and full):
                got.append(("jit", jax.jit(lambda v: f(v, full))(x)))
            for how, g in got:
                g = np.asarray(g)
                mon.check(g.shape == want.shape, "shape", key, lambda: "%s(full=%s) of parts %s has shape %s instead of %s" % (name, full, desc, g.shape, want.shape))
                scale = np.max(np.abs(want), axis=0, initial=0) + 1e-300
                ok = np.all((np.abs(g - want) <= 1e-13 * scale) | (np.isnan(g) & np.isnan(want)))
                mon.check(ok, "concatenation", (key, how), lambda: "%s(full=%s) (%s) of parts %s differs from its parts by %s" % (name, full, how, desc, np.max(np.abs(g - want))), sample="%s of %s" % (name, [v[0] for v in desc]))
    # differentiated: each order is the derivative of the one before
    for d, name, nxt in ((0, "H", 1), (1, "dH", 2), (2, "d2H", 3), (3, "d3H", 4)):
        f = getattr(h, name)
        w = r.standard_normal(np.asarray(f(x)).shape[1])
        want = np.hstack([np.asarray(p.basisClass.H(np.asarray(x), nxt, False)) for p in parts]) @ w
        size = np.abs(np.hstack([np.asarray(p.basisClass.H(np.asarray(x), nxt, False)) for p in parts])) @ np.abs(w)
        g = egrad(lambda v: jnp.dot(f(v), w))
        for how, gg in (("egrad", g), ("jit egrad", jax.jit(g)))[:2 if comp else 1]:
            got = np.asarray(gg(jnp.asarray(x)))
            mon.check(np.all(np.abs(got - want) <= 1e-11 * (size + 1e-300)), "derivative", (case["seed"], name, how), lambda: "%s of %s of parts %s is %s instead of %s" % (how, name, desc, got, want))
    for p, dsc in zip(parts, desc):
        a = np.asarray(p.H(np.asarray(x)))
        b = np.asarray(p.basisClass.H(np.asarray(x), 0, False))
        mon.check(np.array_equal(a, b, equal_nan=True), "part still usable", (case["seed"], dsc), lambda: "a part, %s, changed" % (dsc,))


def refused(case, mon, r):
    N = int(r.integers(2, 7))
    k = int(r.integers(1, 4))
    parts = [part(r, N, "C++")[0] for _ in range(k)]
    HybridUtfc(list(parts))
    odd = part(r, N + int(r.integers(1, 3)), "C++")[0]
    i = int(r.integers(0, k + 1))
    parts.insert(i, odd)
    try:
        HybridUtfc(parts)
        ok = False
    except (SystemExit, Exception):
        ok = True
    mon.check(ok, "refused", (case["seed"], i), lambda: "a list in which part %d of %d has another number of points was accepted" % (i, k + 1))
    a = np.asarray(odd.H(odd.x))
    mon.check(a.shape[0] == len(odd.x), "usable after the refusal", case["seed"], "a part is not usable after the refusal")
