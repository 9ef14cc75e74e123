"""Purity and independence: histories over many live objects; everything observable is snapshotted and compared."""

import gc
import numpy as np
from .. import gen, oracle as o

PROPERTY = "C13"
RULE = ("One evaluation is one comparison of a repeated call, a kept result, an argument, or an object's state with its earlier "
        "snapshot, bit by bit, after other operations happened. Distinct: by object, call, and position in the history.")
REPEAT = 3
MIN_EVALS = 3000
ASSUMPTIONS = ["compiled and eager results are each compared with themselves, not with each other (C08 does that)"]


def setup():
    global utfc, mtfc, HybridUtfc, jnp, jax, BF, BF_Py
    import jax, jax.numpy as jnp
    from tfc import utfc, mtfc, HybridUtfc
    from tfc.utils import BF, BF_Py


def cases(rng, tier):
    q = tier == "quick"
    out = [{"kind": "history", "seed": s, "be": be} for be in ("C++", "Python") for s in gen.seeds(rng, 16 if q else 150)]
    out += [{"kind": "weights", "basis": b, "be": be, "seed": s} for b in o.ELMS for be in ("C++", "Python") for s in gen.seeds(rng, 1 if q else 6)]
    out += [{"kind": "inputs", "be": be, "seed": s} for be in ("C++", "Python") for s in gen.seeds(rng, 6 if q else 40)]
    rng.shuffle(out)
    return out


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes()


def bases(be):
    return gen.UTFC if be == "C++" else ("CP", "LeP", "FS", "ELMReLU", "ELMSin")


class U:
    def __init__(self, r, be, basis=None):
        self.basis = basis or bases(be)[int(r.integers(0, len(bases(be))))]
        self.be = be
        self.kind = "hybrid" if r.integers(0, 7) == 0 and basis is None else ("m" if r.integers(0, 2) else "u")
        elm = self.basis in o.ELMS
        if self.kind == "m":
            dim = int(r.integers(2, 4))
            deg = int(r.integers(1, 4))
            dom = [gen.domain(r) for _ in range(dim)]
            self.args = [np.array([a for a, _ in dom]), np.array([b for _, b in dom])]
            nC = gen.nc1(r, deg + 1, deg) if elm else [int(v) for v in r.integers(-1, deg + 1, dim)]
            self.o = mtfc([2, 3, 2][:dim], nC, deg, dim=dim, basis=self.basis, x0=self.args[0], xf=self.args[1], backend=be)
            names = ["H", "Hx", "Hy", "Hxy", "Hx2", "Hy2", "Hx2y"]
            self.dom = dom
        else:
            deg = int(r.integers(1, 8))
            x0, xf = gen.domain(r)
            nc = np.array(gen.nc1(r, deg + 1, deg), dtype=np.int32)
            self.args = [nc]
            self.o = utfc(5, nc, deg, basis=self.basis, x0=x0, xf=xf, backend=be)
            names = ["H", "dH", "d2H", "d4H"]
            self.dom = [(x0, xf)]
            if self.kind == "hybrid":
                self.parts = [self.o, utfc(5, 1, 3, basis="FS", x0=x0, xf=xf, backend=be)]
                self.o = HybridUtfc(self.parts)
                names = ["H", "dH", "d2H"]
        self.calls = {n: getattr(self.o, n) for n in names}
        self.jits = {}

    def state(self):
        """Everything of the object a user can read."""
        out = {}
        objs = [self.o] + (self.parts if self.kind == "hybrid" else [])
        for i, ob in enumerate(objs):
            for n in ("x", "z", "c", "nC", "N", "deg", "basis", "dim", "n", "x0", "xf"):
                if hasattr(ob, n):
                    v = getattr(ob, n)
                    out[(i, n)] = [np.array(e) for e in v] if isinstance(v, (tuple, list)) else (v if isinstance(v, str) else np.array(v))
            b = getattr(ob, "basisClass", None)
            for n in ("w", "b", "m", "numC", "numBasisFunc", "numBasisFuncFull"):
                if b is not None and hasattr(b, n):
                    out[(i, "basisClass." + n)] = np.array(getattr(b, n))
        return out


def cmp_state(mon, I, before, key):
    after = I.state()
    for k in before:
        a, b = before[k], after.get(k)
        if isinstance(a, str):
            ok = a == b
        elif isinstance(a, list):
            ok = isinstance(b, list) and len(a) == len(b) and all(same(p, q) for p, q in zip(a, b))
        else:
            ok = b is not None and same(a, b)
        if not ok:
            mon.fail("%s of a %s %s object changed although nothing set it: %r became %r" % (k[1], I.basis, I.kind, a, b))
    mon.seen("state", key)


def points(r, I, n):
    return [gen.points(r, I.basis, a, b, n) for a, b in I.dom]


def grid(I):
    """The very arrays the object keeps."""
    ob = I.parts[0] if I.kind == "hybrid" else I.o
    return list(ob.x) if I.kind == "m" else [ob.x]


def call(r, I, name, pts, full, jit):
    if jit:
        key = (name, full)
        if key not in I.jits:
            f = I.calls[name]
            I.jits[key] = jax.jit(lambda *x: f(*x, full=full))
        return I.jits[key](*pts)
    return I.calls[name](*pts, full=full)


def run(case, mon):
    r = gen.rng(case)
    be = case["be"]
    if case["kind"] == "history":
        return history(case, mon, r, be)
    if case["kind"] == "weights":
        return weights(case, mon, r, be)
    return inputs(case, mon, r, be)


def history(case, mon, r, be):
    objs = [U(r, be) for _ in range(3)]
    facts = []  # (object, name, points, full, jit, result snapshot, result)
    for step in range(60):
        key = (case["seed"], be, step)
        op = int(r.integers(0, 12))
        if op == 0 and len(objs) < 7:
            objs.append(U(r, be))
        elif op == 1 and len(objs) > 2:
            I = objs.pop(int(r.integers(0, len(objs))))
            facts = [f for f in facts if f[0] is not I]
            del I
            gc.collect()
        elif op == 2:
            # in-place changes of a result a user owns must stay with the user
            for f in facts:
                if isinstance(f[6], np.ndarray) and f[6].flags.writeable and f[6].size and r.integers(0, 3) == 0:
                    f[6][...] = 7.5
                    f[5] = None
                    break
        elif op == 3 and facts:
            # someone else's weights change: nobody notices
            v = U(r, be, o.ELMS[int(r.integers(0, 5))])
            st = [(I, I.state()) for I in objs]
            if be == "C++" or v.basis in ("ELMReLU", "ELMSin"):
                b = v.o.basisClass
                b.w = r.uniform(-2, 2, np.shape(b.w))
                b.b = r.uniform(-2, 2, np.shape(b.b))
                v.calls["H"](*points(r, v, 3))
            for I, s in st:
                cmp_state(mon, I, s, key + (id(I),))
        elif op == 4:
            # derivatives
            I = objs[int(r.integers(0, len(objs)))]
            if I.kind != "hybrid":
                p = [np.array(x) for x in points(r, I, 3)]
                cp = [x.copy() for x in p]
                st = I.state()
                jax.jacfwd(lambda *x: I.calls["H"](*x), argnums=0)(*[jnp.asarray(x) for x in p])
                cmp_state(mon, I, st, key)
                mon.check(all(same(a, b) for a, b in zip(p, cp)), "argument", key, "the points changed")
        elif op < 9 or not facts:
            I = objs[int(r.integers(0, len(objs)))]
            name = list(I.calls)[int(r.integers(0, len(I.calls)))]
            n = int(r.choice([1, 4, 9])) if be == "C++" else 4
            full = bool(r.integers(0, 2))
            jit = be == "C++" and bool(r.integers(0, 4) == 0)
            ro = bool(r.integers(0, 2))
            own = int(r.integers(0, 4)) == 0
            # the object's own grid, or points of the user's
            pts = grid(I) if own else points(r, I, n)
            for p in pts:
                if not jit and not own:
                    p.setflags(write=not ro)
            snap = [p.copy() for p in pts]
            st = I.state()
            got = call(r, I, name, pts, full, jit)
            mon.check(all(same(a, b) for a, b in zip(pts, snap)), "argument", key, "%s of %s changed the points it was given" % (name, I.basis))
            cmp_state(mon, I, st, key)
            facts.append([I, name, snap, full, jit, np.array(got), got, own])
            if not own and not ro and not jit and r.integers(0, 3) == 0:
                # the same array with other numbers in it
                new = points(r, I, len(pts[0]))
                for p, q in zip(pts, new):
                    p[...] = q
                a, b = (np.array(call(r, I, name, v, full, jit)) for v in (pts, new))
                mon.check(same(a, b), "points overwritten", key, lambda: "%s of %s (%s, %s) at points in an array used before differs from the result at a copy: %r and %r"
                          % (name, I.basis, I.kind, be, a.ravel()[:5].tolist(), b.ravel()[:5].tolist()))
        else:
            f = facts[int(r.integers(0, len(facts)))]
            got = call(r, f[0], f[1], grid(f[0]) if f[7] else [p.copy() for p in f[2]], f[3], f[4])
            if f[5] is not None:
                mon.check(same(np.asarray(got), f[5]), "repeated call", key, lambda: "%s of %s (%s, %s) with the same points gave another result later: %r instead of %r"
                          % (f[1], f[0].basis, f[0].kind, be, np.asarray(got).ravel()[:5].tolist(), f[5].ravel()[:5].tolist()))
            else:
                # its first result was overwritten by the user
                mon.check(not (got.size and np.all(np.asarray(got) == 7.5)), "call after overwriting a result", key, "changing a returned matrix changed the object")
    gc.collect()
    for i, f in enumerate(facts):
        if f[5] is not None:
            mon.check(same(np.asarray(f[6]), f[5]), "kept result", (case["seed"], be, i), "a matrix returned earlier changed")
        got = call(r, f[0], f[1], [p.copy() for p in f[2]], f[3], f[4])
        if f[5] is not None:
            mon.check(same(np.asarray(got), f[5]), "repeated call", (case["seed"], be, "end", i),
                      lambda: "%s of %s (%s, %s) with the same points gave another result at the end" % (f[1], f[0].basis, f[0].kind, be))


def weights(case, mon, r, be):
    basis = case["basis"]
    for dim in (1, 2):
        def new():
            if dim == 1:
                return utfc(5, 1, 4, basis=basis, x0=0.0, xf=2.0, backend=be)
            return mtfc([2, 3], 1, 4, basis=basis, x0=[0.0, 0.0], xf=[2.0, 1.0], backend=be)
        us = [new() for _ in range(3)]
        x = [np.linspace(0.1, 1.9, 6)] * dim
        ev = lambda u: np.array(u.H(*x, full=True))
        def want(u):
            w, b = np.array(u.basisClass.w), np.array(u.basisClass.b)
            if dim == 1:
                return o.H1(basis, 0.0, 2.0, 5, x[0], 0, w, b)
            v, t, _ = o.Hn(basis, [0.0, 0.0], [2.0, 1.0], 5, np.array(x), (0, 0), w, b)
            return v, t
        before = [ev(u) for u in us]
        jf = [jax.jit(lambda *y, u=u: u.H(*y, full=True)) for u in us] if be == "C++" else []
        jb = [np.array(f(*x)) for f in jf]
        # different objects have weights of their own
        mon.check(not same(us[0].basisClass.w, us[1].basisClass.w), "own weights", (basis, be, dim), "two objects were created with identical random weights")
        for k in range(8):
            i = int(r.integers(0, 3))
            b = us[i].basisClass
            key = (basis, be, dim, k, case["seed"])
            what = int(r.integers(0, 3))
            ow, ob = np.array(b.w), np.array(b.b)
            vw = r.uniform(-2, 2, ow.shape)
            vb = r.uniform(-2, 2, ob.shape)
            if what != 1:
                c = vw.copy()
                b.w = vw
                mon.check(same(vw, c), "setter argument", key, "the array given to w changed")
            if what != 0:
                c = vb.copy()
                b.b = vb
                mon.check(same(vb, c), "setter argument", key, "the array given to b changed")
            mon.check(same(np.array(b.w), vw if what != 1 else ow) and same(np.array(b.b), vb if what != 0 else ob), "weights read back", key,
                      "after setting %s of %s (%s) the weights or biases are not the expected ones" % (["w", "w and b"][what == 2] if what != 1 else "b", basis, be))
            for j, u in enumerate(us):
                h = ev(u)
                if j == i:
                    v, t = want(u)
                    gen.compare(mon, "changed weights take effect", h, v, t, key, "%s (%s) in %d dimensions after setting weights" % (basis, be, dim))
                    before[j] = h
                    own = list(u.x) if dim == 2 else [u.x]
                    mon.check(same(np.array(u.H(*own)), np.array(u.H(*[np.array(p) for p in own]))), "changed weights take effect on the own grid", key,
                              "%s (%s) in %d dimensions after setting weights: H at the object's own points differs from H at a copy of them" % (basis, be, dim))
                    if jf:
                        g = np.array(jf[j](*x))
                        gen.compare(mon, "changed weights take effect in compiled calls", g, v, t, key, "%s in %d dimensions after setting weights, compiled" % (basis, dim))
                        jb[j] = g
                else:
                    mon.check(same(h, before[j]), "other object", key + (j,), "setting weights of one %s (%s) changed another" % (basis, be))
                    if jf:
                        mon.check(same(np.array(jf[j](*x)), jb[j]), "other object, compiled", key + (j,), "setting weights of one %s changed another, compiled" % basis)
            if True:
                # the setter takes a copy, and the C++ getter hands one out
                h = ev(us[i])
                if be == "C++":
                    g = b.w
                    g[...] = 3.25
                vw[...] = 11.0
                vb[...] = 12.0
                mon.check(same(ev(us[i]), h), "aliasing", key, "writing to an array that was read from or given to w or b changed the object")


def inputs(case, mon, r, be):
    """Arrays given to constructors are neither changed nor kept."""
    for _ in range(4):
        basis = bases(be)[int(r.integers(0, len(bases(be))))]
        elm = basis in o.ELMS
        deg = int(r.integers(2, 6))
        key = (basis, be, case["seed"], _)
        nc = np.array(gen.nc1(r, deg + 1, deg), dtype=[np.int32, np.int64][int(r.integers(0, 2))])
        c = nc.copy()
        u = utfc(5, nc, deg, basis=basis, x0=0.0, xf=1.0, backend=be)
        x = np.linspace(0.1, 0.9, 4)
        a = np.array(u.H(x))
        mon.check(same(nc, c), "constructor argument", key, "utfc changed the nC array")
        lst = c.tolist()
        l2 = list(lst)
        utfc(5, lst, deg, basis=basis, x0=0.0, xf=1.0, backend=be)
        mon.check(lst == l2, "constructor argument", key, "utfc changed the nC list")
        if be == "C++":
            nc[...] = 0
            mon.check(same(np.array(u.H(x)), a), "constructor argument kept", key, "changing the nC array afterwards changed the object")
        x0, xf, n = np.array([0.0, -1.0]), np.array([1.0, 2.0]), np.array([3, 2])
        nC = gen.nc1(r, deg + 1, deg) if elm else [[0], [0, 1]]
        import copy
        arr = [x0.copy(), xf.copy(), n.copy(), copy.deepcopy(nC)]
        t = mtfc(n, nC, deg, dim=2, basis=basis, x0=x0, xf=xf, backend=be)
        mon.check(same(x0, arr[0]) and same(xf, arr[1]) and same(n, arr[2]) and nC == arr[3], "constructor argument", key, "mtfc changed its arguments")
        p = [np.linspace(0.1, 0.9, 4)] * 2
        a = np.array(t.H(*p))
        if be == "C++":
            x0[...] = 5.0
            xf[...] = 9.0
            mon.check(same(np.array(t.H(*p)), a), "constructor argument kept", key, "changing the x0 and xf arrays afterwards changed the object")
        # the low-level classes
        lib = BF if be == "C++" else BF_Py
        nc = np.array(gen.nc1(r, deg + 1, deg), dtype=np.int32)
        c = nc.copy()
        B = getattr(lib, basis)(0.0, 1.0, nc, deg + 1)
        h = np.array(B.H(x, 1, False))
        mon.check(same(nc, c), "constructor argument", key, "%s changed the nC array" % basis)
        if be == "C++":
            nc[...] = 0
            mon.check(same(np.array(B.H(x, 1, False)), h), "constructor argument kept", key, "changing the nC array afterwards changed the %s object" % basis)
