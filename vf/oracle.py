"""What the basis functions are, by definition, in extended precision, with the rounding error a double precision
evaluation may have."""

import math
import numpy as np
from functools import lru_cache

LD = np.longdouble
EPS = 2.0 ** -52
PI = LD("3.14159265358979323846264338327950288")

POLY = ("CP", "LeP")
UNMAPPED = ("LaP", "HoPpro", "HoPphy")
ELMS = ("ELMReLU", "ELMSigmoid", "ELMTanh", "ELMSin", "ELMSwish")
ZRANGE = {"CP": (LD(-1), LD(1)), "LeP": (LD(-1), LD(1)), "FS": (-PI, PI)}
ZRANGE.update({e: (LD(0), LD(1)) for e in ELMS})


def _recurrence(basis, z, m, d):
    """The polynomials 0..m-1 and their derivatives up to order d: array (d+1, N, m)."""
    z = np.asarray(z, dtype=np.clongdouble if np.iscomplexobj(z) else LD)
    out = np.zeros((d + 1, z.size, m), dtype=z.dtype)
    for k in range(m):
        for e in range(d + 1):
            if k == 0:
                v = np.ones_like(z) if e == 0 else np.zeros_like(z)
            else:
                p1, p1d = out[e, :, k - 1], out[e - 1, :, k - 1] if e else np.zeros_like(z)
                p2 = out[e, :, k - 2] if k > 1 else np.zeros_like(z)
                if basis == "CP":
                    a = LD(1) if k == 1 else LD(2)
                    v = a * (z * p1 + e * p1d) - p2
                elif basis == "LeP":
                    v = (LD(2 * k - 1) * (z * p1 + e * p1d) - LD(k - 1) * p2) / k
                elif basis == "LaP":
                    v = (LD(2 * k - 1) * p1 - z * p1 - e * p1d - LD(k - 1) * p2) / k
                elif basis == "HoPpro":
                    v = z * p1 + e * p1d - LD(k - 1) * p2
                elif basis == "HoPphy":
                    v = 2 * (z * p1 + e * p1d) - LD(2 * (k - 1)) * p2
            out[e, :, k] = v
    return out


def _abs_recurrence(basis, z, m, d):
    """Sum of the absolute values of the terms of the polynomials (and of their derivatives)."""
    z = np.abs(np.asarray(z, dtype=LD))
    out = np.zeros((d + 1, z.size, m), dtype=LD)
    for k in range(m):
        for e in range(d + 1):
            if k == 0:
                v = np.ones_like(z) if e == 0 else np.zeros_like(z)
            else:
                p1, p1d = out[e, :, k - 1], out[e - 1, :, k - 1] if e else np.zeros_like(z)
                p2 = out[e, :, k - 2] if k > 1 else np.zeros_like(z)
                if basis == "LaP":
                    v = (LD(2 * k - 1) * p1 + z * p1 + e * p1d + LD(k - 1) * p2) / k
                elif basis == "HoPpro":
                    v = z * p1 + e * p1d + LD(k - 1) * p2
                elif basis == "HoPphy":
                    v = 2 * (z * p1 + e * p1d) + LD(2 * (k - 1)) * p2
            out[e, :, k] = v
    return out


@lru_cache(None)
def _sigmoid_poly(d):
    """Coefficients (by power of s) of the d-th derivative of the sigmoid as a polynomial in its value s."""
    p = [0, 1]
    for _ in range(d):
        dp = [j * p[j] for j in range(1, len(p))]
        q = [0] * (len(dp) + 2)
        for j, a in enumerate(dp):
            q[j + 1] += a
            q[j + 2] -= a
        p = q
    return tuple(p)


def _sigmoid(t, d):
    """d-th derivative of the sigmoid; the sums for t > 0 use the symmetry, so that nothing cancels badly."""
    t = np.asarray(t, dtype=LD)
    s = 1 / (1 + np.exp(np.abs(t)))  # sigmoid(-|t|): small
    v = np.zeros_like(s)
    for a in reversed(_sigmoid_poly(d)):
        v = v * s + a
    # sigma(-t) = 1 - sigma(t)  =>  sigma^(d)(t) = (-1)^(d+1) sigma^(d)(-t) for d > 0
    if d == 0:
        return np.where(t > 0, 1 - v, v)
    return np.where(t > 0, (-1) ** (d + 1) * v, v)


def act(basis, t, d):
    """d-th derivative of the activation function."""
    t = np.asarray(t, dtype=LD)
    if basis == "ELMReLU":
        if d == 0:
            return np.where(t > 0, t, LD(0))
        return np.where(t > 0, LD(1), LD(0)) if d == 1 else np.zeros_like(t)
    if basis == "ELMSigmoid":
        return _sigmoid(t, d)
    if basis == "ELMTanh":
        return 2 * _sigmoid(2 * t, d) * LD(2) ** d - (1 if d == 0 else 0)
    if basis == "ELMSin":
        return [np.sin, np.cos, lambda x: -np.sin(x), lambda x: -np.cos(x)][d % 4](t)
    if basis == "ELMSwish":
        return t * _sigmoid(t, d) + (d * _sigmoid(t, d - 1) if d else 0)
    raise KeyError(basis)


def act_scale(basis, t, d):
    s = np.full(np.shape(t), float(math.factorial(d)))
    if basis == "ELMTanh":
        s = s * 2.0 ** d
    if basis in ("ELMSwish", "ELMReLU"):
        s = s * (1 + d + np.abs(np.asarray(t, dtype=float)))
    return s


def zmap(basis, x0, xf, x):
    """z, c and the rounding error z may have."""
    x = np.asarray(x, dtype=LD)
    if basis in UNMAPPED:
        return x, LD(1), np.zeros(x.shape)
    z0, zf = ZRANGE[basis]
    x0, xf = LD(x0), LD(xf)
    c = (zf - z0) / (xf - x0)
    z = (x - x0) * c + z0
    dz = 8 * EPS * (np.abs(np.asarray((x - x0) * c, dtype=float)) + abs(float(z0))
                    + float(abs(c)) * (np.abs(np.asarray(x, dtype=float)) + abs(float(x0))) * 0.25)
    return z, c, dz


def values(basis, z, m, d, w=None, b=None):
    """d-th derivative with respect to z of every basis function: values and error scales, both (N, m)."""
    z = np.asarray(z, dtype=LD).ravel()
    if basis in POLY:
        v = _recurrence(basis, z, m, d)[d]
        s = np.abs(_recurrence(basis, np.maximum(np.abs(z), 1), m, d)[d])
        return v, np.asarray(s, dtype=float) * 1e-11
    if basis in UNMAPPED:
        return _recurrence(basis, z, m, d)[d], np.asarray(_abs_recurrence(basis, z, m, d)[d], dtype=float) * 1e-11
    if basis == "FS":
        v = np.zeros((z.size, m), dtype=LD)
        s = np.zeros((z.size, m))
        for j in range(m):
            if j == 0:
                v[:, 0] = 1 if d == 0 else 0
                s[:, 0] = 1e-13
                continue
            k = (j + 1) // 2
            ph = (d + (0 if j % 2 else 1)) % 4
            v[:, j] = [np.sin, np.cos, lambda t: -np.sin(t), lambda t: -np.cos(t)][ph](k * z) * LD(k) ** d
            s[:, j] = 1e-11 * float(k) ** d
        return v, s
    w = np.asarray(w, dtype=LD).ravel()
    b = np.asarray(b, dtype=LD).ravel()
    t = z[:, None] * w[None, :] + b[None, :]
    v = act(basis, t, d) * w[None, :] ** d
    s = 1e-10 * act_scale(basis, t, d) * np.abs(np.asarray(w[None, :] ** d, dtype=float))
    if basis == "ELMReLU":
        # at the kink the rounding of the argument decides
        near = np.abs(np.asarray(t, dtype=float)) < 1e-12 * (1 + np.abs(np.asarray(z, dtype=float))[:, None] * np.abs(np.asarray(w, dtype=float)))
        if d >= 1:
            s = np.where(near, np.inf, s)
    return v, s


def H1(basis, x0, xf, m, x, d, w=None, b=None):
    """The full d-th derivative matrix by definition and the tolerance for each entry."""
    x = np.asarray(x, dtype=LD).ravel()
    z, c, dz = zmap(basis, x0, xf, x)
    v, s = values(basis, z, m, d, w, b)
    _, s1 = values(basis, z, m, d + 1, w, b)
    f = float(abs(c)) ** d
    unit = 1e-10 if basis in ELMS else 1e-11
    s1 = np.where(np.isfinite(s1), s1, 0.0)
    cond = (s1 / unit) * dz.reshape(-1, 1)
    return v * c ** d, (s + cond + 1e-12 * np.abs(np.asarray(v, dtype=float))) * f + 1e-300


def indices(m, dim):
    """Index vectors of the tensor products of total degree < m, in the documented order (dimension 0 fastest)."""
    out = []

    def rec(k, vec, left):
        for j in range(left + 1):
            v = (j,) + vec
            if k == 0:
                out.append(v)
            else:
                rec(k - 1, v, left - j)

    rec(dim - 1, (), m - 1)
    return out


def removed(nC_rows, vec):
    """nC_rows: one set of indices per dimension."""
    return all(v in r for v, r in zip(vec, nC_rows))


def rows_of(nC):
    """The set of indices each entry of mtfc's nC stands for."""
    return [set(range(max(r, 0))) if isinstance(r, int) else {k for k in r if k >= 0} for r in nC]


def Hn(basis, x0, xf, m, x, d, w=None, b=None):
    """n-dimensional: the full matrix, its tolerance, and the index vectors of the columns. x: (dim, N)."""
    dim = len(x0)
    N = np.asarray(x[0]).size
    if basis in ELMS:
        w = np.asarray(w, dtype=LD).reshape(dim, m)
        b = np.asarray(b, dtype=LD).ravel()
        t = np.zeros((N, m), dtype=LD) + b[None, :]
        dt = np.zeros((N, m)) + 4 * EPS * np.abs(np.asarray(b, dtype=float))[None, :]
        f = np.ones((1, m), dtype=LD)
        for k in range(dim):
            z, c, dz = zmap(basis, x0[k], xf[k], x[k])
            t += z[:, None] * w[k][None, :]
            dt += (dz.reshape(-1, 1) + 4 * EPS * np.abs(np.asarray(z, dtype=float)).reshape(-1, 1)) * np.abs(np.asarray(w[k], dtype=float))[None, :]
            f = f * (w[k][None, :] * c) ** d[k]
        e = int(sum(d))
        v = act(basis, t, e)
        tol = 1e-10 * act_scale(basis, t, e) + dt * act_scale(basis, t, e + 1)
        tol = tol * np.abs(np.asarray(f, dtype=float)) + 1e-300
        if basis == "ELMReLU" and e >= 1:
            tol = np.where(np.abs(np.asarray(t, dtype=float)) <= 4 * dt, np.inf, tol)
        return v * f, tol, [(k,) for k in range(m)]
    facs = [H1(basis, x0[k], xf[k], m, x[k], int(d[k])) for k in range(dim)]
    idx = indices(m, dim)
    v = np.ones((N, len(idx)), dtype=LD)
    tol = np.zeros((N, len(idx)))
    for j, vec in enumerate(idx):
        up = np.ones(N)
        for k in range(dim):
            fv, ft = facs[k][0][:, vec[k]], facs[k][1][:, vec[k]]
            fa = np.abs(np.asarray(fv, dtype=float))
            tol[:, j] = tol[:, j] * (fa + ft) + up * ft
            up = up * (fa + ft)
            v[:, j] *= fv
        tol[:, j] += 1e-13 * up
    return v, tol + 1e-300, idx


# ------------------------------------------------ analytic continuation
def _csig(t, d):
    s = 1 / (1 + np.exp(-t))
    v = np.zeros_like(s)
    for a in reversed(_sigmoid_poly(d)):
        v = v * s + a
    return v


def complex_act(basis, t, d):
    if basis == "ELMSigmoid":
        return _csig(t, d)
    if basis == "ELMTanh":
        return 2 * _csig(2 * t, d) * LD(2) ** d - (1 if d == 0 else 0)
    if basis == "ELMSin":
        return [np.sin, np.cos, lambda x: -np.sin(x), lambda x: -np.cos(x)][d % 4](t)
    if basis == "ELMSwish":
        return t * _csig(t, d) + (d * _csig(t, d - 1) if d else 0)
    raise KeyError(basis)


def complex_values(basis, z, m, d, w=None, b=None):
    """Like values(), for complex points, weights and biases; values only."""
    z = np.asarray(z, dtype=np.clongdouble).ravel()
    if basis in POLY or basis in UNMAPPED:
        return _recurrence(basis, z, m, d)[d]
    if basis == "FS":
        v = np.zeros((z.size, m), dtype=np.clongdouble)
        for j in range(m):
            if j == 0:
                v[:, 0] = 1 if d == 0 else 0
                continue
            k = (j + 1) // 2
            ph = (d + (0 if j % 2 else 1)) % 4
            v[:, j] = [np.sin, np.cos, lambda t: -np.sin(t), lambda t: -np.cos(t)][ph](k * z) * LD(k) ** d
        return v
    w = np.asarray(w, dtype=np.clongdouble).ravel()
    b = np.asarray(b, dtype=np.clongdouble).ravel()
    return complex_act(basis, z[:, None] * w[None, :] + b[None, :], d) * w[None, :] ** d


# ------------------------------------------------ exact definitions, to check the above against
def exact(basis, k, d, z):
    """d-th derivative of function k at z with mpmath, from the closed form of its definition."""
    import mpmath as mp

    mp.mp.dps = 60
    z = mp.mpf(z)
    if basis == "FS":
        if k == 0:
            return mp.mpf(1 if d == 0 else 0)
        n = (k + 1) // 2
        return n ** d * mp.sin(n * z + mp.pi / 2 * (d + (0 if k % 2 else 1)))
    F = mp.factorial
    if basis == "CP":  # T_k = k/2 sum (-1)^j (k-j-1)!/(j!(k-2j)!) (2z)^(k-2j)
        co = {0: mp.mpf(1)} if k == 0 else {k - 2 * j: mp.mpf(k) / 2 * (-1) ** j * F(k - j - 1) / (F(j) * F(k - 2 * j)) * mp.mpf(2) ** (k - 2 * j)
                                            for j in range(k // 2 + 1)}
    elif basis == "LeP":
        co = {k - 2 * j: (-1) ** j * F(2 * k - 2 * j) / (mp.mpf(2) ** k * F(j) * F(k - j) * F(k - 2 * j)) for j in range(k // 2 + 1)}
    elif basis == "LaP":
        co = {j: (-1) ** j * mp.binomial(k, j) / F(j) for j in range(k + 1)}
    elif basis == "HoPpro":
        co = {k - 2 * j: F(k) * (-1) ** j / (F(j) * F(k - 2 * j) * mp.mpf(2) ** j) for j in range(k // 2 + 1)}
    elif basis == "HoPphy":
        co = {k - 2 * j: F(k) * (-1) ** j * mp.mpf(2) ** (k - 2 * j) / (F(j) * F(k - 2 * j)) for j in range(k // 2 + 1)}
    return mp.fsum(a * mp.ff(p, d) * z ** (p - d) for p, a in co.items() if p >= d)


def worst(got, want, tol):
    """Index and size of the worst violation, or None. Shapes must agree; NaN is a violation."""
    got = np.asarray(got)
    err = np.abs(got.astype(LD) - want) if not np.iscomplexobj(got) else np.abs(got - want)
    bad = ~(err <= tol)
    if not bad.any():
        return None
    i = np.unravel_index(int(np.argmax(np.where(bad, np.where(np.isnan(np.asarray(err, dtype=float)), np.inf, err / np.where(tol > 0, tol, 1)), -1))), bad.shape)
    return i, float(np.asarray(err)[i]), float(np.asarray(tol)[i])
