"""Boring reference models, written from the documentation only (numpy, no pyproximal)."""

import itertools
import math

import numpy as np

INF = float("inf")


# ---------------------------------------------------------------- convex, closed form
def soft(x, t):
    x = np.asarray(x)
    out = np.zeros(np.broadcast(x, t).shape, dtype=np.result_type(x, float))
    xb, tb = np.broadcast_arrays(x, np.asarray(t, dtype=float))
    for i in np.ndindex(out.shape):
        a = abs(xb[i])
        out[i] = 0.0 if a <= tb[i] else xb[i] * ((a - tb[i]) / a)
    return out


def shrink_group(v, t):
    """prox of t*||.||_2."""
    nv = math.sqrt(float(np.sum(np.abs(v) ** 2)))
    return np.zeros_like(v) if nv <= t else v * ((nv - t) / nv)


def huber_val(x, a):
    s = 0.0
    for v in np.abs(np.ravel(x)):
        s += v * v / (2 * a) if v <= a else v - a / 2
    return float(s)


def huber_prox(x, a, tau):
    out = np.array(x, dtype=np.result_type(x, float))
    for i in np.ndindex(out.shape):
        v = abs(out[i])
        out[i] = out[i] * (a / (a + tau)) if v <= a + tau else out[i] * ((v - tau) / v)
    return out


# ---------------------------------------------------------------- projections
def simplex(x, r):
    """Projection on {sum=r, x>=0}: exact, by trying every support size."""
    x = np.asarray(x, float)
    u = np.sort(x)[::-1]
    css = np.cumsum(u)
    th = None
    for k in range(1, len(u) + 1):
        t = (css[k - 1] - r) / k
        if u[k - 1] - t > 0 or k == 1:
            th = t
    return np.maximum(x - th, 0.0)


def l1ball(x, r):
    x = np.asarray(x)
    a = np.abs(x)
    if a.sum() <= r:
        return x.copy()
    p = simplex(a, r)
    return np.where(a > 0, p * x / np.where(a > 0, a, 1), 0)


def topk_dist2(x, r):
    """Squared distance of x to {at most r non-zeros} and number of ties."""
    a = np.sort(np.abs(np.ravel(x)))
    return float(np.sum(a[: max(len(a) - r, 0)] ** 2))


def svd_apply(X, fun):
    U, s, Vh = np.linalg.svd(X, full_matrices=False)
    return (U * fun(s)) @ Vh


def proj_poly(A, b, x, Aeq=None, beq=None):
    """Exact projection on {Ax<=b, Aeq x=beq}: every active set is tried (KKT)."""
    A = np.atleast_2d(np.asarray(A, float))
    b = np.asarray(b, float)
    m = A.shape[0]
    best, bestd = None, INF
    for k in range(0, min(m, len(x)) + 1):
        for S in itertools.combinations(range(m), k):
            G = A[list(S)]
            h = b[list(S)]
            if Aeq is not None:
                G = np.vstack([G, Aeq]) if k else np.asarray(Aeq, float)
                h = np.concatenate([h, beq]) if k else np.asarray(beq, float)
            if G.shape[0]:
                y = x - np.linalg.pinv(G) @ (G @ x - h)
                if np.max(np.abs(G @ y - h)) > 1e-9:
                    continue
            else:
                y = x.copy()
            if np.all(A @ y <= b + 1e-9):
                d = float(np.sum((x - y) ** 2))
                if d < bestd - 1e-15:
                    best, bestd = y, d
    return best


def hankel_proj(X):
    m, n = X.shape
    Y = np.zeros_like(X, dtype=float)
    for s in range(m + n - 1):
        idx = [(i, s - i) for i in range(m) if 0 <= s - i < n]
        mean = sum(X[i] for i in idx) / len(idx)
        for i in idx:
            Y[i] = mean
    return Y


# ---------------------------------------------------------------- scalar minimisation
_cache = {}


def scalar_min(key, pen, x, tau):
    """Global minimum value of pen(z)+(z-x)^2/(2 tau) for an even penalty that is
    non-decreasing in |z| (so the minimiser lies in [0,|x|]), and all near-minimisers."""
    a = abs(x)
    k = (key, round(a, 12), tau)
    if k in _cache:
        return _cache[k]

    def F(z):
        return pen(z) + (z - a) ** 2 / (2 * tau)

    zs = np.linspace(0.0, a, 401) if a > 0 else np.array([0.0])
    fv = np.array([F(z) for z in zs])
    cands = [0.0, a]
    for i in range(len(zs)):
        lo, hi = zs[max(i - 1, 0)], zs[min(i + 1, len(zs) - 1)]
        if (i == 0 or fv[i] <= fv[i - 1]) and (i == len(zs) - 1 or fv[i] <= fv[i + 1]):
            g = (math.sqrt(5) - 1) / 2
            l, h = lo, hi
            for _ in range(45):
                c, d = h - g * (h - l), l + g * (h - l)
                if F(c) < F(d):
                    h = d
                else:
                    l = c
            cands.append((l + h) / 2)
    vals = [F(z) for z in cands]
    res = min(vals)
    _cache[k] = res
    return res


# ---------------------------------------------------------------- penalties (scalar)
def pen_scad(z, s, a):
    z = abs(z)
    if z <= s:
        return s * z
    if z <= a * s:
        return (-z * z + 2 * a * s * z - s * s) / (2 * (a - 1))
    return (a + 1) * s * s / 2


def pen_log(z, s, g):
    return s / math.log(g + 1) * math.log(g * abs(z) + 1)


def pen_etp(z, s, g):
    return s / (1 - math.exp(-g)) * (1 - math.exp(-g * abs(z)))


def pen_geman(z, s, g):
    return s * abs(z) / (abs(z) + g)


def pen_card(z, mu):
    return mu - 0.5 * max(0.0, math.sqrt(2 * mu) - abs(z)) ** 2


def ksupport_env(x, r):
    """Quadratic envelope of the indicator of {||x||_0<=r}: ½(||x||_r^sp)^2-½||x||^2 with
    the k-support norm evaluated as the conjugate of ½ * (sum of r largest squares)."""
    a = np.sort(np.abs(np.ravel(x)))[::-1]
    n = len(a)
    if n <= r:
        return 0.0
    # k-support norm squared = min over l in 0..r-1 satisfying the sandwich condition
    best = None
    for l in range(r):
        T = float(np.sum(a[r - l - 1 :]))
        val = float(np.sum(a[: r - l - 1] ** 2)) + T * T / (l + 1)
        # conjugate value is the maximum over admissible l (see e.g. Argyriou et al. 2012)
        left = INF if r - l - 1 == 0 else a[r - l - 2]
        if left > T / (l + 1) - 1e-13 and T / (l + 1) >= a[r - l - 1] - 1e-13:
            best = val if best is None else max(best, val)
    assert best is not None
    return 0.5 * best - 0.5 * float(np.sum(a**2))


# ---------------------------------------------------------------- TV
def grad_forward(X):
    """Forward differences, zero at the far edge, along every axis."""
    out = []
    for ax in range(X.ndim):
        d = np.zeros_like(X)
        sl = [slice(None)] * X.ndim
        sh = [slice(None)] * X.ndim
        sl[ax] = slice(0, -1)
        sh[ax] = slice(1, None)
        d[tuple(sl)] = X[tuple(sh)] - X[tuple(sl)]
        out.append(d)
    return np.array(out)


def tv_val(X):
    g = grad_forward(X)
    return float(np.sum(np.sqrt(np.sum(np.abs(g) ** 2, axis=0))))


def tv_div(P):
    """Adjoint of grad_forward."""
    X = np.zeros(P.shape[1:])
    for ax in range(P.shape[0]):
        p = P[ax]
        sl = [slice(None)] * X.ndim
        sh = [slice(None)] * X.ndim
        sl[ax] = slice(0, -1)
        sh[ax] = slice(1, None)
        X[tuple(sh)] += p[tuple(sl)]
        X[tuple(sl)] -= p[tuple(sl)]
    return X


def tv_prox(X, gam, niter=3000):
    """Dual accelerated projected gradient with a duality-gap stop."""
    nd = X.ndim
    P = np.zeros((nd,) + X.shape)
    R = P.copy()
    t = 1.0
    L = 4.0 * nd
    z = X
    for k in range(niter):
        Pold = P
        G = grad_forward(tv_div(R) - X / gam)
        P = R - G / L
        P = P / np.maximum(1.0, np.sqrt(np.sum(P**2, axis=0)))
        tn = (1 + math.sqrt(1 + 4 * t * t)) / 2
        R = P + (t - 1) / tn * (P - Pold)
        t = tn
        if k % 50 == 49:
            z = X - gam * tv_div(P)
            primal = 0.5 * np.sum((z - X) ** 2) + gam * tv_val(z)
            dual = 0.5 * np.sum(X**2) - 0.5 * np.sum(z**2)
            if primal - dual < 1e-13 * max(1.0, primal):
                break
    return X - gam * tv_div(P)
