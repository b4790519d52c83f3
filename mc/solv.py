"""Small problems, probe operators and reference recursions for the iterative solvers.

Probes are proximal operators defined here from closed forms, so that the solver loop is the only
library code under test; the recursions are transcribed from the documentation of the solvers."""

import math

import itertools

import numpy as np

from pyproximal.ProxOperator import ProxOperator

from mc import refs as R

MARGIN = 1e-9


class Probe(ProxOperator):
    """A proximal operator given by closed forms; records the calls made to it."""

    def __init__(self, val, prox, grad=None, name=""):
        super().__init__(None, grad is not None)
        self.f_val, self.f_prox, self.f_grad, self.name = val, prox, grad, name
        self.log = []

    def __call__(self, x):
        return self.f_val(x)

    def prox(self, x, tau):
        self.log.append(("prox", np.array(x), np.array(tau)))
        return self.f_prox(np.array(x), tau)

    def proxdual(self, x, tau):
        return x - tau * self.f_prox(x / tau, 1.0 / tau)

    def grad(self, x):
        return self.f_grad(np.array(x))


# ------------------------------------------------------------------ function library
def l1(w):
    return lambda: Probe(lambda x: float(w * np.sum(np.abs(x))), lambda x, t: R.soft(x, w * t), name="l1")


def sq(c, b):
    b = np.asarray(b)

    def bb(x):
        return np.resize(b, x.shape)

    return lambda: Probe(lambda x: float(c / 2 * np.sum(np.abs(x - bb(x)) ** 2)),
                         lambda x, t: (x + t * c * bb(x)) / (1 + t * c), lambda x: c * (x - bb(x)), "sq")


def box(lo, hi):
    return lambda: Probe(lambda x: bool(np.all(x >= lo - 1e-12) and np.all(x <= hi + 1e-12)),
                         lambda x, t: np.clip(x, lo, hi), name="box")


def euc(w):
    return lambda: Probe(lambda x: float(w * np.linalg.norm(x)), lambda x, t: R.shrink_group(x, w * t), name="euc")


def huber(a):
    def grad(x):
        ab = np.abs(x)
        return np.where(ab <= a, x / a, x / np.where(ab > 0, ab, 1))

    def prox(x, t):
        ab = np.abs(x)
        return np.where(ab <= a + t, x * (a / (a + t)), x * (1 - t / np.maximum(ab, 1e-300)))

    return lambda: Probe(lambda x: R.huber_val(x, a), prox, grad, "huber")


def lin(w):
    w = np.asarray(w)
    return lambda: Probe(lambda x: float(np.real(np.sum(np.resize(w, x.shape) * x))),
                         lambda x, t: x - t * np.resize(w, x.shape), lambda x: np.resize(w, x.shape), "lin")


def aff(A, b):
    """1/2 ||A x - b||^2"""
    A, b = np.asarray(A), np.asarray(b)
    n = A.shape[1]

    def prox(x, t):
        return np.linalg.solve(np.eye(n) + t * A.conj().T @ A, x + t * A.conj().T @ b)

    return lambda: Probe(lambda x: float(np.sum(np.abs(A @ x - b) ** 2) / 2), prox,
                         lambda x: A.conj().T @ (A @ x - b), "aff")


# ------------------------------------------------------------------ reference recursions
class Ambiguous(Exception):
    """A comparison of the recursion is within rounding: stop comparing this trace."""


def decide(a, b, scale=1.0):
    """a <= b, unless they are too close to call."""
    if abs(a - b) <= MARGIN * max(1.0, abs(a), abs(b), scale):
        raise Ambiguous
    return a <= b


def omega_seq(acc):
    """Extrapolation weights after iteration k = 0, 1, ..."""
    if acc == "vandenberghe":
        k = 0
        while True:
            yield k / (k + 3)
            k += 1
    elif acc == "fista":
        t = 1.0
        while True:
            tn = (1 + math.sqrt(1 + 4 * t * t)) / 2
            yield (t - 1) / tn
            t = tn
    else:
        while True:
            yield 0.0


def ref_pp(f, x, tau, niter):
    for _ in range(niter):
        x = f.f_prox(x, tau)
        yield x


def ftilde(f, z, y, tau):
    d = z - y
    return f.f_val(y) + float(np.real(np.vdot(f.f_grad(y), d))) + float(np.sum(np.abs(d) ** 2)) / (2 * tau)


def ref_bt(f, g, y, tau, eps, beta, niterback):
    for _ in range(niterback):
        z = g.f_prox(y - tau * f.f_grad(y), eps * tau)
        if decide(f.f_val(z), ftilde(f, z, y, tau)):
            break
        tau = tau * beta
    return z, tau


def ref_pg(f, g, x, niter, tau=None, backtracking=False, beta=0.5, eta=1.0, epsg=1.0, niterback=100, acceleration=None):
    """Yields (x, tau)."""
    eps = np.ones(niter) * epsg if np.size(epsg) == 1 else np.asarray(epsg)
    if tau is None:
        tau, backtracking = 1.0, True
    y = x
    om = omega_seq(acceleration)
    for k in range(niter):
        if backtracking:
            z, tau = ref_bt(f, g, y, tau, eps[k], beta, niterback)
        else:
            z = g.f_prox(y - tau * f.f_grad(y), eps[k] * tau)
        xn = y + eta * (z - y)
        y = xn + next(om) * (xn - x)
        x = xn
        yield x, tau


def ref_anderson(f, g, x0, niter, tau=1.0, epsg=1.0, nhistory=10, epsr=1e-10, safeguard=False):
    eps = np.ones(niter) * epsg if np.size(epsg) == 1 else np.asarray(epsg)
    y = x0 - tau * f.f_grad(x0)
    x = g.f_prox(y, eps[0] * tau)
    G, RR = [y], [y - x0]
    for k in range(niter):
        gk = x - tau * f.f_grad(x)
        G = ([gk] + G)[:nhistory]
        RR = ([gk - y] + RR)[:nhistory]
        Rm = np.array(RR)
        M = Rm @ Rm.T + epsr * np.linalg.norm(Rm) ** 2 * np.eye(len(RR))
        if np.linalg.norm(Rm) < 1e-6 or np.linalg.cond(M) > 1e9:
            raise Ambiguous
        a = np.linalg.solve(M, np.ones(len(RR)))
        a = a / np.sum(a)
        yt = sum(ai * gi for ai, gi in zip(a, G))
        xt = g.f_prox(yt, eps[k] * tau)
        if not safeguard or decide(f.f_val(xt), f.f_val(x) - tau * np.sum(np.abs(f.f_grad(x)) ** 2) / 2):
            y, x = yt, xt
        else:
            y, x = gk, g.f_prox(gk, eps[k] * tau)
        yield x


def ref_gpg(fs, gs, x, niter, tau=1.0, epsg=1.0, weights=None, eta=1.0, acceleration=None):
    m = len(gs)
    eps = np.ones(m) * epsg if np.size(epsg) == 1 else np.asarray(epsg)
    w = np.ones(m) / m if weights is None else np.asarray(weights)
    if acceleration in ("vandenberghe", "fista"):
        eta = 1.0
    y = x
    z = [x for _ in gs]
    om = omega_seq(acceleration)
    for _ in range(niter):
        gr = sum(f.f_grad(x) for f in fs)
        z = [z[j] + eta * (gs[j].f_prox(2 * y - z[j] - tau * gr, tau * eps[j] / w[j]) - y) for j in range(m)]
        xn = sum(w[j] * z[j] for j in range(m))
        y = xn + next(om) * (xn - x)
        x = xn
        yield x


def ref_hqs(f, g, x, z, tau, niter, gfirst):
    tau = np.ones(niter) * tau if np.size(tau) == 1 else tau
    for k in range(niter):
        if gfirst:
            z = g.f_prox(x, tau[k])
            x = f.f_prox(z, tau[k])
        else:
            x = f.f_prox(z, tau[k])
            z = g.f_prox(x, tau[k])
        yield x, z


def ref_dr(f, g, y, tau, niter, eta, gfirst):
    a, b = (g, f) if gfirst else (f, g)
    for _ in range(niter):
        x = a.f_prox(y, tau)
        y = y + eta * (b.f_prox(2 * x - y, tau) - x)
        yield x, y


def ref_admm(f, g, x, z, tau, niter, gfirst):
    u = 0 * x
    for _ in range(niter):
        if gfirst:
            z = g.f_prox(x + u, tau)
            x = f.f_prox(z - u, tau)
        else:
            x = f.f_prox(z - u, tau)
            z = g.f_prox(x + u, tau)
        u = u + x - z
        yield x, z


def ref_admml2(g, Op, b, A, x, z, tau, niter, gfirst):
    u = 0 * z
    M = Op.conj().T @ Op + A.conj().T @ A / tau

    def xup(z, u):
        return np.linalg.solve(M, Op.conj().T @ b + A.conj().T @ (z - u) / tau)

    for _ in range(niter):
        if gfirst:
            z = g.f_prox(A @ x + u, tau)
            x = xup(z, u)
        else:
            x = xup(z, u)
            z = g.f_prox(A @ x + u, tau)
        u = u + A @ x - z
        yield x, z


def ref_ladmm(f, g, A, x, z, tau, mu, niter):
    u = 0 * z
    for _ in range(niter):
        x = f.f_prox(x - mu / tau * (A.conj().T @ (A @ x - z + u)), mu)
        z = g.f_prox(A @ x + u, tau)
        u = u + A @ x - z
        yield x, z


def ref_ppxa(fs, y, tau, niter, eta, w):
    m = len(fs)
    w = np.ones(m) / m if w is None else np.asarray(w)
    y = [np.asarray(v) for v in y]
    x = sum(w[i] * y[i] for i in range(m))
    for _ in range(niter):
        p = [fs[i].f_prox(y[i], tau / w[i]) for i in range(m)]
        pn = sum(w[i] * p[i] for i in range(m))
        y = [y[i] + eta * (2 * pn - x - p[i]) for i in range(m)]
        x = x + eta * (pn - x)
        yield x


def ref_consensus(fs, xb, tau, niter):
    m = len(fs)
    y = [0 * xb for _ in fs]
    for _ in range(niter):
        x = [fs[i].f_prox(xb - y[i], tau) for i in range(m)]
        xb = sum(x) / m
        y = [y[i] + x[i] - xb for i in range(m)]
        yield xb


def ref_pd(f, g, A, x, y, tau, mu, niter, theta, gfirst, z):
    """Yields (x, y)."""
    tau = np.ones(niter) * tau if np.size(tau) == 1 else tau
    mu = np.ones(niter) * mu if np.size(mu) == 1 else mu
    z = 0 if z is None else z
    xb = x
    AH = A.conj().T
    for k in range(niter):
        if gfirst:
            y = g.proxdual(y + mu[k] * (A @ xb), mu[k])
            xn = f.f_prox(x - tau[k] * (AH @ y + z), tau[k])
            xb = xn + theta * (xn - x)
        else:
            xn = f.f_prox(x - tau[k] * (AH @ y + z), tau[k])
            xb = xn + theta * (xn - x)
            y = g.proxdual(y + mu[k] * (A @ xb), mu[k])
        x = xn
        yield x, y


def ref_apd(f, g, A, x, tau, mu, alpha, eta, s, delta, z, niter, tol, exact=False):
    """Yields (x, tau, mu, alpha): the iterate and the steps after the iteration."""
    z = 0 if z is None else z
    AH = A.conj().T
    y = np.zeros(A.shape[0], dtype=np.result_type(A, x))
    for _ in range(niter):
        xn = f.f_prox(x - tau * (AH @ y + z), tau)
        yn = g.proxdual(y + mu * (A @ (2 * xn - x)), mu)
        p = float(np.linalg.norm((x - xn) / tau - AH @ (y - yn)))
        d = float(np.linalg.norm((y - yn) / mu - A @ (x - xn)))
        if not decide(p, s * d * delta):
            tau, mu, alpha = tau / (1 - alpha), mu * (1 - alpha), alpha * eta
        elif not decide(s * d / delta, p):
            tau, mu, alpha = tau * (1 - alpha), mu / (1 - alpha), alpha * eta
        x, y = xn, yn
        yield x, tau, mu, alpha
        if exact and min(abs(p - tol), abs(d - tol)) <= MARGIN * tol:
            raise Ambiguous
        if p <= tol and d <= tol:
            return


def ref_twist(g, A, b, x, niter, alpha, beta):
    def step(v):
        return g.f_prox(v + A.conj().T @ (b - A @ v), 1.0)

    xold, x = x, step(x)
    for _ in range(niter):
        xold, x = x, (1 - alpha) * xold + (alpha - beta) * x + beta * step(x)
        yield x


# ------------------------------------------------------------------ comparison
def close(a, b, tol):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


def dist(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return np.inf
    e = np.max(np.abs(a - b) / (1 + np.abs(b)), initial=0.0)
    return np.inf if np.isnan(e) else float(e)


def compare(r, sig, desc, got, ref, tol=1e-9, key=None):
    """Steps through the reference recursion and the recorded iterates of the implementation.
    `got` and the items of `ref` are vectors or tuples of vectors. Returns steps compared."""
    k, last = 0, 0.0
    try:
        for item in ref:
            if not isinstance(item, tuple):
                item = (item,)
            if k >= len(got):
                r.fail(sig, "%s: stopped after %d iterations" % (desc, len(got)))
                return k
            g = got[k] if isinstance(got[k], tuple) else (got[k],)
            e = max(dist(a, b) for a, b in zip(g, item))
            if k >= 25 and e > tol and 1e-13 < last and e < 300 * last:
                # a rounding difference that an unstable recursion amplifies step by step: nothing more to learn
                raise Ambiguous()
            last = e
            for j, (a, b) in enumerate(zip(g, item)):
                if not close(a, b, tol if k < 25 else 10 * tol):
                    r.fail(sig, "%s: iterate %d (component %d) is %s, the recursion gives %s"
                           % (desc, k + 1, j, np.array2string(np.asarray(a), precision=6),
                              np.array2string(np.asarray(b), precision=6)), got=a, want=b)
                    return k
            r.state(key or desc, k, *[np.asarray(v) for v in g])
            r.trans()
            r.outcome(*[np.asarray(v) for v in g])
            k += 1
    except Ambiguous:
        pass
    else:
        if len(got) > k:
            r.fail(sig, "%s: ran %d iterations instead of %d" % (desc, len(got), k))
    r.trace()
    return k


# ------------------------------------------------------------------ PALM
def pos(c):
    if c < 1e-8:
        raise Ambiguous
    return c


def palm_bt(fun, grad, x, tau, prox, beta, niterback):
    g = grad(x)
    for _ in range(niterback):
        z = x - tau * g
        if prox is not None:
            z = prox.f_prox(z, tau)
        d = z - x
        if tau < 1e-12 or decide(fun(z), fun(x) + float(np.real(np.vdot(g, d))) + float(np.sum(np.abs(d) ** 2)) / (2 * tau)):
            break
        tau = tau * beta
    return z, tau


def ref_palm(H, f, g, x, y, niter, gammaf=1.0, gammag=1.0, beta=0.5, niterback=100, a=(0.0, 0.0)):
    """H: object with val(x, y), gx(x, y), gy(x, y), Lx(y) (constant of grad_x), Ly(x)."""
    tf = tg = 1.0
    xo, yo = x, y
    for _ in range(niter):
        xz = x + a[0] * (x - xo)
        if gammaf is not None:
            c = pos(gammaf * H.Lx(y))
            xn = xz - H.gx(xz, y) / c
            xn = xn if f is None else f.f_prox(xn, 1 / c)
        else:
            xn, tf = palm_bt(lambda v: H.val(v, y), lambda v: H.gx(v, y), xz, tf, f, beta, niterback)
        xo, x = x, xn
        yz = y + a[1] * (y - yo)
        if gammag is not None:
            c = pos(gammag * H.Ly(x))
            yn = yz - H.gy(x, yz) / c
            yn = yn if g is None else g.f_prox(yn, 1 / c)
        else:
            yn, tg = palm_bt(lambda v: H.val(x, v), lambda v: H.gy(x, v), yz, tg, g, beta, niterback)
        yo, y = y, yn
        yield x, y


LONG = 130


def prod(n):
    """itertools.product for short horizons; for long ones and large problems an evenly spread subset of at most 5 combinations"""
    def f(*a):
        out = list(itertools.product(*a))
        k = max(1, -(-len(out) // 5)) if n >= 100 or any(isinstance(v, np.ndarray) and v.size >= 100 for v in itertools.chain(*a)) else 1
        while k > 1 and any(len(v) % k == 0 or k % len(v) == 0 for v in map(list, a) if len(v) > 1):
            k += 1
        return out[::k]
    return f
