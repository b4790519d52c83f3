"""Catalogue of the real operators together with their documented meaning.

Every entry builds a fresh real operator (`make`) and gives, independently of the
library, the functional value `f` (INF outside an indicator's set), the exact prox
`prox` when a closed/exact reference exists, and the bounded input space."""

import itertools

import numpy as np
import pylops
from scipy.optimize import minimize

import pyproximal as pp
from pyproximal import projection as pj
from pyproximal import proximal as px

from . import refs as R

INF = R.INF


def lat(vals, n, dtype=float):
    return [np.array(v, dtype=dtype) for v in itertools.product(vals, repeat=n)]


class Entry:
    def __init__(self, name, cfg, make, f, xs, taus, prox=None, kind="convex", tol=1e-7,
                 grad=None, smooth_at=None, value=True, iterative=False, scalar=None,
                 rule=None, group="", has_dual=True, inplace_dims=None, member_tol=1e-6,
                 strict_member=True, remake=None, light=None, grad_is_partial=False):
        self.name, self.cfg, self.make, self.f = name, cfg, make, f
        self.xs, self.taus, self.prox, self.kind = xs, taus, prox, kind
        self.tol, self.grad, self.value = tol, grad, value
        self.smooth_at = smooth_at or (lambda x: True)
        self.iterative, self.scalar, self.rule = iterative, scalar, rule
        self.group = group
        self.has_dual = has_dual
        self.member_tol = member_tol
        self.strict_member = strict_member
        self.remake = remake
        self.light = light
        self.grad_is_partial = grad_is_partial  # documented option leaving a term out of the gradient

    @property
    def key(self):
        return "%s%s" % (self.name, sorted(self.cfg.items()))

    def build(self, light=False):
        """-> (operator, {name: array given to the constructor}); light: few inner iterations"""
        r = self.light() if light and self.light else self.make()
        return r if isinstance(r, tuple) else (r, {})


V4 = [-2.0, -0.5, 0.0, 1.0]
V5 = [-2.0, -0.5, 0.0, 1.0, 3.0]
V7 = [-3.0, -1.0, -0.5, 0.0, 0.25, 1.0, 2.0]
V9 = [-3.0, -1.5, -1.0, -0.25, 0.0, 0.5, 0.75, 1.25, 2.0]
V13 = [-4.0, -3.0, -2.0, -1.5, -1.0, -0.5, -0.25, 0.0, 0.125, 0.75, 1.0, 2.5, 5.0]
C5 = [0.0, 1.0, -0.5j, 1.5 - 2j, -2.0 + 0.25j]
C7 = C5 + [0.5 + 0.5j, 3.0j]
TAUS = [0.25, 1.0, 2.5]
TAUST = [0.01, 0.25, 0.5, 1.0, 1.5, 2.5, 10.0]


# points at which a sweep of Dykstra's algorithm leaves x where it was before the corrections have settled
STALL = {(3, 1): [np.array([-4.0, 0.0, -2.0]), np.array([-4.0, -1.0, -2.0])],
         (4, 1): [np.array([-4.0, -0.5, -2.0, 3.5]), np.array([-4.0, -4.0, -2.0, 3.5])]}


def vecs(tier, n):
    """All input vectors of length n over the tier's alphabet."""
    if tier == "thorough":
        a = {1: V13, 2: V13, 3: V9, 4: V5, 5: V4, 6: [-1.0, 0.0, 2.0]}[n]
    else:
        a = {1: V13, 2: V9, 3: V5, 4: [-2.0, 0.0, 0.5], 5: [-1.0, 0.0, 2.0], 6: [-1.0, 0.5]}[n]
    return lat(a, n)


def cvecs(tier, n):
    a = C7 if tier == "thorough" else C5
    return lat(a, n, complex)


def short(xs, m):
    """Deterministic thinning for expensive operators: every k-th element of the lattice."""
    if len(xs) <= m:
        return xs
    return [xs[(i * len(xs)) // m] for i in range(m)]


def taus(tier):
    return TAUST if tier == "thorough" else TAUS


MATS = {
    "I2": np.eye(2),
    "diag": np.diag([2.0, 0.5]),
    "sq": np.array([[1.0, 2.0], [-1.0, 0.5]]),
    "tall": np.array([[1.0, 0.5], [0.0, -2.0], [1.5, 1.0]]),
    "wide": np.array([[1.0, -1.0, 0.5], [2.0, 0.0, 1.0]]),
    "zerocol": np.array([[0.0, 1.0], [0.0, 2.0]]),
}
CMATS = {
    "csq": np.array([[1.0 + 1j, 2.0], [-1.0j, 0.5]]),
    "ctall": np.array([[1.0, 0.5j], [1j, -2.0], [1.5, 1.0 - 1j]]),
}


def mop(A, explicit=True):
    Op = pylops.MatrixMult(np.array(A))
    Op.explicit = explicit
    return Op


def l2_entries(tier):
    out = []
    tt = taus(tier)
    for sigma, qgrad, cplx in ((1.0, True, False), (2.5, True, False), (0.4, True, False), (2.5, False, False), (0.4, True, True)):
        for bq in ("none", "b", "q", "bq"):
            if cplx and "q" in bq or not qgrad and "q" not in bq:
                continue
            b = np.array([1.0, -0.5]) if "b" in bq and bq != "none" else None
            if cplx and b is not None:
                b = b + 1j * b[::-1]
            q = np.array([0.5, 2.0]) if "q" in bq else None
            alpha = 0.75

            def make(sigma=sigma, b=b, q=q, alpha=alpha, qgrad=qgrad):
                bb = None if b is None else b.copy()
                qq = None if q is None else q.copy()
                kw = {} if qgrad else dict(qgrad=False)
                return px.L2(b=bb, q=qq, sigma=sigma, alpha=alpha, **kw), {"b": bb, "q": qq}

            def f(x, sigma=sigma, b=b, q=q, alpha=alpha):
                r = x if b is None else x - b
                v = sigma / 2 * float(np.sum(np.abs(r) ** 2))
                return v + (0 if q is None else alpha * float(np.dot(q, x)))

            def prox(x, t, sigma=sigma, b=b, q=q, alpha=alpha):
                rhs = x + (0 if b is None else t * sigma * b) - (0 if q is None else t * alpha * q)
                return rhs / (1 + t * sigma)

            def grad(x, sigma=sigma, b=b, q=q, alpha=alpha, qgrad=qgrad):
                return sigma * (x if b is None else x - b) + (0 if q is None or not qgrad else alpha * q)

            cfg = dict(sigma=sigma, bq=bq)
            if not qgrad:
                cfg["qgrad"] = False
            if cplx:
                cfg["cplx"] = True
            out.append(Entry("L2", cfg, make, f, cvecs(tier, 2) if cplx else vecs(tier, 2), tt, prox,
                             grad=grad, grad_is_partial=not qgrad, tol=1e-9, group="L2"))
    # with operator
    for mat, A in MATS.items():
        m, n = A.shape
        for eng in ("legacy", "cg", "cgls", "dense", "numpy", "scipy", "factorize"):
            for useq in (False, True):
                for sigma in ((0.4, 1.0, 2.5) if tier == "thorough" else (0.4, 2.5)):
                    b = np.array([1.0, -2.0, 0.5])[:m]
                    q = np.array([0.5, -1.0, 2.0])[:n] if useq else None
                    alpha = 1.5

                    def make(A=A, eng=eng, b=b, q=q, sigma=sigma, alpha=alpha, n=n):
                        bb = b.copy()
                        qq = None if q is None else q.copy()
                        if eng in ("legacy", "cg", "cgls"):
                            kw = dict(kwargs_solver=dict(atol=1e-13, btol=1e-13) if eng == "legacy" else dict(tol=1e-22))
                            o = px.L2(Op=mop(A, False), b=bb, q=qq, sigma=sigma, alpha=alpha,
                                      niter=60, solver=eng, **kw)
                        else:
                            o = px.L2(Op=mop(A, True), b=bb, q=qq, sigma=sigma, alpha=alpha,
                                      densesolver=None if eng == "dense" else eng)
                        return o, {"b": bb, "q": qq}

                    def f(x, A=A, b=b, q=q, sigma=sigma, alpha=alpha):
                        v = sigma / 2 * float(np.sum(np.abs(A @ x - b) ** 2))
                        return v + (0 if q is None else alpha * float(np.dot(q, x)))

                    def prox(x, t, A=A, b=b, q=q, sigma=sigma, alpha=alpha):
                        rhs = x + t * sigma * A.T @ b - (0 if q is None else t * alpha * q)
                        return np.linalg.solve(np.eye(A.shape[1]) + t * sigma * A.T @ A, rhs)

                    def grad(x, A=A, b=b, q=q, sigma=sigma, alpha=alpha):
                        return sigma * A.T @ (A @ x - b) + (0 if q is None else alpha * q)

                    it = eng in ("legacy", "cg", "cgls")
                    xs = short(vecs(tier, n), 200 if tier == "thorough" else 9)
                    out.append(Entry("L2op", dict(mat=mat, eng=eng, q=useq, sigma=sigma), make, f,
                                     xs, tt, prox, grad=grad, tol=1e-6 if it else 1e-8,
                                     iterative=it, group="L2"))
    return out


class Quartic(pp.Nonlinear):
    """sum(w*(x**4/4 + x**2/2)) + c'x with its prox problem solved through one of the documented hooks."""

    def __init__(self, w, c, hook, x0, **kw):
        super().__init__(x0, **kw)
        self.w, self.c, self.hook = w, c, hook

    def fun(self, x):
        return float(np.sum(self.w * (x**4 / 4 + x**2 / 2)) + self.c @ x)

    def grad(self, x):
        return self.w * (x**3 + x) + self.c

    def optimize(self):
        if self.hook == "newton":
            x = np.array(self.x0, dtype=float)
            for _ in range(self.niter):
                x = x - self._gradprox(x, self.tau) / (self.w * (3 * x**2 + 1) + 1 / self.tau)
            return x
        if self.hook == "fungrad":
            return minimize(lambda x: self._fungradprox(x, self.tau), self.x0, jac=True, method="BFGS", options=dict(gtol=1e-9)).x
        return minimize(lambda x: self._funprox(x, self.tau), self.x0, jac=lambda x: self._gradprox(x, self.tau), method="BFGS",
                        options=dict(gtol=1e-9)).x


def nonlinear_entries(tier):
    out = []
    for hook, warm in (("newton", True), ("newton", False), ("fungrad", False), ("fun", True)):
        w, c = np.array([1.0, 0.5]), np.array([0.0, -0.75])

        def make(hook=hook, warm=warm, w=w, c=c):
            x0 = np.array([0.5, -1.0])
            return Quartic(w, c, hook, x0, niter=80, warm=warm), {"x0": x0}

        def prox(x, t, w=w, c=c):
            out = []
            for xi, wi, ci in zip(x, w, c):
                z = np.roots([t * wi, 0, t * wi + 1, t * ci - xi])
                out.append(float(z[np.argmin(np.abs(z.imag))].real))
            return np.array(out)

        out.append(Entry("Nonlinear", dict(hook=hook, warm=warm), make,
                         lambda x, w=w, c=c: float(np.sum(w * (x**4 / 4 + x**2 / 2)) + c @ x),
                         short(vecs(tier, 2), 25 if tier == "quick" else 169), taus(tier), prox,
                         grad=lambda x, w=w, c=c: w * (x**3 + x) + c, tol=1e-6, iterative=True, group="Nonlinear"))
    return out


def smooth_entries(tier):
    out = l2_entries(tier) + nonlinear_entries(tier)
    tt = taus(tier)
    # Quadratic
    B = np.array([[2.0, 0.5], [0.5, 1.0]])
    for mode in ("explicit", "iter", "lin", "const"):
        for useb in (True, False):
            if mode in ("lin",) and not useb or mode == "const" and useb:
                continue
            b = np.array([0.9, -2.1]) if useb else None
            c = 3.0

            def make(mode=mode, b=b, c=c):
                bb = None if b is None else b.copy()
                if mode in ("explicit", "iter"):
                    return px.Quadratic(Op=mop(B, mode == "explicit"), b=bb, c=c, niter=60), {"b": bb}
                return px.Quadratic(b=bb, c=c), {"b": bb}

            Bm = B if mode in ("explicit", "iter") else np.zeros((2, 2))

            def f(x, Bm=Bm, b=b, c=c):
                return float(0.5 * x @ Bm @ x + (0 if b is None else b @ x) + c)

            def prox(x, t, Bm=Bm, b=b):
                return np.linalg.solve(np.eye(2) + t * Bm, x - (0 if b is None else t * b))

            def grad(x, Bm=Bm, b=b):
                return Bm @ x + (0 if b is None else b)

            out.append(Entry("Quadratic", dict(mode=mode, b=useb), make, f, vecs(tier, 2), tt, prox,
                             grad=grad, tol=1e-6 if mode == "iter" else 1e-9,
                             iterative=mode == "iter", group="Quadratic"))
    # L2Convolve (circular: nfft equal to the length -> exact; longer -> documented FFT formula)
    for n, nfft, dims, d in ((4, 4, None, None), (3, 3, None, None), (4, 8, None, None),
                             (4, 4, (4, 2), 0), (3, 3, (2, 3), -1), (3, 3, (2, 3), None),
                             (2, 4, (2, 3), 0), (2, 2, (2, 2, 2), 1)):
        for sigma in (1.0, 2.0):
            h = np.array([1.0, 0.5, -0.25])[: min(3, nfft)]
            shape = (n,) if dims is None else dims
            ax = -1 if d is None else d
            b = np.arange(1.0, 1 + np.prod(shape)).reshape(shape) * 0.5 - 1.0

            def make(h=h, b=b, nfft=nfft, dims=dims, d=d, sigma=sigma):
                hh, bb = h.copy(), b.copy()
                return px.L2Convolve(hh, bb, nfft=nfft, sigma=sigma, dims=dims, dir=d), {"h": hh, "b": bb}

            def parts(x, h=h, b=b, nfft=nfft, shape=shape, ax=ax):
                """circulant matrix, padded data/model as columns along `ax`."""
                C = np.zeros((nfft, nfft))
                for i in range(nfft):
                    for j, hv in enumerate(h):
                        C[(i + j) % nfft, i] += hv
                X = np.moveaxis(np.asarray(x).reshape(shape), ax, 0)
                Bm = np.moveaxis(b, ax, 0)
                tail = X.shape[1:]
                nn = X.shape[0]
                Xp = np.zeros((nfft, int(np.prod(tail, dtype=int))))
                Bp = Xp.copy()
                Xp[:nn] = X.reshape(nn, -1)
                Bp[:nn] = Bm.reshape(nn, -1)
                return C, Xp, Bp, nn, tail

            def back(Y, nn, tail, ax=ax):
                return np.moveaxis(Y[:nn].reshape((nn,) + tail), 0, ax).ravel()

            def f(x, parts=parts, sigma=sigma):
                C, X, Bp, nn, tail = parts(x)
                return sigma / 2 * float(np.sum((C @ X - Bp) ** 2))

            def prox(x, t, parts=parts, back=back, sigma=sigma, nfft=nfft):
                C, X, Bp, nn, tail = parts(x)
                Y = np.linalg.solve(np.eye(nfft) + t * sigma * C.T @ C, X + t * sigma * C.T @ Bp)
                return back(Y, nn, tail)

            def grad(x, parts=parts, back=back, sigma=sigma):
                C, X, Bp, nn, tail = parts(x)
                return back(sigma * C.T @ (C @ X - Bp), nn, tail)

            N = int(np.prod(shape))
            base = vecs(tier, N) if N <= 4 else lat([-1.0, 0.5], N)
            out.append(Entry("L2Convolve", dict(n=n, nfft=nfft, dims=dims, dir=d, sigma=sigma),
                             make, f, short(base, 60 if tier == "quick" else 400), tt, prox, grad=grad,
                             tol=1e-9, group="L2Convolve",
                             kind="convex" if nfft == shape[ax] else "formula"))
    return out


def norm_entries(tier):
    out = []
    tt = taus(tier)
    for sigma in (0.5, 1.0, 2.0):
        out.append(Entry("Euclidean", dict(sigma=sigma), lambda s=sigma: px.Euclidean(sigma=s),
                         lambda x, s=sigma: s * float(np.sqrt(np.sum(np.abs(x) ** 2))),
                         vecs(tier, 2) + vecs(tier, 3) + cvecs(tier, 2), tt,
                         lambda x, t, s=sigma: R.shrink_group(x, t * s),
                         grad=lambda x, s=sigma: s * x / np.linalg.norm(x),
                         smooth_at=lambda x: np.linalg.norm(x) > 0.1, tol=1e-9, group="Euclidean"))
    for alpha in (0.5, 1.0, 2.0):
        out.append(Entry("Huber", dict(alpha=alpha), lambda a=alpha: px.Huber(alpha=a),
                         lambda x, a=alpha: R.huber_val(x, a), vecs(tier, 2) + vecs(tier, 3), tt,
                         lambda x, t, a=alpha: R.huber_prox(x, a, t), tol=1e-9, group="Huber"))

        def hc(x, a=alpha):
            n = float(np.sqrt(np.sum(np.abs(x) ** 2)))
            return n * n / (2 * a) if n <= a else n - a / 2

        def hcp(x, t, a=alpha):
            n = float(np.sqrt(np.sum(np.abs(x) ** 2)))
            return x * (a / (a + t)) if n <= a + t else x * ((n - t) / n)

        out.append(Entry("HuberCircular", dict(alpha=alpha), lambda a=alpha: px.HuberCircular(alpha=a),
                         hc, vecs(tier, 2) + vecs(tier, 3) + cvecs(tier, 2), tt, hcp, tol=1e-9,
                         group="Huber"))
    # L1
    for sigma in (0.5, 1.0, 2.0):
        for g in (None, (1.0, -0.5)):
            ga = None if g is None else np.array(g)

            def make(s=sigma, ga=ga):
                gg = None if ga is None else ga.copy()
                return px.L1(sigma=s, g=gg), {"g": gg}

            def f(x, s=sigma, ga=ga):
                return s * float(np.sum(np.abs(x if ga is None else x - ga)))

            def prox(x, t, s=sigma, ga=ga):
                return R.soft(x, t * s) if ga is None else R.soft(x - ga, t * s) + ga

            out.append(Entry("L1", dict(sigma=sigma, g=g), make, f, vecs(tier, 2) + cvecs(tier, 2),
                             tt, prox, tol=1e-9, group="L1"))
    sv = np.array([0.5, 1.5, 0.25])

    def make():
        s = sv.copy()
        return px.L1(sigma=s), {"sigma": s}

    xs2 = [x.reshape(2, 3) for x in short(vecs("thorough", 6), 120 if tier == "quick" else 729)]
    out.append(Entry("L1", dict(sigma="cols"), make,
                     lambda x: float(np.sum(sv * np.sum(np.abs(x), axis=0))), xs2, tt,
                     lambda x, t: R.soft(x, t * sv[None, :]), tol=1e-9, group="L1"))
    # L21
    for ndim, n in ((2, 2), (2, 3), (3, 2), (1, 3), (3, 1)):
        for sigma in (0.5, 1.0, 2.0):
            xs = short(vecs("thorough", ndim * n), 150 if tier == "quick" else 2000)
            if ndim * n == 4:
                xs = xs + short(cvecs(tier, 4), 60)

            def f(x, s=sigma, d=ndim):
                return s * float(np.sum(np.sqrt(np.sum(np.abs(x.reshape(d, -1)) ** 2, axis=0))))

            def prox(x, t, s=sigma, d=ndim):
                X = x.reshape(d, -1)
                return np.stack([R.shrink_group(X[:, j], t * s) for j in range(X.shape[1])], axis=1).ravel()

            out.append(Entry("L21", dict(ndim=ndim, n=n, sigma=sigma),
                             lambda d=ndim, s=sigma: px.L21(ndim=d, sigma=s), f, xs, tt, prox,
                             tol=1e-9, group="L21"))
    for shape in ((3,), (2, 2), (2, 3), (3, 2)):
        for rho in (0.0, 0.3, 0.8, 1.0):
            for sigma in (1.0, 2.0):
                N = int(np.prod(shape))
                xs = short(vecs("thorough", N), 80 if tier == "quick" else 1000)
                if N == 4:
                    xs = xs + short(cvecs(tier, 4), 40)
                xs = [x.reshape(shape) for x in xs]

                def f(x, s=sigma, r=rho):
                    return float(s * r * np.sum(np.abs(x))
                                 + s * (1 - r) * np.sum(np.sqrt(np.sum(np.abs(x) ** 2, axis=0))))

                def prox(x, t, s=sigma, r=rho):
                    y = R.soft(x, t * s * r)
                    if y.ndim == 1:
                        return R.shrink_group(y, t * s * (1 - r))
                    return np.stack([R.shrink_group(y[:, j], t * s * (1 - r)) for j in range(y.shape[1])], axis=1)

                out.append(Entry("L21_plus_L1", dict(shape=shape, rho=rho, sigma=sigma),
                                 lambda s=sigma, r=rho: px.L21_plus_L1(sigma=s, rho=r), f, xs, tt, prox,
                                 tol=1e-9, group="L21_plus_L1"))
    # TV
    for dims in ((2,), (3,), (4,), (2, 2), (2, 3), (3, 3), (2, 2, 2), (2, 3, 2), (2, 2, 2, 2),
                 None, (1, 3), (3, 1), (1, 2, 2), (2, 1, 2), (2, 2, 1), (2, 1, 1, 2), (1, 2, 2, 1)):
        for sigma in (0.5, 1.5) if dims and 1 not in dims else (0.5,):
            N = int(np.prod(dims)) if dims else 3
            if N <= 6:
                xs = short(vecs("thorough", N), (16 if sigma == 1.5 or N == 2 else 8) if tier == "quick" else 120)
            else:
                rs = np.arange(N)
                xs = [((rs * k) % m - m // 2) * 1.0 for k, m in ((1, 2), (1, 3), (2, 5), (3, 7))]
                xs += [np.zeros(N), np.ones(N), (rs == 0) * 3.0, (rs == N // 2) * -2.0]

            def prox(x, t, s=sigma, dims=dims):
                return R.tv_prox(np.asarray(x, float).reshape(dims or -1), t * s).ravel()

            out.append(Entry("TV", dict(dims=dims, sigma=sigma),
                             lambda s=sigma, dims=dims: px.TV(dims=dims, sigma=s, niter=4000, rtol=1e-15),
                             lambda x, s=sigma, dims=dims: s * R.tv_val(np.asarray(x, float).reshape(dims or -1)),
                             xs, tt if tier == "thorough" else [0.25, 2.5], prox, tol=2e-4,
                             iterative=True, group="TV",
                             remake=lambda s=sigma, dims=dims: px.TV(dims=dims, sigma=s, niter=4000, rtol=0.0),
                             light=lambda s=sigma, dims=dims: px.TV(dims=dims, sigma=s, niter=15)))
    # Nuclear
    for dim in ((2, 2), (2, 3), (3, 2), (1, 3)):
        for sigma in (0.5, 1.0, (0.5, 1.0, 2.0), (2.0, 1.0, 0.5)):
            N = dim[0] * dim[1]
            xs = short(vecs("thorough", N), 60 if tier == "quick" else 800)
            if N == 4:
                xs = xs + short(cvecs(tier, 4), 40)
            sg = np.array(sigma)[: min(dim)] if isinstance(sigma, tuple) else sigma
            if isinstance(sigma, tuple) and min(dim) == 1:
                continue

            def make(dim=dim, sigma=sigma):
                if isinstance(sigma, tuple):
                    s = np.array(sigma)
                    return px.Nuclear(dim, sigma=s), {"sigma": s}
                return px.Nuclear(dim, sigma=sigma)

            def f(x, dim=dim, sg=sg):
                return float(np.sum(sg * np.linalg.svd(x.reshape(dim), compute_uv=False)))

            def prox(x, t, dim=dim, sg=sg):
                return R.svd_apply(x.reshape(dim), lambda s: np.maximum(s - t * sg, 0)).ravel()

            out.append(Entry("Nuclear", dict(dim=dim, sigma=sigma), make, f, xs, tt, prox, tol=1e-6,
                             kind="formula" if isinstance(sigma, tuple) else "convex", group="Nuclear"))
    return out


def proj_entries(tier):
    """Indicator functions of convex sets (f is 0/INF with a small feasibility tolerance)."""
    out = []
    tt = [0.25, 2.5]
    FT = 1e-6

    def ind(test):
        return lambda x: 0.0 if test(x) else INF

    for lo, up in ((-1.0, 1.0), (0.0, 2.0), (-np.inf, 0.5), (-0.5, np.inf), (1.0, 1.0), ("arr", "arr")):
        la = np.array([-1.0, 0.5]) if lo == "arr" else lo
        ua = np.array([0.25, 2.0]) if up == "arr" else up

        def make(la=la, ua=ua):
            l2 = la.copy() if isinstance(la, np.ndarray) else la
            u2 = ua.copy() if isinstance(ua, np.ndarray) else ua
            return px.Box(l2, u2), {k: v for k, v in (("lower", l2), ("upper", u2)) if isinstance(v, np.ndarray)}

        out.append(Entry("Box", dict(lo=lo, up=up), make,
                         ind(lambda x, la=la, ua=ua: np.all(x >= la - FT) and np.all(x <= ua + FT)),
                         vecs(tier, 2), tt,
                         lambda x, t, la=la, ua=ua: np.clip(x, la, ua), kind="proj", tol=1e-9, group="Box"))
    for c, r in ((0.0, 1.0), ("arr", 1.5), ("arr", 0.25), (0.5, 2.0)):
        ca = np.array([1.0, -0.5]) if c == "arr" else c

        def make(ca=ca, r=r):
            cc = ca.copy() if isinstance(ca, np.ndarray) else ca
            return px.EuclideanBall(cc, r), ({"center": cc} if isinstance(cc, np.ndarray) else {})

        def prox(x, t, ca=ca, r=r):
            d = x - ca
            n = float(np.sqrt(np.sum(np.abs(d) ** 2)))
            return x.copy() if n <= r else ca + d * (r / n)

        out.append(Entry("EuclideanBall", dict(c=c, r=r), make,
                         ind(lambda x, ca=ca, r=r: np.linalg.norm(x - ca) <= r + FT),
                         vecs(tier, 2) + cvecs(tier, 2), tt, prox, kind="proj", tol=1e-9,
                         group="EuclideanBall"))
    for w, b in (((1.0, 2.0), 1.0), ((-1.0, 0.5), 0.0), ((0.0, 2.0), -1.0)):
        wa = np.array(w)

        def make(wa=wa, b=b):
            ww = wa.copy()
            return px.HalfSpace(ww, b), {"w": ww}

        out.append(Entry("HalfSpace", dict(w=w, b=b), make,
                         ind(lambda x, wa=wa, b=b: wa @ x <= b + FT), vecs(tier, 2), tt,
                         lambda x, t, wa=wa, b=b: x - max(wa @ x - b, 0) / (wa @ wa) * wa,
                         kind="proj", tol=1e-9, group="HalfSpace"))
    for n in (1, 2, 3, 4):
        for r in (0.5, 1.0, 3.0):
            xs = short(vecs(tier, n), 120 if tier == "quick" else 1500)
            cx = cvecs(tier, 2) if n == 2 else []
            out.append(Entry("L1Ball", dict(n=n, r=r), lambda n=n, r=r: px.L1Ball(n, r, xtol=1e-10),
                             ind(lambda x, r=r: np.sum(np.abs(x)) <= r + FT), xs + cx, tt,
                             lambda x, t, r=r: R.l1ball(x, r), kind="proj", tol=1e-6, member_tol=1e-3,
                             group="L1Ball"))
            for eng in ("numpy", "numba"):
                out.append(Entry("Simplex", dict(n=n, r=r, eng=eng),
                                 lambda n=n, r=r, eng=eng: px.Simplex(n, r, engine=eng, ftol=1e-11, xtol=1e-11),
                                 ind(lambda x, r=r: abs(np.sum(x) - r) <= FT and np.all(x >= -FT)), xs, tt,
                                 lambda x, t, r=r: R.simplex(x, r), kind="proj", tol=1e-6,
                                 group="Simplex"))
    for dims, ax in (((2, 2), 0), ((2, 2), 1), ((2, 3), 0), ((2, 3), 1), ((3, 2), -1), ((3, 2), 0), ((3, 2), -2), ((1, 3), 1)):
        for eng in ("numpy", "numba"):
            r = 1.5
            N = dims[0] * dims[1]
            xs = short(vecs("thorough", N), 80 if tier == "quick" else 700)

            def prox(x, t, dims=dims, ax=ax, r=r):
                return np.apply_along_axis(lambda v: R.simplex(v, r), ax, x.reshape(dims)).ravel()

            out.append(Entry("Simplex", dict(dims=dims, axis=ax, r=r, eng=eng),
                             lambda N=N, r=r, dims=dims, ax=ax, eng=eng: px.Simplex(
                                 N, r, dims=dims, axis=ax, engine=eng, ftol=1e-11, xtol=1e-11),
                             ind(lambda x, dims=dims, ax=ax, r=r: np.all(np.abs(x.reshape(dims).sum(ax) - r) <= FT)
                                 and np.all(x >= -FT)), xs, tt, prox, kind="proj", tol=1e-6,
                             strict_member=False, group="Simplex"))
    for dims in ((2, 2), (2, 3), (3, 2)):
        for r in (0.5, 2.0):
            N = dims[0] * dims[1]
            xs = short(vecs("thorough", N), 60 if tier == "quick" else 600)
            out.append(Entry("NuclearBall", dict(dims=dims, r=r),
                             lambda dims=dims, r=r: px.NuclearBall(dims, r, xtol=1e-10),
                             ind(lambda x, dims=dims, r=r: np.linalg.svd(x.reshape(dims), compute_uv=False).sum() <= r + FT),
                             xs, tt, lambda x, t, dims=dims, r=r: R.svd_apply(x.reshape(dims), lambda s: R.l1ball(s, r)).ravel(),
                             kind="proj", tol=1e-6, member_tol=1e-3, group="NuclearBall"))
    for dims in ((2, 2), (2, 3), (3, 2), (3, 3), (1, 3), (4, 2)):
        N = dims[0] * dims[1]
        xs = short(vecs("thorough", N), 60 if tier == "quick" else 600) if N <= 6 else \
            [np.array([((i * k) % m) - 1.0 for i in range(N)]) for k, m in ((1, 2), (2, 3), (3, 5), (5, 7), (1, 9))]
        out.append(Entry("Hankel", dict(dims=dims), lambda dims=dims: px.Hankel(dims),
                         ind(lambda x, dims=dims: np.max(np.abs(x.reshape(dims) - R.hankel_proj(x.reshape(dims)))) <= FT),
                         xs, tt, lambda x, t, dims=dims: R.hankel_proj(x.reshape(dims)).ravel(),
                         kind="proj", tol=1e-9, member_tol=1e-4, group="Hankel"))
    for nm, A, b in (("row", [[1.0, 2.0]], [1.0]), ("two", [[1.0, 2.0, 0.0], [0.0, 1.0, -1.0]], [1.0, 0.5]),
                     ("full", [[1.0, 2.0], [0.0, 1.0]], [1.0, -1.0])):
        A, b = np.array(A), np.array(b)

        def make(A=A, b=b):
            bb = b.copy()
            return px.AffineSet(mop(A), bb, 200), {"b": bb}

        out.append(Entry("AffineSet", dict(A=nm), make,
                         ind(lambda x, A=A, b=b: np.max(np.abs(A @ x - b)) <= 1e-3),
                         short(vecs(tier, A.shape[1]), 120), tt,
                         lambda x, t, A=A, b=b: x - np.linalg.pinv(A) @ (A @ x - b), kind="proj",
                         tol=1e-3, member_tol=1e-2, iterative=True, group="AffineSet"))
    for k, n, sg in ((2, 1, 0.5), (2, 2, 1.0), (3, 1, 0.5), (3, 1, "mat"), (3, 2, 0.5), (3, 1, "mat2"), (4, 1, 0.5)):
        if sg == "mat":
            S = np.array([[0, 0.5, 2.0], [0.5, 0, 1.0], [2.0, 1.0, 0]])
        elif sg == "mat2":
            S = np.array([[0, 1.7, 0.5], [1.7, 0, 0.9], [0.5, 0.9, 0]])
        else:
            S = np.full((k, k), sg)
        pairs = [(i, j) for i in range(k - 1) for j in range(i + 1, k)]
        A = []
        for i, j in pairs:
            for s in (1, -1):
                row = np.zeros(k)
                row[i], row[j] = s, -s
                A.append(row)
        A = np.array(A)
        bb = np.array([S[i, j] for i, j in pairs for _ in (0, 1)])

        def make(k=k, n=n, sg=sg, S=S):
            if isinstance(sg, str):
                s = S.copy()
                return px.Intersection(k, n, s, niter=3000, tol=1e-9), {"sigma": s}
            return px.Intersection(k, n, sg, niter=3000, tol=1e-9)

        def prox(x, t, k=k, n=n, A=A, bb=bb):
            X = x.reshape(k, n)
            return np.stack([R.proj_poly(A, bb, X[:, j]) for j in range(n)], axis=1).ravel()

        out.append(Entry("Intersection", dict(k=k, n=n, sigma=sg), make,
                         ind(lambda x, k=k, n=n, A=A, bb=bb: np.all(A @ x.reshape(k, n) <= bb[:, None] + 1e-5)),
                         STALL.get((k, n), []) + short(vecs(tier, k * n), 40 if tier == "quick" else 200), tt, prox, kind="proj",
                         tol=1e-5, member_tol=1e-3, iterative=True, group="Intersection"))
    return out


def pen_entries(tier):
    """Non-convex penalties. `scalar` = even scalar penalty (true prox = global minimiser);
    `rule` = documented thresholding rule where the documentation defines the operator by one."""
    out = []
    tt = [0.25, 1.0, 2.0] if tier == "quick" else [0.1, 0.25, 0.5, 0.9, 1.0, 1.5, 2.0, 4.0]
    xs = vecs(tier, 2) + vecs(tier, 3) + [np.array(V13), np.linspace(-6, 6, 49)]

    def sep(pen):
        return lambda x: float(sum(pen(v) for v in np.ravel(x)))

    for s, a in ((0.5, 3.7), (1.0, 2.5), (2.0, 4.5)):
        out.append(Entry("SCAD", dict(sigma=s, a=a), lambda s=s, a=a: px.SCAD(s, a),
                         sep(lambda z, s=s, a=a: R.pen_scad(z, s, a)), xs,
                         [t for t in tt if t < a - 1], kind="pen",
                         scalar=lambda z, s=s, a=a: R.pen_scad(z, s, a), group="SCAD"))
    for s, g in ((0.5, 1.3), (1.0, 0.5), (2.0, 5.0), (3.0, 10.0)):
        for nm, cls, pen in (("Log", px.Log, R.pen_log), ("ETP", px.ETP, R.pen_etp), ("Geman", px.Geman, R.pen_geman)):
            out.append(Entry(nm, dict(sigma=s, gamma=g), lambda s=s, g=g, cls=cls: cls(s, g),
                             sep(lambda z, s=s, g=g, pen=pen: pen(z, s, g)), xs, tt, kind="pen",
                             scalar=lambda z, s=s, g=g, pen=pen: pen(z, s, g), group=nm))
    for mu in (0.5, 1.0, 2.0):
        out.append(Entry("QuadraticEnvelopeCard", dict(mu=mu), lambda mu=mu: px.QuadraticEnvelopeCard(mu),
                         sep(lambda z, mu=mu: R.pen_card(z, mu)), xs, tt, kind="pen",
                         scalar=lambda z, mu=mu: R.pen_card(z, mu), group="QuadraticEnvelope"))

    # documented thresholding rules
    def hard(x, thr):
        y = x.copy()
        y[np.abs(x) <= thr] = 0
        return y

    for s in (0.5, 1.0, 2.0):
        out.append(Entry("L0", dict(sigma=s), lambda s=s: px.L0(s), lambda x: float(np.count_nonzero(x)),
                         xs + cvecs(tier, 2), tt, kind="rule", rule=lambda x, t, s=s: hard(x, t * s), group="L0"))
    for s, d in ((0.5, 0.1), (2.0, 0.5), (1.0, 1e-10)):
        def rule(x, t, s=s, d=d):
            a = np.abs(x)
            thr = np.sqrt(2 * t * s) - d
            y = np.zeros_like(x)
            for i in np.ndindex(x.shape):
                if a[i] > thr:
                    y[i] = (x[i] / a[i] if a[i] else 0) * 0.5 * (a[i] - d + np.sqrt(max((a[i] + d) ** 2 - 2 * t * s, 0)))
            return y

        out.append(Entry("Log1", dict(sigma=s, delta=d), lambda s=s, d=d: px.Log1(s, d),
                         lambda x, d=d: float(np.sum(np.log(np.abs(x) + d))), xs, tt, kind="rule", rule=rule,
                         group="Log1"))
    for s, k in ((1.0, 1.0), (0.5, 2.0), (2.0, 0.25)):
        def rule(x, t, s=s, k=k):
            thr = np.sqrt(k / s * (1 + 2 * t * s))
            return np.where(np.abs(x) <= thr, x / (1 + 2 * t * s), x)

        out.append(Entry("RelaxedMumfordShah", dict(sigma=s, kappa=k),
                         lambda s=s, k=k: px.RelaxedMumfordShah(sigma=s, kappa=k),
                         lambda x, s=s, k=k: min(s * float(np.sum(np.abs(x) ** 2)), k), xs + cvecs(tier, 2), tt,
                         kind="rule", rule=rule, group="RelaxedMS",
                         scalar=lambda z, s=s, k=k: min(s * z * z, k)))
    # cardinality balls
    for r in (0, 1, 2, 3):
        out.append(Entry("L0Ball", dict(r=r), lambda r=r: px.L0Ball(r),
                         lambda x, r=r: 0.0 if np.count_nonzero(x) <= r else INF, xs[:-2] + cvecs(tier, 2), [1.0, 2.0],
                         kind="card", group="L0Ball"))
    for d, n in ((2, 2), (2, 3), (3, 2), (1, 3)):
        for r in (0, 1, 2, 3):
            out.append(Entry("L10Ball", dict(ndim=d, n=n, r=r), lambda d=d, r=r: px.L10Ball(d, r),
                             lambda x, d=d, r=r: 0.0 if np.count_nonzero(np.sum(np.abs(x.reshape(d, -1)), axis=0)) <= r else INF,
                             short(vecs("thorough", d * n), 100 if tier == "quick" else 1000), [1.0, 2.0], kind="card", group="L10Ball"))
    # quadratic envelope of the cardinality indicator
    for r0 in (1, 2, 3):
        out.append(Entry("QuadraticEnvelopeCardIndicator", dict(r0=r0),
                         lambda r0=r0: px.QuadraticEnvelopeCardIndicator(r0),
                         lambda x, r0=r0: R.ksupport_env(x, r0),
                         short(vecs(tier, 3), 300) + short(vecs(tier, 4), 80 if tier == "quick" else 400) + vecs("quick", 5)[::7],
                         tt, kind="env", group="QuadraticEnvelope"))
    return out


_CAT = {}


def catalog(tier):
    if tier not in _CAT:
        es = smooth_entries(tier) + norm_entries(tier) + proj_entries(tier) + pen_entries(tier)
        _CAT[tier] = {}
        for e in es:
            assert e.key not in _CAT[tier], e.key
            _CAT[tier][e.key] = e
    return _CAT[tier]


def xkey(x):
    return x


def rays(e, tier, n=800):
    """fine geometric sweeps (steps below 1%) through the thresholds of an operator along one or two directions"""
    cand = [x for x in e.xs if np.any(x != 0)]
    if not cand:
        return []
    out, shapes = [], set()
    rich = lambda x: (len(set(np.round(np.abs(x).ravel(), 9)) - {0.0}), np.count_nonzero(x))
    for cplx in (False, True):
        c = [x for x in cand if np.iscomplexobj(x) == cplx]
        if c:
            out.append(max(c, key=rich))
            if tier == "thorough":
                out += [x for x in c[:: max(1, len(c) // 4)]][:4]
    if e.group == "TV":
        n = 0 if tier == "quick" else 5
    elif e.light or e.iterative or e.tol > 1e-6 or e.group == "Intersection":
        n = 40
    elif e.kind == "pen":
        n = min(n, 200)
    elif e.group in ("Simplex", "L1Ball", "NuclearBall"):
        n = min(n, 250)
    s = np.geomspace(0.02, 12.0, n if tier == "quick" else 3 * n)
    return [d / np.max(np.abs(d)) * v for d in out for v in s]
