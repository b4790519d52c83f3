"""C23: compute engines, solvers and equivalent formulations of the same functional give the same answers,
for every input of a bounded space."""

import itertools
import warnings

import numpy as np
import pylops

import pyproximal as pp
from pyproximal import projection as pj
from pyproximal.optimization import primal as P
from pyproximal.projection.L0 import L01BallProj

from mc import refs as R
from mc.catalog import CMATS, MATS, lat, mop, short

ID = "C23"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "vectors of length up to 4 (matrices up to 3x3 / 2x3) over 5-9 point alphabets and their scalings by 1e-3, 1, 1e3; "
    "4 step sizes; iterative engines compared with 1e-6, bisections with 10 times their tolerance, the rest with 1e-9",
    "the cuda engine is not available here",
]
TT = [0.1, 0.5, 1.0, 3.0]
V = {1: [-3.0, -1.0, -0.5, 0.0, 0.25, 1.0, 2.0], 2: [-3.0, -1.0, -0.5, 0.0, 0.25, 1.0, 2.0],
     3: [-2.0, -0.5, 0.0, 0.75, 3.0], 4: [-2.0, 0.0, 0.5, 1.5], 6: [-1.0, 0.5, 2.0]}


def X(n, tier):
    v = lat(V[n], n)
    return v if tier == "thorough" else short(v, 130)


def pairs():
    """name -> (builders of equivalent operators, vector lengths, compare values, tolerance)"""
    d = {}
    for n, r in itertools.product((1, 2, 3, 4), (0.5, 1.0, 3.0)):
        d["simplex-%d-%g" % (n, r)] = (
            [lambda e=e, n=n, r=r: pp.Simplex(n, r, engine=e, xtol=1e-10, ftol=1e-10, maxiter=200) for e in ("numpy", "numba")],
            n, True, 1e-8, lambda x, t, r=r: R.simplex(x, r))
    for dims, ax, r in itertools.product([(2, 3), (3, 2), (2, 2), (1, 4), (4, 1)], (0, 1, -1), (1.0, 2.0)):
        n = dims[0] * dims[1]
        a = ax % 2

        def ref(x, t, dims=dims, a=a, r=r):
            return np.apply_along_axis(lambda v: R.simplex(v, r), a, x.reshape(dims)).ravel()
        d["simplex-%s-%d-%g" % (dims, ax, r)] = (
            [lambda e=e, n=n, r=r, dims=dims, ax=ax: pp.Simplex(n, r, dims=dims, axis=ax, engine=e, xtol=1e-10, ftol=1e-10, maxiter=200)
             for e in ("numpy", "numba")], n, True, 1e-8, ref)
    for mk, A in MATS.items():
        m, n = A.shape
        b = np.array([1.0, -2.0, 0.5])[:m]
        for useq, sigma in itertools.product((False, True), (0.7, 2.0)):
            q = np.array([0.5, -1.0, 2.0])[:n] if useq else None

            def l2(eng, A=A, b=b, q=q, sigma=sigma):
                kw = dict(Op=mop(A, eng not in ("legacy", "cg", "cgls")), b=b.copy(), q=None if q is None else q.copy(),
                          sigma=sigma, alpha=1.3)
                if eng in ("legacy", "cg", "cgls"):
                    return pp.L2(solver=eng, niter=80, warm=False,
                                 kwargs_solver=dict(atol=1e-14, btol=1e-14) if eng == "legacy" else dict(tol=1e-24), **kw)
                return pp.L2(densesolver=None if eng == "dense" else eng, **kw)

            def quad(ex, A=A, b=b, q=q, sigma=sigma):
                H = sigma * A.T @ A
                lin = -sigma * A.T @ b + (0 if q is None else 1.3 * q)
                return pp.Quadratic(Op=mop(H, ex), b=lin, c=sigma / 2 * float(b @ b), niter=80)

            def ref(x, t, A=A, b=b, q=q, sigma=sigma):
                return np.linalg.solve(np.eye(A.shape[1]) + t * sigma * A.T @ A,
                                       x + t * sigma * A.T @ b - (0 if q is None else 1.3 * t * q))
            bl = [lambda e=e, l2=l2: l2(e) for e in ("dense", "numpy", "scipy", "factorize", "legacy", "cg", "cgls")]
            bl += [lambda ex=ex, quad=quad: quad(ex) for ex in (True, False)]
            d["l2-%s-q%d-%g" % (mk, useq, sigma)] = (bl, n, True, 1e-6, ref)
    for s in (0.5, 1.5):
        g = np.array([0.5, -1.0])
        d["l2-id-%g" % s] = ([lambda s=s: pp.L2(b=g.copy(), sigma=s), lambda s=s: pp.L2(Op=mop(np.eye(2)), b=g.copy(), sigma=s),
                              lambda s=s: s * pp.L2(b=g.copy()), lambda s=s: pp.L2(sigma=s).precomposition(1.0, -g),
                              lambda s=s: pp.L2Convolve(np.array([1.0]), g.copy(), nfft=2, sigma=s)], 2, True, 1e-7, None)
        d["l1-%g" % s] = ([lambda s=s: pp.L1(s), lambda s=s: pp.L21(ndim=1, sigma=s), lambda s=s: pp.L1(s, g=np.zeros(3)),
                           lambda s=s: pp.L21_plus_L1(sigma=s, rho=1.0) if False else pp.L1(s),
                           lambda s=s: s * pp.L1(1.0), lambda s=s: pp.VStack([pp.L1(s)] * 2, nn=[1, 2]),
                           lambda s=s: pp.Orthogonal(pp.L1(s), mop(np.eye(3)[[2, 0, 1]]))], 3, True, 1e-9,
                          lambda x, t, s=s: R.soft(x, t * s))
        d["l1g-%g" % s] = ([lambda s=s: pp.L1(s, g=np.array([0.5, -1.0])),
                            lambda s=s: pp.L1(s).precomposition(1.0, np.array([-0.5, 1.0]))], 2, True, 1e-9, None)
        d["euc-%g" % s] = ([lambda s=s: pp.Euclidean(s), lambda s=s: pp.L21(ndim=3, sigma=s), lambda s=s: s * pp.Euclidean(1.0)],
                           3, True, 1e-9, lambda x, t, s=s: R.shrink_group(x, t * s))
        d["euc-huber-%g" % s] = ([lambda s=s: pp.Huber(s), lambda s=s: pp.HuberCircular(s)], 1, True, 1e-9,
                                 lambda x, t, s=s: R.huber_prox(x, s, t))
        d["ball1-%g" % s] = ([lambda s=s: pp.Box(-s, s), lambda s=s: pp.L1Ball(1, s, xtol=1e-11), lambda s=s: pp.EuclideanBall(np.zeros(1), s),
                              lambda s=s: pp.NuclearBall((1, 1), s, xtol=1e-11)], 1, False, 1e-8, lambda x, t, s=s: np.clip(x, -s, s))
        d["l1ball-diag-%g" % s] = ([lambda s=s: Diag(pp.NuclearBall((2, 2), s, xtol=1e-11)), lambda s=s: pp.L1Ball(2, s, xtol=1e-11)], 2, False, 1e-7,
                                   lambda x, t, s=s: R.l1ball(x, s))
        d["nuc-diag-%g" % s] = ([lambda s=s: Diag(pp.Nuclear((2, 2), s)), lambda s=s: pp.L1(s),
                                 lambda s=s: Diag(pp.SingularValuePenalty((2, 2), pp.L1(s)))], 2, True, 1e-8,
                                lambda x, t, s=s: R.soft(x, t * s))
        w = np.array([1.0, 2.0])
        d["half-%g" % s] = ([lambda s=s: pp.HalfSpace(w.copy(), s), lambda s=s: pp.GenericIntersectionProx([pj.HalfSpaceProj(w.copy(), s)])],
                            2, True, 1e-9, lambda x, t, s=s: x - w * max(0.0, (w @ x - s)) / 5.0)
        d["hyper-%g" % s] = ([lambda s=s: pp.AffineSet(mop(w[None, :]), np.array([s]), 30),
                              lambda s=s: ProjOp(pj.HyperPlaneBoxProj(w.copy(), s, xtol=1e-11)),
                              lambda s=s: pp.GenericIntersectionProx([pj.HalfSpaceProj(w.copy(), s), pj.HalfSpaceProj(-w, -s)], tol=1e-12)],
                             2, False, 1e-7, lambda x, t, s=s: x - w * (w @ x - s) / 5.0)
    for r in (0, 1, 2):
        d["l01ball-%d" % r] = ([lambda r=r: pp.L10Ball(2, r), lambda r=r: old(pp.L01Ball, 2, r), lambda r=r: old(pp.L01Ball, ndim=2, radius=r),
                                lambda r=r: Rows(pj.L10BallProj(r)), lambda r=r: Rows(old(L01BallProj, r)),
                                lambda r=r: Rows(old(L01BallProj, radius=r))], 4, False, 1e-12, None)
        d["l0ball-%d" % r] = ([lambda r=r: pp.L0Ball(r), lambda r=r: pp.L10Ball(1, r)], 3, False, 1e-12, None)
    d["box-int"] = ([lambda: pp.Box(-0.5, 1.0), lambda: pp.Box(np.full(3, -0.5), np.full(3, 1.0)),
                     lambda: pp.Box(np.full(3, -0.5), 1.0),
                     lambda: pp.GenericIntersectionProx([pj.BoxProj(-0.5, np.inf), pj.BoxProj(-np.inf, 1.0)], tol=1e-12),
                     lambda: pp.Sum([pp.Box(-0.5, np.inf), pp.Box(-np.inf, 1.0)], tol=1e-12)],
                    3, True, 1e-9, lambda x, t: np.clip(x, -0.5, 1.0))
    d["sum-l1"] = ([lambda: pp.Sum([pp.L1(0.5), pp.L1(0.25)], tol=1e-12), lambda: pp.L1(0.75),
                    lambda: pp.Sum([pp.L1(0.5), pp.L1(0.25)], use_parallel=True, tol=1e-12, niter=5000),
                    lambda: pp.Sum([pp.L1(0.75)])], 2, True, 1e-6, lambda x, t: R.soft(x, 0.75 * t))
    d["l21l1"] = ([lambda: Cols(pp.L21_plus_L1(sigma=0.8, rho=1.0), (2, 2)), lambda: pp.L1(0.8)], 4, True, 1e-9,
                  lambda x, t: R.soft(x, 0.8 * t))
    d["l21l1b"] = ([lambda: Cols(pp.L21_plus_L1(sigma=0.8, rho=0.0), (2, 2)), lambda: pp.L21(ndim=2, sigma=0.8)], 4, True, 1e-9, None)
    d["svp-log"] = ([lambda: Diag(pp.SingularValuePenalty((2, 2), pp.Log(0.5, 1.3))), lambda: pp.Log(0.5, 1.3)], 2, True, 1e-8, None)
    d["tv-1"] = ([lambda: pp.TV((2,), sigma=0.7, niter=400, rtol=1e-14), lambda: pp.TV((2, 1), sigma=0.7, niter=400, rtol=1e-14),
                  lambda: pp.TV((1, 2), sigma=0.7, niter=400, rtol=1e-14)], 2, True, 1e-4, None)
    return d


def old(make, *a, **k):
    """Construct through a name kept for older programs: the same object, announced by a FutureWarning."""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        o = make(*a, **k)
    if not any(issubclass(v.category, FutureWarning) for v in w):
        raise AssertionError("no FutureWarning from the deprecated %s" % make.__name__)
    return o


class Rows(pp.ProxOperator):
    def __init__(self, p):
        super().__init__(None, False)
        self.p = p

    def prox(self, x, tau):
        return np.asarray(self.p(x.reshape(2, -1).copy())).ravel()


class Cols(pp.ProxOperator):
    def __init__(self, op, dims):
        super().__init__(None, False)
        self.op, self.dims = op, dims

    def __call__(self, x):
        return self.op(x.reshape(self.dims))

    def prox(self, x, tau):
        return self.op.prox(x.reshape(self.dims), tau).ravel()


class Diag(pp.ProxOperator):
    """Restriction of a matrix functional to diagonal matrices."""

    def __init__(self, op):
        super().__init__(None, False)
        self.op = op

    def __call__(self, x):
        return self.op(np.diag(x).ravel())

    def prox(self, x, tau):
        Y = self.op.prox(np.diag(x).ravel(), tau).reshape(x.size, x.size)
        assert np.allclose(Y, np.diag(np.diag(Y)), atol=1e-7)
        return np.diag(Y)


class ProjOp(pp.ProxOperator):
    def __init__(self, p):
        super().__init__(None, False)
        self.p = p

    def __call__(self, x):
        return True

    def prox(self, x, tau):
        return self.p(x)


def cases(tier):
    out = [[tier, "pair", k] for k in pairs()]
    for mk in list(CMATS) + list(MATS):
        out.append([tier, "cl2", mk])
    out += [[tier, "simplex-scale", n] for n in (1, 2, 3)]
    out += [[tier, "simplex-rows", n] for n in (2, 3)]
    out += [[tier, "apg", a] for a in ("vandenberghe", "fista", None)]
    return out


def run(case, r):
    tier, mode, k = case
    if mode == "pair":
        bl, n, vals, tol, ref = pairs()[k]
        ops = [b() for b in bl]
        for x in X(n, tier):
            vs = []
            if vals:
                for o in ops:
                    try:
                        vs.append(o(x.copy()))
                    except NotImplementedError:
                        vs.append(None)
                vv = [float(v) for v in vs if v is not None]
                r.trans(len(vv))
                if k.startswith("simplex") and k.count("("):
                    vv = vv[:2]
                r.check(max(vv) - min(vv) <= 1e-7 * (1 + max(map(abs, vv))), "value|" + k, "equivalent formulations give different values",
                        x=x, values=vv)
            for t in TT:
                ys = [np.asarray(o.prox(x.copy(), t)) for o in ops]
                base = ref(x, t) if ref is not None else ys[0]
                r.state(k, x, t), r.trans(len(ys)), r.trace(), r.outcome(k, base)
                for i, y in enumerate(ys):
                    r.check(y.shape == base.shape and np.max(np.abs(y - base)) <= tol * (1 + np.max(np.abs(base))),
                            "prox|%s|%d" % (k, i), "formulation %d of %s disagrees" % (i, k), x=x, tau=t, got=y, want=base)
            # gradients, where the operators have one
            if k.startswith("l2-"):
                gs = [np.asarray(o.grad(x.copy())) for o in ops if o.hasgrad and not isinstance(o, pp.L2Convolve)]
                r.trans(len(gs))
                for g in gs:
                    r.check(np.max(np.abs(g - gs[0])) <= 1e-9 * (1 + np.max(np.abs(gs[0]))), "grad|" + k, "gradients disagree", x=x,
                            got=g, want=gs[0])
    elif mode == "cl2":
        A = CMATS[k] if k in CMATS else MATS[k]
        m, n = A.shape
        b = np.array([1.0 + 1j, -2.0j, 0.5])[:m]
        if k not in CMATS:
            # a real operator: complex data and vectors
            b = b if len(k) % 2 else b.real
        for x in short(lat([0.0, 1.0, -0.5j, 1.5 - 2j], n, complex), 16):
            for t in TT:
                want = np.linalg.solve(np.eye(n) + t * 0.7 * A.conj().T @ A, x + t * 0.7 * A.conj().T @ b)
                for eng in ("dense", "numpy", "scipy", "factorize", "legacy", "cg", "cgls"):
                    Op = pylops.MatrixMult(A.copy(), dtype=complex if k in CMATS or eng in ("legacy", "cg", "cgls") else float)
                    if eng in ("legacy", "cg", "cgls"):
                        Op.explicit = False
                        o = pp.L2(Op=Op, b=b.copy(), sigma=0.7, solver=eng, niter=80, warm=False,
                                  kwargs_solver=dict(atol=1e-14, btol=1e-14) if eng == "legacy" else dict(tol=1e-24))
                    else:
                        o = pp.L2(Op=Op, b=b.copy(), sigma=0.7, densesolver=None if eng == "dense" else eng)
                    y = o.prox(x.copy(), t)
                    g = o.grad(x.copy())
                    r.state(k, x, t, eng), r.trans(2), r.trace(), r.outcome(y)
                    r.check(np.max(np.abs(y - want)) <= 1e-6, "cl2|%s|%s" % (k, eng), "complex L2 prox wrong", x=x, tau=t, got=y, want=want)
                    gw = 0.7 * A.conj().T @ (A @ x - b)
                    r.check(np.max(np.abs(g - gw)) <= 1e-9, "cl2grad|%s|%s" % (k, eng), "complex L2 gradient wrong", x=x, got=g, want=gw)
    elif mode == "apg":
        apg(tier, k, r)
    elif mode == "simplex-rows":
        # one problem per row (or column), all of them large, and one large among small ones
        for sc, rad, ax in itertools.product((1e-3, 1.0, 1e3, 1e5, 1e7, 1e9), (0.5, 100.0), (0, 1)):
            for x, y in zip(X(k, tier)[::3], X(k, tier)[1::3]):
                for M in (np.array([x * sc, y]), np.array([x, y * sc]), np.array([x, y]) * sc):
                    want = np.array([R.simplex(v, rad) for v in M])
                    M, want = (M, want) if ax else (np.ascontiguousarray(M.T), want.T)
                    got = [np.asarray(pp.Simplex(M.size, rad, dims=M.shape, axis=ax, engine=e).prox(M.ravel().copy(), 1.0)).reshape(M.shape) for e in ("numpy", "numba")]
                    r.state(k, sc, rad, ax, M), r.trans(2), r.trace(), r.outcome(*got)
                    for e, g in zip(("numpy", "numba"), got):
                        r.check(np.max(np.abs(g - want)) <= 1e-6 + 1e-14 * sc, "simplex-rows|%s" % e, "Simplex along an axis inaccurate", x=M, axis=ax, r=rad, got=g, want=want)
    else:
        n = k
        for sc, rad in itertools.product((1e-3, 1.0, 1e3, 1e5, 1e7, 1e9), (0.5, 2.0, 100.0)):
            for x in X(n, tier):
                x = x * sc
                want = R.simplex(x, rad)
                for e in ("numpy", "numba"):
                    o = pp.Simplex(n, rad, engine=e)
                    y = o.prox(x.copy(), 1.0)
                    r.state(n, sc, rad, x, e), r.trans(), r.trace(), r.outcome(y)
                    r.check(np.max(np.abs(y - want)) <= 1e-6 + 1e-14 * sc, "simplex-scale|%s" % e, "default Simplex inaccurate", x=x, r=rad, got=y, want=want)
                    # views: a strided vector gives the same answer
                    big = np.zeros(2 * n)
                    big[::2] = x
                    y2 = o.prox(big[::2], 1.0)
                    r.check(np.max(np.abs(y2 - want)) <= 1e-6 + 1e-14 * sc, "simplex-view|%s" % e, "strided input changes the answer", x=x, got=y2, want=want)


class Rec(pp.L1):
    """records every step size it is given"""

    def prox(self, x, tau):
        self.seen.append(np.array(tau, dtype=float))
        return super().prox(x, tau)


def apg(tier, acc, r):
    """the deprecated solver is the current one: same calls, same results for every choice of options"""
    A = np.array([[30.0, 1.0], [0.0, 2.0]])
    b = np.array([1.0, -2.0])
    opts = dict(tau=[None, 1e-3], beta=[0.5, 0.1], epsg=[1.0, 0.3], niter=[1, 5], niterback=[1, 3, 100], tol=[None, 1e-2])
    for vals in itertools.product(*opts.values()):
        kw = dict(zip(opts, vals))
        if acc is not None:
            kw["acceleration"] = acc
        res = []
        for old_ in (True, False):
            f, g, xs = pp.L2(Op=mop(A), b=b.copy()), Rec(0.1), []
            g.seen = []
            k2 = dict(kw, callback=lambda v: xs.append(v.copy()))
            if old_:
                x = old(P.AcceleratedProximalGradient, f, g, np.ones(2), **k2)
            else:
                x = P.ProximalGradient(f, g, np.ones(2), **dict(dict(acceleration="vandenberghe"), **k2))
            res.append((x, xs, g.seen))
        (x, xs, s), (x2, xs2, s2) = res
        r.state(acc, vals), r.trans(2), r.trace(), r.outcome(x, len(xs))
        same = len(xs) == len(xs2) and len(s) == len(s2) and np.array_equal(x, x2) and all(map(np.array_equal, xs, xs2)) and all(map(np.array_equal, s, s2))
        r.check(same, "apg|%s" % acc, "the deprecated solver does not run as the current one with the same options", options=str(kw), got=[x, len(xs), len(s)], want=[x2, len(xs2), len(s2)])
