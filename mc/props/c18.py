"""C18: solver runs are pure, deterministic, silent/verbose independent and prefix consistent.

Every configuration is a closed transition system: the run of length n is one path, and the runs of all
lengths 1..n must be its prefixes, whatever is printed, observed or run before."""

import contextlib
import io
import itertools

import numpy as np
import pylops

import pyproximal as pp
from pyproximal.optimization import palm as PL
from pyproximal.optimization import primal as P
from pyproximal.optimization import primaldual as PD
from pyproximal.optimization.bregman import Bregman
from pyproximal.optimization.pnp import PlugAndPlay
from pyproximal.optimization.segmentation import Segment
from pyproximal.optimization.sr3 import SR3
from pyproximal.utils.bilinear import LowRankFactorizedMatrix

ID = "C18"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "one to four unknowns per problem, library operators (without warm start, where runs may depend on the past), real and complex",
    "run lengths 1..12 (quick) / 1..25 and 101 (thorough); results compared bit by bit",
]

A = np.array([[1.0, 2.0, 0.0], [0.0, 1.0, -0.5], [1.0, -1.0, 0.3], [0.2, 0.0, 1.0]])
AC = A + 0.3j * A[::-1]
D = np.array([[-1.0, 1.0, 0.0], [0.0, -1.0, 1.0]])
B = np.array([1.0, -2.0, 0.5, 0.8])


def mm(M):
    return pylops.MatrixMult(M, dtype=M.dtype)


class Env:
    """The caller's objects: everything kept here must come out of a run as it went in."""

    def __init__(self, cplx, start):
        c = (1 + 0.5j) if cplx else 1.0
        self.A = (AC if cplx else A).copy()
        self.D = D.astype(self.A.dtype)
        self.b = B * c
        self.x0 = [np.zeros(3), np.array([1.0, -2.0, 0.25]), np.array([0.0, 3.0, -1.0])][start] * c
        self.z0 = np.array([0.5, 0.5, -1.0]) * c
        self.zd = np.array([0.5, -0.75]) * c
        self.zlin = np.array([0.1, -0.2, 0.3]) * c
        self.xs = [self.x0 + i for i in range(2)]
        self.x2 = np.stack([self.x0, self.z0])
        self.taus = np.linspace(0.05, 0.1, 200)
        self.w = np.array([0.4, 0.6])
        self.L = float(np.linalg.norm(self.A, 2) ** 2)
        self.f2 = pp.L2(Op=mm(self.A), b=self.b, warm=False)
        self.fid = pp.L2(b=self.z0, sigma=0.7)
        self.l1 = pp.L1(sigma=0.3)
        self.l2 = pp.Euclidean(sigma=0.5)
        self.box = pp.EuclideanBall(center=self.z0 * 0, radius=1.5)
        self.aff = pp.AffineSet(mm(self.D), self.zd, niter=20)
        self.M0 = self.b.copy()
        self.X0, self.Y0 = self.x0[:2].copy() + 0.1, np.array([0.4, 1.0]) * c
        self.yimg = np.array([[0.0, 1.0], [0.9, 2.0], [0.1, 1.9]])
        self.cl = np.array([0.0, 1.0, 2.0])
        self.ks = {"xtol": 1e-9}
        self.km = {"maxiter": 60, "call": False}
        self.lists()

    def lists(self):
        """the lists of operators handed to solvers; to be made again when an operator is replaced"""
        self.two, self.three, self.four = [self.f2, self.l1], [self.f2, self.l1, self.fid], ([self.f2, self.fid], [self.l1, self.box])

    def snapshot(self):
        out = []

        def walk(path, v):
            if isinstance(v, np.ndarray):
                out.append((path, v.dtype, v.shape, v.tobytes()))
            elif isinstance(v, (list, tuple, dict)):
                for i, w in sorted(v.items()) if isinstance(v, dict) else enumerate(v):
                    walk("%s[%s]" % (path, i), w)
                out.append((path, len(v)))
            elif "[" in path:
                out.append((path, repr(v) if isinstance(v, (bool, int, float, str, type(None))) else id(v)))

        for k in sorted(self.__dict__):
            walk(k, self.__dict__[k])
        return out


def pg(**kw):
    def go(e, n, **o):
        kk = {k: (v(e, n) if callable(v) else v) for k, v in kw.items()}
        return P.ProximalGradient(e.f2, e.l1, e.x0, niter=n, **kk, **o)
    return go


CONF = {
    "pp": lambda e, n, **o: P.ProximalPoint(e.l2, e.x0, 0.4, niter=n, **o),
    "pptol": lambda e, n, **o: P.ProximalPoint(e.l1, e.x0, 0.4, niter=n, tol=1e-3, **o),
    "pg": pg(tau=lambda e, n: 0.9 / e.L),
    "pgtol": pg(tau=lambda e, n: 0.9 / e.L, tol=1e-2),
    "pgbt": pg(tau=1.0, backtracking=True),
    "pgnone": pg(),
    "pgeta": pg(tau=lambda e, n: 0.9 / e.L, eta=0.7),
    "pgfista": pg(tau=lambda e, n: 0.9 / e.L, acceleration="fista"),
    "pgvand": pg(tau=1.0, backtracking=True, acceleration="vandenberghe"),
    "pgeps": pg(tau=lambda e, n: 0.9 / e.L, epsg=lambda e, n: e.taus[:n] if n > 1 else e.taus[0]),
    "pgtauv": pg(tau=lambda e, n: e.taus[:3]),
    "apgtauv": lambda e, n, **o: P.AcceleratedProximalGradient(e.f2, e.l1, e.x0, tau=e.taus[:3], niter=n, **o),
    "aatauv": lambda e, n, **o: P.AndersonProximalGradient(e.f2, e.l1, e.x0, tau=e.taus[:3], niter=n, nhistory=2, **o),
    "apg": lambda e, n, **o: P.AcceleratedProximalGradient(e.f2, e.l1, e.x0, tau=0.9 / e.L, niter=n, **o),
    "aa": lambda e, n, **o: P.AndersonProximalGradient(e.f2, e.l1, e.x0, tau=0.9 / e.L, niter=n, nhistory=3, **o),
    "aasafe": lambda e, n, **o: P.AndersonProximalGradient(e.f2, e.l1, e.x0, tau=0.9 / e.L, niter=n, safeguard=True, tol=1e-3, **o),
    "gpg": lambda e, n, **o: P.GeneralizedProximalGradient(*e.four, e.x0, 0.5 / e.L, niter=n, weights=e.w, **o),
    "gpgacc": lambda e, n, **o: P.GeneralizedProximalGradient([e.f2], [e.l1, e.l2], e.x0, 0.5 / e.L, epsg=np.array([1.0, 0.5]), niter=n,
                                                              acceleration="fista", **o),
    "hqs": lambda e, n, **o: P.HQS(e.f2, e.l1, e.x0, 0.4, niter=n, z0=e.z0, callbackz=True, **o),
    "hqsv": lambda e, n, **o: P.HQS(e.f2, e.l1, e.x0, e.taus[:n], niter=n, gfirst=False, callbackz=True, **o),
    "admm": lambda e, n, **o: P.ADMM(e.f2, e.l1, e.x0, 0.4, niter=n, z0=e.z0, callbackz=True, **o),
    "admmg": lambda e, n, **o: P.ADMM(e.fid, e.box, e.x0, 0.4, niter=n, gfirst=True, callbackz=True, **o),
    "admmz": lambda e, n, **o: P.ADMM(e.fid, e.aff, None, 0.4, niter=n, z0=e.z0, callbackz=True, **o),
    "admml2": lambda e, n, **o: P.ADMML2(e.l1, mm(e.A), e.b, mm(e.D), e.x0, 0.4, niter=n, z0=e.zd, iter_lim=10, **o),
    "admml2g": lambda e, n, **o: P.ADMML2(e.l1, mm(e.A), e.b, mm(e.D), e.x0, 0.4, niter=n, gfirst=True, **o),
    "ladmm": lambda e, n, **o: P.LinearizedADMM(e.f2, e.l1, mm(e.D), e.x0, 0.4, 0.05, niter=n, z0=e.zd, **o),
    "twist": lambda e, n, **o: P.TwIST(e.l1, mm(e.A / 4), e.b, e.x0, eigs=(e.L / 16, 0.01), niter=n, returncost=False, **o),
    "twistc": lambda e, n, **o: P.TwIST(e.l1, mm(e.A / 4), e.b, e.x0, alpha=1.1, beta=0.9, niter=n, returncost=True, **o)[0],
    "dr": lambda e, n, **o: P.DouglasRachfordSplitting(e.f2, e.l1, e.x0, 0.4, eta=0.8, niter=n, callbacky=True, **o),
    "drf": lambda e, n, **o: P.DouglasRachfordSplitting(e.box, e.l1, e.x0, 0.4, niter=n, gfirst=False, callbacky=True, **o),
    "ppxa": lambda e, n, **o: P.PPXA(e.two, e.x0, 0.4, eta=0.9, weights=e.w, niter=n, tol=0.0, **o),
    "ppxal": lambda e, n, **o: P.PPXA([e.fid, e.box], e.xs, 0.4, niter=n, tol=None, **o),
    "ppxa2": lambda e, n, **o: P.PPXA(e.two, e.x2, 0.4, eta=1.2, niter=n, tol=0.0, **o),
    "cons": lambda e, n, **o: P.ConsensusADMM(e.three, e.x0, 0.4, niter=n, tol=0.0, **o),
    "constol": lambda e, n, **o: P.ConsensusADMM(e.two, e.x0, 0.4, niter=n, tol=1e-2, **o),
    "pd": lambda e, n, **o: PD.PrimalDual(e.f2, e.l1, mm(e.D), e.x0, 0.2, 0.3, y0=e.zd, z=e.zlin, niter=n, callbacky=True, returny=True, **o),
    "pdx": lambda e, n, **o: PD.PrimalDual(e.box, e.l2, mm(e.D), e.x0, e.taus[:n], e.taus[:n], gfirst=False, theta=0.5, niter=n, **o),
    "apd": lambda e, n, **o: PD.AdaptivePrimalDual(e.f2, e.l1, mm(e.D), e.x0, 0.5, 0.05, z=e.zlin, niter=n, tol=0.0, **o)[0],
    "palm": lambda e, n, **o: PL.PALM(LowRankFactorizedMatrix(e.X0[:, None], e.Y0[None, :], e.M0), e.l1, e.l1, e.X0, e.Y0, niter=n, **o),
    "palmbt": lambda e, n, **o: PL.PALM(LowRankFactorizedMatrix(e.X0[:, None], e.Y0[None, :], e.M0), None, e.l1, e.X0, e.Y0,
                                        gammaf=None, gammag=None, niter=n, **o),
    "ipalm": lambda e, n, **o: PL.iPALM(LowRankFactorizedMatrix(e.X0[:, None], e.Y0[None, :], e.M0), e.l2, None, e.X0, e.Y0, a=(0.5, 0.3), niter=n, **o),
    "ipalmbt": lambda e, n, **o: PL.iPALM(LowRankFactorizedMatrix(e.X0[:, None], e.Y0[None, :], e.M0), e.l2, e.l1, e.X0, e.Y0,
                                          gammaf=None, gammag=1.5, niter=n, **o),
    "breg": lambda e, n, **o: Bregman(e.f2, e.l1, e.x0, P.ProximalGradient, alpha=0.5, niterouter=n, tolx=-1, tolf=-1e9,
                                      tau=0.9 / e.L, niter=3, **breg(o)),
    "bregw": lambda e, n, **o: Bregman(e.fid, e.l1, e.x0, P.ADMM, alpha=2, niterouter=n, warm=True, tau=0.4, niter=3, **breg(o)),
    "bregA": lambda e, n, **o: Bregman(e.f2, e.l1, e.x0, P.LinearizedADMM, A=mm(e.D), niterouter=n, warm=True, tau=0.4, mu=0.05,
                                       niter=3, **breg(o)),
    "pnp": lambda e, n, **o: PlugAndPlay(e.f2, lambda v, t: v / (1 + t), (3, 1), e.x0, tau=0.4, niter=n, callbackz=True, **o),
    "pnppd": lambda e, n, **o: PlugAndPlay(e.f2, lambda v, t: v / (1 + t), (3,), e.x0, solver=PD.PrimalDual, A=pylops.Identity(3, dtype=e.x0.dtype),
                                           tau=0.2, mu=0.3, niter=n, **o),
    "seg": lambda e, n, **o: Segment(e.yimg, e.cl, 1.0, 0.3, niter=n, **o)[0].T.ravel(),
    "segk": lambda e, n, **o: Segment(e.yimg, e.cl, 1.0, 0.3, niter=n, kwargs_simplex=e.ks, **o)[0].T.ravel(),
    "segm": lambda e, n, **o: Segment(e.yimg, e.cl, 1.0, 0.3, niter=n, kwargs_simplex=e.km, **o)[0].T.ravel(),
    "sr3": lambda e, n, **o: SR3(mm(e.A), mm(e.D), e.b, 1.0, 0.2, x0=e.x0, iter_lim_outer=n),
    "sr3l": lambda e, n, **o: SR3(mm(e.A), mm(e.D), e.b, 1.0, 0.2, adaptive=False, iter_lim_outer=n),
}
REAL = ("seg", "segk", "segm", "sr3", "sr3l")
NOCB = ("sr3", "sr3l")


def breg(o):
    return {("bregcallback" if k == "callback" else k): v for k, v in o.items()}


def cases(tier):
    n = 12 if tier == "quick" else 25
    return [[s, c, st, n] for s in CONF for c in (0, 1) for st in range(3) if not (c and s in REAL)]


def flat(v):
    return tuple(np.array(w) for w in (v if isinstance(v, tuple) else (v,)))


def same(a, b):
    return len(a) == len(b) and all(u.shape == v.shape and u.dtype == v.dtype and np.array_equal(u, v, equal_nan=True) for u, v in zip(a, b))


def run(case, r):
    name, cplx, st, n = case
    f = CONF[name]
    d = "%s %s start=%d" % (name, "complex" if cplx else "real", st)

    def go(e, k, show, cb):
        o, hist = {}, []
        if cb:
            o["callback"] = lambda *v: hist.append(tuple(np.array(w) for w in v))
        if name in NOCB:
            return flat(f(e, k)), None
        if show:
            o["show"] = True
        buf = io.StringIO()
        before = e.snapshot()
        with contextlib.redirect_stdout(buf):
            res = flat(f(e, k, **o))
        after = e.snapshot()
        bad = [a[0] for a, b in zip(before, after) if a != b]
        r.check(before == after, "mut|" + name, "%s niter=%d show=%s: the caller's %s changed" % (d, k, show, bad))
        r.check(show or buf.getvalue() == "", "silent|" + name, "%s: prints although show is off" % d)
        r.check(not show or buf.getvalue() != "", "verbose|" + name, "%s: prints nothing although show is on" % d)
        return res, hist

    full, hist = go(Env(cplx, st), n, False, True)
    ks = list(range(1, n + 1)) + ([101] if n > 12 else [])
    e = Env(cplx, st)
    for k in ks:
        for show, cb, fresh in itertools.product((False, True), (False, True), (True, False)):
            if name in NOCB and (show or cb):
                continue
            res, h = go(Env(cplx, st) if fresh else e, k, show, cb)
            r.state(name, cplx, st, k, show, cb, fresh)
            r.trans()
            r.outcome(*res)
            dd = "%s niter=%d show=%s callback=%s %s" % (d, k, show, cb, "fresh" if fresh else "operators used before")
            if hist is None:
                if k == n:
                    r.check(same(res, full), "det|" + name, dd + ": result differs between runs")
                continue
            if k > n:
                if cb:
                    r.check(same_prefix(h, hist), "prefix|" + name, dd + ": a longer run takes different steps")
                continue
            want = hist[min(k, len(hist)) - 1]
            # results may list more (or fewer) vectors than the callback shows
            m = min(len(res), len(want))
            r.check(same(res[:m], want[:m]), "prefix|" + name, "%s: result %s is not iterate %d of the longer run %s" % (dd, res[:m], k, want[:m]))
            if cb:
                r.check(len(h) == min(k, len(hist)) and same_prefix(hist, h), "cb|" + name,
                        dd + ": callback saw %d iterates, or different ones" % len(h))
            r.trace()


def same_prefix(long, short):
    return len(long) >= len(short) and all(same(a, b) for a, b in zip(long, short))
