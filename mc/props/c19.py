"""C19: solvers converge to the optimum of the problem they state, and stay there when started there.

Problems are generated from their solution: for every point x* of a lattice and every choice of a subgradient
y* of g at K x* (faces, corners, interiors), the data b is computed so that x* is the unique optimum."""

import itertools

import numpy as np
import pylops

import pyproximal as pp
from pyproximal.optimization import palm as PL
from pyproximal.optimization import primal as P
from pyproximal.optimization import primaldual as PD
from pyproximal.optimization.bregman import Bregman
from pyproximal.optimization.pnp import PlugAndPlay
from pyproximal.utils.bilinear import LowRankFactorizedMatrix

ID = "C19"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "strongly convex data terms with two (thorough: also three) unknowns, five families of regularisers, four maps K, real and complex; "
    "step sizes admissible for the solver; a fixed number of iterations after which the error must be below 1e-4",
    "library operators throughout (so a defect in an operator shows here as well)",
]

TOL = 1e-4
AS = {
    "A": np.array([[1.0, 0.5], [-0.3, 0.8]]), "T": np.array([[1.0, 0.2], [0.0, 0.7], [0.5, -0.5]]),
    "C": np.array([[1.0, 0.5j], [-0.3, 0.8 + 0.2j]]), "3": np.array([[1.0, 0.5, 0.0], [-0.3, 0.8, 0.2], [0.0, 0.1, 1.1]]),
}
KS = {
    "I2": np.eye(2), "D2": np.array([[-1.0, 1.0]]), "H2": np.array([[1.0, 0.0], [0.5, 1.0], [1.0, -1.0]]),
    "S2": np.array([[2.0, 0.5], [0.0, -1.0]]), "C2": np.array([[1.0, 0.5j], [0.3, -1.0]]), "I3": np.eye(3),
    "D3": np.array([[-1.0, 1.0, 0.0], [0.0, -1.0, 1.0]]),
}
STEPS = [-0.6, 0.0, 1.0]


def subgrads(gn, u):
    """(operator, list of subgradients at u) for a function with u in its domain."""
    cplx = np.iscomplexobj(u)
    if gn == "l1":
        s = 0.4
        opts = []
        for v in u:
            a = abs(v)
            opts.append([s * v / a] if a > 1e-12 else ([0.0, s * 0.6j, -s] if cplx else [0.0, s * 0.5, -s]))
        return (lambda: pp.L1(sigma=s)), [np.array(t) for t in itertools.product(*opts)]
    if gn == "euc":
        s = 0.7
        nu = np.linalg.norm(u)
        if nu > 1e-12:
            ys = [s * u / nu]
        else:
            e = np.ones(u.size, u.dtype) / np.sqrt(u.size)
            ys = [0 * e, s * 0.5 * e, -s * e]
        return (lambda: pp.Euclidean(sigma=s)), ys
    if gn == "ball":
        rad = max(np.linalg.norm(u), 0.25)
        ys = [0 * u]
        if np.linalg.norm(u) >= 0.25:
            ys += [0.5 * u, 1.5 * u]
        return (lambda: pp.EuclideanBall(center=np.zeros(u.size), radius=rad)), ys
    if gn == "box":
        lo, hi = u.min(), max(u.max(), u.min() + 0.5)
        opts = [[0.0, -0.8] if v == lo else ([0.0, 0.6] if v == hi else [0.0]) for v in u]
        return (lambda: pp.Box(lo, hi)), [np.array(t) for t in itertools.product(*opts)]
    if gn == "l2":
        c = np.array([0.5, -1.0, 0.25, 1.0])[: u.size]
        return (lambda: pp.L2(b=c, sigma=0.6)), [0.6 * (u - c)]
    if gn == "hub":
        return (lambda: pp.Huber(alpha=0.5)), [np.where(np.abs(u) <= 0.5, u / 0.5, np.sign(u))]
    raise ValueError(gn)


def lattice(n, cplx):
    pts = [np.array(t) for t in itertools.product(STEPS, repeat=n)]
    if cplx:
        pts = [p + 1j * np.roll(p, 1) * s for p in pts for s in (0.0, 1.0)]
    return pts


def data(A, x, w):
    """b with A^H (A x - b) + w = 0."""
    return A @ x + A @ np.linalg.solve(A.conj().T @ A, w)


def mm(M):
    return pylops.MatrixMult(M, dtype=M.dtype)


def l2(A, b):
    return pp.L2(Op=mm(A), b=b, niter=60, warm=False)


PAIRS = [("A", "I2"), ("T", "I2"), ("A", "D2"), ("T", "H2"), ("A", "S2"), ("C", "I2"), ("C", "C2")]
PAIRS3 = [("3", "I3"), ("3", "D3")]


def cases(tier):
    th = tier == "thorough"
    out = []
    for (a, k), g in itertools.product(PAIRS + (PAIRS3 if th else []), ("l1", "euc", "ball", "box", "l2", "hub")):
        cplx = a == "C"
        if cplx and g in ("box", "hub"):
            continue
        n = int(k[1])
        pts = lattice(n, cplx)
        if not th:
            pts = pts[:: (1 if not cplx else 2)]
        for i in range(len(pts)):
            if not th and (i + len(g)) % 4:
                continue
            for solver in (SPLIT if k[0] == "I" else COMP):
                if solver in ("sumI",) or solver.startswith("multi"):
                    continue
                out.append([solver, a, k, g, i, cplx])
    for solver in MULTI:
        for i in range(9):
            out.append([solver, "A", "I2", "multi", i, False])
    return out


# a solver entry: function(problem) -> list of (label, x, reference) ; `stay` runs are marked separately
class Pb:
    def __init__(self, A, K, gf, x, y):
        self.A, self.K, self.gf, self.x, self.y = A, K, gf, x, y
        self.b = data(A, x, K.conj().T @ y)
        self.L = float(np.linalg.norm(A, 2) ** 2)
        self.LK = float(np.linalg.norm(K, 2) ** 2)
        self.starts = [0 * x, x * 0.3 + 1.7, -x - 0.4 * (1j if np.iscomplexobj(x) else 1)]

    def f(self):
        return l2(self.A, self.b)

    def g(self):
        return self.gf()


def it(n):
    return dict(niter=n)


def s_pg(p, x0, n, **kw):
    return P.ProximalGradient(p.f(), p.g(), x0, niter=n, **kw)


SPLIT = {
    "pg": lambda p, x0, n=400: s_pg(p, x0, n, tau=1.0 / p.L),
    "pgbt": lambda p, x0, n=400: s_pg(p, x0, n, tau=3.0, backtracking=True, beta=0.6),
    "pgnone": lambda p, x0, n=400: s_pg(p, x0, n),
    "pgeta": lambda p, x0, n=500: s_pg(p, x0, n, tau=1.0 / p.L, eta=0.7),
    "fista": lambda p, x0, n=500: s_pg(p, x0, n, tau=1.0 / p.L, acceleration="fista"),
    "vand": lambda p, x0, n=500: s_pg(p, x0, n, tau=1.0 / p.L, acceleration="vandenberghe"),
    "fistabt": lambda p, x0, n=500: s_pg(p, x0, n, tau=3.0, backtracking=True, acceleration="fista"),
    "aasafe": lambda p, x0, n=300: P.AndersonProximalGradient(p.f(), p.g(), x0, tau=0.9 / p.L, niter=n, nhistory=3, safeguard=True),
    "gpg1": lambda p, x0, n=400: P.GeneralizedProximalGradient([p.f()], [p.g()], x0, 1.0 / p.L, niter=n),
    "admm": lambda p, x0, n=300: P.ADMM(p.f(), p.g(), x0, 1.3, niter=n),
    "admmg": lambda p, x0, n=300: P.ADMM(p.f(), p.g(), x0, 0.6, niter=n, gfirst=True),
    "dr": lambda p, x0, n=300: P.DouglasRachfordSplitting(p.f(), p.g(), x0, 1.0, niter=n),
    "drf": lambda p, x0, n=300: P.DouglasRachfordSplitting(p.f(), p.g(), x0, 1.0, eta=1.4, niter=n, gfirst=False),
    "twist": lambda p, x0, n=400: tw(p, x0, n, None, None),
    "ist": lambda p, x0, n=400: tw(p, x0, n, 1.0, 1.0),
    "ppxa": lambda p, x0, n=400: P.PPXA([p.f(), p.g()], x0, 1.0, niter=n, tol=0.0),
    "ppxaw": lambda p, x0, n=400: P.PPXA([p.f(), p.g()], x0, 0.5, eta=1.3, weights=[0.3, 0.7], niter=n, tol=0.0),
    "cons": lambda p, x0, n=400: P.ConsensusADMM([p.f(), p.g()], x0, 1.0, niter=n, tol=0.0),
    "pnp": lambda p, x0, n=300: PlugAndPlay(p.f(), (lambda o: lambda v, t: o.prox(v.ravel(), t).reshape(v.shape))(p.g()), (x0.size, 1), x0,
                                            tau=1.0, niter=n),
    "hqs": lambda p, x0, n=400: P.HQS(p.f(), p.g(), x0, 0.8, niter=n),
}
COMP = {
    "admml2": lambda p, x0, n=300: P.ADMML2(p.g(), mm(p.A), p.b, mm(p.K), x0, 1.0, niter=n, iter_lim=60, atol=1e-14, btol=1e-14),
    "admml2g": lambda p, x0, n=300: P.ADMML2(p.g(), mm(p.A), p.b, mm(p.K), x0, 0.7, niter=n, gfirst=True, iter_lim=60, atol=1e-14, btol=1e-14),
    "ladmm": lambda p, x0, n=700: P.LinearizedADMM(p.f(), p.g(), mm(p.K), x0, 1.0, 0.95 / p.LK, niter=n),
    "pd": lambda p, x0, n=700: PD.PrimalDual(p.f(), p.g(), mm(p.K), x0, 1.0, 0.95 / p.LK, niter=n),
    "pdx": lambda p, x0, n=700: PD.PrimalDual(p.f(), p.g(), mm(p.K), x0, 0.5, 1.8 / p.LK, niter=n, gfirst=False),
    "pdz": lambda p, x0, n=700: pdz(p, x0, n),
    "apd": lambda p, x0, n=700: PD.AdaptivePrimalDual(p.f(), p.g(), mm(p.K), x0, 1.0, 0.95 / p.LK, niter=n, tol=0.0)[0],
    "apdbad": lambda p, x0, n=900: PD.AdaptivePrimalDual(p.f(), p.g(), mm(p.K), x0, 0.05, 19.0 / p.LK, niter=n, tol=0.0)[0],
}
MULTI = ("gpg", "gpgw", "ppxa3", "ppxaw3", "cons3", "bregman", "bregmanw", "pp", "palm")


def tw(p, x0, n, al, be):
    # scaled so that the largest eigenvalue is at most one, as TwIST needs
    c = float(np.sqrt(p.L)) * 1.05
    A, b = p.A / c, p.b / c
    ev = np.linalg.eigvalsh(A.conj().T @ A)
    # min 1/2||(Ax-b)/c||^2 + g/c^2 has the same solution
    g = (1 / c**2) * p.g()
    return P.TwIST(g, mm(A), b, x0, alpha=al, beta=be, eigs=None if al else (float(ev[-1]), float(ev[0])), niter=n)


def pdz(p, x0, n):
    """The same problem with part of the data term moved to the linear term z."""
    z = np.array([0.3, -0.2, 0.5])[: p.x.size] * (1j if np.iscomplexobj(p.x) else 1)
    f = l2(p.A, data(p.A, p.x, p.K.conj().T @ p.y + z))
    return PD.PrimalDual(f, p.g(), mm(p.K), x0, 1.0, 0.95 / p.LK, z=z, niter=n)


def first(v):
    return v[0] if isinstance(v, tuple) else v


def run(case, r):
    solver, a, k, gn, i, cplx = case
    if gn == "multi":
        return run_multi(r, solver, i)
    A, K = AS[a], KS[k]
    xs = lattice(int(k[1]), cplx)[i]
    u = K @ xs
    gf, ys = subgrads(gn, u)
    f = SPLIT.get(solver) or COMP[solver]
    for y in ys:
        p = Pb(A, K, gf, xs, y)
        ref = p.x
        if solver == "hqs":
            # fixed point of the penalised problem: z* = x*, x = z* + tau y*
            ref = p.x + 0.8 * p.y
            p.b = data(A, ref, p.y)
        for j, x0 in enumerate(p.starts):
            res = f(p, x0.copy())
            x = first(res)
            d = "%s A=%s K=%s g=%s solution=%s subgradient=%s start=%s" % (solver, a, k, gn, xs, y, x0)
            err = float(np.max(np.abs(x - ref)))
            r.state(y, j)
            r.trans()
            r.outcome(np.round(x, 4))
            r.check(np.isfinite(err) and err <= TOL, "conv|" + solver, "%s: result %s, error %g" % (d, x, err))
            if solver in ("admm", "admmg", "dr", "drf", "pnp"):
                # the other primal variable agrees
                if solver in ("admm", "admmg", "pnp"):
                    e2 = float(np.max(np.abs(res[1] - ref)))
                    r.check(e2 <= TOL, "conv|z|" + solver, "%s: z = %s, error %g" % (d, res[1], e2))
            if solver == "hqs":
                e2 = float(np.max(np.abs(res[1] - p.x)))
                r.check(e2 <= TOL, "conv|z|" + solver, "%s: z = %s, error %g" % (d, res[1], e2))
            r.trace()
        # started at the solution
        dt = p.x.dtype
        stay = None
        if solver in ("pg", "pgbt", "pgnone", "pgeta", "fista", "vand", "fistabt", "aasafe", "gpg1", "ist", "twist"):
            stay = first(f(p, p.x.astype(dt), 12))
        elif solver == "dr":
            stay = first(P.DouglasRachfordSplitting(p.f(), p.g(), p.x + 1.0 * p.y, 1.0, niter=12))
        elif solver == "drf":
            stay = first(P.DouglasRachfordSplitting(p.f(), p.g(), p.x - 1.0 * p.y, 1.0, niter=12, gfirst=False))
        elif solver == "ppxa":
            stay = P.PPXA([p.f(), p.g()], [p.x - 2.0 * p.y, p.x + 2.0 * p.y], 1.0, niter=12, tol=0.0)
        elif solver in ("pd", "pdx"):
            stay = PD.PrimalDual(p.f(), p.g(), mm(K), p.x.astype(dt), 1.0, 0.95 / p.LK, y0=p.y.astype(dt), niter=12, gfirst=solver == "pd")
        if stay is not None:
            err = float(np.max(np.abs(stay - p.x)))
            r.check(err <= 1e-6, "stay|" + solver, "%s K=%s g=%s: started at the solution %s it moves to %s" % (solver, k, gn, p.x, stay))
            r.trans()


def run_multi(r, solver, i):
    A = AS["A"]
    xs = lattice(2, False)[i]
    g1, y1s = subgrads("l1", xs)
    g2, y2s = subgrads("ball", xs)
    g3, y3s = subgrads("l2", xs)
    L = float(np.linalg.norm(A, 2) ** 2)
    for (y1, y2) in itertools.product(y1s, y2s):
        y3 = y3s[0]
        for x0 in (0 * xs, xs + 1.7, np.array([-3.0, 2.0])):
            d = "%s solution=%s subgradients=%s,%s start=%s" % (solver, xs, y1, y2, x0)
            ref = xs
            if solver == "gpg":
                b = data(A, xs, y1 + y2 + y3)
                x = P.GeneralizedProximalGradient([l2(A, b), g3()], [g1(), g2()], x0, 0.9 / (L + 0.6), niter=800)
            elif solver == "gpgw":
                b = data(A, xs, 0.5 * y1 + 2 * y2)
                x = P.GeneralizedProximalGradient([l2(A, b)], [g1(), g2()], x0, 0.9 / L, epsg=np.array([0.5, 2.0]),
                                                  weights=np.array([0.3, 0.7]), niter=800)
            elif solver in ("ppxa3", "ppxaw3"):
                b = data(A, xs, y1 + y2)
                kw = dict(weights=[0.2, 0.5, 0.3], eta=1.2) if solver == "ppxaw3" else {}
                x = P.PPXA([l2(A, b), g1(), g2()], x0, 0.7, niter=1000, tol=0.0, **kw)
            elif solver == "cons3":
                b = data(A, xs, y1 + y2)
                x = P.ConsensusADMM([l2(A, b), g1(), g2()], x0, 0.7, niter=1000, tol=0.0)
            elif solver in ("bregman", "bregmanw"):
                # Bregman iterations remove the bias: they converge to a minimiser of f
                b = A @ xs
                x = Bregman(l2(A, b), g1(), x0, P.ProximalGradient, alpha=0.7, niterouter=60, warm=solver == "bregmanw", tau=0.9 / L, niter=150)
            elif solver == "pp":
                x = P.ProximalPoint(l2(A, A @ xs), x0, 2.0, niter=200)
            else:
                # PALM decreases f(x) + g(y) + H(x, y)
                M = np.outer(xs + [2.0, -2.0], [1.0, -0.5]).ravel()
                X0, Y0 = x0 + 0.3, np.array([0.4, 1.0])
                J = []
                H = LowRankFactorizedMatrix(X0[:, None].copy(), Y0[None, :].copy(), M)
                f_, g_ = pp.L1(sigma=0.05), pp.Euclidean(sigma=0.02)

                def obj(u, v):
                    return float(0.5 * np.sum((np.outer(u, v).ravel() - M) ** 2) + 0.05 * np.sum(np.abs(u)) + 0.02 * np.linalg.norm(v))

                for gf, gg in ((1.0, 1.0), (2.0, 1.5), (None, None)):
                    J = [obj(X0, Y0)]
                    PL.PALM(H, f_, g_, X0.copy(), Y0.copy(), gammaf=gf, gammag=gg, niter=40, callback=lambda u, v: J.append(obj(u, v)))
                    J = np.array(J)
                    r.check(np.all(np.diff(J) <= 1e-9 * (1 + J[:-1])), "decrease|palm", "%s gamma=%s,%s: objective rises: %s" % (d, gf, gg, J))
                    r.state(y1, y2, x0, gf)
                    r.trans()
                continue
            err = float(np.max(np.abs(x - ref)))
            r.state(y1, y2, x0)
            r.trans()
            r.trace()
            r.outcome(np.round(x, 4))
            r.check(np.isfinite(err) and err <= TOL, "conv|" + solver, "%s: result %s, error %g" % (d, x, err))
