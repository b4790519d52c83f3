"""C21: PALM and iPALM follow their documented recursions for every step rule, inertia, regularisers and start."""

import itertools

import numpy as np
import pylops

from pyproximal.optimization.palm import PALM, iPALM
from pyproximal.utils.bilinear import BilinearOperator, LowRankFactorizedMatrix

from mc import solv as S
from mc.props.c15 import G

ID = "C21"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "factorisations n x k times k x m with n, k, m in 1..3, real and complex data, dense operator on the product (backtracking "
    "only), and a user-defined bilinear function with exact Lipschitz constants; horizon 5 (quick) / 15 (thorough) iterations, and 130 for 5 evenly spread configurations",
    "Lipschitz constants of the factorised functional are those the functional itself reports (judged by C24)",
    "where a line search decision is within 1e-9 of a tie the rest of that trace is not compared; comparison to 1e-8",
]


class Model:
    """1/2||Op(XY) - d||^2 as an explicit function of both factors."""

    def __init__(self, n, k, m, d, Q=None):
        self.s = (n, k, m)
        self.d, self.Q = d, Q
        self.lr = LowRankFactorizedMatrix(np.ones((n, k)), np.ones((k, m)), d)

    def res(self, x, y):
        n, k, m = self.s
        p = (x.reshape(n, k) @ y.reshape(k, m)).ravel()
        return (p if self.Q is None else self.Q @ p) - self.d

    def back(self, r):
        n, k, m = self.s
        return (r if self.Q is None else self.Q.conj().T @ r).reshape(n, m)

    def val(self, x, y):
        return float(np.sum(np.abs(self.res(x, y)) ** 2) / 2)

    def gx(self, x, y):
        n, k, m = self.s
        return (self.back(self.res(x, y)) @ y.reshape(k, m).conj().T).ravel()

    def gy(self, x, y):
        n, k, m = self.s
        return (x.reshape(n, k).conj().T @ self.back(self.res(x, y))).ravel()

    def Lx(self, y):
        return self.lr.ly(y)

    def Ly(self, x):
        return self.lr.lx(x)

    def impl(self, x, y):
        n, k, m = self.s
        return LowRankFactorizedMatrix(x.reshape(n, k).copy(), y.reshape(k, m).copy(), self.d.copy(),
                                       None if self.Q is None else pylops.MatrixMult(self.Q, dtype=self.Q.dtype))


class UserH(BilinearOperator):
    """A user-defined bilinear function with sharp, asymmetric Lipschitz constants."""

    def __init__(self, mod, x, y):
        super().__init__()
        self.mod, self.x, self.y = mod, x.copy(), y.copy()
        self.sizex, self.sizey = x.size, y.size

    def __call__(self, x, y=None):
        if y is None:
            x, y = x[: self.sizex], x[self.sizex :]
        return self.mod.val(x, y)

    def gradx(self, x):
        return self.mod.gx(x, self.y)

    def grady(self, y):
        return self.mod.gy(self.x, y)

    def grad(self, v):
        return np.hstack([self.gradx(v[: self.sizex]), self.grady(v[self.sizex :])])

    def lx(self, x):
        return self.mod.Ly(x)

    def ly(self, y):
        return self.mod.Lx(y)


class Sharp(Model):
    def Lx(self, y):
        n, k, m = self.s
        return float(np.linalg.norm(y.reshape(k, m), 2) ** 2) + 0.25

    def Ly(self, x):
        n, k, m = self.s
        return float(np.linalg.norm(x.reshape(n, k), 2) ** 2) * 1.5 + 0.125

    def impl(self, x, y):
        return UserH(self, x, y)


def vec(n, off, cplx=False):
    base = np.array([1.0, -0.5, 2.0, 0.25, -1.5, 0.75, 1.25, -2.0, 0.5])
    v = np.resize(np.roll(base, -off), n)
    return v + 1j * np.resize(np.roll(base, -off - 3), n) * 0.5 if cplx else v


SHAPES = [(1, 1, 1), (2, 1, 2), (2, 1, 3), (3, 2, 2), (2, 2, 2), (1, 2, 3), (3, 1, 1)]


def models():
    out = {}
    for s in SHAPES:
        n, k, m = s
        out["lr%d%d%d" % s] = (Model(n, k, m, vec(n * m, 2)), False)
        out["us%d%d%d" % s] = (Sharp(n, k, m, vec(n * m, 4)), False)
    out["lrc212"] = (Model(2, 1, 2, vec(4, 1, True)), True)
    out["usc122"] = (Sharp(1, 2, 2, vec(2, 1, True)), True)
    Q = np.array([[1.0, 0.5, 0.0, 0.0], [0.0, 1.0, -1.0, 0.0], [0.0, 0.0, 0.5, 2.0]])
    out["op212"] = (Model(2, 1, 2, vec(3, 1), Q), False)
    out["opc222"] = (Model(2, 2, 2, vec(3, 1, True), Q * (1 + 0.5j)), True)
    # badly scaled: line searches need steps many orders of magnitude below one
    for k in (30.0, 1e3, 3e4):
        out["op212s%g" % k] = (Model(2, 1, 2, k * vec(3, 1), k * Q), False)
        out["lr212s%g" % k] = (Model(2, 1, 2, k * vec(4, 1)), False)
        out["us221s%g" % k] = (Sharp(2, 2, 1, k * vec(2, 4)), False)
    out["opc222s"] = (Model(2, 2, 2, vec(3, 1, True), 200 * Q * (1 + 0.5j)), True)
    # 180 unknowns
    out["lrL"] = (Model(25, 4, 20, vec(500, 2)), False)
    out["usL"] = (Sharp(25, 4, 20, vec(500, 1)), False)
    return out


MODELS = models()
PR = [(None, None), ("l1", None), (None, "l1"), ("l1", "sq"), ("box", "l1"), ("sq", "box"), ("euc", "hub")]


def cases(tier):
    n = 5 if tier == "quick" else 15
    return [[solver, m, pf, pg, h] for h in (n, S.LONG) for solver in ("PALM", "iPALM") for m in MODELS for pf, pg in PR
            if not (MODELS[m][1] and "box" in (pf, pg)) and not (h == S.LONG and (m[-1] == "L" or "s" in m[3:]))]


def run(case, r):
    solver, m, pf, pg, n = case
    mod, cplx = MODELS[m]
    a_, k_, b_ = mod.s
    solve = PALM if solver == "PALM" else iPALM
    inert = [(0.0, 0.0)] if solver == "PALM" else [(0.0, 0.0), (1.0, 1.0), (0.5, 0.2), (0.0, 0.6)] if n < S.LONG else [(0.0, 0.0), (0.5, 0.2), (0.0, 0.6)]
    for st, init, (gf, gg), (beta, nb), a in S.prod(n)(
            (0, 3), ("same", "other"), ((1.0, 1.0), (2.0, 1.5), (None, None), (1.2, None), (None, 1.2)), ((0.5, 100), (0.3, 2)), inert):
        if mod.Q is not None and (gf is not None or gg is not None):
            continue
        if gf is not None and gg is not None and nb == 2:
            continue
        x0, y0 = vec(a_ * k_, st, cplx), vec(k_ * b_, st + 1, cplx)
        H = mod.impl(x0, y0) if init == "same" else mod.impl(x0 * 0.5 + 1, y0 - 0.75)
        f = None if pf is None else G[pf]()
        g = None if pg is None else G[pg]()
        kw = dict(gammaf=gf, gammag=gg, beta=beta, niterback=nb)
        if solver == "iPALM":
            kw["a"] = a
        d = "%s %s f=%s g=%s start=%d (%s) %s" % (solver, m, pf, pg, st, init, kw)
        # the assumptions of PALM need positive Lipschitz constants and bounded iterates: explore up to there
        ref = []
        try:
            for xr, yr in S.ref_palm(mod, f, g, x0, y0, n, **kw):
                if not (np.all(np.isfinite(xr)) and np.all(np.isfinite(yr)) and max(np.abs(xr).max(), np.abs(yr).max()) < 1e6):
                    break
                ref.append((xr, yr))
        except (S.Ambiguous, ZeroDivisionError):
            pass
        if not ref:
            continue
        got = []
        x, y = solve(H, f, g, x0.copy(), y0.copy(), niter=len(ref), callback=lambda u, v: got.append((np.array(u), np.array(v))), **kw)
        S.compare(r, solver.lower(), d, got, ref, 1e-8)
        r.check(S.close(x, got[-1][0], 0) and S.close(y, got[-1][1], 0), solver.lower() + "|ret", d + ": result is not the last iterate")
        r.check(np.array_equal(H.x, x) and np.array_equal(H.y, y), solver.lower() + "|state",
                d + ": the bilinear function is not left at the result")
