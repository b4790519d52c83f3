"""Composite operators (stacks, sums, lifts, expression trees) for the properties that quantify over
every operator the library offers. Same interface as catalog entries; no functional reference needed."""

import numpy as np
import pylops

import pyproximal as pp
from pyproximal import projection as pj

from .catalog import Entry, lat, mop

_EX = {}


class CubicNonlinear(pp.Nonlinear):
    """f(x) = sum(x**4/4 + x**2/2): prox by Newton iterations on the documented hooks."""

    def fun(self, x):
        return float(np.sum(x ** 4 / 4 + x ** 2 / 2))

    def grad(self, x):
        return x ** 3 + x

    def optimize(self):
        x = np.asarray(self.x0, dtype=float).copy()
        for _ in range(self.niter):
            h = 3 * x ** 2 + 1 + 1.0 / self.tau
            x = x - self._gradprox(x, self.tau) / h
        return x


def extras(tier):
    if tier in _EX:
        return _EX[tier]
    out = []
    tt = [0.4, 1.5]
    x3 = lat([-2.0, 0.5, 3.0], 3)
    x2 = lat([-2.0, 0.5, 3.0], 2)
    x4 = [np.array(v) for v in ((1.0, -2.0, 0.5, 3.0), (-1.0, 0.25, 0.0, 2.0), (0.0, 0.0, 0.0, 0.0), (3.0, 3.0, -3.0, 1.0))]

    def add(name, cfg, make, xs, grad=None, iterative=False, tol=1e-9):
        out.append(Entry(name, cfg, make, None, xs, tt, None, kind="extra", grad=grad, iterative=iterative,
                         tol=tol, group=name))

    def vs_nn():
        b = np.array([1.0, -1.0])
        return pp.VStack([pp.L1(0.5), pp.L2(b=b, sigma=2.0)], nn=[1, 2]), {"b": b}

    def vs_restr():
        b = np.array([1.0, -1.0])
        i1, i2 = np.array([1]), np.array([2, 0])
        ops = [pp.L2(sigma=0.5), pp.L2(b=b, sigma=2.0)]
        return pp.VStack(ops, restr=[pylops.Restriction(3, i1), pylops.Restriction(3, i2)]), {"b": b, "i1": i1, "i2": i2}

    add("VStack", dict(mode="nn"), vs_nn, x3)
    add("VStack", dict(mode="restr"), vs_restr, x3)
    Q = np.array([[0.6, 0.8], [-0.8, 0.6]])
    P = np.array([[2.0, 0.0, 0.0], [0.0, 0.0, 2.0]])

    def orth(kind):
        def make():
            b = np.array([0.5, -1.0])
            if kind == "full":
                return pp.Orthogonal(pp.L1(0.5), mop(Q), b=b), {"b": b}
            if kind == "ident":
                return pp.Orthogonal(pp.L1(0.5), pylops.Identity(2), b=b), {"b": b}
            return pp.Orthogonal(pp.L1(0.5), mop(P), partial=True, b=b, alpha=4.0), {"b": b}
        return make

    add("Orthogonal", dict(mode="full"), orth("full"), x2)
    add("Orthogonal", dict(mode="ident"), orth("ident"), x2)
    add("Orthogonal", dict(mode="partial"), orth("part"), x3)
    add("SingularValuePenalty", dict(pen="L1"), lambda: pp.SingularValuePenalty((2, 2), pp.L1(0.5)), x4)
    add("SingularValuePenalty", dict(pen="Log"), lambda: pp.SingularValuePenalty((2, 2), pp.Log(0.5, 1.3)), x4)

    def qer():
        M = np.array([[2.0, 0.5], [-1.0, 1.0]])
        return pp.QuadraticEnvelopeRankL2((2, 2), 1, M), {"M": M}

    add("QuadraticEnvelopeRankL2", dict(r0=1), qer, x4)

    def sm(n, par, wtype):
        def make():
            g = np.array([0.5, -0.5])
            ops = [pp.L1(0.5, g=g), pp.Box(-1.0, 1.5), pp.L2(sigma=0.5)][:n]
            w = {"none": None, "list": [0.5, 0.25, 0.25][:n], "arr": np.array([2.0, 1.0, 1.0])[:n]}[wtype]
            d = {"g": g}
            if wtype == "arr":
                d["w"] = w
            return pp.Sum(ops, weights=w, niter=200, tol=1e-12, use_parallel=par), d
        return make

    add("Sum", dict(n=1), sm(1, False, "none"), x2, tol=1e-7)
    add("Sum", dict(n=2), sm(2, False, "none"), x2, tol=1e-7)
    add("Sum", dict(n=3, w="arr"), sm(3, True, "arr"), x2, tol=1e-7)
    add("Sum", dict(n=3, w="list"), sm(3, True, "list"), x2, tol=1e-7)

    def gi(n, par):
        def make():
            w = np.array([1.0, 1.0])
            ps = [pj.BoxProj(-1.0, 1.5), pj.HalfSpaceProj(w, 0.5), pj.EuclideanBallProj(np.zeros(2), 2.0)][:n]
            return pp.GenericIntersectionProx(ps, niter=200, tol=1e-12, use_parallel=par), {"w": w}
        return make

    add("GenericIntersectionProx", dict(n=1), gi(1, False), x2, tol=1e-7)
    add("GenericIntersectionProx", dict(n=2), gi(2, False), x2, tol=1e-7)
    add("GenericIntersectionProx", dict(n=3), gi(3, True), x2, tol=1e-7)

    def nl(warm):
        def make():
            x0 = np.array([1.0, -1.0])
            return CubicNonlinear(x0, niter=60, warm=warm), {"x0": x0}
        return make

    add("Nonlinear", dict(warm=True), nl(True), x2, grad=lambda x: x ** 3 + x, tol=1e-9, iterative=True)
    add("Nonlinear", dict(warm=False), nl(False), x2, grad=lambda x: x ** 3 + x, tol=1e-9, iterative=True)

    def comp(k):
        def make():
            v, b, g = np.array([0.75, -1.25]), np.array([1.0, 0.5]), np.array([0.25, -0.25])
            base = pp.L2(b=g, sigma=2.0)
            op = {"add": lambda: base + v, "sub": lambda: base - v, "mul": lambda: 2.0 * base,
                  "pre": lambda: base.precomposition(2.0, b), "chain": lambda: pp.L1(0.5).chain(base),
                  "H": lambda: base.H}[k]()
            return op, {"v": v, "b": b, "g": g}
        return make

    for k in ("add", "sub", "mul", "pre", "chain", "H"):
        add("Composed", dict(op=k), comp(k), x2)
    _EX[tier] = {e.key: e for e in out}
    return _EX[tier]
