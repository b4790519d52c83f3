"""C27: what is computed depends on the values of a vector, not on how the vector is stored.

Every operator and every solver is run on all storage variants (element type, strides, order, write
protection) of the same values; the contiguous double precision run is the reference."""

import itertools
import warnings

import numpy as np
import pylops

import pyproximal as pp
from pyproximal.utils.bilinear import LowRankFactorizedMatrix

from mc.catalog import catalog, mop, short
from mc.extras import extras
from mc.props import c18

ID = "C27"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "vectors with small integer values, exactly representable in every variant: int64, int32, float32, strided, reversed, "
    "write protected, Fortran ordered (2-D inputs), row of a larger array, foreign byte order (not for the numba engine)",
    "single precision results are compared to 2e-4 (relative; 2e-2 for inner iterative solvers), the others to 1e-9 (1e-5 for inner iterative solvers)",
    "arrays given to constructors take the same variants; parameters and step sizes are given as int, float, numpy scalars",
    "an operator must accept the variants as the public signature is numpy.ndarray without further restriction",
]


def strided(x):
    b = np.full(2 * x.size, 77, dtype=x.dtype)
    b[::2] = x.ravel()
    return b[::2] if x.ndim == 1 else b[::2].reshape(x.shape)


def reverse(x):
    return x[::-1].copy()[::-1]


def readonly(x):
    y = x.copy()
    y.flags.writeable = False
    return y


def row(x):
    b = np.full((3,) + x.shape, -55, dtype=x.dtype)
    b[1] = x
    return b[1]


def column(x):
    b = np.full(x.shape + (3,), -55, dtype=x.dtype)
    b[..., 1] = x
    return b[..., 1]


VAR = {
    "int64": lambda x: x.astype(np.int64), "int32": lambda x: x.astype(np.int32), "float32": lambda x: x.astype(np.float32),
    "strided": strided, "reversed": reverse, "readonly": readonly, "row": row, "column": column, "fortran": np.asfortranarray,
    "swapped": lambda x: x.astype(x.dtype.newbyteorder("S")),
}
I3 = lambda v, *a: v(np.array(a, dtype=float))
MA = np.array([[1.0, 2.0, 0.0], [0.0, -1.0, 3.0]])
MS = np.array([[3.0, 1.0, 0.0], [1.0, 2.0, -1.0], [0.0, -1.0, 2.0]])


def _l2(solver, explicit, ds=None):
    return lambda v: pp.L2(Op=mop(MA, explicit), b=I3(v, 3, -2), q=I3(v, 1, 0, -2), sigma=0.7, alpha=0.3, niter=50, warm=False, solver=solver, densesolver=ds)


# operators by their constructor arrays: v stores an array, the rest is fixed
CTOR = {
    "L1g": (lambda v: pp.L1(0.7, g=I3(v, 1, -2, 3)), 3), "L2b": (lambda v: pp.L2(b=I3(v, 1, -2, 3), sigma=0.7), 3),
    "L2bq": (lambda v: pp.L2(b=I3(v, 1, -2, 3), q=I3(v, 1, 0, -2), sigma=0.7, alpha=0.3), 3), "L2q": (lambda v: pp.L2(q=I3(v, 1, 0, -2), alpha=0.3), 3),
    "L2cg": (_l2("cg", False), 3), "L2legacy": (_l2("legacy", False), 3), "L2cgls": (_l2("cgls", False), 3), "L2dense": (_l2("legacy", True), 3),
    "L2factorize": (_l2("legacy", True, "factorize"), 3), "L2numpy": (_l2("legacy", True, "numpy"), 3),
    "L2x0": (lambda v: pp.L2(Op=mop(MA, False), b=I3(v, 3, -2), x0=I3(v, 1, -1, 2), niter=2, warm=False), 3),
    "L2mat": (lambda v: pp.L2(Op=pylops.MatrixMult(v(MA)), b=I3(v, 3, -2), sigma=0.7), 3),
    "L2conv": (lambda v: pp.L2Convolve(I3(v, 1, 2, -1), I3(v, 3, -2, 1, 0), nfft=8, sigma=0.7), 4),
    "L2conv2": (lambda v: pp.L2Convolve(I3(v, 1, 2), np.tile(I3(v, 3, -2, 1, 0), 2).reshape(2, 4), nfft=4, sigma=0.7, dims=(2, 4), dir=1), 8),
    "Quadratic": (lambda v: pp.Quadratic(Op=mop(MS, True), b=I3(v, 1, -2, 3), c=2), 3),
    "QuadraticF": (lambda v: pp.Quadratic(Op=mop(MS, False), b=I3(v, 1, -2, 3), x0=I3(v, 1, 1, 0), niter=60), 3),
    "QuadraticL": (lambda v: pp.Quadratic(b=I3(v, 1, -2, 3), c=0.5), 3),
    "Box": (lambda v: pp.Box(I3(v, -1, 0, -3), I3(v, 1, 2, -1)), 3), "Ball": (lambda v: pp.EuclideanBall(I3(v, 1, -2, 3), 0.7), 3),
    "HalfSpace": (lambda v: pp.HalfSpace(I3(v, 1, -2, 3), 0.5), 3), "Affine": (lambda v: pp.AffineSet(mop(MA, False), I3(v, 3, -2), niter=20), 3),
    "Nuclear": (lambda v: pp.Nuclear((2, 2), sigma=I3(v, 1, 2)), 4), "RankL2": (lambda v: pp.QuadraticEnvelopeRankL2((2, 2), 1, v(np.array([[2.0, 1], [0, 3]]))), 4),
    "Intersection": (lambda v: pp.Intersection(3, 1, v(np.array([[1.0, 1, 2], [1, 1, 1], [2, 1, 1]]))), 3),
    "Orthogonal": (lambda v: pp.Orthogonal(pp.L1(0.7), pylops.Flip(3), b=I3(v, 1, -2, 3)), 3),
    "OrthogonalP": (lambda v: pp.Orthogonal(pp.L1(0.7), mop(np.array([[2.0, 0, 0], [0, 0, 2.0]]), True), partial=True, alpha=4, b=I3(v, 1, -2)), 3),
    "Sumw": (lambda v: pp.Sum([pp.L1(0.7), pp.Box(-1.0, 2.5), pp.L2(sigma=0.3)], weights=I3(v, 2, 1, 1), tol=1e-10), 3),
    "add": (lambda v: pp.L1(0.7) + I3(v, 1, -2, 3), 3), "sub": (lambda v: pp.L1(0.7) - I3(v, 1, -2, 3), 3),
    "pre": (lambda v: pp.L1(0.7).precomposition(0.5, I3(v, 1, -2, 3)), 3), "VStackL2": (lambda v: pp.VStack([pp.L1(0.7), pp.L2(b=I3(v, 1, -2))], nn=[1, 2]), 3),
    "hyper": (lambda v: Proj(pp.projection.HyperPlaneBoxProj(I3(v, 1, -2, 3), 0.5, I3(v, -1, -1, 0), I3(v, 2, 2, 1), xtol=1e-11)), 3),
    "lowrank": (lambda v: LowRankFactorizedMatrix(v(np.array([[1.0], [2]])), v(np.array([[3.0, -1]])), I3(v, 1, 2, 3, 4)), 4),
    "Nonlinear": (lambda v: Newton(I3(v, 1, -2, 3)), 3),
}


class Proj(pp.ProxOperator):
    def __init__(self, P):
        super().__init__(None, False)
        self.P = P

    def __call__(self, x):
        return 0.0

    def prox(self, x, tau):
        return self.P(x)


class Newton(pp.Nonlinear):
    def __init__(self, x0):
        super().__init__(x0, niter=40, warm=False)

    def fun(self, x):
        return float(np.sum(x ** 4 / 4))

    def grad(self, x):
        return x ** 3

    def optimize(self):
        x = np.asarray(self.x0, dtype=float)
        for _ in range(self.niter):
            x = x - self._gradprox(x, self.tau) / (3 * x ** 2 + 1 / self.tau)
        return x


# parameters and step sizes that are whole numbers, as different number types
NUM = {
    "L1": lambda p: pp.L1(p(2)), "L1s": lambda p: pp.L1(sigma=p(1)), "L2": lambda p: pp.L2(b=np.array([0.5, 1.0, 2.5]), sigma=p(2), alpha=p(3), q=np.array([0.1, 0.2, 0.3])),
    "Euclidean": lambda p: pp.Euclidean(p(2)), "L21": lambda p: pp.L21(3, p(2)), "L0": lambda p: pp.L0(p(2)), "Huber": lambda p: pp.Huber(p(2)),
    "HuberCircular": lambda p: pp.HuberCircular(p(2)), "TV": lambda p: pp.TV((3,), p(1), niter=20, rtol=0), "Log": lambda p: pp.Log(p(2), p(1)),
    "Log1": lambda p: pp.Log1(p(2), 0.5), "ETP": lambda p: pp.ETP(p(2), p(1)), "Geman": lambda p: pp.Geman(p(2), p(3)), "SCAD": lambda p: pp.SCAD(p(1), p(5)),
    "RelaxedMS": lambda p: pp.RelaxedMumfordShah(p(2), p(3)), "Box": lambda p: pp.Box(p(-1), p(2)), "Ball": lambda p: pp.EuclideanBall(p(1), p(2)),
    "L1Ball": lambda p: pp.L1Ball(3, p(2), xtol=1e-11), "Simplex": lambda p: pp.Simplex(3, p(2), engine="numpy", xtol=1e-11),
    "SimplexNumba": lambda p: pp.Simplex(3, p(2), engine="numba", xtol=1e-11), "HalfSpace": lambda p: pp.HalfSpace(np.array([1.0, 0.5, -2.0]), p(1)),
    "Env": lambda p: pp.QuadraticEnvelopeCard(p(2)), "Nuclear": lambda p: SV(pp.Nuclear((3, 1), p(2))), "Quadratic": lambda p: pp.Quadratic(b=np.array([0.5, 1.0, 2.5]), c=p(2)),
    "Intersection": lambda p: pp.Intersection(3, 1, p(1)), "mul": lambda p: p(2) * pp.L1(0.5),
    "NuclearBall": lambda p: pp.NuclearBall((3, 1), p(2), xtol=1e-11), "L21L1": lambda p: SV(pp.L21_plus_L1(p(2), 0.5)),
}
PT = {"float": float, "int": int, "float32": np.float32, "int64": np.int64, "float64": np.float64, "int32": np.int32}


class SV(pp.ProxOperator):
    def __init__(self, op):
        super().__init__(None, False)
        self.op = op

    def __call__(self, x):
        return self.op(x.reshape(3, 1))

    def prox(self, x, tau):
        return np.asarray(self.op.prox(x.reshape(3, 1), tau)).ravel()


# projections called directly, on matrices
PJ = {
    "hyper": lambda a: pp.projection.HyperPlaneBoxProj(np.arange(1.0, a + 1), 0.5, -1.0, 2.0, xtol=1e-11), "simplex": lambda a: pp.projection.SimplexProj(a, 2.0, xtol=1e-11),
    "l1": lambda a: pp.projection.L1BallProj(a, 2.0, xtol=1e-11), "box": lambda a: pp.projection.BoxProj(-1.0, 1.5), "euc": lambda a: pp.projection.EuclideanBallProj(0.5, 1.5),
    "l0": lambda a: pp.projection.L0BallProj(2), "l10": lambda a: pp.projection.L10BallProj(1), "nuc": lambda a: pp.projection.NuclearBallProj({6: 2, 9: 3, 10: 2}.get(a, 1), 1.5, xtol=1e-11),
    "hankel": lambda a: pp.projection.HankelProj(),
    "gen": lambda a: pp.projection.GenericIntersectionProj([pp.projection.BoxProj(-1.0, 1.5), pp.projection.EuclideanBallProj(0.5, 1.5)]),
}


def projs(tier, name, r):
    for sh in ((2, 3), (3, 2), (3, 3), (2, 5), (1, 4), (4, 1)):
        a = sh[0] * sh[1]
        if name == "nuc" and min(sh) < 2:
            continue
        i = np.arange(a)
        for k, m in itertools.product((1, 3, 7), (5, 7, 11)):
            x = ((i * i * k + i) % m - m // 2 + 0.01 * i).reshape(sh)
            y0 = PJ[name](a)(x.copy())
            for v in VAR:
                if v.startswith("int") or v == "float32" and name in ("l0", "l10"):
                    continue
                y = PJ[name](a)(VAR[v](x))
                r.state(name, x, v), r.trans(), r.trace(), r.outcome(y)
                r.check(y.shape == y0.shape and agree(np.asarray(y), y0, 2e-4 if v == "float32" else 1e-9), "projs|%s|%s" % (name, v),
                        "projection of the %d x %d matrix %s stored as %s gives %s, expected %s" % (*sh, x.tolist(), v, y.tolist(), y0.tolist()), x=x)
    r.sample(name)


METHODS = ("prox", "proxdual", "call", "grad")


def entries(tier):
    d = dict(catalog(tier))
    d.update(extras(tier))
    return d


def cases(tier):
    return [[tier, "projs", k] for k in PJ] + [[tier, "ctor", k] for k in CTOR] + [[tier, "num", k] for k in NUM] + [[tier, k] for k in entries(tier)] + [[tier, "solver", k] for k in c18.CONF] + \
        [[tier, "mixed", k] for k in c18.CONF if k not in c18.REAL]


def run(case, r):
    if case[1] == "solver":
        return solver(case[0], case[2], r)
    if case[1] == "projs":
        return projs(case[0], case[2], r)
    if case[1] == "ctor":
        return ctor(case[0], case[2], r)
    if case[1] == "num":
        return numeric(case[0], case[2], r)
    if case[1] == "mixed":
        return mixed(case[0], case[2], r)
    tier, key = case
    e = entries(tier)[key]
    real = [x for x in e.xs if not np.iscomplexobj(x)]
    if not real:
        return
    shapes = sorted({x.shape for x in real})
    for sh in shapes:
        n = int(np.prod(sh))
        i = np.arange(n)
        X = [(i * 7) % 5 - 2, (i * 2) % 3 * 2 - 1, 3 - i, i * 0, (i == n // 2) * 4, (i * i) % 7 - 3, (-1) ** i * (1 + i // 2)]
        if tier == "thorough":
            X += [(i * k) % m - m // 2 for k in range(1, 9) for m in (3, 4, 5, 7)]
        for x in X[: None if not e.iterative else (len(X) if tier == "thorough" else 3)]:
            x = x.astype(float).reshape(sh)
            for tau in e.taus[:: max(1, len(e.taus) - 1)]:
                for m in METHODS:
                    ref = call(e, m, x, tau)
                    for v, f in VAR.items():
                        if v == "fortran" and x.ndim < 2 or v == "swapped" and "numba" in key:  # numba knows native types only
                            continue
                        xv = f(x)
                        r.state(x, tau, m, v)
                        r.trans()
                        r.trace()
                        got = call(e, m, xv, tau)
                        r.outcome(v, str(got))
                        tol = (2e-2 if e.iterative else 2e-4) if v == "float32" else (1e-5 if e.iterative else 1e-9)
                        ok = agree(got, ref, tol)
                        if not ok and v == "float32":  # rounding may decide a tie
                            ok = any(agree(got, call(e, m, x * (1 + d), tau), tol) for d in (1e-6, -1e-6))
                        r.check(ok, "%s|%s|%s" % (key, m, v),
                                "%s of %s stored as %s (tau=%g) gives %s, expected %s" % (m, x.ravel().tolist(), v, tau, got, ref), x=x)
    r.sample(key)


def call(e, m, x, tau):
    op = e.build(True)[0]
    try:
        y = op(x) if m == "call" else op.grad(x) if m == "grad" else getattr(op, m)(x, tau)
    except Exception as ex:
        return "raises " + type(ex).__name__ + ": " + str(ex)[:80]
    return np.asarray(y)


def agree(a, b, tol):
    if isinstance(b, str):
        return isinstance(a, str)  # what is refused is another property's subject
    if isinstance(a, str) or a.shape != b.shape and a.size != b.size:
        return False
    a, b = a.ravel().astype(complex), b.ravel().astype(complex)
    fin = np.isfinite(b)
    return bool(np.array_equal(a[~fin], b[~fin], equal_nan=True)
                and np.max(np.abs(a[fin] - b[fin]), initial=0) <= tol * (1 + np.max(np.abs(b[fin]), initial=0)))


def points(n, k=8):
    i = np.arange(n)
    return [x.astype(float) + d for x in [(i * 7) % 5 - 2, 3 - i, i * 0, (i == n // 2) * 4, (-1) ** i * (1 + i // 2), 2 * i - 3, i * i - 2] for d in (0.0, 0.3)][:2 * k]


def observe(mk, m, x, tau):
    try:
        op = mk()
        if isinstance(op, LowRankFactorizedMatrix):
            return np.asarray({"prox": lambda: op.gradx(x[:2]), "proxdual": lambda: op.grady(x[:2]), "call": lambda: op(x[:2], x[2:]), "grad": lambda: op.lx(x[:2])}[m]())
        return np.asarray(op(x.copy()) if m == "call" else op.grad(x.copy()) if m == "grad" else getattr(op, m)(x.copy(), tau))
    except Exception as ex:
        return "raises " + type(ex).__name__ + ": " + str(ex)[:80]


def ctor(tier, name, r):
    mk, n = CTOR[name]
    for x in points(n):
        for tau in (0.4, 1.5):
            for m in METHODS:
                ref = observe(lambda: mk(lambda a: a.copy()), m, x, tau)
                for v, f in VAR.items():
                    got = observe(lambda: mk(f), m, x, tau)
                    r.state(name, x, tau, m, v), r.trans(2), r.trace(), r.outcome(str(got))
                    r.check(agree(got, ref, 2e-3 if v == "float32" else 1e-6 if name in ("L2cg", "L2legacy", "L2cgls", "QuadraticF", "Affine", "Sumw", "Intersection") else 1e-9),
                            "ctor|%s|%s|%s" % (name, m, v), "%s at %s with constructor arrays stored as %s gives %s, expected %s" % (m, x.tolist(), v, got, ref), x=x)
    r.sample(name)


def numeric(tier, name, r):
    mk = NUM[name]
    for x in points(3):
        for tau in (1, 2, 3):
            for m in METHODS:
                ref = observe(lambda: mk(float), m, x, float(tau))
                for a in PT:
                    for b in PT:
                        if a != "float" and b != "float" and tier == "quick" and a != b:
                            continue
                        if name == "mul" and a not in ("float", "int", "float64"):
                            continue
                        got = observe(lambda: mk(PT[a]), m, x, PT[b](tau))
                        r.state(name, x, tau, m, a, b), r.trans(2), r.trace(), r.outcome(str(got))
                        r.check(agree(got, ref, 1e-5 if "float32" in (a, b) else 1e-7), "num|%s|%s|%s,%s" % (name, m, a, b),
                                "%s at %s with parameters as %s and step size %g as %s gives %s, expected %s" % (m, x.tolist(), a, tau, b, got, ref), x=x)
    r.sample(name)


class Env(c18.Env):
    """The solver configurations of C18 with integer valued starting points, stored by `f`."""

    def __init__(self, start, f):
        super().__init__(False, 0)
        s = lambda *v: f(np.array(v, dtype=float))
        self.x0 = s(*[(0, 0, 0), (1, -2, 3), (0, 3, -1)][start])
        self.z0, self.zd, self.zlin = s(1, 0, -1), s(1, -1), s(1, -1, 0)
        self.xs = [s(1, 2, 0), s(-1, 0, 3)]
        self.x2 = f(np.array([[1.0, -2, 3], [1, 0, -1]]))
        self.X0, self.Y0 = s(3, -2), s(2, 3)


def solver(tier, name, r):
    f = c18.CONF[name]
    for start in range(3):
        for k in range(1, 9 if tier == "quick" else 26):
            ref = c18.flat(f(Env(start, lambda x: x.copy()), k))
            for v, g in VAR.items():
                if v in ("float32", "fortran"):
                    continue
                r.state(start, k, v)
                r.trans()
                r.trace()
                try:
                    got = c18.flat(f(Env(start, g), k))
                except Exception as ex:
                    r.fail("solver|%s|%s" % (name, v), "%s niter=%d with starting vectors stored as %s raises %s: %s" % (name, k, v, type(ex).__name__, ex))
                    continue
                r.outcome(*got)
                r.check(len(got) == len(ref) and all(agree(np.asarray(a), np.asarray(b), 1e-7) for a, b in zip(got, ref)),
                        "solver|%s|%s" % (name, v), "%s niter=%d with starting vectors stored as %s gives %s, expected %s" % (name, k, v, got, ref))
    r.sample(name)


class MixedEnv(c18.Env):
    """A complex problem whose starting vectors are real valued; those in `which` are stored by `g`, the others as complex."""

    def __init__(self, start, which, g):
        super().__init__(True, 0)

        def put(k, v):
            v = np.array(v, dtype=float)
            setattr(self, k, g(v) if k in which else v + 0j)
        put("x0", [(0, 0, 0), (1, -2, 3), (0, 3, -1)][start])
        put("z0", (1, 0, -1)), put("zd", (1, -1)), put("zlin", (1, -1, 0))
        put("xs", [(1, 2, 0), (-1, 0, 3)])
        self.xs = [np.array(v) if "xs" not in which else g(np.real(v).astype(float)) for v in self.xs]
        put("x2", [[1.0, -2, 3], [1, 0, -1]])
        put("X0", (3, -2)), put("Y0", (2, 3))
        self.fid = pp.L2(b=np.array([1.0, 0, -1]) * (1 + 0.5j), sigma=0.7)
        self.lists()


STARTS = ("x0", "z0", "zd", "zlin", "xs", "x2", "X0", "Y0")


def mixed(tier, name, r):
    f = c18.CONF[name]
    for start in range(3):
        for k in (1, 2, 5) if tier == "quick" else range(1, 16):
            ref = c18.flat(f(MixedEnv(start, (), None), k))
            for which in [(w,) for w in STARTS] + [STARTS]:
                for v, g in VAR.items():
                    if v in ("float32", "fortran"):
                        continue
                    r.state(start, k, which, v), r.trans(), r.trace()
                    d = "%s niter=%d, complex problem with real %s stored as %s" % (name, k, ",".join(which), v)
                    try:
                        with warnings.catch_warnings():
                            warnings.simplefilter("error", np.exceptions.ComplexWarning)
                            got = c18.flat(f(MixedEnv(start, which, g), k))
                    except Exception as ex:
                        r.fail("mixed|%s|%s" % (name, which[0]), "%s raises %s: %s" % (d, type(ex).__name__, ex))
                        continue
                    r.outcome(*got)
                    r.check(len(got) == len(ref) and all(agree(np.asarray(a), np.asarray(b), 1e-7) for a, b in zip(got, ref)),
                            "mixed|%s|%s" % (name, which[0]), "%s gives %s, expected %s" % (d, got, ref))
    r.sample(name)
