"""C32: results follow the symmetries of the problem: reordering, repeating and rescaling.

Each symmetry is an automorphism of the functional (operators) or of the transition system (solvers): the transformed
problem must have the transformed answers, step by step.  All permutations, a ladder of numbers of copies up to long vectors
and powers of two from 2^-40 to 2^40 are explored for every operator and solver configuration."""

import itertools

import numpy as np
import pylops

import pyproximal as pp
from pyproximal import projection as pj
from pyproximal.optimization import palm as PL
from pyproximal.optimization import primal as P
from pyproximal.optimization.segmentation import Segment
from pyproximal.utils.bilinear import LowRankFactorizedMatrix

from mc.props import c18

ID = "C32"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "points from lattices of length 3 or 4 (6 for matrices), all their permutations; 2, 3, 40, 1000 (quick) and 30000 (thorough) copies; "
    "scales 2^k, |k| = 1, 2, 10, 40, 160 (bisections: 40; iterative methods with absolute tolerances: |k| <= 3, and to their tolerance)",
    "points where a selection is tied are only compared up to the choice between the tied entries",
    "rigid motions (signs, phases, rotations, orthogonal factors, shifts, reversals, transpositions) from fixed lists per operator",
    "solver runs of lengths 1..8 with the tolerances of the configurations of C18; at most 40 copies",
]
FLAT = lambda *a: np.array(a, dtype=float)
X3 = [np.array(v, dtype=float) for v in itertools.product([-2.0, -0.3, 0.0, 0.8, 2.5], repeat=3)]
X4 = [np.array(v, dtype=float) for v in itertools.product([-2.0, 0.0, 0.8, 3.1], repeat=4)]
C3 = [np.array(v, dtype=complex) for v in itertools.product([0.0, 1.5 - 2j, -0.3j, 0.8], repeat=3)]
MA = np.array([[1.0, 2.0, 0.0], [0.0, -1.0, 3.0]])
MS = np.array([[3.0, 1.0, 0.0], [1.0, 2.0, -1.0], [0.0, -1.0, 2.0]])
TAUS = (0.3, 1.7)
SCALES = (-160, -40, -10, -2, -1, 1, 2, 10, 40, 160)


class T:
    """a transformation of the vectors: scale s, permutation p, n copies"""

    def __init__(self, s=1.0, p=None, n=1):
        self.s, self.p, self.n = s, p, n

    def v(self, x):
        """data vector: scaled, permuted, repeated"""
        return self.u(x) * self.s

    def u(self, x):
        """unscaled vector (weights, normals)"""
        x = np.asarray(x)
        if self.p is not None:
            x = x[list(self.p)]
        return np.tile(x, self.n)

    def m(self, A):
        """matrix acting on the vectors"""
        A = np.asarray(A)
        if self.p is not None:
            A = A[:, list(self.p)]
        return mm(np.kron(np.eye(self.n), A)) if self.n > 1 else mm(A)

    def sq(self, A):
        """symmetric matrix acting on the vectors"""
        A = np.asarray(A)
        if self.p is not None:
            A = A[np.ix_(list(self.p), list(self.p))]
        return mm(np.kron(np.eye(self.n), A)) if self.n > 1 else mm(A)

    def d(self, b):
        """right hand side of a matrix: not permuted"""
        return np.tile(np.asarray(b), self.n) * self.s

    def __repr__(self):
        return "scale %g, order %s, %d copies" % (self.s, self.p, self.n)


def mm(A):
    return pylops.MatrixMult(np.ascontiguousarray(A), dtype=A.dtype)


# name: (constructor from a transformation, points, factor of the value per transformation, kinds of transformations,
#        options: tol, iterative (few copies and scales), ties)
SEP = lambda t: t.s ** 2 * t.n          # a function of sums of squares
ONE = lambda t: 1.0


def O(make, xs=X3, val=SEP, kinds="spn", tol=1e-9, it=False, ties=False, big=True, cx=False, taus=TAUS, nograd=False, far=160):
    return dict(make=make, xs=xs, val=val, kinds=kinds, tol=tol, it=it, ties=ties, big=big, cx=cx, taus=taus, nograd=nograd, far=far)


def logsig(s, g, sc):
    return sc ** 2 * s * np.log(g / sc + 1) / np.log(g + 1) if False else sc ** 2 * s


OPS = {
    "L1": O(lambda t: pp.L1(0.7 * t.s), cx=True), "L1g": O(lambda t: pp.L1(0.7 * t.s, g=t.v(FLAT(1, -2, 3)))),
    "L0": O(lambda t: pp.L0(0.7), val=lambda t: t.n, cx=True, kinds="pn"),
    "L2": O(lambda t: pp.L2(sigma=0.7), cx=True), "L2b": O(lambda t: pp.L2(b=t.v(FLAT(1, -2, 3)), sigma=0.7)),
    "L2bq": O(lambda t: pp.L2(b=t.v(FLAT(1, -2, 3)), q=t.v(FLAT(1, 0, -2)), sigma=0.7, alpha=0.3)),
    "L2Op": O(lambda t: pp.L2(Op=t.m(MA), b=t.d(FLAT(3, -2)), q=t.v(FLAT(1, 0, -2)), sigma=0.7, alpha=0.3, niter=40, warm=False), big=False, tol=1e-7),
    "L2fact": O(lambda t: pp.L2(Op=t.m(MA), b=t.d(FLAT(3, -2)), sigma=0.7, densesolver="factorize"), big=False, tol=1e-8),
    "Quadratic": O(lambda t: pp.Quadratic(Op=t.sq(MS), b=t.v(FLAT(1, -2, 3)), niter=60, warm=False), big=False, tol=1e-7),
    "QuadraticL": O(lambda t: pp.Quadratic(b=t.v(FLAT(1, -2, 3)), c=0.5 * t.s ** 2 * t.n)),
    "Euclidean": O(lambda t: pp.Euclidean(0.7 * t.s * np.sqrt(t.n)), cx=True),
    "Box": O(lambda t: pp.Box(t.v(FLAT(-1, 0, -3)), t.v(FLAT(1, 2, -1))), val=ONE), "Boxs": O(lambda t: pp.Box(-0.5 * t.s, 0.7 * t.s), val=ONE),
    "Ball": O(lambda t: pp.EuclideanBall(t.v(FLAT(0.5, -1, 0.3)), 0.9 * t.s * np.sqrt(t.n)), val=ONE),
    "HalfSpace": O(lambda t: pp.HalfSpace(t.u(FLAT(1, -2, 3)), 0.45 * t.s * t.n), val=ONE),
    "Affine": O(lambda t: pp.AffineSet(t.m(MA), t.d(FLAT(3, -2)), niter=40), val=ONE, big=False, tol=1e-7),
    "L0Ball": O(lambda t: pp.L0Ball(2 * t.n), xs=X4, val=ONE, ties=True),
    "L1Ball": O(lambda t: pp.L1Ball(3 * t.n, 1.3 * t.s * t.n, xtol=1e-10 * t.s), val=ONE, tol=1e-6, far=40, cx=True),
    "Simplex": O(lambda t: pp.Simplex(3 * t.n, 1.3 * t.s * t.n, xtol=1e-10 * t.s, ftol=1e-10 * t.s), val=ONE, tol=1e-6, far=40),
    "SimplexN": O(lambda t: pp.Simplex(3 * t.n, 1.3 * t.s * t.n, engine="numba", xtol=1e-10 * t.s, ftol=1e-10 * t.s), val=None, tol=1e-6, far=40),
    "Huber": O(lambda t: pp.Huber(0.6 * t.s), val=lambda t: t.s * t.n, kinds="pn"), "HuberS": O(lambda t: t.s * pp.Huber(0.6 * t.s), cx=True, nograd=True),
    "HuberCirc": O(lambda t: (t.s * np.sqrt(t.n)) * pp.HuberCircular(0.6 * t.s * np.sqrt(t.n)), nograd=True),
    "Log": O(lambda t: pp.Log(0.7 * t.s ** 2 * np.log1p(2.3 / t.s) / np.log(3.3), 2.3 / t.s)),
    "Log1": O(lambda t: pp.Log1(0.7 * t.s ** 2, 0.3 * t.s), val=None), "ETP": O(lambda t: pp.ETP(0.7 * t.s ** 2 * np.expm1(-1.3 / t.s) / np.expm1(-1.3), 1.3 / t.s), tol=1e-7, far=10),
    "Geman": O(lambda t: pp.Geman(0.7 * t.s ** 2, 1.3 * t.s), tol=1e-7), "SCAD": O(lambda t: pp.SCAD(0.7 * t.s, 4.5)),
    "RelaxedMS": O(lambda t: pp.RelaxedMumfordShah(0.7, 0.8 * t.s ** 2), val=None), "QECard": O(lambda t: pp.QuadraticEnvelopeCard(0.6 * t.s ** 2), cx=True, taus=(0.3, 0.8)),
    "QECardInd": O(lambda t: pp.QuadraticEnvelopeCardIndicator(2 * t.n), xs=X4, ties=True, big=False, taus=(0.3, 0.8), val=None, tol=1e-8),
    "Nonneg": O(lambda t: pp.Box(lower=0.0), val=ONE), "VStack": O(lambda t: pp.VStack([pp.L1(0.7 * t.s), pp.L2(sigma=0.4)], nn=[1, 2]), kinds="s"),
    "Orth": O(lambda t: pp.Orthogonal(pp.L1(0.7 * t.s), t.m(np.eye(3)[[1, 2, 0]]), b=t.d(FLAT(1, -2, 3))), big=False),
    "Sum": O(lambda t: pp.Sum([pp.L1(0.7 * t.s), pp.Box(-1.0 * t.s, 2.5 * t.s), pp.L2(sigma=0.3)], tol=1e-11), val=None, tol=1e-5, it=True),
    "Sum2": O(lambda t: pp.Sum([pp.L1(0.7 * t.s), pp.EuclideanBall(t.v(FLAT(0.5, -1, 0.3)), 0.9 * t.s * np.sqrt(t.n))], tol=1e-11), val=None, tol=1e-5, it=True),
    "GenInt": O(lambda t: pp.GenericIntersectionProx([pj.EuclideanBallProj(t.v(FLAT(0.5, -1, 0.3)), 0.9 * t.s * np.sqrt(t.n)), pj.HalfSpaceProj(t.u(FLAT(1, -2, 3)), 1.5 * t.s * t.n)],
                                                     tol=1e-11), val=None, tol=1e-5, it=True),
    "HyperBox": O(lambda t: Pr(pj.HyperPlaneBoxProj(t.u(FLAT(1, -2, 3)), 0.5 * t.s * t.n, t.v(FLAT(-1, -1, 0)), t.v(FLAT(2, 2, 1)), xtol=1e-10)), val=None, tol=1e-5, it=True),
    "chain": O(lambda t: 2.0 * pp.L1(0.7 * t.s).precomposition(0.5, t.v(FLAT(1, -2, 3)))), "add": O(lambda t: pp.L2(sigma=0.4) + t.v(FLAT(1, -2, 3))),
    "adj": O(lambda t: pp.L2(b=t.v(FLAT(1, -2, 3)), sigma=0.7).H, val=None),
}
X6 = [np.array(v, dtype=float) for v in itertools.product([-2.0, 0.4, 1.0], repeat=6)][::5]


class Pr(pp.ProxOperator):
    def __init__(self, P):
        super().__init__(None, False)
        self.P = P

    def __call__(self, x):
        return 0.0

    def prox(self, x, tau):
        return self.P(x)


class M:
    """a transformation of 2 x 3 matrices: rows and columns permuted, columns repeated, scaled"""

    def __init__(self, s=1.0, r=None, p=None, n=1):
        self.s, self.r, self.p, self.n = s, r, p, n

    def v(self, x):
        X = np.asarray(x).reshape(2, 3)
        if self.r is not None:
            X = X[list(self.r)]
        if self.p is not None:
            X = X[:, list(self.p)]
        return np.tile(X, (1, self.n)).ravel() * self.s

    def __repr__(self):
        return "scale %g, rows %s, columns %s, %d copies of the columns" % (self.s, self.r, self.p, self.n)


MOPS = {
    "L21": O(lambda t: pp.L21(2, 0.7 * t.s), X6), "L21T": O(lambda t: Tr(lambda k: pp.L21(3, 0.7 * t.s), t), X6, kinds="sp"),
    "L21L1": O(lambda t: Sh(pp.L21_plus_L1(0.7 * t.s, 0.3), t), X6, kinds="sp"), "Nuclear": O(lambda t: pp.Nuclear((2, 3 * t.n), 0.7 * t.s * np.sqrt(t.n)), X6, tol=1e-8),
    "NuclearBall": O(lambda t: pp.NuclearBall((2, 3 * t.n), 1.7 * t.s * np.sqrt(t.n), xtol=1e-10), X6, val=ONE, tol=1e-5, it=True),
    "SVP": O(lambda t: pp.SingularValuePenalty((2, 3 * t.n), pp.L1(0.7 * t.s * np.sqrt(t.n))), X6, tol=1e-8),
    "L10": O(lambda t: pp.L10Ball(2, 2 * t.n), X6, val=ONE, ties=True),
    "TV": O(lambda t: pp.TV((2, 3), 0.4 * t.s, niter=25, rtol=0), X6[::8], kinds="s", tol=1e-6),
    "TVstop": O(lambda t: pp.TV((2, 3), 0.4 * t.s, niter=100), X6[::8], kinds="s", tol=0.05, val=None),
    "SVPtall": O(lambda t: Tr(lambda k: pp.SingularValuePenalty((3, 2), pp.Log(0.7 * t.s ** 2 * np.log1p(2.3 / t.s) / np.log(3.3), 2.3 / t.s)), t), X6, kinds="sp", tol=1e-7),
    "Rank": O(lambda t: pp.QuadraticEnvelopeRankL2((2, 3 * t.n), 1, t.v(np.arange(6.0)).reshape(2, 3 * t.n)), X6, val=None, tol=1e-7, taus=(0.3, 0.8)),
    "Inter": O(lambda t: pp.Intersection(2, 3 * t.n, 0.8 * t.s, niter=500, tol=1e-11, call=False), [np.abs(x) / 7 for x in X6], val=None, tol=1e-5, it=True, kinds="pn"),
    "SimplexRows": O(lambda t: pp.Simplex(3 * t.n, 1.3 * t.s * t.n, dims=(2, 3 * t.n), axis=1, xtol=1e-10 * t.s), X6, val=None, tol=1e-6, far=40),
    "SimplexRowsN": O(lambda t: pp.Simplex(3 * t.n, 1.3 * t.s * t.n, dims=(2, 3 * t.n), axis=1, engine="numba", xtol=1e-10 * t.s, ftol=1e-10 * t.s), X6, val=None, tol=1e-6, far=40),
}


class Tr(pp.ProxOperator):
    """acts on the transposed matrix"""

    def __init__(self, mk, t):
        super().__init__(None, True)
        self.o = mk(t)
        self.tr = lambda x, a, b: x.reshape(a, b).T.ravel()

    def __call__(self, x):
        return self.o(self.tr(x, 2, 3))

    def prox(self, x, tau):
        return self.tr(self.o.prox(self.tr(x, 2, 3), tau), 3, 2)

    def proxdual(self, x, tau):
        return self.tr(self.o.proxdual(self.tr(x, 2, 3), tau), 3, 2)


class Sh(Tr):
    """an operator on two-dimensional arrays"""

    def __init__(self, o, t):
        pp.ProxOperator.__init__(self, None, False)
        self.o = o

    def __call__(self, x):
        return self.o(x.reshape(2, -1))

    def prox(self, x, tau):
        return self.o.prox(x.reshape(2, -1), tau).ravel()

    def proxdual(self, x, tau):
        return self.o.proxdual(x.reshape(2, -1), tau).ravel()


def transforms(o, tier, mat):
    out = []
    C = M if mat else T
    if "s" in o["kinds"]:
        out += [("scale", C(s=2.0 ** k)) for k in SCALES if abs(k) <= (2 if o["it"] else o["far"])]
    if "p" in o["kinds"]:
        if mat:
            out += [("order", M(r=r, p=p)) for r in itertools.permutations(range(2)) for p in itertools.permutations(range(3))][1:]
        else:
            out += [("order", T(p=p)) for p in itertools.permutations(range(len(o["xs"][0])))][1:]
    if "n" in o["kinds"]:
        N = (2, 3, 40) if not o["big"] else (2, 3, 40, 1000) if tier == "quick" or o["it"] else (2, 3, 40, 1000, 30000)
        out += [("copies", C(n=n)) for n in N]
    if "s" in o["kinds"] and "n" in o["kinds"]:
        out += [("scale and copies", C(s=0.5, n=7))]
    return out


def cases(tier):
    out = [["op", tier, k] for k in OPS] + [["mat", tier, k] for k in MOPS]
    out += [["solver", tier, s, c] for s in SOL for c in (0, 1) if not (c and s in c18.REAL)]
    out.append(["image", tier])
    out += [["motion", tier, k] for k in MOT]
    return out


def run(case, r):
    {"image": symimage, "motion": motion, "op": operator, "mat": operator, "solver": solver}[case[0]](case, r)


def operator(case, r):
    kind, tier, name = case
    mat = kind == "mat"
    o = (MOPS if mat else OPS)[name]
    one = M() if mat else T()
    base = o["make"](one)
    xs = o["xs"] + (C3 if o["cx"] else [])
    EV = {"prox": lambda a, x, t: a.prox(x, t), "proxdual": lambda a, x, t: a.proxdual(x, 1 / t), "grad": lambda a, x, t: a.grad(x)}
    want = {}
    for i, x in enumerate(xs):
        for m, f in EV.items():
            for t in o["taus"]:
                try:
                    want[i, m, t] = f(base, x.copy(), t)
                except NotImplementedError:
                    pass
        want[i] = base(x.copy())
    for what, tr in transforms(o, tier, mat):
        a = o["make"](tr)
        sub = range(0, len(xs), (2 if tier == "quick" else 1) * (3 if o["it"] else 1)) if tr.n < 1000 else range(0, len(xs), max(1, len(xs) // 12))
        for i in sub:
            x = xs[i]
            if o["ties"] and tied(x, mat):
                continue
            y = tr.v(x)
            for m, f in EV.items():
                for t in o["taus"]:
                    w = want.get((i, m, t))
                    if w is None or m == "grad" and o["nograd"]:
                        continue
                    got = f(a, y.copy(), t)
                    r.trans()
                    w = tr.v(w)
                    tol = o["tol"] * (tr.s + np.nanmax(np.abs(w), initial=0) + np.max(np.abs(y), initial=0))
                    r.check(np.shape(got) == np.shape(w) and bool(np.all((np.abs(got - w) <= tol) | np.isnan(got) & np.isnan(w))), "%s|%s|%s" % (name, m, what),
                            "%s.%s(%s, %g), %r: %s instead of %s" % (name, m, x, t, tr, brief(got), brief(w)))
            if o["val"] is not None and want[i] is not None:
                got = a(y.copy())
                f = o["val"](tr)
                if isinstance(want[i], (bool, np.bool_)) or o["val"] is ONE:
                    # membership has an absolute tolerance
                    r.check(not 0.2 < tr.s < 5 or bool(got) == bool(want[i]), "%s|value|%s" % (name, what), "%s(%s), %r: %s, for the original %s" % (name, x, tr, got, want[i]))
                else:
                    r.check(abs(got - f * want[i]) <= o["tol"] * f * (1 + abs(want[i])), "%s|value|%s" % (name, what),
                            "%s(%s), %r: %s instead of %s" % (name, x, tr, got, f * want[i]))
            r.state(name, what, repr(tr), i)
            r.outcome(name, w.tobytes() if w is not None and w.size < 100 else i)
            r.trace()


def tied(x, mat):
    v = np.abs(x)
    if mat:
        v = np.abs(x).reshape(2, 3).sum(axis=0)
    return len(np.unique(v)) < len(v)


def brief(v):
    return np.asarray(v).ravel()[:8]


def symimage(case, r):
    """segmentation: order of the classes, transposed images; PALM: exchange of the factors, hidden sign and order"""
    _, tier = case
    vals = [0.0, 0.9, 2.2]
    cl = np.array([0.0, 1.0, 2.0])
    sg = np.array([1.0, 0.5, 2.0])
    imgs = [np.array(v).reshape(2, 2) for v in itertools.product(vals, repeat=4)]
    imgs += [np.array(v).reshape(2, 3) for v in itertools.product(vals, repeat=6)][::(7 if tier == "thorough" else 40)]
    for y in imgs[::1 if tier == "thorough" else 2]:
        for n in (1, 3, 10):
            for use in (False, True):
                kw = dict(niter=n, kwargs_simplex=dict(xtol=1e-12))
                g = lambda y, c, s: Segment(y.copy(), c.copy(), 1.5, 0.4, clsigmas=s.copy() if use else None, **kw)
                x, lab = g(y, cl, sg)
                r.trans()
                for p in itertools.permutations(range(3)):
                    p = list(p)
                    x2, lab2 = g(y, cl[p], sg[p])
                    r.trans()
                    r.check(np.allclose(x2, x[:, p], atol=1e-8), "seg|classes", "Segment(%s): classes in order %s give %s, in order 0 1 2 %s" % (y, p, x2, x[:, p]))
                    top = np.sort(x, axis=1)
                    clear = (top[:, -1] - top[:, -2] > 1e-6).reshape(y.shape)
                    r.check(np.all((np.array(p)[lab2] == lab) | ~clear), "seg|labels", "Segment(%s): labels %s with classes in order %s, else %s" % (y, lab2, p, lab))
                x2, lab2 = g(np.ascontiguousarray(y.T), cl, sg)
                X = x.reshape(y.shape + (3,)).transpose(1, 0, 2).reshape(-1, 3)
                r.check(np.allclose(x2, X, atol=1e-8), "seg|transpose", "Segment(%s): the transposed image gives %s instead of %s" % (y, x2, X))
                r.state("seg", y.tobytes(), n, use)
                r.outcome(x)
                r.trace()
    # PALM
    K = {"l1": lambda s: pp.L1(0.3), "none": lambda s: None, "eucl": lambda s: pp.Euclidean(0.4)}
    X0, Y0 = np.array([[1.0, 0.2], [-0.5, 0.7], [0.3, -1.0]]), np.array([[0.4, 1.0, -0.6, 0.1], [0.9, -0.2, 0.5, 0.8]])
    D0 = np.arange(12.0).reshape(3, 4) / 5 - 1
    for f, g, a, gf, gg in itertools.product(K, K, (None, (0.5, 0.3), (1.0, 0.0)), (1.1, 1.7), (1.2, 2.0)):
        for n in (1, 2, 5):
            def go(X, Y, Dm, f=f, g=g):
                H = LowRankFactorizedMatrix(X.copy(), Y.copy(), Dm.ravel().copy())
                kw = dict(gammaf=gf, gammag=gg, niter=n)
                if a is None:
                    x, y = PL.PALM(H, K[f](1), K[g](1), X.ravel().copy(), Y.ravel().copy(), **kw)
                else:
                    x, y = PL.iPALM(H, K[f](1), K[g](1), X.ravel().copy(), Y.ravel().copy(), a=a, **kw)
                return x.reshape(X.shape), y.reshape(Y.shape)
            x, y = go(X0, Y0, D0)
            for what, X, Y, Dm, im in (
                    ("hidden order", X0[:, ::-1], Y0[::-1], D0, lambda x, y: (x[:, ::-1], y[::-1])),
                    ("hidden sign", X0 * [1, -1], Y0 * [[1], [-1]], D0, lambda x, y: (x * [1, -1], y * [[1], [-1]])),
                    ("row order", X0[[2, 0, 1]], Y0, D0[[2, 0, 1]], lambda x, y: (x[[2, 0, 1]], y)),
                    ("column order", X0, Y0[:, [3, 1, 0, 2]], D0[:, [3, 1, 0, 2]], lambda x, y: (x, y[:, [3, 1, 0, 2]])),
                    ("row sign", -X0, Y0, -D0, lambda x, y: (-x, y)), ("column sign", X0, -Y0, -D0, lambda x, y: (x, -y))):
                x2, y2 = go(np.ascontiguousarray(X), np.ascontiguousarray(Y), np.ascontiguousarray(Dm))
                u, w = im(x, y)
                r.trans()
                r.check(np.allclose(x2, u, atol=1e-9) and np.allclose(y2, w, atol=1e-9), "palm|" + what,
                        "PALM a=%s f=%s g=%s gammas %g, %g, %d iterations, %s changed: %s, %s instead of %s, %s" % (a, f, g, gf, gg, n, what, x2, y2, u, w))
                r.state("palm", f, g, a, gf, gg, n, what)
            r.outcome(x, y)
            r.trace()


# motions: maps g of the vectors under which the functional does not change; prox(g(x)) = g(prox(x))
R3 = [np.array(v, dtype=float).reshape(3, 3) for v in ([0.6, -0.8, 0, 0.8, 0.6, 0, 0, 0, 1], [0, 1, 0, 0, 0, 1, 1, 0, 0], [2 / 3, -1 / 3, 2 / 3, 2 / 3, 2 / 3, -1 / 3, -1 / 3, 2 / 3, 2 / 3])]
R2 = [np.array(v, dtype=float).reshape(2, 2) for v in ([0.6, -0.8, 0.8, 0.6], [0, 1, 1, 0], [-1, 0, 0, 1])]
PHASES = [(n, lambda x, c=c: c * x) for n, c in (("i", 1j), ("-1", -1.0), ("0.6+0.8i", 0.6 + 0.8j))]
SIGN = [("opposite sign", lambda x: -x)]
SIGNS = [("signs %s" % (s,), lambda x, s=np.array(s): s * x) for s in itertools.product([1.0, -1.0], repeat=3) if min(s) < 0]
ROT = [("rotation %d" % i, lambda x, Q=Q: Q @ x) for i, Q in enumerate(R3)]
LR = [("left %d" % i, lambda x, Q=Q: (Q @ x.reshape(2, 3)).ravel()) for i, Q in enumerate(R2)] + [
    ("right %d" % i, lambda x, Q=Q: (x.reshape(2, 3) @ Q.T).ravel()) for i, Q in enumerate(R3)]
COLS = LR[:3] + [("order of columns", lambda x: x.reshape(2, 3)[:, [1, 2, 0]].ravel()), ("sign of a column", lambda x: (x.reshape(2, 3) * [1, -1, 1]).ravel())]
LATX = {1: [-1.0, 0.0, 0.6, 2.3], 2: [-1.3, 0.0, 0.6], 3: [0.0, 1.0]}


def tvx(dims, tier):
    n = int(np.prod(dims))
    lat = [np.array(v) for v in itertools.product(LATX[len(dims)], repeat=n)]
    return lat[::max(1, len(lat) // (40 if tier == "quick" else 400))]


def shifted(c):
    return ("shift %g" % c, lambda x: x + c)


def TVM(dims):
    """constant shifts and the opposite sign; orders of the axes and the reversed axis (one dimension) give another TV"""
    mk = lambda d=dims: pp.TV(d, 0.4, niter=60, rtol=0)
    g = [shifted(c) for c in (-3.0, 0.1, 40.0)] + SIGN
    h = []
    if len(dims) == 1:
        h = [("reversed", lambda x: x[::-1].copy(), mk)]
    else:
        h = [("axes %s" % (p,), lambda x, p=p: x.reshape(dims).transpose(p).ravel(), lambda p=p: mk(tuple(dims[k] for k in p)))
             for p in itertools.permutations(range(len(dims)))][1:]
    return mk, [(n, f, mk) for n, f in g] + h


def cyc(k, dims):
    return ("rolled %s" % (k,), lambda x: np.roll(x.reshape(dims), k, axis=tuple(range(len(dims)))).ravel())


MOT = {
    "TV1": lambda t: TVM((4,)) + (tvx((4,), t), 1e-7), "TV1l": lambda t: TVM((7,)) + (tvx((7,), t), 1e-7), "TV2": lambda t: TVM((2, 3)) + (tvx((2, 3), t), 1e-7),
    "TV2s": lambda t: TVM((3, 3)) + (tvx((3, 3), t), 1e-7), "TV3": lambda t: TVM((2, 2, 3)) + (tvx((2, 2, 3), t), 1e-7),
    **{k: (lambda t, mk=mk, g=g: (mk, g, X3, 1e-9)) for k, mk, g in (
        ("L1", lambda: pp.L1(0.7), SIGNS), ("L0", lambda: pp.L0(0.7), SIGNS), ("L2", lambda: pp.L2(sigma=0.7), SIGNS + ROT), ("Euclidean", lambda: pp.Euclidean(0.7), SIGNS + ROT),
        ("HuberCircular", lambda: pp.HuberCircular(0.7), SIGNS + ROT), ("EuclideanBall", lambda: pp.EuclideanBall(np.zeros(3), 1.3), SIGNS + ROT), ("Huber", lambda: pp.Huber(0.7), SIGNS),
        ("Log", lambda: pp.Log(0.7, 2.3), SIGNS), ("Log1", lambda: pp.Log1(0.7, 0.3), SIGNS), ("ETP", lambda: pp.ETP(0.7, 1.3), SIGNS), ("Geman", lambda: pp.Geman(0.7, 1.3), SIGNS),
        ("SCAD", lambda: pp.SCAD(0.7, 4.5), SIGNS), ("RelaxedMS", lambda: pp.RelaxedMumfordShah(0.7, 0.8), SIGNS), ("QECard", lambda: pp.QuadraticEnvelopeCard(0.6), SIGNS),
        ("L0Ball", lambda: pp.L0Ball(3), SIGNS), ("L1Ball", lambda: pp.L1Ball(3, 1.3, xtol=1e-12), SIGNS))},
    **{k + "c": (lambda t, mk=mk, g=g: (mk, g, C3, 1e-9)) for k, mk, g in (
        ("L1", lambda: pp.L1(0.7), PHASES), ("L0", lambda: pp.L0(0.7), PHASES), ("L2", lambda: pp.L2(sigma=0.7), PHASES + ROT), ("Euclidean", lambda: pp.Euclidean(0.7), PHASES + ROT),
        ("QECard", lambda: pp.QuadraticEnvelopeCard(0.6), PHASES))},
    **{k: (lambda t, mk=mk, g=g: (mk, g, X6, 1e-7)) for k, mk, g in (
        ("L21", lambda: pp.L21(2, 0.7), COLS), ("Nuclear", lambda: pp.Nuclear((2, 3), 0.7), LR), ("NuclearBall", lambda: pp.NuclearBall((2, 3), 1.7, xtol=1e-12), LR),
        ("SVP", lambda: pp.SingularValuePenalty((2, 3), pp.Log(0.7, 2.3)), LR), ("Rank", lambda: pp.QuadraticEnvelopeRankL2((2, 3), 1, np.zeros((2, 3))), LR))},
}


def motion(case, r):
    _, tier, name = case
    mk, gs, xs, tol = MOT[name](tier)
    gs = [(g[0], g[1], g[2] if len(g) > 2 else mk) for g in gs]
    a = mk()
    # where the answer is a choice between equally good ones (selected entries, hard thresholds), the maps still agree: |g(x)| is |x|
    for i, x in enumerate(xs):
        for t in (0.3, 1.7) if name != "QECard" and name != "QECardc" and name != "Rank" else (0.3, 0.8):
            for m, f in (("prox", lambda o, v, t=t: o.prox(v, t)), ("proxdual", lambda o, v, t=t: o.proxdual(v, t))):
                if m == "proxdual" and any(n.startswith("shift") for n, *_ in gs):
                    continue
                w = f(a, x.copy())
                for what, g, mg in gs:
                    got, want = f(mg(), g(x)), g(w)
                    r.trans()
                    if name == "Rank" and not np.allclose(got, want, atol=1e-6) and near_tie(x):
                        continue
                    sc = tol * (1 + np.max(np.abs(g(x))))
                    r.check(np.shape(got) == np.shape(want) and bool(np.all(np.abs(got - want) <= sc)), "motion|%s|%s|%s" % (name, m, what.split()[0]),
                            "%s.%s(%s, %g), %s: %s instead of %s" % (name, m, x, t, what, brief(got), brief(want)))
        for what, g, mg in gs:
            v, w = mg()(g(x)), a(x.copy())
            r.trans()
            if isinstance(w, (bool, np.bool_)):
                continue
            r.check(v == w or abs(v - w) <= 1e-8 * (1 + abs(w)), "motion|%s|value|%s" % (name, what.split()[0]), "%s(%s), %s: %s instead of %s" % (name, x, what, v, w))
        r.state(name, x.tobytes())
        r.outcome(name, w)
        r.trace()


def near_tie(x):
    s = np.linalg.svd(x.reshape(2, 3), compute_uv=False)
    return s[0] - s[1] < 1e-9


class Env(c18.Env):
    """the problem data of C18, transformed"""

    def __init__(self, cplx, start, t):
        super().__init__(cplx, start)
        self.t = t
        A, Dm, b, zd = self.A, self.D, self.b, self.zd
        self.A, self.D = (np.kron(np.eye(t.n), M if t.p is None else M[:, list(t.p)]) for M in (A, Dm))
        self.b, self.zd = t.d(b), t.d(zd)
        for k in ("x0", "z0", "zlin"):
            setattr(self, k, t.v(getattr(self, k)))
        self.xs = [t.v(v) for v in self.xs]
        self.x2 = np.stack([t.v(v) for v in self.x2])
        s = t.s
        self.f2 = pp.L2(Op=mm(self.A), b=self.b, warm=False)
        self.fid = pp.L2(b=self.z0, sigma=0.7)
        self.l1, self.l2 = pp.L1(sigma=0.3 * s), pp.Euclidean(sigma=0.5 * s * np.sqrt(t.n))
        self.box = pp.EuclideanBall(center=self.z0 * 0, radius=1.5 * s * np.sqrt(t.n))
        self.aff = pp.AffineSet(mm(self.D), self.zd, niter=40)
        if t.n == 1 and t.p is None:
            self.M0, self.X0, self.Y0 = self.M0 * s ** 2, self.X0 * s, self.Y0 * s
            self.l1p, self.l2p = pp.L1(sigma=0.3 * s ** 3), pp.Euclidean(sigma=0.5 * s ** 3)
        self.yimg, self.cl = self.yimg * s, self.cl * s
        self.lists()


SOL = dict(c18.CONF)
SOL["seg"] = lambda e, n, **o: Segment(e.yimg, e.cl, e.t.s ** -2, 0.3, niter=n, kwargs_simplex=dict(xtol=1e-12), **o)[0].T.ravel()
SOL["pgtauv"] = c18.pg(tau=lambda e, n: e.t.u(e.taus[:3]))
SOL["apgtauv"] = lambda e, n, **o: P.AcceleratedProximalGradient(e.f2, e.l1, e.x0, tau=e.t.u(e.taus[:3]), niter=n, **o)
SOL["aatauv"] = lambda e, n, **o: P.AndersonProximalGradient(e.f2, e.l1, e.x0, tau=e.t.u(e.taus[:3]), niter=n, nhistory=2, **o)
SOL["palm"] = lambda e, n, **o: PL.PALM(LowRankFactorizedMatrix(e.X0[:, None], e.Y0[None, :], e.M0), e.l1p, e.l1p, e.X0, e.Y0, niter=n, **o)
SOL["ipalm"] = lambda e, n, **o: PL.iPALM(LowRankFactorizedMatrix(e.X0[:, None], e.Y0[None, :], e.M0), e.l2p, None, e.X0, e.Y0, gammaf=1.3, gammag=1.6,
                                          a=(0.5, 0.3), niter=n, **o)
FLOOR = ("bregw", "bregA")     # absolute tolerances
PALMS = ("palmbt", "ipalmbt")
SKIP = {"constol": "s", "sr3": "s", "sr3l": "s", "pnp": "n", "pnppd": "n", "seg": "pn", "palm": "pn", "ipalm": "pn", **{k: "spn" for k in PALMS}}


def solver(case, r):
    _, tier, name, cplx = case
    f = SOL[name]
    tol = 1e-6
    skip = SKIP.get(name, "")
    ts = []
    if "s" not in skip:
        ts += [("scale", T(s=2.0 ** k)) for k in (-20, -3, -1, 1, 3, 20) if k > -20 or name not in FLOOR]
    if "p" not in skip:
        ts += [("order", T(p=p)) for p in itertools.permutations(range(3))][1:]
    if "n" not in skip:
        ts += [("copies", T(n=n)) for n in ((2, 5) if tier == "quick" else (2, 5, 40))]
    for st in (0, 1, 2):
        for k in (1, 2, 3, 5, 8):
            if not ts:
                break
            want = c18.flat(f(Env(cplx, st, T()), k))
            for what, t in ts:
                e = Env(cplx, st, t)
                got = c18.flat(f(e, k))
                r.trans()
                ok = len(got) == len(want)
                for g, w in zip(got, want):
                    u = image(t, w, name)
                    if u is None:
                        continue
                    sc = np.max(np.abs(u), initial=0) + t.s
                    ok = ok and g.shape == u.shape and np.max(np.abs(g - u), initial=0) <= tol * sc
                    r.check(ok, "%s|%s" % (name, what), "%s %s start %d, %d iterations, %r: %s instead of %s" % (name, "complex" if cplx else "real", st, k, t, brief(g), brief(u)))
                r.state(name, cplx, st, k, repr(t))
                r.outcome(*[w for w in want])
                r.trace()


def image(t, w, name):
    """the transformed result: primal vectors (length 3) are permuted, dual ones (length 2) are not"""
    if name == "seg":
        return w
    if name in ("palm", "ipalm"):
        return w * t.s
    if w.shape == (3,):
        return t.v(w)
    if w.shape == (2,):
        return t.d(w)
    return None
