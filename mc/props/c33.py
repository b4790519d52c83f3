"""C33: vanishing and dominating weights, radii and steps.

A weight, radius, count or step size moves along a ladder of powers of two with both ends (0 included); on every rung the
answer is checked against laws that hold on the whole path: optimality against competitors, monotone value and distance,
the resolvent identity, the semigroup of nested projections, dependence on weight x step only, and the limits at both ends.
Solvers with a vanishing (or an excluding) regulariser must take the steps they take without it (at the origin)."""

import itertools

import numpy as np
import pylops

import pyproximal as pp
from pyproximal import projection as pj

from mc.props import c18

ID = "C33"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "weights 0 and 2^k, |k| <= 60 (iterative operators |k| <= 12 and to their tolerance), steps 2^k and 1 +- 2^-k; points from lattices of 3, 4 or 6 entries",
    "value, distance and optimality laws only for operators whose prox minimises the documented functional (see the open findings of C03)",
    "solver runs of lengths 1, 3, 8 with the configurations of C18 and fixed decisions (no line search tie within rounding)",
]
F = lambda *a: np.array(a, dtype=float)
X3 = [np.array(v, dtype=float) for v in itertools.product([-2.0, -0.3, 0.0, 0.8], repeat=3)][::3] + [F(0, 0, 0), F(1, -2, 3), F(1, 1, 1)]
X4 = [np.array(v, dtype=float) for v in itertools.product([-2.0, 0.0, 0.8], repeat=4)][::5] + [F(0, 0, 0, 0), F(1, -1, 1, -1), F(3, 2, 1, 0.5)]
X6 = [np.array(v, dtype=float) for v in itertools.product([-2.0, 0.4, 1.0], repeat=6)][::37] + [np.zeros(6), F(1, 2, 0, 2, 4, 0), F(0, 0, 0, 3, 4, 5)]
C3 = [np.array(v, dtype=complex) for v in ((0, 1.5 - 2j, -0.3j), (0, 0, 0), (0.8, -1j, 1 + 1j))]
A23 = np.array([[1.0, 2.0, 0.0], [0.0, -1.0, 3.0]])
B3 = F(1, -2, 3)


def mm(M):
    return pylops.MatrixMult(np.ascontiguousarray(M), dtype=M.dtype)


def W(mk, xs=X3, lo=None, hi=None, cx=False, linear=True, law=True, convex=True, tol=1e-9, far=60, zero=True, tmax=None, limit="argmin", taufar=None, proj=None):
    return dict(mk=mk, xs=xs + (C3 if cx else []), linear=linear, law=law, convex=convex, tol=tol, far=far, zero=zero, tmax=tmax, limit=limit,
                taufar=far if taufar is None else taufar, proj=proj)


class Sh(pp.ProxOperator):
    """an operator on two-dimensional arrays"""

    def __init__(self, o):
        super().__init__(None, False)
        self.o = o

    def __call__(self, x):
        return self.o(x.reshape(2, -1))

    def prox(self, x, tau):
        return self.o.prox(x.reshape(2, -1), tau).ravel()

    def proxdual(self, x, tau):
        return self.o.proxdual(x.reshape(2, -1), tau).ravel()


# name: operator with weight w (w = 0: the zero function, unless proj gives the prox that remains)
WEIGHTS = {
    "L1": W(lambda w: pp.L1(w), cx=True), "L1g": W(lambda w: pp.L1(w, g=B3), limit=lambda x: B3), "L1s": W(lambda w: pp.L1(lambda c: w)),
    "L2": W(lambda w: pp.L2(sigma=w), cx=True), "L2b": W(lambda w: pp.L2(b=B3, sigma=w), far=25, limit=lambda x: B3),
    "L2bq": W(lambda w: w * pp.L2(b=B3, q=F(1, 0, -2), sigma=0.7, alpha=0.3) if w else pp.L2(b=B3, sigma=0.0), far=25, limit=None, tol=1e-8),
    "L2Op": W(lambda w: pp.L2(Op=mm(A23), b=F(3, -2), sigma=w, niter=60, warm=False), far=8, tol=1e-5, limit=None, taufar=3),
    "L2fact": W(lambda w: pp.L2(Op=mm(A23), b=F(3, -2), sigma=w, densesolver="factorize"), far=12, tol=1e-7, limit=None, taufar=3),
    "L2np": W(lambda w: pp.L2(Op=mm(A23), b=F(3, -2), sigma=w, densesolver="numpy"), far=12, tol=1e-7, limit=None, taufar=3),
    "L2sp": W(lambda w: pp.L2(Op=mm(A23), b=F(3, -2), sigma=w, densesolver="scipy"), far=12, tol=1e-7, limit=None, taufar=3),
    "Quadratic": W(lambda w: pp.Quadratic(Op=mm(w * np.diag([2.0, 1.0, 0.5])), b=w * B3, niter=60), far=8, tol=1e-5, limit=None, taufar=3),
    "QuadraticL": W(lambda w: pp.Quadratic(b=w * B3, c=w), far=20, limit=None),
    "Euclidean": W(lambda w: pp.Euclidean(w), cx=True),
    "L21": W(lambda w: pp.L21(2, w), X6), "L21x3": W(lambda w: pp.L21(3, w), X6), "L21x1": W(lambda w: pp.L21(1, w), X3, cx=True),
    "L21L1": W(lambda w: Sh(pp.L21_plus_L1(w, 0.3)), X6), "L21L1a": W(lambda w: Sh(pp.L21_plus_L1(w, 0.0)), X6), "L21L1b": W(lambda w: Sh(pp.L21_plus_L1(w, 1.0)), X6),
    "L21L1r": W(lambda w: Sh(pp.L21_plus_L1(1.0, 1.0 - w if w < 1 else 0.0)), X6, zero=False, linear=False, far=30),
    "Nuclear": W(lambda w: pp.Nuclear((2, 3), w), X6, tol=1e-8), "NuclearV": W(lambda w: pp.Nuclear((2, 3), w * F(0.5, 1)), X6, law=False, convex=False, tol=1e-8),
    "SVP": W(lambda w: pp.SingularValuePenalty((2, 3), pp.L1(w)), X6, tol=1e-8), "SVPlog": W(lambda w: pp.SingularValuePenalty((3, 2), pp.Log(w, 2.0)), X6, convex=False, tol=1e-8),
    "Log": W(lambda w: pp.Log(w, 2.3), cx=True, convex=False), "LogS": W(lambda w: pp.Log(w, 1e-3), convex=False), "LogB": W(lambda w: pp.Log(w, 1e3), convex=False),
    "Log1": W(lambda w: pp.Log1(w, 0.3), cx=True, law=False, convex=False), "L0": W(lambda w: pp.L0(w), cx=True, law=False, convex=False),
    "ETP": W(lambda w: pp.ETP(w, 1.3), convex=False), "ETPS": W(lambda w: pp.ETP(w, 1e-3), convex=False, tol=1e-7), "ETPB": W(lambda w: pp.ETP(w, 40.0), convex=False),
    "Geman": W(lambda w: pp.Geman(w, 1.3), cx=True, convex=False, tol=1e-7), "GemanS": W(lambda w: pp.Geman(w, 1e-2), convex=False, tol=1e-6),
    "GemanB": W(lambda w: pp.Geman(w, 50.0), convex=False, tol=1e-6),
    "SCAD": W(lambda w: pp.SCAD(w, 4.5), zero=False, linear=False, convex=False, tmax=3.4),
    "QECard": W(lambda w: pp.QuadraticEnvelopeCard(w), cx=True, linear=False, convex=False),
    "SVPcard": W(lambda w: pp.SingularValuePenalty((2, 3), pp.QuadraticEnvelopeCard(w)), X6, linear=False, convex=False, tol=1e-7),
    "RelaxedMS": W(lambda w: pp.RelaxedMumfordShah(w, 0.8 * w if w else 0.8), law=False, convex=False), "RelaxedMS0": W(lambda w: pp.RelaxedMumfordShah(w, 0.8), law=False, convex=False, linear=False),
    "RelaxedMSk": W(lambda w: pp.RelaxedMumfordShah(0.7, w), law=False, convex=False, linear=False),
    "HuberS": W(lambda w: w * pp.Huber(0.6) if w else pp.L1(0.0), cx=True), "HuberCS": W(lambda w: w * pp.HuberCircular(0.6) if w else pp.L1(0.0), cx=True),
    "Huber": W(lambda w: pp.Huber(w), zero=False, linear=False, limit=None, far=40), "HuberC": W(lambda w: pp.HuberCircular(w), zero=False, linear=False, limit=None, far=40),
    "TV1": W(lambda w: pp.TV((6,), w, niter=300, rtol=0), X6[::3], far=3, tol=1e-3, limit=None, taufar=1), "TV2": W(lambda w: pp.TV((2, 3), w, niter=300, rtol=0), X6[::3], far=3, tol=1e-3, limit=None, taufar=1),
    "TV3": W(lambda w: pp.TV((1, 2, 3), w, niter=200, rtol=0), X6[::6], far=2, tol=1e-2, limit=None, taufar=1), "TV4": W(lambda w: pp.TV((1, 2, 1, 3), w, niter=200, rtol=0), X6[::6], far=2, tol=1e-2, limit=None, taufar=1),
    "VStack": W(lambda w: pp.VStack([pp.L1(w), pp.Euclidean(w)], nn=[1, 2])), "Orth": W(lambda w: pp.Orthogonal(pp.L1(w), mm(np.eye(3)[[1, 2, 0]]), b=B3), limit=lambda x: np.array([-3.0, -1.0, 2.0])),
    "Sum": W(lambda w: pp.Sum([pp.L1(w), pp.L2(sigma=w)], tol=1e-12, niter=5000), far=4, tol=1e-5, limit=None, taufar=2),
    "SumBox": W(lambda w: pp.Sum([pp.L1(w), pp.Box(-1.0, 0.5)], tol=1e-12, niter=5000), far=6, tol=1e-5, taufar=4, proj=lambda x: np.clip(x, -1, 0.5), linear=False),
    "post": W(lambda w: (w or 1.0) * pp.L1(1.0 if w else 0.0)), "pre": W(lambda w: pp.L1(w).precomposition(2.0, B3), limit=lambda x: -B3 / 2), "add": W(lambda w: pp.L1(w) + B3 * w, limit=None, far=20),
    "adjadj": W(lambda w: pp.L1(w).H.H), "Nonneg": W(lambda w: pp.Sum([pp.Box(lower=0.0), pp.L1(w)], tol=1e-12, niter=5000), far=6, tol=1e-5, taufar=4, proj=lambda x: np.maximum(x, 0), linear=False),
}

n1 = lambda v: float(np.sum(np.abs(v)))
nuc = lambda v: float(np.sum(np.linalg.svd(v.reshape(2, 3), compute_uv=False)))
C0 = F(0.5, -1, 0.3)


def G(mk, xs=X3, size=None, centre=None, tol=1e-9, far=60, nested=True, cx=False, zero=True):
    return dict(mk=mk, xs=xs + (C3 if cx else []), size=size, centre=centre, tol=tol, far=far, nested=nested, zero=zero)


class Pr(pp.ProxOperator):
    def __init__(self, P, call=None, post=None):
        super().__init__(None, False)
        self.P, self.c = P, call

    def __call__(self, x):
        return True if self.c is None else self.c(x)

    def prox(self, x, tau):
        return np.asarray(self.P(x))


# sets of radius r around a centre; size(v): distance functional of which the set is the level set
RADII = {
    "Ball": G(lambda r: pp.EuclideanBall(C0, r), xs=X3 + [C0.copy()], size=lambda v: float(np.linalg.norm(v - C0)), centre=C0), "Ball0": G(lambda r: pp.EuclideanBall(0.0, r), size=lambda v: float(np.linalg.norm(v)), centre=np.zeros(3), cx=True),
    "L1Ball": G(lambda r: pp.L1Ball(3, r, xtol=1e-10 * (r or 1)), size=n1, centre=np.zeros(3), tol=1e-7, cx=True), "NuclearBall": G(lambda r: pp.NuclearBall((2, 3), r, xtol=1e-10 * (r or 1)), X6, size=nuc, centre=np.zeros(6), tol=1e-7),
    "Simplex": G(lambda r: pp.Simplex(3, r, xtol=1e-11 * (r or 1), ftol=1e-11 * (r or 1)), centre=np.zeros(3), tol=1e-7, far=25, nested=False), "SimplexN": G(lambda r: pp.Simplex(3, r, engine="numba", xtol=1e-11 * (r or 1), ftol=1e-11 * (r or 1)), centre=np.zeros(3), tol=1e-7, far=25, nested=False),
    "SimplexR": G(lambda r: pp.Simplex(6, r, dims=(2, 3), axis=1, xtol=1e-11 * (r or 1)), X6, centre=np.zeros(6), tol=1e-7, far=25, nested=False), "SimplexRN": G(lambda r: pp.Simplex(6, r, dims=(2, 3), axis=1, engine="numba", xtol=1e-11 * (r or 1), ftol=1e-11 * (r or 1)), X6, centre=np.zeros(6), tol=1e-7, far=25, nested=False),
    "Box": G(lambda r: pp.Box(-r, r), size=lambda v: float(np.max(np.abs(v))), centre=np.zeros(3)), "BoxA": G(lambda r: pp.Box(C0 - r, C0 + r), size=lambda v: float(np.max(np.abs(v - C0))), centre=C0),
    "HalfSpace": G(lambda r: pp.HalfSpace(B3, r), size=lambda v: float(np.dot(B3, v)), tol=1e-9), "Nonneg": G(lambda r: pp.Box(-r, np.inf), size=lambda v: float(np.max(-v))),
    "BallP": G(lambda r: Pr(pj.EuclideanBallProj(C0, r)), xs=X3 + [C0.copy()], size=lambda v: float(np.linalg.norm(v - C0)), centre=C0), "L1P": G(lambda r: Pr(pj.L1BallProj(3, r, xtol=1e-10 * (r or 1))), size=n1, centre=np.zeros(3), tol=1e-7),
    "HyperBox": G(lambda r: Pr(pj.HyperPlaneBoxProj(np.ones(3), r, 0.0, np.inf, xtol=1e-11 * (r or 1))), centre=np.zeros(3), tol=1e-7, far=25, nested=False), "BoxP": G(lambda r: Pr(pj.BoxProj(-r, r)), size=lambda v: float(np.max(np.abs(v))), centre=np.zeros(3)),
    "NucP": G(lambda r: Pr(lambda x: pj.NuclearBallProj(2, r, xtol=1e-10 * (r or 1))(x.reshape(2, 3)).ravel()), X6, size=nuc, centre=np.zeros(6), tol=1e-7),
}
nnz = lambda v: int(np.count_nonzero(np.abs(v) > 1e-12))
# sets of at most k entries, k = 0 .. n + 3 (numpy integers too)
COUNTS = {
    "L0Ball": (lambda k: pp.L0Ball(k), X4, nnz, 4), "L0P": (lambda k: Pr(pj.L0BallProj(k)), X4, nnz, 4), "L10Ball": (lambda k: pp.L10Ball(2, k), X6, lambda v: nnz(np.abs(v.reshape(2, 3)).sum(axis=0)), 3),
    "QECardInd": (lambda k: pp.QuadraticEnvelopeCardIndicator(k), X4, nnz, 4), "SVPind": (lambda k: pp.SingularValuePenalty((2, 3), pp.QuadraticEnvelopeCardIndicator(k)), X6, lambda v: int(np.linalg.matrix_rank(v.reshape(2, 3), tol=1e-9)), 2),
    "Rank": (lambda k: pp.QuadraticEnvelopeRankL2((2, 3), k, np.arange(6.0).reshape(2, 3)), X6, lambda v: int(np.linalg.matrix_rank(v.reshape(2, 3), tol=1e-9)), 2),
}


def cases(tier):
    out = [["weight", tier, k] for k in WEIGHTS] + [["radius", tier, k] for k in RADII] + [["count", tier, k] for k in COUNTS]
    out += [["solver", tier, s, c] for s in c18.CONF for c in (0, 1) if not (c and s in c18.REAL) and s not in ("seg", "sr3", "sr3l")]
    return out


def run(case, r):
    {"weight": weight, "radius": radius, "count": count, "solver": solver}[case[0]](case, r)


def ladder(far, tier, near=True):
    step = 1 if far <= 12 else 3 if far <= 30 and tier == "quick" else 6 if tier == "quick" else 2
    e = sorted(set(range(-far, far + 1, step)) | {-2, -1, 0, 1, 2} & set(range(-far, far + 1)) | {-far, far})
    t = [2.0 ** k for k in e]
    if near and far > 12:
        t += [1 + s * 2.0 ** -k for k in (3, 10, 26, 40, 52) for s in (1, -1)] + [0.6, 1.6, 2.7]
    return sorted(set(t))


def num(v):
    """value of a functional; membership as 0 or infinity"""
    if isinstance(v, (bool, np.bool_)):
        return 0.0 if v else np.inf
    return float(v)


def weight(case, r):
    _, tier, name = case
    o = WEIGHTS[name]
    tol, far = o["tol"], o["far"]
    ws = [0.0] * o["zero"] + ([2.0 ** k for k in ((-60, -25, -8, 0, 3, 60) if tier == "quick" else (-60, -40, -25, -8, -4, -2, -1, 0, 1, 2, 3, 8, 25, 40, 60)) if abs(k) <= far] if far > 12 else
                              [2.0 ** k for k in (-far, -1, 0, 1, far)])
    taus = [t for t in ladder(o["taufar"], tier) if not o["tmax"] or t <= o["tmax"]]
    unit = o["mk"](1.0)
    for w in ws:
        op = o["mk"](w)
        for x in o["xs"] if tier == "thorough" else o["xs"][:-2:2] + o["xs"][-2:]:
            nx = float(np.linalg.norm(x))
            fx = num(op(x.copy()))
            rest = x if o["proj"] is None else o["proj"](x)
            if w == 0:
                r.check(o["proj"] is not None or name in ("L0", "Log1") or fx == 0, "%s|zero value" % name, "%s with weight 0: value %s at %s" % (name, fx, x))
            # competitors
            comp = [x, 0 * x] + [c * x for c in (0.03125, 0.25, 0.5, 0.75, 0.9375)] + [np.where(np.arange(len(x)) == i, 0, x) for i in range(len(x))]
            cv = [num(op(c.copy())) for c in comp] if o["law"] else []
            prev = None
            for t in taus:
                if far > 12 and w and not 2.0 ** -70 <= w * t <= 2.0 ** (2 * far if far < 60 else 70):
                    continue
                got = np.asarray(op.prox(x.copy(), t))
                r.trans()
                d = "%s with weight %g at %s, step %g" % (name, w, x, t)
                if not r.check(got.shape == x.shape and bool(np.all(np.isfinite(got))), "%s|finite" % name, "%s: prox gives %s" % (d, got)):
                    continue
                sc = nx + float(np.linalg.norm(got))
                if callable(o["limit"]):
                    sc += float(np.linalg.norm(o["limit"](x)))
                r.state(name, w, t, x.tobytes())
                r.outcome(got)
                r.trace()
                if w == 0:
                    r.check(float(np.linalg.norm(got - rest)) <= tol * (nx + 1e-300), "%s|zero prox" % name, "%s: prox gives %s instead of %s" % (d, got, rest))
                    if o["proj"] is None:
                        dual = np.asarray(op.proxdual(x.copy(), t))
                        r.check(float(np.linalg.norm(dual)) <= max(tol, 1e-9) * nx + 1e-12 * t, "%s|zero dual" % name, "%s: the dual prox gives %s instead of 0" % (d, dual))
                        r.trans()
                    continue
                if o["linear"] and w != 1.0 and (far > 12 or 2.0 ** -far <= w * t <= 2.0 ** far):
                    one = np.asarray(unit.prox(x.copy(), w * t))
                    r.trans()
                    r.check(float(np.linalg.norm(got - one)) <= 10 * tol * (sc + 1e-300), "%s|product" % name, "%s: %s, but weight 1 with step %g gives %s" % (d, got, w * t, one))
                if not o["law"]:
                    continue
                fg = num(op(got.copy()))
                dist = float(np.linalg.norm(got - x))
                ob = fg + dist ** 2 / (2 * t)
                lim = tol * (1 + abs(ob)) if far <= 12 else 10 * tol * (nx ** 2 / t + abs(ob)) + 4e-16 * abs(fx)
                for c, v in zip(comp, cv):
                    oc = v + float(np.linalg.norm(c - x)) ** 2 / (2 * t)
                    r.check(ob <= oc + lim, "%s|optimal" % name, "%s: objective %r at the prox %s, but %r at %s" % (d, ob, got, oc, c))
                if prev is not None:
                    p0, t0, f0, d0 = prev
                    r.check(fg <= f0 + 10 * tol * (abs(f0) + nx ** 2 / t), "%s|value grows" % name, "%s: value %r at the prox, for the smaller step %g only %r" % (d, fg, t0, f0))
                    r.check(dist >= d0 - 10 * tol * (sc + 1e-300), "%s|distance shrinks" % name, "%s: the prox is %r away, for the smaller step %g already %r" % (d, dist, t0, d0))
                    if o["convex"]:
                        r.check(float(np.linalg.norm(got - p0)) <= (1 - t0 / t) * dist + 10 * tol * (sc + 1e-300), "%s|jump" % name, "%s: prox %s, for the step %g %s" % (d, got, t0, p0))
                        # resolvent identity
                        y = (t0 / t) * x + (1 - t0 / t) * got
                        q = np.asarray(op.prox(y, t0))
                        r.trans()
                        r.check(float(np.linalg.norm(q - got)) <= 20 * tol * (sc + 1e-300), "%s|resolvent" % name, "%s: prox %s, but in a step of %g from the point between %s" % (d, got, t0, q))
                if o["convex"] and far > 12:
                    dual = np.asarray(op.proxdual(x.copy(), t))
                    r.trans()
                    e = x - t * np.asarray(op.prox(x / t, 1 / t))
                    r.check(float(np.linalg.norm(dual - e)) <= 10 * tol * nx + 1e-300, "%s|dual" % name, "%s: dual prox %s, Moreau's identity gives %s" % (d, dual, e))
                # both ends
                if far >= 40 and o["limit"] == "argmin" and w * t >= 2.0 ** 40 and o["linear"]:
                    r.check(float(np.max(np.abs(got))) <= 1e-9 * (nx + 1e-300), "%s|large" % name, "%s: prox %s, although the penalty outweighs everything" % (d, got))
                elif far >= 40 and callable(o["limit"]) and w * t >= 2.0 ** 40:
                    m = o["limit"](x)
                    r.check(float(np.max(np.abs(got - m))) <= 1e-9 * (nx + np.linalg.norm(m)), "%s|large" % name, "%s: prox %s, although the penalty outweighs everything" % (d, got))
                if far >= 40 and o["linear"] and w * t <= 2.0 ** -50 and o["proj"] is None:
                    r.check(dist <= 1e-9 * (1 + nx), "%s|small" % name, "%s: prox %s, although the penalty is negligible" % (d, got))
                prev = (got, t, fg, dist)


def radius(case, r):
    _, tier, name = case
    o = RADII[name]
    tol = o["tol"]
    rs = [0.0] * o["zero"] + [v for v in ladder(o["far"], tier, near=False)] + [0.6, 1.7, 3.3]
    rs.sort()
    ops = [(R, o["mk"](R)) for R in rs]
    taus = (2.0 ** -60, 0.3, 1.0, 2.0 ** 60)
    for x in o["xs"]:
        nx = float(np.linalg.norm(x))
        prev = None
        done = []
        for R, op in ops:
            d = "%s of radius %g at %s" % (name, R, x)
            out = [np.asarray(op.prox(x.copy(), t)) for t in taus]
            r.trans(len(taus))
            p = out[0]
            if not r.check(p.shape == x.shape and bool(np.all(np.isfinite(p))), "%s|finite" % name, "%s: projection %s" % (d, p)):
                continue
            r.check(all(np.array_equal(p, q) for q in out), "%s|step" % name, "%s: the projection depends on the step size: %s" % (d, out))
            dist = float(np.linalg.norm(p - x))
            sc = nx + float(np.linalg.norm(p)) + 1e-300
            if o["size"]:
                s = o["size"](p)
                r.check(s <= R + 10 * tol * (sc + R), "%s|inside" % name, "%s: the projection %s has size %r" % (d, p, s))
                inside = o["size"](x) <= R
                if inside:
                    r.check(dist <= 10 * tol * sc, "%s|kept" % name, "%s: a point of the set is moved to %s" % (d, p))
                else:
                    r.check(s >= R - 10 * tol * (sc + R), "%s|boundary" % name, "%s: the projection %s is not on the boundary (%r)" % (d, p, s))
            else:
                q = p.reshape(2, 3) if name.startswith("SimplexR") else p.reshape(1, -1)
                r.check(bool(np.all(np.abs(q.sum(axis=1) - R) <= 10 * tol * (sc + R)) and np.all(q >= -1e-12 * (1 + R))), "%s|inside" % name, "%s: the projection %s is not in the set" % (d, p))
            if R == 0 and o["centre"] is not None:
                r.check(float(np.linalg.norm(p - o["centre"])) <= 10 * tol * (1 + nx), "%s|point" % name, "%s: projection %s" % (d, p))
            if prev is not None and o["size"]:
                r.check(dist <= prev[1] + 10 * tol * sc, "%s|further" % name, "%s: distance %r, to the set of radius %g %r" % (d, dist, prev[2], prev[1]))
            r.check(isinstance(op(p.copy()), (bool, np.bool_)), "%s|type" % name, "%s: value %r" % (d, op(p.copy())))
            if R >= 2.0 ** -16 and R <= 64 and not name.startswith(("Ball", "HalfSpace")):
                r.check(bool(op(p.copy())), "%s|member" % name, "%s: the projection %s is said to be outside" % (d, p))
            r.trans()
            if o["nested"]:
                # projecting first on a larger set of the family changes nothing
                for R2, p2 in done_larger(ops, x, R, rs):
                    q = np.asarray(op.prox(p2.copy(), 1.0))
                    r.trans()
                    if name not in ("HalfSpace",) or True:
                        r.check(float(np.linalg.norm(q - p)) <= 100 * tol * sc, "%s|nested" % name, "%s: %s, but %s when projected on radius %g first" % (d, p, q, R2))
            prev = (p, dist, R)
            r.state(name, R, x.tobytes())
            r.outcome(p)
            r.trace()


def done_larger(ops, x, R, rs):
    out = []
    for R2, op in ops:
        if R2 > R and (R2 <= 8 * R or 0.5 <= R2 <= 4):
            out.append((R2, np.asarray(op.prox(x.copy(), 1.0))))
    return out


def count(case, r):
    _, tier, name = case
    mk, xs, cnt, n = COUNTS[name]
    taus = [2.0 ** k for k in range(-30, 0, 3)] + [0.3, 0.6, 0.95, 1 - 2.0 ** -20]
    if name in ("L0Ball", "L0P", "L10Ball"):
        taus += [1.0, 2.0, 2.0 ** 40]
    elif name in ("QECardInd", "SVPind"):
        taus += [1.0, 1 + 2.0 ** -20, 2.0, 2.0 ** 40]
    for x in xs:
        nx = float(np.linalg.norm(x))
        for t in taus:
            prev = None
            for k in range(n + 4):
                for kk in (k, np.int64(k)):
                    op = mk(kk)
                    p = np.asarray(op.prox(x.copy(), t))
                    r.trans()
                    d = "%s with %d at %s, step %g" % (name, k, x, t)
                    if not r.check(p.shape == x.shape and bool(np.all(np.isfinite(p))), "%s|finite" % name, "%s: prox %s" % (d, p)):
                        continue
                    dist = float(np.linalg.norm(p - x))
                    if name != "Rank":
                        if k == 0:
                            r.check(float(np.max(np.abs(p))) <= 1e-9 * (nx + 1e-300), "%s|none" % name, "%s: prox %s instead of 0" % (d, p))
                        if k >= cnt(x):
                            r.check(dist <= 1e-9 * (nx + 1e-300), "%s|kept" % name, "%s: feasible point moved to %s" % (d, p))
                        if prev is not None:
                            r.check(dist <= prev + 1e-9 * nx, "%s|further" % name, "%s: distance %r, with one entry less %r" % (d, dist, prev))
                    elif k >= n:
                        want = (x + t * np.arange(6.0)) / (1 + t)
                        r.check(float(np.linalg.norm(p - want)) <= 1e-8 * (1 + nx), "%s|full rank" % name, "%s: prox %s instead of %s" % (d, p, want))
                    elif k == 0:
                        r.check(float(np.max(np.abs(p))) <= 1e-7 * (1 + nx), "%s|none" % name, "%s: prox %s instead of 0" % (d, p))
                    v = op(x.copy())
                    if name in ("L0Ball", "L10Ball"):
                        r.check(bool(v) == (cnt(x) <= k), "%s|member" % name, "%s: value %s" % (d, v))
                    elif name == "L0P":
                        pass
                    elif name in ("QECardInd", "SVPind"):
                        if cnt(x) <= k:
                            r.check(abs(v) <= 1e-9 * (1 + nx ** 2), "%s|value" % name, "%s: value %s instead of 0" % (d, v))
                        else:
                            r.check(v > 0 and (k > 0 or v == np.inf), "%s|value" % name, "%s: value %s" % (d, v))
                    else:
                        r.check(v == np.inf if k == 0 and cnt(x) else v >= 0, "%s|value" % name, "%s: value %s" % (d, v))
                    r.trans()
                    r.state(name, k, t, x.tobytes())
                    r.outcome(p)
                    r.trace()
                prev = dist


class Nothing(pp.ProxOperator):
    """the zero function"""

    def __init__(self):
        super().__init__(None, True)

    def __call__(self, x):
        return 0.0

    def prox(self, x, tau):
        return x.copy()

    def proxdual(self, x, tau):
        return 0 * x

    def grad(self, x):
        return 0 * x


class Only0(pp.ProxOperator):
    """the indicator of the origin"""

    def __init__(self):
        super().__init__(None, False)

    def __call__(self, x):
        return 0.0

    def prox(self, x, tau):
        return 0 * x

    def proxdual(self, x, tau):
        return x.copy()


ZERO = {
    "L1": lambda n: pp.L1(0.0), "L2": lambda n: pp.L2(sigma=0.0), "L2b": lambda n: pp.L2(b=np.arange(n) + 1.0, sigma=0.0), "Euclidean": lambda n: pp.Euclidean(0.0), "L21": lambda n: pp.L21(1, 0.0),
    "L21n": lambda n: pp.L21(n, 0.0), "Nuclear": lambda n: pp.Nuclear((n, 1), 0.0), "Log": lambda n: pp.Log(0.0), "Geman": lambda n: pp.Geman(0.0), "ETP": lambda n: pp.ETP(0.0), "QECard": lambda n: pp.QuadraticEnvelopeCard(0.0),
    "TV": lambda n: pp.TV((n,), 0.0), "TV2": lambda n: pp.TV((n, 1), 0.0), "RelaxedMS": lambda n: pp.RelaxedMumfordShah(0.0, 1.0), "Log1": lambda n: pp.Log1(0.0), "L0": lambda n: pp.L0(0.0),
    "tinyL1": lambda n: pp.L1(2.0 ** -60), "tinyEuclidean": lambda n: pp.Euclidean(2.0 ** -60), "hugeBall": lambda n: pp.EuclideanBall(np.zeros(n), 2.0 ** 60), "freeBox": lambda n: pp.Box(), "hugeBox": lambda n: pp.Box(-2.0 ** 60, 2.0 ** 60),
    "hugeHuber": lambda n: pp.Huber(2.0 ** 70), "farHalf": lambda n: pp.HalfSpace(np.ones(n), 2.0 ** 60), "allEntries": lambda n: pp.L0Ball(n), "sum": lambda n: pp.Sum([pp.L1(0.0), pp.L2(sigma=0.0)]),
    "stack": lambda n: pp.VStack([pp.L1(0.0), pp.Euclidean(0.0)], nn=[1, n - 1]), "add": lambda n: pp.L1(0.0) + np.zeros(n), "noQuadratic": lambda n: pp.Quadratic(b=np.zeros(n)),
}
REALONLY = ("ETP", "hugeHuber", "farHalf", "freeBox", "hugeBox", "L2b", "noQuadratic", "TV2")
POINT = {"hugeL1": lambda n: pp.L1(2.0 ** 60), "hugeEuclidean": lambda n: pp.Euclidean(2.0 ** 60), "Ball0": lambda n: pp.EuclideanBall(np.zeros(n), 0.0), "tinyBall": lambda n: pp.EuclideanBall(np.zeros(n), 2.0 ** -60),
         "Box0": lambda n: pp.Box(0.0, 0.0), "hugeL21": lambda n: pp.L21(n, 2.0 ** 60), "hugeNuclear": lambda n: pp.Nuclear((n, 1), 2.0 ** 60), "noEntries": lambda n: pp.L0Ball(0),
         "hugeGeman": lambda n: pp.Geman(2.0 ** 60), "hugeLog": lambda n: pp.Log(2.0 ** 60)}
# values other than 0 (membership is 1, see the open findings for L0 and Log1): not where the objective decides
ODDVALUE = ("L0", "Log1", "freeBox", "hugeBox", "farHalf", "hugeBall", "allEntries")
# the regularisers of the configurations: attribute and length of the vectors
DLEN = ("admml2", "admml2g", "ladmm", "pd", "pdx", "apd", "bregA")
NOVALUE = ("pgbt", "pgvand", "pgnone", "pgtol", "pptol", "aasafe", "palm", "palmbt", "ipalm", "ipalmbt", "constol", "breg", "bregw", "bregA", "pgfista", "aa", "apg", "twistc")


class Env(c18.Env):
    def __init__(self, cplx, st, g, which):
        super().__init__(cplx, st)
        for w in which:
            setattr(self, w, g)
        self.lists()


def solver(case, r):
    _, tier, name, cplx = case
    f = c18.CONF[name]
    dl = 2 if name in DLEN or name.startswith("palm") or name.startswith("ipalm") else 3
    for ref, table in ((Nothing, ZERO), (Only0, POINT)):
        for which in (("l1",), ("l2",), ("l1", "l2"), ("box",)):
            for st in (0, 1, 2):
                for k in (1, 3, 8):
                    want = attempt(f, Env(cplx, st, ref(), which), k)
                    if isinstance(want, Exception):
                        continue
                    for z, mk in table.items():
                        if cplx and z in REALONLY or ref is Only0 and name in NOVALUE or name in ("pgtol", "aasafe") and z in ODDVALUE:
                            continue
                        if name.endswith("tauv") and z not in ("L1", "tinyL1", "L0", "freeBox", "hugeBox", "hugeL1", "Box0"):
                            continue
                        got = c18.flat(f(Env(cplx, st, mk(3 if which == ("box",) and not name.endswith(("palm", "palmbt")) else dl), which), k))
                        r.trans()
                        sc = 1 + max(float(np.max(np.abs(v), initial=0)) for v in want)
                        ok = len(got) == len(want) and all(u.shape == v.shape and float(np.max(np.abs(u - v), initial=0)) <= 1e-7 * sc for u, v in zip(got, want))
                        what = "no regulariser" if ref is Nothing else "the constraint x = 0"
                        r.check(ok, "%s|%s|%s" % (name, ref.__name__, z), "%s %s start %d, %d iterations, %s in place of %s: %s, with %s %s" % (
                            name, "complex" if cplx else "real", st, k, z, "/".join(which), got, what, want))
                        r.state(name, cplx, which, st, k, z)
                        r.trace()
                    r.outcome(*want)


def attempt(f, e, k):
    try:
        return c18.flat(f(e, k))
    except Exception as ex:  # the configuration does not fit this regulariser
        return ex
