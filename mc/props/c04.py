"""C04: indicator operators and projections: nearest feasible point, idempotent, tau-free, membership."""

import itertools

import numpy as np
import pylops

import pyproximal as pp
from pyproximal import projection as pj

from mc import refs as R
from mc.catalog import catalog, short, vecs, rays

ID = "C04"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "besides the lattices, one direction per operator is swept in 400 geometric steps of 1.6% (40 steps for iterative projections)",
    "feasibility of a projection is judged with tolerance 1e-6 (AffineSet, solved by CG, 1e-3); "
    "membership tests are only compared for points that are exactly feasible by construction or further "
    "than 0.05 from the set",
    "Simplex with dims: the membership test is only compared on feasible points (existing tests pin that "
    "columns with a smaller sum are accepted; known finding)",
    "sets translated by up to 1e8 in four directions: the projection moves with the set",
    "projections computed by bisection are run with xtol 1e-10",
]


def entries(tier):
    return {k: e for k, e in catalog(tier).items() if e.kind == "proj"}


def hyper_configs():
    I = np.inf
    out = []
    for c in ((1.0, 1.0), (1.0, -2.0), (1.0, 1.0, 1.0), (2.0, -1.0, 0.5)):
        for b in (0.0, 0.75):
            for lo, up in ((-1.0, 1.0), (0.0, I), (-I, I), (-2.0, "arr"), ("arr", 3.0)):
                out.append([list(c), b, "-inf" if lo == -I else lo, "inf" if up == I else up])
    return out


def cases(tier):
    return ([[tier, k] for k in entries(tier)] + [[tier, "hyper", h] for h in hyper_configs()]
            + [[tier, "direct", k] for k in DIRECT] + [[tier, "known"]] + [[tier, "far", k] for k in FAR])


# sets that are moved far away: name -> (set shifted by c, iterative accuracy relative to the shift)
W3 = np.array([1.0, -2.0, 3.0])
MAT = np.array([[1.0, 2.0, 0.0], [0.0, -1.0, 3.0]])
FAR = {
    "HalfSpace": lambda c: pp.HalfSpace(W3.copy(), 0.45 + float(W3 @ c)), "HalfSpaceProj": lambda c: Fn(pj.HalfSpaceProj(W3.copy(), 0.45 + float(W3 @ c))),
    "Box": lambda c: pp.Box(np.array([-1.0, 0.0, -3.0]) + c, np.array([1.0, 2.0, -1.0]) + c), "EuclideanBall": lambda c: pp.EuclideanBall(np.array([0.5, -1.0, 0.3]) + c, 0.9),
    "Affine": lambda c: pp.AffineSet(pylops.MatrixMult(MAT), np.array([3.0, -2.0]) + MAT @ c, niter=60),
    "HyperPlaneBox": lambda c: Fn(pj.HyperPlaneBoxProj(W3.copy(), 0.5 + float(W3 @ c), np.array([-1.0, -1.0, 0.0]) + c, np.array([2.0, 2.0, 1.0]) + c, xtol=1e-12)),
    "Slab": lambda c: pp.GenericIntersectionProx([pj.HalfSpaceProj(W3.copy(), 0.45 + float(W3 @ c)), pj.EuclideanBallProj(np.array([0.5, -1.0, 0.3]) + c, 1.9)], niter=3000, tol=1e-12),
}


class Fn:
    def __init__(self, f):
        self.prox = lambda x, tau: f(x)


def far(name, tier, r):
    """the projection on a set moved by c is the projection moved by c, for distances up to 1e8"""
    mk = FAR[name]
    zero = mk(np.zeros(3))
    for k, d in itertools.product(range(0, 9), ([1.0, 1.0, 1.0], [1.0, -2.0, 0.5], [0.0, 0.0, 1.0], [-1.0, -1.0, -1.0])):
        c = 10.0 ** k * np.array(d)
        a = mk(c)
        for x in [np.array(v) for v in itertools.product([-2.0, 0.0, 1.0, 8.0], repeat=3)][::(3 if tier == "quick" else 1)]:
            p, w = np.asarray(a.prox(x + c, 1.0)), np.asarray(zero.prox(x.copy(), 1.0)) + c
            r.state(name, k, d, x), r.trans(2), r.trace(), r.outcome(p - c)
            tol = (1e-4 if name in ("Slab", "HyperPlaneBox", "Affine") else 1e-8) + 1e-7 * 10.0 ** (k - 2)
            r.check(p.shape == w.shape and np.max(np.abs(p - w)) <= tol, "far|%s" % name, "%s moved by %s: the projection of %s is %s, expected %s" % (name, c, x + c, p, w))


def run(case, r):
    if case[1] == "hyper":
        return hyper(case[0], case[2], r)
    if case[1] == "direct":
        return direct(case[2], r)
    if case[1] == "known":
        return known(r)
    if case[1] == "far":
        return far(case[2], tier=case[0], r=r)
    tier, key = case
    e = entries(tier)[key]
    feas = []  # exactly/numerically feasible reference points
    pts = list(e.xs) + rays(e, tier, 400)
    for x in pts:
        feas.append(np.asarray(e.prox(x, 1.0)).reshape(x.shape))
    sub = feas[: len(e.xs): max(1, len(e.xs) // 25)]
    for x, ref in zip(pts, feas):
        scale = 1 + np.max(np.abs(x))
        ps = []
        for tau in e.taus:
            op, _ = e.build()
            p = np.asarray(op.prox(x.copy(), tau)).reshape(x.shape)
            r.state(tau, x)
            r.trans()
            r.trace()
            r.outcome(p)
            ps.append(p)
            sig = "%s|tau=%g|x=%s" % (e.key, tau, x.ravel().tolist())
            if not r.check(np.all(np.isfinite(p)) and np.max(np.abs(p - ref)) <= e.tol * scale, sig,
                           "projection is %s, nearest feasible point is %s" % (p.ravel()[:6], ref.ravel()[:6]),
                           x=x, got=p, expected=ref):
                break
            r.check(e.f(p) == 0, sig + "|feas", "projection %s is infeasible" % p.ravel()[:6], x=x, got=p)
        else:
            r.check(np.max(np.abs(ps[0] - ps[-1])) <= 1e-7 * scale, sig + "|tau", "projection depends on tau", got=ps)
            # variational inequality against feasible points: independent of the reference projection
            for y in sub:
                if y.shape != x.shape:
                    continue
                ip = float(np.real(np.vdot(x - p, y - p)))
                if ip > 50 * e.tol * scale ** 2:
                    r.fail(sig + "|vi", "feasible point %s makes an acute angle with x - P(x)" % y.ravel()[:6], x=x, got=p, y=y)
                    break
            op, _ = e.build()
            q = np.asarray(op.prox(p.copy(), e.taus[0])).reshape(x.shape)
            r.trans()
            r.check(np.max(np.abs(q - p)) <= 20 * e.tol * scale, sig + "|idem", "projecting twice moves the point: %s -> %s" % (p.ravel()[:6], q.ravel()[:6]), x=x)
        # membership
        op, _ = e.build()
        d = np.linalg.norm(x - ref)
        m = op(x.copy())
        r.trans()
        r.check(isinstance(m, (bool, np.bool_)), e.key + "|booltype", "membership test returns %r" % (m,))
        if d > 0.05 and e.strict_member:
            r.check(not m, sig + "|member", "membership test accepts a point at distance %g" % d, x=x)
        elif d == 0 and e.f(x) == 0:
            r.check(bool(m), sig + "|member", "membership test rejects a feasible point", x=x)
        if e.name in ("L1Ball", "NuclearBall", "Hankel") and len(ps) == len(e.taus):
            r.check(bool(op(ps[0].copy())), sig + "|self", "membership test rejects the operator's own projection", x=x)
    r.sample("%s: %d inputs" % (e.key, len(e.xs)))


def hyper(tier, h, r):
    c, b, lo, up = h
    n = len(c)
    arr_lo = np.array([-1.0, 0.0, -0.5])[:n]
    arr_up = np.array([1.5, 0.5, 2.0])[:n]
    lo_ = arr_lo if lo == "arr" else float(lo)
    up_ = arr_up if up == "arr" else float(up)
    cc = np.array(c)
    A, bb = [], []
    for i in range(n):
        l, u = np.broadcast_to(lo_, n)[i], np.broadcast_to(up_, n)[i]
        if np.isfinite(u):
            A.append(np.eye(n)[i]); bb.append(u)
        if np.isfinite(l):
            A.append(-np.eye(n)[i]); bb.append(-l)
    # skip empty intersections
    L, U = np.broadcast_to(lo_, n), np.broadcast_to(up_, n)
    mx = sum(ci * (u if ci > 0 else l) for ci, l, u in zip(cc, L, U))
    mn = sum(ci * (l if ci > 0 else u) for ci, l, u in zip(cc, L, U))
    if not (mn < b < mx):
        return
    for x in short(vecs(tier, n), 60 if tier == "quick" else 700):
        P = pj.HyperPlaneBoxProj(cc.copy(), b, lo_, up_, xtol=1e-11)
        p = P(x.copy())
        ref = R.proj_poly(np.array(A).reshape(-1, n), np.array(bb), x, Aeq=cc[None, :], beq=np.array([b]))
        r.state(x)
        r.trans()
        r.trace()
        r.outcome(p)
        r.check(p.shape == x.shape and np.max(np.abs(p - ref)) <= 1e-6 * (1 + np.abs(x).max()), "HyperPlaneBox%s|x=%s" % (h, x.tolist()),
                "projection %s, nearest point %s" % (p, ref), x=x, got=p, expected=ref)


def kink(c, b, lo, up, x):
    """projection on {c.x = b, lo <= x <= up}: the multiplier by bisection over its break points, then exactly"""
    with np.errstate(invalid="ignore"):
        br = np.concatenate([(x[c != 0] - v[c != 0]) / c[c != 0] for v in (lo, up)])
    br = np.unique(br[np.isfinite(br)])
    f = lambda m: float(np.sum(c * np.clip(x - m * c, lo, up))) - b
    i, j = -1, len(br)
    while j - i > 1:
        k = (i + j) // 2
        i, j = (k, j) if f(br[k]) > 0 else (i, k)
    m = br[j] if i < 0 else br[i] if j == len(br) else (br[i] + br[j]) / 2
    if i < 0:
        m = m - 1.0 if np.isfinite(m) else m
    if j == len(br):
        m = m + 1.0
    free = (x - m * c > lo) & (x - m * c < up) & (c != 0)
    if not free.any():
        return np.clip(x - m * c, lo, up)
    fix = np.clip(x - m * c, lo, up)
    m = (np.sum(c[free] * x[free]) - b + np.sum(c[~free] * fix[~free])) / np.sum(c[free] ** 2)
    return np.clip(x - m * c, lo, up)


# projections called directly, over 19 orders of magnitude: factory with scale s, reference
DIRECT = {
    "SimplexProj": (lambda n, s: pj.SimplexProj(n, 1.5, xtol=1e-11), lambda x, s: R.simplex(x, 1.5)),
    "SimplexProjS": (lambda n, s: pj.SimplexProj(n, 1.5 * s, xtol=1e-11 * min(s, 1)), lambda x, s: R.simplex(x, 1.5 * s)),
    "L1BallProj": (lambda n, s: pj.L1BallProj(n, 1.5, xtol=1e-11), lambda x, s: R.l1ball(x, 1.5)),
    "L1BallProjS": (lambda n, s: pj.L1BallProj(n, 1.5 * s, xtol=1e-11 * min(s, 1)), lambda x, s: R.l1ball(x, 1.5 * s)),
    "L0BallProj": (lambda n, s: pj.L0BallProj(2), None), "L10BallProj": (lambda n, s: pj.L10BallProj(2), None),
    "HyperPlaneBox": (lambda n, s: pj.HyperPlaneBoxProj(np.arange(1.0, n + 1) * (-1.0) ** np.arange(n), 0.5, -1.0, 2.0, xtol=1e-11),
                      lambda x, s: kink(np.arange(1.0, x.size + 1) * (-1.0) ** np.arange(x.size), 0.5, np.full(x.size, -1.0), np.full(x.size, 2.0), x)),
    "HyperPlaneBoxS": (lambda n, s: pj.HyperPlaneBoxProj(np.arange(1.0, n + 1), 0.5, 0.0, np.inf, xtol=1e-11),
                       lambda x, s: kink(np.arange(1.0, x.size + 1), 0.5, np.zeros(x.size), np.full(x.size, np.inf), x)),
    "BoxProj": (lambda n, s: pj.BoxProj(-1.0, 2.0), lambda x, s: np.clip(x, -1, 2)), "BoxProjS": (lambda n, s: pj.BoxProj(-s, s), lambda x, s: np.clip(x, -s, s)),
    "EuclideanBallProj": (lambda n, s: pj.EuclideanBallProj(0.5, 1.5), lambda x, s: 0.5 + (x - 0.5) * min(1, 1.5 / max(np.linalg.norm(x - 0.5), 1e-300))),
    "EuclideanBallProjS": (lambda n, s: pj.EuclideanBallProj(0.5 * s, 1.5 * s), lambda x, s: 0.5 * s + (x - 0.5 * s) * min(1, 1.5 * s / max(np.linalg.norm(x - 0.5 * s), 1e-300))),
    "HalfSpaceProj": (lambda n, s: pj.HalfSpaceProj(np.arange(1.0, n + 1), 0.5),
                      lambda x, s: x - max(0.0, np.arange(1.0, x.size + 1) @ x - 0.5) / np.sum(np.arange(1.0, x.size + 1) ** 2) * np.arange(1.0, x.size + 1)),
    "HalfSpaceProjS": (lambda n, s: pj.HalfSpaceProj(np.arange(1.0, n + 1) * s, 0.5),
                       lambda x, s: x - max(0.0, np.arange(1.0, x.size + 1) @ x - 0.5 / s) / np.sum(np.arange(1.0, x.size + 1) ** 2) * np.arange(1.0, x.size + 1)),
}
BASES = [(1.0, -2.0, 3.0), (1.0, 1.0, 1.0), (-1.0, -2.0, -0.5), (3.0, 2.0, 1.0, 0.0, -1.0), (1.0, 1e-3, 1e3), (-1e3, 1.0, 1e3, 2.0), (2.0,), (-3.0,),
         (1.0, 1.0 + 2e-9, 1.0 + 1e-9, -1.0 - 3e-9), (0.25, -0.25), (1e3, 1e3 - 1e-5, 1e3 + 1e-5)]


def direct(name, r):
    mk, ref = DIRECT[name]
    for base in BASES:
        for k in range(-6, 13):
            s = 10.0 ** k
            x = np.array(base) * s
            P = mk(x.size, s)
            xx = x if name != "L10BallProj" else np.vstack([0.25 * x, -0.75 * x])
            r.state(base, k), r.trans(), r.trace()
            try:
                p = P(xx.copy())
            except Exception as ex:
                r.fail("direct|%s" % name, "projecting %s raises %s: %s" % (x.tolist(), type(ex).__name__, ex), x=x)
                continue
            r.outcome(p)
            big = np.abs(x).max()
            if ref is None:
                # the nearest point keeps the entries (columns) of largest magnitude, untouched
                got = p if p.ndim == 1 else p[1] / -0.75
                keep = got != 0
                ok = (np.allclose(got[keep], x[keep], rtol=1e-14, atol=0) and keep.sum() == min(2, np.count_nonzero(x))
                      and (keep.all() or np.abs(x[~keep]).max() <= np.abs(x[keep]).min(initial=np.inf)))
                r.check(ok, "direct|%s" % name, "projection of %s on vectors with two nonzeros is %s" % (x.tolist(), p.tolist()), x=x, got=p)
                continue
            w = ref(x, s)
            # one rounding of the multiplier moves the point by that of the largest entry
            r.check(p.shape == x.shape and bool(np.all(np.abs(p - w) <= 1e-9 * (min(s, 1) if name.endswith("S") and name != "HyperPlaneBoxS" else 1) + 4e-15 * x.size ** 2 * big)), "direct|%s" % name,
                    "projection of %s is %s, nearest point %s" % (x.tolist(), p.tolist(), w.tolist()), x=x, got=p, expected=w)
    r.sample(name)


def known(r):
    s = pp.Simplex(4, 1.5, dims=(2, 2), axis=1)
    r.state("simplex dims")
    r.trans()
    r.check(s(np.array([0.5, 0.5, 0.5, 0.25])) is False, "known|Simplex dims membership",
            "Simplex(dims=(2,2)) accepts rows whose sums 1.0 and 0.75 are smaller than the radius 1.5")
