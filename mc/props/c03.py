"""C03: non-convex penalties: the prox is a global minimiser / the documented thresholding rule."""

import numpy as np

import pyproximal as pp

from mc import refs as R
from mc.catalog import catalog, rays

ID = "C03"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "besides the lattices, one direction per operator (real and complex) is swept in 800 geometric steps of 0.8%",
    "scalar global minimisers come from a dense grid plus golden-section refinement (refs.scalar_min); "
    "the implementation may return any minimiser (values, not locations, are compared, slack 1e-7)",
    "shape parameters of Log, ETP, Geman: every (third) power of two from 2^-60 to 2^60",
    "SCAD is explored for tau < a - 1 (outside, its documented rule is not the minimiser; recorded as a known finding)",
    "L0, Log1 are compared with their documented thresholding rules; at an exact threshold either branch is accepted",
]


def entries(tier):
    return {k: e for k, e in catalog(tier).items() if e.kind in ("pen", "rule", "card", "env")}


def cases(tier):
    return [[tier, k] for k in entries(tier)] + [[tier, "known"]] + [[tier, "shape", k] for k in SHAPES]


# penalties with a shape parameter, which may be tiny or huge: constructor, value without cancellation
SHAPES = {
    "Log": (lambda s, g: pp.Log(s, g), lambda a, s, g: s * np.log1p(g * a) / np.log1p(g)),
    "ETP": (lambda s, g: pp.ETP(s, g), lambda a, s, g: s * np.expm1(-g * a) / np.expm1(-g)),
    "Geman": (lambda s, g: pp.Geman(s, g), lambda a, s, g: s * a / (a + g)),
}


def shape(case, r):
    """value and prox for shape parameters 2^-60..2^60, against the penalty evaluated without cancellation on a dense set of competitors"""
    make, val = SHAPES[case[2]]
    xs = np.array([-3.0, -1.1, -0.2, 0.0, 1e-3, 0.4, 0.9, 1.7, 8.0])
    u = np.unique(np.concatenate([np.linspace(0, 1, 2001), 2.0 ** -np.arange(1, 70.0), 1 - 2.0 ** -np.arange(1, 50.0)]))
    for k in range(-60, 61, 3 if case[0] == "quick" else 1):
        g = 2.0 ** k
        for s in (0.7, 6.0):
            op = make(s, g)
            for x in xs:
                v, w = float(op(np.array([x]))), float(val(abs(x), s, g))
                r.state(k, s, x), r.trans(), r.outcome(v)
                r.check(abs(v - w) <= 1e-9 * (1 + w), "shape|value|" + case[2], "%s(%g, %g) at %g is %.12g, should be %.12g" % (case[2], s, g, x, v, w))
            for tau in (0.3, 1.7):
                p = np.asarray(op.prox(xs.copy(), tau))
                r.trans(), r.trace(), r.outcome(p)
                if not r.check(p.shape == xs.shape and np.all(np.isfinite(p)), "shape|finite|" + case[2], "%s(%g, %g).prox(%s, %g) = %s" % (case[2], s, g, xs, tau, p)):
                    continue
                f = lambda z, x: val(np.abs(z), s, g) + (z - x) ** 2 / (2 * tau)
                for x, y in zip(xs, p):
                    m, v = float(np.min(f(u * x, x))), float(f(y, x))
                    r.check(v <= m + 1e-9 * (1 + m), "shape|prox|" + case[2], "%s(%g, %g).prox(%g, %g) = %g has objective %.12g, minimum is at most %.12g" % (case[2], s, g, x, tau, y, v, m))


def run(case, r):
    if case[1] == "shape":
        return shape(case, r)
    tier, key = case
    if key == "known":
        return known(r)
    e = entries(tier)[key]
    for tau in e.taus:
        for x in list(e.xs) + (rays(e, tier) if tau in (e.taus[0], e.taus[-1]) else []):
            op, _ = e.build()
            p = np.asarray(op.prox(x.copy(), tau))
            r.state(tau, x)
            r.trans()
            r.trace()
            r.outcome(p)
            sig = "%s|tau=%g|x=%s" % (e.key, tau, x.ravel().tolist())
            if not r.check(p.shape == x.shape and np.all(np.isfinite(p)), sig + "|shape",
                           "prox returned shape %s / non-finite values" % (p.shape,), got=p):
                continue
            judge(e, x, tau, p, sig, r)
    r.sample("%s: %d inputs x %d taus" % (e.key, len(e.xs), len(e.taus)))


def judge(e, x, tau, p, sig, r):
    if e.kind == "pen":
        for xi, pi in zip(x.ravel(), p.ravel()):
            m = R.scalar_min(e.key, e.scalar, xi, tau)
            m = m[0] if isinstance(m, tuple) else m
            v = e.scalar(abs(pi)) + (pi - xi) ** 2 / (2 * tau)
            if not r.check(v <= m + 1e-7 * (1 + abs(m)), sig, "component %g -> %g has objective %.9g, minimum is %.9g" % (xi, pi, v, m),
                           x=x, got=p):
                return
            if not r.check(pi * xi >= -1e-12, sig + "|sign", "component %g -> %g changes sign" % (xi, pi), x=x, got=p):
                return
    elif e.kind == "rule":
        lo, mid, hi = (e.rule(x, tau * s) for s in (1 - 1e-9, 1, 1 + 1e-9))
        ok = (np.abs(p - lo) < 1e-7) | (np.abs(p - mid) < 1e-9) | (np.abs(p - hi) < 1e-7)
        r.check(np.all(ok), sig, "prox %s, documented rule gives %s" % (p.ravel()[:8], mid.ravel()[:8]), x=x, got=p, expected=mid)
    elif e.kind == "card":
        if e.name == "L0Ball":
            a = np.abs(x).ravel()
            keep = np.abs(p).ravel() > 0
            k = e.cfg["r"]
            r.check(np.count_nonzero(keep) <= k, sig, "result has %d non-zeros, radius %d" % (np.count_nonzero(keep), k), x=x, got=p)
            r.check(np.all((p.ravel() == 0) | (p.ravel() == x.ravel())), sig + "|entries", "kept entries are modified", x=x, got=p)
            best = np.sum(np.sort(a ** 2)[: max(a.size - k, 0)])
            d = np.sum(np.abs(p - x) ** 2)
            r.check(d <= best + 1e-9, sig + "|dist", "squared distance %g, nearest point has %g" % (d, best), x=x, got=p)
        else:
            d, n, k = e.cfg["ndim"], e.cfg["n"], e.cfg["r"]
            X, Pm = x.reshape(d, n), p.reshape(d, n)
            cols = np.sum(np.abs(Pm), axis=0) > 0
            r.check(np.count_nonzero(cols) <= k, sig, "result has %d non-zero columns, radius %d" % (np.count_nonzero(cols), k), x=x, got=p)
            r.check(all(np.array_equal(Pm[:, j], X[:, j]) or not np.any(Pm[:, j]) for j in range(n)), sig + "|entries",
                    "kept columns are modified", x=x, got=p)
            l1 = np.sort(np.sum(np.abs(X), axis=0))
            kept = np.sum(np.sum(np.abs(Pm), axis=0))
            want = np.sum(l1[max(n - k, 0):])
            r.check(abs(kept - want) < 1e-9, sig + "|top", "kept columns have L1 mass %g, the %d largest have %g" % (kept, k, want), x=x, got=p)
    else:  # env
        r0, rho = e.cfg["r0"], 1 / tau
        env = R.ksupport_env(p, r0)
        n = x.size
        if rho > 1:
            # Fenchel equality certificate: z in subdifferential of 1/2 ksup^2 at p
            z = rho * x - (rho - 1) * p
            top = 0.5 * np.sum(np.sort(z ** 2)[max(n - r0, 0):])
            gap = env + 0.5 * p @ p + top - p @ z
            r.check(abs(gap) <= 1e-6 * (1 + x @ x), sig, "optimality (Fenchel) gap %g" % gap, x=x, got=p)
        else:
            best = rho / 2 * np.sum(np.sort(x ** 2)[: max(n - r0, 0)])
            v = env + rho / 2 * np.sum((p - x) ** 2)
            r.check(v <= best + 1e-7 * (1 + best), sig, "objective %g, minimum is %g" % (v, best), x=x, got=p)


def known(r):
    """Documented rules that are not the minimiser of the documented function: fixed inputs."""
    r.trans(4)
    r.state("L0")
    p = float(pp.L0(1.0).prox(np.array([1.2]), 1.0)[0])
    v = (p != 0) + (p - 1.2) ** 2 / 2
    r.check(v <= 0.72 + 1e-9, "known|L0 threshold", "L0 prox(1.2, tau=1) = %g has objective %g > 0.72 at 0" % (p, v))
    r.state("Log1")
    p = float(pp.Log1(1.0, 0.1).prox(np.array([2.0]), 0.5)[0])
    m = min((np.log(abs(z) + 0.1) + (z - 2) ** 2 / (2 * 0.5), z) for z in np.linspace(0, 3, 30001))
    v = np.log(abs(p) + 0.1) + (p - 2) ** 2
    r.check(v <= m[0] + 1e-6, "known|Log1 factor", "Log1 prox(2, tau=.5) = %g has objective %g, minimum %g at %g" % (p, v, m[0], m[1]))
    r.state("SCAD")
    p = float(pp.SCAD(1.0, 2.5).prox(np.array([3.0]), 2.0)[0])
    f = lambda z: R.pen_scad(z, 1.0, 2.5) + (z - 3.0) ** 2 / 4
    m = min((f(z), z) for z in np.linspace(0, 4, 40001))
    r.check(f(p) <= m[0] + 1e-6, "known|SCAD tau>=a-1", "SCAD(1,2.5) prox(3, tau=2) = %g has objective %g, minimum %g at %g" % (p, f(p), m[0], m[1]))
    r.state("RMS")
    x = np.array([1.5, 1.5])
    p = pp.RelaxedMumfordShah(sigma=1.0, kappa=1.0).prox(x, 1.0)
    v = min(float(np.sum(p ** 2)), 1.0) + float(np.sum((p - x) ** 2)) / 2
    r.check(v <= 1 + 1e-9, "known|RelaxedMumfordShah separable",
            "RelaxedMumfordShah prox([1.5,1.5], tau=1) = %s has objective %g for min(||x||^2, 1), x itself has 1" % (p, v))
