"""C05: Moreau decomposition, dual prox = prox of the conjugate, adjoint swap."""

import numpy as np

from mc.catalog import catalog, rays, short

ID = "C05"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "besides the lattices, one direction per operator (real and complex) is swept in 800 geometric steps of 0.8% (40 steps for inner iterative solvers)",
    "the identity is also checked for step sizes 2^k, |k| = 6, 10, 16, 20 (|k| = 6 for inner iterative solvers)",
    "expensive operators (TV, iterative inner solvers) are explored on a deterministic sub-lattice",
    "the conjugate's prox is computed as x - tau*prox_ref(x/tau, 1/tau) from the independent reference prox",
    "for weighted or non-convex functionals only the decomposition identity (the library's definition of proxdual) is checked",
]


def entries(tier):
    return catalog(tier)


def cases(tier):
    return [[tier, k] for k in entries(tier)]


def taus(e):
    return sorted({t for t in e.taus} | {0.5, 2.0}) if e.kind != "pen" else e.taus


def run(case, r):
    tier, key = case
    e = entries(tier)[key]
    heavy = e.group in ("Intersection",)
    n = 4 if heavy else (60 if tier == "quick" else 400)
    if e.group in ("L2",) and e.iterative:
        n = 8 if tier == "quick" else 60
    tol = max(20 * e.tol, 1e-8)
    if e.kind == 'proj' and tier == 'quick':
        n = 25
    pts = short(e.xs, n)
    lattice = len(pts)
    ts = taus(e)[:3 if heavy else None]
    for ix, x in enumerate(pts + ([] if heavy else rays(e, tier))):
        for tau in ts if ix < lattice else sorted({ts[0], ts[-1]}):
            scale = (1 + np.max(np.abs(x))) * max(1.0, tau)
            sig = "%s|tau=%g|x=%s" % (e.key, tau, x.ravel().tolist())
            r.state(tau, x)
            p = np.asarray(e.build(True)[0].prox(x.copy(), tau)).reshape(x.shape)
            d = np.asarray(e.build(True)[0].proxdual(x / tau, 1.0 / tau)).reshape(x.shape)
            r.trans(2)
            r.trace()
            r.outcome(p, d)
            ok = r.check(np.all(np.isfinite(p)) and np.all(np.isfinite(d)), sig + "|finite", "non-finite values", p=p, d=d)
            ok = ok and r.check(np.max(np.abs(p + tau * d - x)) <= tol * scale, sig,
                                "prox + tau*proxdual(x/tau, 1/tau) = %s differs from x" % (p + tau * d).ravel()[:6], x=x, p=p, d=d)
            if not ok:
                continue
            if e.prox is not None and e.light is None and e.kind in ("convex", "proj", "formula"):
                if e.kind == "formula" and e.group == "Nuclear":
                    continue
                g = np.asarray(e.build(True)[0].proxdual(x.copy(), tau)).reshape(x.shape)
                ref = x - tau * np.asarray(e.prox(x / tau, 1.0 / tau)).reshape(x.shape)
                r.trans()
                bad = np.max(np.abs(g - ref)) > tol * scale
                r.check(not bad, sig + "|conj", "dual prox is %s, prox of the conjugate is %s" % (g.ravel()[:6], ref.ravel()[:6]),
                        x=x, got=g, expected=ref)
            if not heavy and (ix < 12 or tier != 'quick'):
                a = e.build(True)[0]
                h = a.H
                for nm, got, want in (("prox", h.prox(x.copy(), tau), e.build(True)[0].proxdual(x.copy(), tau)),
                                      ("proxdual", h.proxdual(x.copy(), tau), p.ravel()),
                                      ("HH", h.H.prox(x.copy(), tau), p.ravel())):
                    r.trans()
                    r.check(np.max(np.abs(np.ravel(got) - np.ravel(want))) <= tol * scale, sig + "|adj" + nm,
                            "adjoint operator's %s is %s, expected %s" % (nm, np.ravel(got)[:6], np.ravel(want)[:6]), x=x)
    if not heavy:
        ladder(e, pts, tol, r)
    r.sample("%s" % e.key)


def ladder(e, pts, tol, r):
    """the identity at step sizes 2^-20 .. 2^20, at the points themselves and at their multiples by the step"""
    # inner iterative solvers break down for extreme steps
    for k in (-6, 6) if e.iterative else (-20, -16, -10, -6, 6, 10, 16, 20):
        tau = 2.0 ** k
        for u in pts[:: max(1, len(pts) // 6)][:6]:
            for x in ((u, tau * u) if e.kind not in ("proj", "card") else (u,)):
                p = np.asarray(e.build(True)[0].prox(x.copy(), tau)).reshape(x.shape)
                d = np.asarray(e.build(True)[0].proxdual(x / tau, 1.0 / tau)).reshape(x.shape)
                r.state(tau, x), r.trans(2), r.trace(), r.outcome(p, d)
                r.check(np.max(np.abs(p + tau * d - x)) <= tol * (1 + np.max(np.abs(x))), "%s|ladder|tau=2^%d|x=%s" % (e.key, k, x.ravel().tolist()),
                        "prox + tau*proxdual(x/tau, 1/tau) = %s differs from x" % (p + tau * d).ravel()[:6], x=x, p=p, d=d)
