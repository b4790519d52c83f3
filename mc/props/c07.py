"""C07: gradients are the gradients of the documented functions; otherwise of the Moreau envelope."""

import itertools

import numpy as np

import pyproximal as pp

from mc.catalog import catalog, short
from pyproximal.ProxOperator import ProxOperator

ID = "C07"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "gradients are compared with closed forms and with central differences (h=1e-5, tolerance 1e-5) of the independent functional value",
    "the function, gradient and both at once which Nonlinear hands to the user's solver: lattice points, steps 1e-12 to 1e12, own and inherited fungrad",
    "operators without own gradient: (x - prox(x, s))/s for s = sigmame in {default, 0.5, 3}",
]


def entries(tier):
    return catalog(tier)


def cases(tier):
    return [[tier, k] for k in entries(tier)] + [[tier, "hooks", n] for n in (1, 2, 3)]


class Own(pp.Nonlinear):
    """what a user of Nonlinear writes: the function, its gradient and a solver, which here only records the problem it is given"""

    def __init__(self, n, c, own):
        super().__init__(np.zeros(n), warm=False)
        self.c = c
        if own:
            self.fungrad = lambda x: (self.fun(x), self.grad(x))

    def fun(self, x):
        return float(np.sum(self.c * x ** 4)) / 4

    def grad(self, x):
        return self.c * x ** 3

    def optimize(self):
        t = self.tau
        self.seen = [(x, self._funprox(x, t), self._gradprox(x, t), self._fungradprox(x, t)) for x in self.at]
        return self.at[-1]


def hooks(case, r):
    """the problem handed to the user's solver is f + |x - y|^2 / 2 tau and its gradient, for all steps"""
    tier, _, n = case
    lat = [np.array(v) for v in itertools.product([-2.0, 0.0, 0.7, 5.0], repeat=n)]
    for own, c, k in itertools.product((False, True), (0.0, 1e-3, 1.0, 50.0), range(-12, 13)):
        tau = 10.0 ** k
        o = Own(n, c, own)
        for y in lat[::max(1, len(lat) // 4)]:
            o.at = lat[::max(1, len(lat) // 8)]
            o.prox(y.copy(), tau)
            for x, f, g, (f2, g2) in o.seen:
                fr = o.fun(x) + np.sum((x - y) ** 2) / (2 * tau)
                gr = o.grad(x) + (x - y) / tau
                r.trans(3), r.trace(), r.state(own, c, k, x, y), r.outcome(fr, gr)
                d = "Nonlinear, c=%g, tau=%g, y=%s, x=%s" % (c, tau, y, x)
                r.check(abs(f - fr) <= 1e-12 * (1 + abs(fr)) and abs(f2 - fr) <= 1e-12 * (1 + abs(fr)), "hooks|fun", "%s: values %r, %r instead of %r" % (d, f, f2, fr))
                r.check(all(np.shape(v) == x.shape and np.all(np.abs(v - gr) <= 1e-12 * (1 + np.abs(gr))) for v in (g, g2)), "hooks|grad", "%s: gradients %s, %s instead of %s" % (d, g, g2, gr))


def run(case, r):
    if case[1] == "hooks":
        return hooks(case, r)
    tier, key = case
    e = entries(tier)[key]
    n = 40 if tier == "quick" else 400
    own = type(e.build(True)[0]).grad is not ProxOperator.grad
    if not own:
        heavy = e.group in ("Intersection",)
        for x in short(e.xs, 4 if heavy else n):
            for sm in (None, 0.5, 3.0):
                if e.kind == "pen" and sm is not None and sm not in e.taus and e.name == "SCAD":
                    continue
                op = e.build(True)[0]
                if sm is not None:
                    op.sigmame = sm
                s = 1.0 if sm is None else sm
                g = np.asarray(op.grad(x.copy()))
                p = np.asarray(e.build(True)[0].prox(x.copy(), s)).reshape(x.shape) if not refable(e) else np.asarray(e.prox(x, s)).reshape(x.shape)
                w = (x - p) / s
                r.state(x, sm)
                r.trans()
                r.trace()
                r.outcome(g)
                tol = max(10 * e.tol, 1e-9) * (1 + np.max(np.abs(x))) / min(1, s)
                r.check(g.size == x.size and np.max(np.abs(g.reshape(x.shape) - w)) <= tol, "%s|sm=%s|x=%s" % (key, sm, x.ravel().tolist()),
                        "gradient %s, Moreau envelope gradient %s" % (g.ravel()[:6], w.ravel()[:6]), x=x)
        return
    for x in short(e.xs, n):
        if e.grad is None or not e.smooth_at(x):
            continue
        op = e.build()[0]
        g = np.asarray(op.grad(x.copy()))
        ref = np.asarray(e.grad(x)) if np.ndim(e.grad(x)) else np.full(x.shape, e.grad(x))
        r.state(x)
        r.trans()
        r.trace()
        r.outcome(g)
        sig = "%s|x=%s" % (key, x.ravel().tolist())
        if np.iscomplexobj(g) and not np.iscomplexobj(x):
            g = g.real if np.max(np.abs(g.imag)) < 1e-9 else g
        if not r.check(g.size == x.size, sig + "|shape", "the gradient at a vector of %d entries is %r" % (x.size, g), x=x):
            continue
        g = g.reshape(ref.shape)
        r.check(np.max(np.abs(g - ref)) <= 1e-8 * (1 + np.max(np.abs(ref))), sig, "gradient %s, closed form %s" % (g.ravel()[:6], ref.ravel()[:6]), x=x)
        if np.iscomplexobj(x) or e.kind == "formula" or e.grad_is_partial:
            continue
        h = 1e-5
        for i in range(x.size):
            d = np.zeros(x.size)
            d[i] = h
            d = d.reshape(x.shape)
            fd = (e.f(x + d) - e.f(x - d)) / (2 * h)
            r.check(abs(fd - g.ravel()[i]) <= 1e-5 * (1 + abs(fd)), sig + "|fd%d" % i, "component %d is %g, finite difference %g" % (i, g.ravel()[i], fd), x=x)
    r.sample(key)


def refable(e):
    return e.prox is not None and e.kind in ("convex", "formula", "proj") and e.light is None and not (e.kind == "formula" and e.group == "Nuclear")
