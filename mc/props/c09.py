"""C09: what an operator computes does not depend on what it, or another operator, computed before.

Explicit-state exploration: a state is the canonical content of the operator object (all attributes,
recursively); events are method calls. Breadth first to a fixed point or the depth bound; every
transition's observation is compared with the one of a freshly built operator."""

import itertools
import types as _t

import numpy as np

import pyproximal as pp
from pyproximal import projection as pj

from mc.catalog import Entry, catalog, lat, mop
from mc.core import canon
from mc.extras import extras

ID = "C09"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "events: prox/proxdual at two points with two step sizes, value, gradient, a rejected step size, prox with an almost equal step size, prox of a second "
    "instance of the same class and configuration; depth bound 3 (quick) / 5 (thorough) or fixed point of the state space",
    "one operator on vectors and matrices of 4 to 14 sizes in turn (pairs, triples when thorough); one array overwritten between calls (all pairs of calls)",
    "iteration-dependent (callable) parameters are C10's subject; warm started inner solvers are compared with the "
    "solver's accuracy (1e-5)",
    "states are deduplicated by an 8-digit canonical rendering of the operator's attributes",
]


class GradientNonlinear(pp.Nonlinear):
    def fun(self, x):
        return float(np.sum(x ** 4 / 4))

    def grad(self, x):
        return x ** 3

    def optimize(self):
        x = self.x0.copy()
        for _ in range(self.niter):
            x = x - 0.05 * self._gradprox(x, self.tau)
        return x


def early():
    """operators with inner iterations stopped early and no warm start: exact (not only asymptotic) independence"""
    out = []
    A = np.array([[1.0, 2.0, 0.0], [0.0, -1.0, 0.5], [3.0, 0.0, 1.0]])
    B = A.T @ A + np.eye(3)
    xs = lat([-2.0, 0.5, 3.0], 3)

    def add(name, cfg, make):
        out.append(Entry(name, cfg, make, None, xs, [0.4, 1.5], None, kind="extra", tol=1e-9, group="early"))

    for solver in ("legacy", "cg", "cgls"):
        for niter in (1, 2):
            for x0 in (False, True):
                def mk(solver=solver, niter=niter, x0=x0):
                    s = np.array([1.0, -1.0, 0.5]) if x0 else None
                    return pp.L2(Op=mop(A, False), b=np.array([1.0, -2.0, 0.5]), sigma=2.0, niter=niter, x0=s, warm=False, solver=solver), {"x0": s}
                add("L2early", dict(solver=solver, niter=niter, x0=x0), mk)
    for niter in (1, 2):
        for x0 in (False, True):
            def mk(niter=niter, x0=x0):
                s = np.array([1.0, -1.0, 0.5]) if x0 else None
                return pp.Quadratic(Op=mop(B, False), b=np.array([1.0, -2.0, 0.5]), niter=niter, x0=s, warm=False), {"x0": s}
            add("Quadraticearly", dict(niter=niter, x0=x0), mk)
    for niter in (1, 3):
        def mk(niter=niter):
            s = np.array([1.0, -1.0, 0.5])
            return GradientNonlinear(s, niter=niter, warm=False), {"x0": s}
        add("Nonlinearearly", dict(niter=niter), mk)
    for niter in (1, 3):
        add("TVearly", dict(niter=niter), lambda niter=niter: (pp.TV((3,), 0.7, niter=niter, rtol=0), {}))
    return {e.key: e for e in out}


def entries(tier):
    d = dict(catalog(tier))
    d.update(extras(tier))
    d.update(early())
    return d


def cases(tier):
    return [[tier, k] for k in entries(tier)] + [[tier, "shapes", k] for k in SHAPES] + [[tier, "reused", k] for k in entries(tier)]


V = lambda n: 2.5 * np.cos(1.7 * np.arange(n) + n)
MATS = ((2, 3), (3, 2), (6, 1), (1, 6), (2, 2), (4, 3), (3, 4), (1, 1))
LENS = ((1,), (2,), (3,), (6,), (7,), (40,))
# operators that accept vectors or matrices of any size
SHAPES = {
    "HankelProj": (lambda: pj.HankelProj(), MATS), "EuclideanBallProj": (lambda: pj.EuclideanBallProj(0.3, 0.9), LENS + MATS), "BoxProj": (lambda: pj.BoxProj(-0.4, 1.1), LENS + MATS),
    "L0BallProj": (lambda: pj.L0BallProj(1), LENS), "L21": (lambda: pp.L21(2, 0.7), ((2,), (4,), (6,), (40,))), "L10Ball": (lambda: pp.L10Ball(2, 1), ((2,), (4,), (6,), (40,))),
    "L21_plus_L1": (lambda: pp.L21_plus_L1(0.7, 0.3), MATS), "NuclearBallProj": (lambda: pj.NuclearBallProj(1, 0.8), ((1, 6), (6, 1), (1, 1), (1, 3))),
    **{k: (m, LENS) for k, m in dict(
        L1=lambda: pp.L1(0.7), L0=lambda: pp.L0(0.7), L2=lambda: pp.L2(sigma=0.7), L2b=lambda: pp.L2(b=1.5, sigma=0.7), Euclidean=lambda: pp.Euclidean(0.7), Huber=lambda: pp.Huber(0.6),
        HuberCircular=lambda: pp.HuberCircular(0.6), Log=lambda: pp.Log(0.7, 2.3), Log1=lambda: pp.Log1(0.7, 0.3), ETP=lambda: pp.ETP(0.7, 1.3), Geman=lambda: pp.Geman(0.7, 1.3),
        SCAD=lambda: pp.SCAD(0.7, 4.5), RelaxedMS=lambda: pp.RelaxedMumfordShah(0.7, 0.8), QECard=lambda: pp.QuadraticEnvelopeCard(0.6), Box=lambda: pp.Box(-0.4, 1.1),
        QECardInd=lambda: pp.QuadraticEnvelopeCardIndicator(1), L0Ball=lambda: pp.L0Ball(1), Quadratic=lambda: pp.Quadratic(c=0.4), EuclideanBall=lambda: pp.EuclideanBall(0.3, 0.9),
        chain=lambda: 2.0 * pp.L1(0.7), L1g=lambda: pp.L1(0.7, g=0.4), Sum=lambda: pp.Sum([pp.L1(0.7), pp.L2(sigma=0.3)]),
        L2Convolve=lambda: pp.L2Convolve(np.array([1.0, 0.5]), np.array([1.0, -2.0]), nfft=64)).items()},
}


def shapes(case, r):
    """one operator, used for problems of several sizes in turn"""
    tier, _, name = case
    mk, shp = SHAPES[name]
    proj = name.endswith("Proj")
    EV = {"call": lambda o, x: o(x)}
    if not proj:
        EV.update(prox=lambda o, x: o.prox(x, 0.7), dual=lambda o, x: o.proxdual(x, 0.7), grad=lambda o, x: o.grad(x))

    def obs(f, o, x):
        try:
            return f(o, x)
        except (NotImplementedError, ValueError) as ex:
            return type(ex).__name__

    ev = [(m, s) for m in EV for s in shp]
    want = {(m, s): obs(EV[m], mk(), V(int(np.prod(s))).reshape(s)) for m, s in ev}
    depth = 2 if tier == "quick" else 3
    for h in itertools.product([(m, s) for m, s in ev if not isinstance(want[m, s], str)], repeat=depth - 1):
        for m, s in ev:
            o = mk()
            for a, b in h:
                EV[a](o, V(int(np.prod(b))).reshape(b))
            y, w = obs(EV[m], o, V(int(np.prod(s))).reshape(s)), want[m, s]
            r.trans(depth), r.trace(), r.state(name, h, m, s)
            ok = y == w if isinstance(w, str) or isinstance(y, str) else np.shape(y) == np.shape(w) and np.allclose(y, w, rtol=1e-9, atol=1e-12)
            r.check(ok, "shapes|%s|%s" % (name, m), "%s: %s of a %s vector after %s gives %s, on a fresh operator %s" % (name, m, s, list(h), y, w))
    r.outcome(*[np.asarray(v) if not isinstance(v, str) else v for v in want.values()])


def reused(case, r):
    """the caller keeps one array and overwrites it between the calls"""
    tier, _, key = case
    e = entries(tier)[key]
    xs = [x for x in e.xs if x.shape == e.xs[0].shape and not np.iscomplexobj(x)] or e.xs
    xs = [xs[len(xs) // 5], xs[(4 * len(xs)) // 5], -xs[(4 * len(xs)) // 5] / 3]
    t = e.taus[0]
    EV = {"prox": lambda a, x: a.prox(x, t), "dual": lambda a, x: a.proxdual(x, t), "val": lambda a, x: a(x), "grad": lambda a, x: a.grad(x)}
    ev, fresh = [], {}
    for m, f in EV.items():
        for i, x in enumerate(xs):
            try:
                w = f(e.build(True)[0], x.copy())
            except NotImplementedError:
                continue
            if w is not None:
                ev.append((m, i))
                fresh[m, i] = w
            r.trans()
    tol = 1e-5 if e.iterative else 1e-9
    for h in itertools.product(ev, repeat=2):
        a = e.build(True)[0]
        buf = np.empty_like(xs[0])
        for m, i in h:
            buf[...] = xs[i]
            y = EV[m](a, buf)
            y = np.array(y, copy=True) if isinstance(y, np.ndarray) else y
            r.trans()
        w = fresh[h[-1]]
        ya, wa = np.asarray(y, dtype=complex), np.asarray(w, dtype=complex)
        r.check(ya.shape == wa.shape and np.max(np.abs(ya - wa), initial=0) <= tol * (1 + np.max(np.abs(wa), initial=0)), "%s|reused|%s" % (key, ">".join(m for m, _ in h)),
                "%s: with the array of the first call overwritten: %s instead of %s" % (key, ya.ravel()[:6], wa.ravel()[:6]))
        r.state(key, h), r.trace(), r.outcome(h[-1][0], ya)


def opstate(o, depth=0, seen=None):
    seen = seen if seen is not None else set()
    if isinstance(o, (np.ndarray, np.generic, int, float, complex, str, bool, type(None))):
        return canon(o) if not isinstance(o, np.ndarray) or o.dtype != object else "obj"
    if isinstance(o, (list, tuple)):
        return "[" + ",".join(opstate(v, depth + 1, seen) for v in o) + "]"
    if isinstance(o, dict):
        return "{" + ",".join("%s=%s" % (k, opstate(o[k], depth + 1, seen)) for k in sorted(o, key=str)) + "}"
    if isinstance(o, (_t.FunctionType, _t.MethodType, type, _t.ModuleType)) or callable(o) and not hasattr(o, "__dict__"):
        return "fn"
    if id(o) in seen or depth > 4:
        return "@"
    seen.add(id(o))
    d = getattr(o, "__dict__", None)
    if d is None:
        return type(o).__name__
    d = {k: v for k, v in d.items() if not k.endswith("_count") and k != "count"}
    return type(o).__name__ + opstate(d, depth + 1, seen)


def run(case, r):
    if len(case) == 3:
        return shapes(case, r) if case[1] == "shapes" else reused(case, r)
    tier, key = case
    e = entries(tier)[key]
    xs = [x for x in e.xs if x.shape == e.xs[0].shape and not np.iscomplexobj(x)] or e.xs
    xs = [xs[len(xs) // 5], xs[(4 * len(xs)) // 5]]
    t1, t2 = e.taus[0], e.taus[-1]
    heavy = e.group in ("Intersection",)
    depth = (2 if heavy else 3) if tier == "quick" else (3 if heavy else 5)
    EV = {
        "prox1": lambda a, b: a.prox(xs[0].copy(), t1),
        "prox2": lambda a, b: a.prox(xs[1].copy(), t2),
        "zero": lambda a, b: a.prox(0 * xs[0], t1),
        "dual": lambda a, b: a.proxdual(xs[0].copy(), t2),
        "val": lambda a, b: a(xs[1].copy()),
        "grad": lambda a, b: a.grad(xs[0].copy()),
        "near": lambda a, b: a.prox(xs[0].copy(), t1 * (1 + 5e-6)),
        "rej": lambda a, b: rejected(a, xs[0]),
        "other": lambda a, b: b.prox(xs[1].copy(), t1),
    }
    if t1 == t2:
        EV["prox3"] = lambda a, b: a.prox(xs[0].copy(), t1 * 2)

    def pair():
        return e.build(True)[0], e.build(True)[0]

    fresh = {}
    for n, f in EV.items():
        try:
            fresh[n] = f(*pair())
        except NotImplementedError:
            fresh[n] = None
        r.trans()
    tol = 1e-5 if e.iterative else 1e-9
    seen = {}
    frontier = [()]
    for d in range(depth):
        nxt = []
        for h in frontier:
            for n, f in EV.items():
                if fresh[n] is None:
                    continue
                a, b = pair()
                held = []
                for m in h:
                    z = EV[m](a, b)
                    held.append((z, np.array(z, copy=True)))
                    r.trans()
                y = f(a, b)
                for m, (z, c) in zip(h, held):
                    r.check(np.asarray(z).tobytes() == c.tobytes(), "%s|%s|held %s" % (key, ">".join(h + (n,)), m),
                            "a result returned earlier has changed", got=z, want=c)
                r.trans()
                r.trace()
                r.outcome(n, np.asarray(y) if y is not None else "")
                w = fresh[n]
                sig = "%s|%s" % (key, ">".join(h + (n,)))
                if isinstance(w, str):
                    r.check(y == w, sig, "event %s gives %s after %s, %s on a fresh operator" % (n, y, list(h), w))
                else:
                    ya, wa = np.asarray(y, dtype=complex), np.asarray(w, dtype=complex)
                    ok = ya.shape == wa.shape and np.max(np.abs(ya - wa), initial=0) <= tol * (1 + np.max(np.abs(wa), initial=0))
                    if not r.check(ok, sig, "event %s gives %s after %s, %s on a fresh operator" % (n, ya.ravel()[:6].real, list(h), wa.ravel()[:6].real)):
                        return
                s = opstate(a)
                r.state(s)
                if s not in seen:
                    seen[s] = h + (n,)
                    nxt.append(h + (n,))
        frontier = nxt
        if not frontier:
            break
    r.sample("%s: %d operator states, %s" % (key, len(seen), "fixed point" if not frontier else "depth bound %d" % depth))


def rejected(a, x):
    try:
        a.prox(x.copy(), 0.0)
    except ValueError as ex:
        return "ValueError"
    return "accepted"
