"""C10: iteration-dependent parameters follow the prox call counter exactly."""

import itertools

import numpy as np
import pylops

import pyproximal as pp

from mc.catalog import MATS, mop

ID = "C10"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "model: a counter k, starting at 0, incremented by every accepted prox (directly or through proxdual's Moreau "
    "identity and the Moreau gradient); prox uses the parameter of the incremented counter, value and the closed "
    "form dual prox the current one",
    "all event sequences up to length 5 (quick) / 7 (thorough) over prox, proxdual, value, gradient, rejected prox",
]

# non-monotone schedules with distinct values, so that an off-by-one is always visible
SIG = [0.5, 2.0, 0.25, 1.5, 3.0, 0.75, 1.25, 2.5, 0.1]
RAD = [1, 2, 0, 3, 1, 2, 3, 1, 2]
NIT = [1, 3, 2, 5, 1, 4, 2, 6, 3]
X = np.array([2.0, -0.7, 1.1])
X6 = np.array([2.0, -0.7, 1.1, 0.4, 0.0, -3.0])
TAU = 0.8


def ops():
    A, b = MATS["tall"], np.array([1.0, -2.0, 0.5])
    G = np.array([0.25, 0.5, -1.0])
    xa = np.array([0.5, -1.5])
    o = {}
    # name: (make(callable), make_const(value), schedule, x, kind of value, proxdual uses prox?, stateful)
    o["L1"] = (lambda c: pp.L1(c), lambda v: pp.L1(v), SIG, X, "sig", "closed", False)
    o["L1g"] = (lambda c: pp.L1(c, g=G.copy()), lambda v: pp.L1(v, g=G.copy()), SIG, X, "sig", "moreau", False)
    o["L0"] = (lambda c: pp.L0(c), lambda v: pp.L0(v), SIG, X, "none", "moreau", False)
    o["L0Ball"] = (lambda c: pp.L0Ball(c), lambda v: pp.L0Ball(v), RAD, X, "sig", "moreau", False)
    o["L10Ball"] = (lambda c: pp.L10Ball(2, c), lambda v: pp.L10Ball(2, v), RAD, X6, "sig", "moreau", False)
    o["RMSsigma"] = (lambda c: pp.RelaxedMumfordShah(c, 1.2), lambda v: pp.RelaxedMumfordShah(v, 1.2), SIG, X, "sig", "moreau", False)
    o["RMSkappa"] = (lambda c: pp.RelaxedMumfordShah(0.6, c), lambda v: pp.RelaxedMumfordShah(0.6, v), SIG, X, "sig", "moreau", False)
    for eng in ("legacy", "cg", "cgls"):
        o["L2" + eng] = (lambda c, eng=eng: pp.L2(Op=mop(A, False), b=b.copy(), niter=c, warm=False, solver=eng),
                         lambda v, eng=eng: pp.L2(Op=mop(A, False), b=b.copy(), niter=v, warm=False, solver=eng),
                         NIT, xa, "none", "moreau", True)
    o["TV"] = (lambda c: pp.TV(dims=(3,), niter=c, rtol=0.0), lambda v: pp.TV(dims=(3,), niter=v, rtol=0.0), NIT, X, "none", "moreau", False)
    # counters inside other operators
    I3, M2 = np.eye(3)[[1, 2, 0]], np.array([1.0, 0.5, -2.0, 3.0])
    G2 = np.array([5.0, 4.0])
    rs = lambda: [pylops.Restriction(3, [2, 0]), pylops.Restriction(3, [1])]
    l1g = lambda c: pp.L1(c, g=G.copy())
    for k, (w, x) in {
        "SVPgrow": (lambda c: pp.SingularValuePenalty((2, 2), pp.L1(c, g=G2.copy())), M2),
        "Orth": (lambda c: pp.Orthogonal(l1g(c), mop(I3, False), b=np.array([0.1, 0.2, -0.3])), X),
        "VStack": (lambda c: pp.VStack([pp.L1(c, g=G[:2].copy()), pp.Euclidean(0.5)], nn=[2, 1]), X),
        "VStackr": (lambda c: pp.VStack([pp.L1(c, g=G[:2].copy()), pp.Euclidean(0.5)], restr=rs()), np.array([0.0, 2.0, 0.0])),
        "add": (lambda c: l1g(c) + G, X), "mul": (lambda c: 2.0 * l1g(c), X), "pre": (lambda c: l1g(c).precomposition(1.5, 0.25), X),
        "adj": (lambda c: l1g(c).H, X),
    }.items():
        o[k] = (w, w, SIG, x, "sig", "moreau", False)
    return o


FAR = 1100  # calls in one long history
EVENTS = ("prox", "dual", "val", "grad", "rej")


def cases(tier):
    d = 5 if tier == "quick" else 7
    out = []
    for n in ops():
        dd = d - 1 if n == "TV" or n.startswith("L2") else d
        for a in EVENTS:
            for b in EVENTS:
                if dd:
                    out.append([tier, n, dd, a, b])
        out.append([tier, n, FAR, "prox", "prox"])
    return out


def far(name, r):
    """a long history of accepted calls: the count goes on as it began"""
    make, _, sched, x, *_ = ops()[name]
    calls = []

    def fun(k):
        calls.append(k)
        return sched[k % len(sched)]

    op = make(fun)
    for k in range(1, FAR + 1):
        del calls[:]
        op.prox(x.copy(), TAU)
        r.trans(), r.state(k)
        if not r.check(bool(calls) and all(c == k for c in calls), name + "|far", "prox number %d evaluates its parameter for %s" % (k, sorted(set(calls)))):
            return
    r.trace(), r.outcome(k)


def run(case, r):
    tier, name, depth, a, b = case
    if depth == FAR:
        return far(name, r)
    make, const, sched, x, vkind, dkind, hasgrad = ops()[name]
    memo = {}

    def ref(ev, k):
        if (ev, k) not in memo:
            o = const(sched[k])
            if ev == "prox":
                y = o.prox(x.copy(), TAU)
            elif ev == "dual":
                y = o.proxdual(x.copy(), TAU)
            elif ev == "val":
                y = o(x.copy())
            else:
                y = o.grad(x.copy())
            memo[ev, k] = np.asarray(y, dtype=float)
        return memo[ev, k]

    for tail in itertools.product(EVENTS, repeat=depth - 2):
        seq = (a, b) + tail
        calls = []

        def fun(k):
            calls.append(k)
            return sched[k]

        op = make(fun)
        k = 0
        for i, ev in enumerate(seq):
            n0 = len(calls)
            sig = "%s|%s" % (name, ">".join(seq[: i + 1]))
            if ev == "prox":
                k += 1
                y, w, used = op.prox(x.copy(), TAU), ref("prox", k), True
            elif ev == "dual":
                if dkind == "moreau":
                    k += 1
                y, w, used = op.proxdual(x.copy(), TAU), ref("dual", k), True
            elif ev == "val":
                y, w, used = op(x.copy()), ref("val", k if vkind == "sig" else 0), vkind == "sig"
            elif ev == "grad":
                if hasgrad:
                    y, w, used = op.grad(x.copy()), ref("grad", 0), False
                else:
                    k += 1
                    y, w, used = op.grad(x.copy()), ref("grad", k), True
            else:
                try:
                    op.prox(x.copy(), -1.0)
                    r.fail(sig, "rejected step size accepted")
                except ValueError:
                    pass
                y = w = np.zeros(1)
                used = False
            r.trans()
            r.state(seq[: i + 1])
            r.outcome(ev, np.asarray(y))
            new = calls[n0:]
            ok = r.check(all(c == k for c in new), sig + "|arg", "parameter evaluated with counters %s, the model is at %d" % (new, k))
            ok = ok and r.check(bool(new) or not used, sig + "|unused", "parameter not consulted by %s" % ev)
            d = np.max(np.abs(np.asarray(y, dtype=float) - w), initial=0)
            ok = ok and r.check(np.shape(y) == np.shape(w) and d <= 1e-9, sig, "%s gives %s with counter %d, the constant-parameter operator gives %s" % (ev, y, k, w))
            if not ok:
                return
        r.trace()
    r.sample("%s: %d sequences starting %s>%s" % (name, len(EVENTS) ** (depth - 2), a, b))
