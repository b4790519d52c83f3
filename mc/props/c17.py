"""C17: primal-dual solvers follow their documented recursions, iterate by iterate and step by step."""

import itertools

import numpy as np

from pyproximal.optimization import primaldual as PD

from mc import solv as S
from mc.props.c15 import G, X0
from mc.props.c16 import FS, LM, _copy, c_, fac, op

ID = "C17"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "problems with 1-3 unknowns (and 5 configurations per pair with 300), real and complex, seven linear maps (identity, square, wide, tall, row, column, complex); "
    "horizon 6 (quick) / 20 (thorough) iterations, and 130 for 5 evenly spread configurations per pair; comparison to 1e-9",
    "where an adaptation decision is within 1e-9 of a tie the rest of that trace is not compared",
    "operators are probes with closed forms defined by the harness",
]


def cases(tier):
    n = 6 if tier == "quick" else 20
    out = []
    for m, gn in itertools.product(LM, G):
        if LM[m][1] == "c" and gn == "box":
            continue
        for fn in FS[LM[m][1]]:
            out.append(["pd", m, fn, gn, n])
            out.append(["apd", m, fn, gn, n])
    return out + [c[:-1] + [S.LONG] for c in out if c[1] != "L"]


def run(case, r):
    globals()["run_" + case[0]](case, r)


def zvec(x0):
    return [None, np.arange(1, x0.size + 1) * 0.3 * (1j if np.iscomplexobj(x0) else 1.0)]


def run_pd(case, r):
    _, m, fn, gn, n = case
    M, size = LM[m]
    var = np.resize([0.3, 0.1, 0.5, 0.2, 0.4], n)
    steps = [(0.3, 0.2), (1, 1), (var, 0.2), (0.3, var), (var, var[::-1].copy()), (1e6, 1e-7), (1e-7, 1e6)]
    for x0, (tau, mu), theta, gf, y0, z in S.prod(n)(X0[size], steps, (1.0, 0.0, 0.5), (True, False), (None, "y"), (0, 1)):
        f, g = fac(fn)(), G[gn]()
        z = zvec(x0)[z]
        y0 = None if y0 is None else (M @ x0)[::-1] * 0.5 + 0.25
        got, gx = [], []
        kw = dict(theta=theta, niter=n, gfirst=gf)
        x, y = PD.PrimalDual(f, g, op(M), x0.copy(), tau, mu, y0=c_(y0), z=c_(z), callback=lambda *v: got.append(_copy(v)),
                             callbacky=True, returny=True, **kw)
        d = "PrimalDual f=%s g=%s A=%s x0=%s y0=%s z=%s tau=%s mu=%s %s" % (fn, gn, m, x0, y0, z, tau, mu, kw)
        ys = np.zeros(M.shape[0], dtype=x0.dtype) if y0 is None else y0
        S.compare(r, "pd", d, got, S.ref_pd(f, g, M, x0, ys, tau, mu, n, theta, gf, z))
        r.check(S.close(x, got[-1][0], 0) and S.close(y, got[-1][1], 0), "pd|ret", d + ": result is not the last iterate")
        x2 = PD.PrimalDual(f, g, op(M), x0.copy(), tau, mu, y0=c_(y0), z=c_(z), callback=lambda v: gx.append(np.array(v)), **kw)
        r.check(len(gx) == n and all(S.close(u, v[0], 0) for u, v in zip(gx, got)) and S.close(x2, x, 0), "pd|cb",
                d + ": callback/return without y differs")


def run_apd(case, r):
    _, m, fn, gn, n = case
    M, size = LM[m]
    for x0, (tau, mu), alpha, (eta, s, delta), z in S.prod(n)(
            X0[size], ((0.3, 0.2), (2.0, 0.05)), (0.5, 0.2), ((0.95, 1.0, 1.5), (0.5, 3.0, 1.1), (0.9, 0.2, 4.0)), (0, 1, 1e4)):
        f, g = fac(fn)(), G[gn]()
        z = zvec(x0)[1] * z if z else None
        got = []
        kw = dict(alpha=alpha, eta=eta, s=s, delta=delta)
        x, st = PD.AdaptivePrimalDual(f, g, op(M), x0.copy(), tau, mu, z=c_(z), niter=n, tol=0.0,
                                      callback=lambda v: got.append(np.array(v)), **kw)
        d = "AdaptivePrimalDual f=%s g=%s A=%s x0=%s z=%s tau=%s mu=%s %s" % (fn, gn, m, x0, z, tau, mu, kw)
        ok = r.check(S.close(x, got[-1], 0), "apd|ret", d + ": result is not the last iterate")
        ok = r.check(len(st) == 3 and all(len(v) == len(got) + 1 for v in st), "apd|steps", d + ": step histories have wrong length")
        if not ok:
            continue
        ok = r.check(S.close(np.array([v[0] for v in st]), np.array([tau, mu, alpha]), 1e-15), "apd|step0", d + ": initial steps not recorded")
        got = [(v, st[0][k + 1], st[1][k + 1], st[2][k + 1]) for k, v in enumerate(got)]
        S.compare(r, "apd", d, got, S.ref_apd(f, g, M, x0, tau, mu, alpha, eta, s, delta, z, n, 0.0))
