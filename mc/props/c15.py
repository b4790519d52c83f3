"""C15: primal splitting solvers follow their documented recursions, iterate by iterate, for every
combination of options on small problems (probe operators with closed forms)."""

import contextlib
import io
import itertools

import numpy as np

import pyproximal as pp
from pyproximal.optimization import primal as P
from pyproximal.utils.bilinear import LowRankFactorizedMatrix

from mc import solv as S

ID = "C15"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "problems with 1-4 unknowns (and 5 configurations per pair with 300), real and complex; horizon 6 (quick) / 12 (thorough) iterations, and 130 iterations for 5 evenly spread configurations per pair of functions; "
    "iterates compared to 1e-9 (Anderson 1e-6, while its normal matrix has condition number below 1e9)",
    "where a line search or safeguard decision is within 1e-9 of a tie the rest of that trace is not compared",
    "the extrapolated variant of the generalized proximal gradient (no documented recursion) is compared with: "
    "gradient at x, extrapolated point in the proximal step, documented weights",
    "operators are probes with closed forms defined by the harness, so only the solver is under test",
]

A1 = np.array([[1.0, 2.0], [0.0, 1.0], [1.0, -1.0]])
A2 = np.array([[0.5, -0.25], [0.25, 1.0]])
A3 = np.array([[1.0, 0.5, 0.0], [0.0, 1.0, -0.5]])
AC = np.array([[1.0, 0.5j], [0.5, 1.0 - 0.5j]])
B1 = np.array([1.0, -2.0, 0.5])
B2 = np.array([1.5, -0.5])
BC = np.array([1.0 + 1j, -0.5j])
X0 = {
    "1": [np.array([2.5]), np.array([-0.4])],
    "2": [np.array([0.0, 0.0]), np.array([2.0, -1.5]), np.array([-0.25, 3.0])],
    "3": [np.array([0.0, 1.0, -2.0]), np.array([3.0, 0.5, 0.25])],
    "4": [np.array([1.0, -2.0, 0.5, 3.0])],
    "c": [np.array([1.0 + 1j, -2.0]), np.array([-0.5j, 0.25 + 0.75j])],
}
A4 = np.array([[2.0, 0.0, 1.0, 0.0], [0.0, 1.5, 0.0, -1.0], [1.0, 0.0, 0.5, 0.0], [0.0, 0.25, 0.0, 1.0], [1.0, 1.0, 1.0, 1.0]])
B4 = np.array([1.0, -1.0, 2.0, 0.5, 0.0])
NL = 300
AL = 0.6 * np.eye(NL) + 0.3 * np.eye(NL, k=1) - 0.2 * np.eye(NL, k=-7)
BL = (np.arange(NL) * 7 % 11 - 5) / 4.0
X0["L"] = [(np.arange(NL) * 3 % 13 - 6) / 3.0, np.where(np.arange(NL) == 280, 4.0, 0.0)]
F = {  # smooth terms: name -> (factory, size)
    "affA1": (S.aff(A1, B1), "2"), "affA2": (S.aff(A2, B2), "2"), "affA3": (S.aff(A3, B2), "3"),
    "sq": (S.sq(2.0, [0.5, -1.0]), "2"), "huber": (S.huber(0.5), "2"), "affC": (S.aff(AC, BC), "c"),
    "aff4": (S.aff(A4, B4), "4"), "sq1": (S.sq(0.7, [1.0]), "1"), "lin": (S.lin([0.3, -0.2]), "2"),
    "affL": (S.aff(AL, BL), "L"),
}
G = {
    "l1": S.l1(0.4), "box": S.box(-0.75, 1.0), "euc": S.euc(0.6), "sq": S.sq(1.5, [0.25, -0.5]), "hub": S.huber(0.7),
}


def _copy(t):
    return tuple(np.array(v) for v in t)


def cases(tier):
    n = 6 if tier == "quick" else 12
    out = []
    for fn in ("l1", "box", "euc", "sq", "hub"):
        out.append(["pp", fn, n])
    for fn, gn in itertools.product(F, G):
        if F[fn][1] == "c" and gn in ("box",):
            continue
        for acc in (None, "None", "vandenberghe", "fista"):
            out.append(["pg", fn, gn, acc, n])
        out.append(["pgbt", fn, gn, n])
        out.append(["hqs", fn, gn, n])
        out.append(["dr", fn, gn, n])
        if F[fn][1] != "c":
            out.append(["aa", fn, gn, n])
    out += [["bil", a, n] for a in (None, "vandenberghe", "fista")]
    names = ["affA1", "affA2", "sq"]
    gnames = list(G)
    for m in (1, 2, 3):
        for gs in itertools.combinations(gnames, m):
            out.append(["gpg", list(gs), n])
    out += [c[:-1] + [S.LONG] for c in out if c[1] != "affL"]
    out.append(["gpgw", n])
    out += [["mat", fn, gn, n] for fn in F for gn in G if not (F[fn][1] == "c" and gn == "box")]
    return out


def run(case, r):
    globals()["run_" + case[0]](case, r)


def run_pp(case, r):
    _, fn, n = case
    for size in X0:
        if size == "c" and fn in ("box",):
            continue
        for x0, tau in S.prod(n)(X0[size], (0.1, 0.5, 1.0, 3.0)):
            f = G[fn]()
            got = []
            x = P.ProximalPoint(f, x0.copy(), tau, niter=n, callback=lambda v: got.append(np.array(v)))
            d = "ProximalPoint %s x0=%s tau=%s" % (fn, x0, tau)
            S.compare(r, "pp", d, got, S.ref_pp(f, x0, tau, n), key=(fn, str(x0), tau))
            r.check(S.close(x, got[-1], 0), "pp|ret", d + ": result is not the last iterate")


def _pg(r, sig, f, g, x0, n, tol=1e-9, solver=P.ProximalGradient, **kw):
    got = []
    x = solver(f, g, x0.copy(), niter=n, callback=lambda v: got.append(np.array(v)), **kw)
    d = "%s f=%s g=%s x0=%s %s" % (solver.__name__, f.name, g.name, x0, kw)
    S.compare(r, sig, d, got, (v[0] for v in S.ref_pg(f, g, x0, n, **kw)), tol)
    r.check(S.close(x, got[-1], 0), sig + "|ret", d + ": result is not the last iterate")


def epsgs(n):
    return (1.0, 0.5, np.resize([1.0, 0.25, 2.0, 0.5, 1.5, 0.1], n))


def run_pg(case, r):
    _, fn, gn, acc, n = case
    ff, size = F[fn]
    for x0, tau, eta, eps in S.prod(n)(X0[size], (0.05, 0.2, "v"), (1.0, 0.6), epsgs(n)):
        if tau == "v":
            if gn == "euc" or size == "1":
                continue
            tau = 0.1 * np.arange(1, x0.size + 1)
        _pg(r, "pg|%s" % acc, ff(), G[gn](), x0, n, tau=tau, eta=eta, epsg=eps, acceleration=acc)
        if acc in ("vandenberghe", "fista") and eta == 1.0 and np.size(eps) == 1:
            _pg(r, "apg|%s" % acc, ff(), G[gn](), x0, n, solver=P.AcceleratedProximalGradient, tau=tau, epsg=eps,
                acceleration=acc)


def run_pgbt(case, r):
    _, fn, gn, n = case
    ff, size = F[fn]
    for x0, (tau, bt), beta, eta, eps, acc, nb in S.prod(n)(
            X0[size][:2], ((None, False), (3.0, True), (0.3, True)), (0.5, 0.3), (1.0, 0.6), epsgs(n)[1:],
            (None, "vandenberghe", "fista"), (100, 2)):
        _pg(r, "pgbt", ff(), G[gn](), x0, n, tau=tau, backtracking=bt, beta=beta, eta=eta, epsg=eps, acceleration=acc,
            niterback=nb)


def run_bil(case, r):
    """Bilinear smooth term: the gradient is the one at the current point."""
    _, acc, n = case
    Xs, Ys = (2, 1), (1, 2)
    d = np.array([1.0, 2.0, -1.0, 0.5])
    for x0 in (np.array([1.0, -0.5, 0.25, 2.0]), np.array([0.5, 0.5, 1.0, -1.0])):
        for init, (tau, bt), eta, gn in S.prod(n)(("x0", "other"), ((0.1, False), (None, True)), (1.0, 0.7), ("l1", "box")):
            v = x0 if init == "x0" else x0[::-1] + 1.0
            H = LowRankFactorizedMatrix(v[:2].reshape(Xs).copy(), v[2:].reshape(Ys).copy(), d)

            def val(x):
                return float(np.sum((np.outer(x[:2], x[2:]).ravel() - d) ** 2) / 2)

            def grad(x):
                E = (np.outer(x[:2], x[2:]).ravel() - d).reshape(2, 2)
                return np.concatenate([E @ x[2:], x[:2] @ E])

            f = S.Probe(val, None, grad, "bilinear")
            g = G[gn]()
            kw = dict(tau=tau, backtracking=bt, eta=eta, acceleration=acc)
            got = []
            P.ProximalGradient(H, g, x0.copy(), niter=n, callback=lambda w: got.append(np.array(w)), **kw)
            S.compare(r, "bil", "ProximalGradient bilinear x0=%s init=%s %s" % (x0, init, kw), got,
                      (w[0] for w in S.ref_pg(f, g, x0, n, **kw)), 1e-8)


def run_aa(case, r):
    _, fn, gn, n = case
    ff, size = F[fn]
    for x0, tau, nh, epsr, sg, eps in S.prod(n)(X0[size], (0.1, 0.2), (1, 2, 3, 10), (1e-10, 1e-2), (False, True), epsgs(n)):
        f, g = ff(), G[gn]()
        got = []
        kw = dict(tau=tau, nhistory=nh, epsr=epsr, safeguard=sg, epsg=eps)
        P.AndersonProximalGradient(f, g, x0.copy(), niter=n, callback=lambda v: got.append(np.array(v)), **kw)
        S.compare(r, "anderson", "Anderson f=%s g=%s x0=%s %s" % (fn, gn, x0, kw), got,
                  S.ref_anderson(f, g, x0, n, **kw), 1e-6)


def run_gpg(case, r):
    _, gs, n = case
    m = len(gs)
    W = {1: [None, [1.0]], 2: [None, [0.25, 0.75]], 3: [None, [0.2, 0.5, 0.3]]}[m]
    E = [1.0, np.array([0.5, 2.0, 1.25])[:m]]
    for fs in (["affA2"], ["affA1", "sq"], ["sq", "affA2", "huber"]):
        for x0, w, eps, eta, acc, tau in S.prod(n)(X0["2"], W, E, (1.0, 0.5), (None, "vandenberghe", "fista"), (0.1, 0.3)):
            F_ = [F[k][0]() for k in fs]
            G_ = [G[k]() for k in gs]
            kw = dict(tau=tau, epsg=eps, weights=None if w is None else np.array(w), eta=eta, acceleration=acc)
            got = []
            x = P.GeneralizedProximalGradient(F_, G_, x0.copy(), niter=n, callback=lambda v: got.append(np.array(v)), **kw)
            d = "GPG f=%s g=%s x0=%s %s" % (fs, gs, x0, kw)
            S.compare(r, "gpg|%s" % acc, d, got, S.ref_gpg(F_, G_, x0, n, **kw))
            r.check(S.close(x, got[-1], 0), "gpg|ret", d + ": result is not the last iterate")


class Mat(pp.ProxOperator):
    """A function of vectors as a function of matrices."""

    def __init__(self, op):
        super().__init__(None, op.hasgrad)
        self.op = op

    def __call__(self, x):
        return self.op(x.ravel())

    def prox(self, x, tau):
        return self.op.prox(x.ravel(), tau.ravel() if isinstance(tau, np.ndarray) else tau).reshape(x.shape)

    def grad(self, x):
        return self.op.grad(x.ravel()).reshape(x.shape)


def run_mat(case, r):
    """Matrices of unknowns take the same steps as the vectors of their elements, with and without log."""
    _, fn, gn, n = case
    ff, size = F[fn]
    for x0 in X0[size]:
        for shape in sorted({(x0.size, 1), (1, x0.size)} | ({(2, 2)} if x0.size == 4 else set())):
            opts = [dict(tau=t, eta=e, epsg=ep, acceleration=a, tol=tol) for t, e, ep, a, tol in itertools.product(
                (0.1, None, "v"), (1.0, 0.6), epsgs(n)[1:], (None, "vandenberghe", "fista"), (None, 1e-4))
                if not (t == "v" and (gn == "euc" or size == "1"))]
            runs = [(P.ProximalGradient, o) for o in opts] + [
                (P.GeneralizedProximalGradient, dict(tau=0.1, eta=e, epsg=0.5, acceleration=a)) for e in (1.0, 0.6) for a in (None, "fista")]
            for solver, o in runs:
                res = []
                for mat in (False, True):
                    for show in (False, True):
                        k = dict(o)
                        if k["tau"] == "v":
                            k["tau"] = 0.1 * np.arange(1, x0.size + 1)
                            if mat:
                                k["tau"] = k["tau"].reshape(shape)
                        f, g, it = ff(), G[gn](), []
                        if mat:
                            f, g = Mat(f), Mat(g)
                        if solver is P.GeneralizedProximalGradient:
                            f, g = [f], [g, G["l1"]() if not mat else Mat(G["l1"]())]
                        with contextlib.redirect_stdout(io.StringIO()) as out:
                            x = solver(f, g, x0.reshape(shape).copy() if mat else x0.copy(), niter=n, show=show,
                                       callback=lambda v: it.append(np.array(v)), **k)
                        res.append((np.array(x), it, out.getvalue().splitlines()[-12:-3] if show else []))
                        r.trans()
                w = res[0]
                for i, g_ in enumerate(res[1:], 1):
                    d = "%s f=%s g=%s x0=%s as %s show=%s %s" % (solver.__name__, fn, gn, x0, shape if i > 1 else "vector", i % 2, o)
                    ok = len(w[1]) == len(g_[1]) and all(v.shape == (shape if i > 1 else x0.shape) and S.close(v.ravel(), u, 1e-9) for u, v in zip(w[1], g_[1]))
                    r.check(ok and S.close(g_[0].ravel(), w[0], 1e-9), "mat|" + solver.__name__,
                            "%s: iterates %s, as a vector %s" % (d, [v.tolist() for v in g_[1]], [v.tolist() for v in w[1]]))
                r.check(rowvals(res[1][2]) == rowvals(res[3][2]), "mat|log", "%s: the log of a matrix of unknowns differs: %s, %s" % (d, res[3][2], res[1][2]))
                r.trace(), r.state(fn, gn, str(x0), shape, str(o)), r.outcome(w[0])


def rowvals(lines):
    out = []
    for l in lines:
        try:
            out.append([float("%.3g" % float(t)) for t in l.split()])
        except ValueError:
            pass
    return out


def run_gpgw(case, r):
    """All ways of giving weights that sum to one are accepted, others refused."""
    n = case[1]
    f, x0 = F["affA2"][0], X0["2"][1]
    for m in range(1, 13):
        G_ = [S.l1(0.1 * (i + 1))() for i in range(m)]
        got = []
        w = np.full(m, 1.0 / m)
        P.GeneralizedProximalGradient([f()], G_, x0.copy(), tau=0.2, weights=w, niter=3, callback=lambda v: got.append(np.array(v)))
        S.compare(r, "gpgw", "GPG uniform weights m=%d" % m, got, S.ref_gpg([f()], G_, x0, 3, tau=0.2))
        for bad in (np.full(m, 0.9 / m), np.full(m + 1, 1.0 / (m + 1))):
            r.trans()
            try:
                P.GeneralizedProximalGradient([f()], G_, x0.copy(), tau=0.2, weights=bad, niter=3)
            except ValueError:
                continue
            r.fail("gpgw|bad", "weights %s accepted for %d functions" % (bad, m))
    for bad in ("nesterov", "Fista"):
        for call in (lambda: P.ProximalGradient(f(), G["l1"](), x0, tau=0.1, acceleration=bad),
                     lambda: P.GeneralizedProximalGradient([f()], [G["l1"]()], x0, tau=0.1, acceleration=bad)):
            r.trans()
            try:
                call()
            except NotImplementedError:
                continue
            r.fail("badacc", "unknown acceleration %s accepted" % bad)


def run_hqs(case, r):
    _, fn, gn, n = case
    ff, size = F[fn]
    taus = (0.1, 1.0, np.resize([1.0, 0.5, 2.0, 0.1, 0.7, 0.3], n))
    for x0, tau, gf, init in S.prod(n)(X0[size], taus, (True, False), ("x", "z", "xz")):
        f, g = ff(), G[gn]()
        z0 = x0[::-1] * 0.5 + 0.1
        xx, zz = {"x": (x0, None), "z": (None, z0), "xz": (x0, z0)}[init]
        got, gx = [], []
        x, z = P.HQS(f, g, None if xx is None else xx.copy(), tau, niter=n, z0=None if zz is None else zz.copy(), gfirst=gf,
                     callback=lambda *v: got.append(_copy(v)), callbackz=True)
        P.HQS(f, g, None if xx is None else xx.copy(), tau, niter=n, z0=None if zz is None else zz.copy(), gfirst=gf,
              callback=lambda v: gx.append(np.array(v)))
        d = "HQS f=%s g=%s x0=%s z0=%s tau=%s gfirst=%s" % (fn, gn, xx, zz, tau, gf)
        a, b = (zz if xx is None else xx), (xx if zz is None else zz)
        S.compare(r, "hqs", d, got, S.ref_hqs(f, g, a, b, tau, n, gf))
        r.check(S.close(x, got[-1][0], 0) and S.close(z, got[-1][1], 0), "hqs|ret", d + ": result is not the last iterate")
        r.check(len(gx) == n and all(S.close(u, v[0], 0) for u, v in zip(gx, got)), "hqs|cb", d + ": callback(x) differs from callback(x, z)")


def run_dr(case, r):
    _, fn, gn, n = case
    ff, size = F[fn]
    for x0, tau, eta, gf in S.prod(n)(X0[size], (0.1, 1.0, 2.5), (1.0, 0.5, 1.6), (True, False)):
        f, g = ff(), G[gn]()
        got, gx = [], []
        x, y = P.DouglasRachfordSplitting(f, g, x0.copy(), tau, eta=eta, niter=n, gfirst=gf, callback=lambda *v: got.append(_copy(v)),
                                          callbacky=True)
        P.DouglasRachfordSplitting(f, g, x0.copy(), tau, eta=eta, niter=n, gfirst=gf, callback=lambda v: gx.append(np.array(v)))
        d = "DouglasRachford f=%s g=%s x0=%s tau=%s eta=%s gfirst=%s" % (fn, gn, x0, tau, eta, gf)
        S.compare(r, "dr", d, got, S.ref_dr(f, g, x0, tau, n, eta, gf))
        r.check(S.close(x, got[-1][0], 0) and S.close(y, got[-1][1], 0), "dr|ret", d + ": result is not the last iterate")
        r.check(len(gx) == n and all(S.close(u, v[0], 0) for u, v in zip(gx, got)), "dr|cb", d + ": callback(x) differs from callback(x, y)")
