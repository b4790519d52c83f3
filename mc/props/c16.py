"""C16: ADMM-type and consensus solvers follow their documented recursions, iterate by iterate."""

import itertools

import numpy as np
import pylops

from pyproximal.optimization import primal as P

from mc import solv as S
from mc.props.c15 import A1, A2, A3, AC, AL, B1, B2, BC, BL, F, G, X0

ID = "C16"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "problems with 1-4 unknowns (and 5 configurations per pair with 300), real and complex; horizon 6 (quick) / 15 (thorough) iterations, and 130 for 5 evenly spread configurations per pair; iterates compared to 1e-9 "
    "(ADMML2, whose update is an inner LSQR run to 1e-14, to 1e-6)",
    "operators are probes with closed forms defined by the harness",
]

D1 = np.array([[-1.0, 1.0, 0.0], [0.0, -1.0, 1.0]])
LM = {  # linear operators: name -> matrix, size of the domain
    "A1": (A1, "2"), "A2": (A2, "2"), "D1": (D1, "3"), "AC": (AC, "c"), "I": (np.eye(2), "2"),
    "row": (np.array([[1.0, -2.0]]), "2"), "col": (np.array([[1.0], [0.5], [-1.0]]), "1"), "L": (AL[:140], "L"),
}
FS = {"1": ["sq1", "l1", "box"], "2": ["affA1", "sq", "l1", "box", "euc", "lin"], "3": ["affA3", "l1", "euc"],
      "c": ["affC", "l1", "euc"], "4": ["aff4"], "L": ["affL", "l1"]}


def fac(n):
    return F[n][0] if n in F else G[n]


def op(M):
    return pylops.Identity(M.shape[0]) if M.shape[0] == M.shape[1] and np.array_equal(M, np.eye(len(M))) else \
        pylops.MatrixMult(M, dtype=M.dtype)


def _copy(t):
    return tuple(np.array(v) for v in t)


def c_(v):
    return None if v is None else v.copy()


def cases(tier):
    n = 6 if tier == "quick" else 15
    out = []
    for fn, gn in itertools.product(list(F), list(G)):
        if F[fn][1] == "c" and gn == "box":
            continue
        out.append(["admm", fn, gn, n])
    for m, gn in itertools.product(LM, G):
        if LM[m][1] == "c" and gn == "box":
            continue
        out.append(["admml2", m, gn, n])
        out.append(["ladmm", m, gn, n])
    names = ["affA1", "sq", "l1", "box", "euc", "hub"]
    for m in (2, 3):
        for fs in itertools.combinations(names, m):
            out.append(["cons", list(fs), n])
    out.append(["cons", ["affC", "l1"], n])
    out.append(["cons", ["affC", "l1", "euc"], n])
    out += [["many", m, n] for m in (17, 64, 130, 300)]
    return out + [c[:-1] + [S.LONG] for c in out if c[0] != "many" and (c[0] != "cons" or len(c[1]) == 2) and c[1] not in ("L", "affL")]


def run(case, r):
    globals()["run_" + case[0]](case, r)


def run_admm(case, r):
    _, fn, gn, n = case
    ff, size = F[fn]
    for x0, tau, gf, init in S.prod(n)(X0[size], (0.1, 1.0, 2.5), (True, False), ("x", "z", "xz")):
        f, g = ff(), G[gn]()
        z0 = x0[::-1] * 0.5 + 0.1
        xx, zz = {"x": (x0, None), "z": (None, z0), "xz": (x0, z0)}[init]
        got, gx = [], []
        x, z = P.ADMM(f, g, c_(xx), tau, niter=n, z0=c_(zz), gfirst=gf, callback=lambda *v: got.append(_copy(v)), callbackz=True)
        P.ADMM(f, g, c_(xx), tau, niter=n, z0=c_(zz), gfirst=gf, callback=lambda v: gx.append(np.array(v)))
        d = "ADMM f=%s g=%s x0=%s z0=%s tau=%s gfirst=%s" % (fn, gn, xx, zz, tau, gf)
        a, b = (zz if xx is None else xx), (xx if zz is None else zz)
        S.compare(r, "admm", d, got, S.ref_admm(f, g, a, b, tau, n, gf))
        r.check(S.close(x, got[-1][0], 0) and S.close(z, got[-1][1], 0), "admm|ret", d + ": result is not the last iterate")
        r.check(len(gx) == n and all(S.close(u, v[0], 0) for u, v in zip(gx, got)), "admm|cb", d + ": callback(x) differs from callback(x, z)")
    for gf in (True, False):
        r.trans()
        try:
            P.ADMM(ff(), G[gn](), None, 1.0, gfirst=gf)
        except ValueError:
            continue
        r.fail("admm|none", "ADMM without x0 and z0 accepted")


def run_admml2(case, r):
    _, m, gn, n = case
    M, size = LM[m]
    k = M.shape[1]
    cplx = np.iscomplexobj(M)
    ops = [(np.eye(k) * 1.5, np.arange(1.0, k + 1)), (np.vstack([np.eye(k), np.ones((1, k))]), np.r_[np.arange(k) - 0.5, 2.0]),
           (np.eye(k), np.zeros(k))]
    if cplx:
        ops = [(AC, BC), (np.eye(2) + 0j, 0 * BC)]
    for (Q, b), x0, tau, gf, init in S.prod(n)(ops, X0[size], (0.2, 1.0, 3.0), (True, False), ("x", "xz", "x0")):
        z0 = {"x": None, "xz": (M @ x0) * 0.5 + 0.2, "x0": 0 * (M @ x0)}[init]
        g = G[gn]()
        got = []
        x, z = P.ADMML2(g, pylops.MatrixMult(Q, dtype=Q.dtype), b.copy(), op(M), x0.copy(), tau, niter=n, z0=c_(z0), gfirst=gf,
                        callback=lambda v: got.append(np.array(v)), iter_lim=500, atol=1e-15, btol=1e-15)
        d = "ADMML2 A=%s b=%s g=%s x0=%s z0=%s tau=%s gfirst=%s" % (m, b, gn, x0, z0, tau, gf)
        ref = list(S.ref_admml2(g, Q, b, M, x0, M @ x0 if z0 is None else z0, tau, n, gf))
        S.compare(r, "admml2", d, got, [v[0] for v in ref], 1e-6)
        r.check(S.close(x, got[-1], 0) and S.close(z, ref[-1][1], 1e-6), "admml2|ret", d + ": result is not the last iterate")


def run_ladmm(case, r):
    _, m, gn, n = case
    M, size = LM[m]
    for fn, x0, tau, mu, init in S.prod(n)(FS[size], X0[size], (0.5, 2.0), (0.1, 0.4), ("x", "xz")):
        z0 = {"x": None, "xz": (M @ x0) * 0.5 + 0.2}[init]
        f, g = fac(fn)(), G[gn]()
        got = []
        x, z = P.LinearizedADMM(f, g, op(M), x0.copy(), tau, mu, niter=n, z0=c_(z0), callback=lambda v: got.append(np.array(v)))
        d = "LinearizedADMM f=%s g=%s A=%s x0=%s z0=%s tau=%s mu=%s" % (fn, gn, m, x0, z0, tau, mu)
        ref = list(S.ref_ladmm(f, g, M, x0, M @ x0 if z0 is None else z0, tau, mu, n))
        S.compare(r, "ladmm", d, got, [v[0] for v in ref])
        r.check(S.close(x, got[-1], 0) and S.close(z, ref[-1][1], 1e-9), "ladmm|ret", d + ": result is not the last iterate")


def run_many(case, r):
    """many functions at once"""
    _, m, n = case
    ps = [(S.sq(0.5 + i % 5, [i % 3 - 1.0, 0.5 * (i % 4)]), S.l1(0.2 + 0.1 * (i % 7)), S.box(-1.0 - i % 2, 2.0), S.euc(0.3))[i % 4]() for i in range(m)]
    w = np.arange(1.0, m + 1)
    w /= w.sum()
    for x0 in X0["2"]:
        got = []
        P.ConsensusADMM(ps, x0.copy(), 0.7, niter=n, tol=0, callback=lambda v: got.append(np.array(v)))
        S.compare(r, "many", "ConsensusADMM with %d functions, x0=%s" % (m, x0), got, S.ref_consensus(ps, x0, 0.7, n))
        for wt, eta in ((None, 1.0), (w, 1.4)):
            got = []
            P.PPXA(ps, x0.copy(), 0.7, eta=eta, weights=None if wt is None else wt.copy(), niter=n, tol=0, callback=lambda v: got.append(np.array(v)))
            S.compare(r, "many", "PPXA with %d functions, x0=%s weights=%s" % (m, x0, wt is not None), got,
                      S.ref_ppxa(ps, np.array([x0] * m), 0.7, n, eta, np.full(m, 1.0 / m) if wt is None else wt))
            got = []
            P.GeneralizedProximalGradient(ps[::4], ps, x0.copy(), 0.9 / (3.0 * len(ps[::4])), weights=None if wt is None else wt.copy(), eta=min(eta, 1.0), niter=n,
                                          callback=lambda v: got.append(np.array(v)))
            S.compare(r, "many", "GeneralizedProximalGradient with %d functions, x0=%s weights=%s" % (m, x0, wt is not None), got,
                      S.ref_gpg(ps[::4], ps, x0, n, tau=0.9 / (3.0 * len(ps[::4])), weights=wt, eta=min(eta, 1.0)))


def run_cons(case, r):
    _, fs, n = case
    m = len(fs)
    size = "c" if "affC" in fs else "2"
    W = {2: [None, [0.25, 0.75], np.array([0.6, 0.4])], 3: [None, [0.2, 0.5, 0.3]]}[m]
    for perm in itertools.permutations(fs):
        ps = [fac(k)() for k in perm]
        for x0, tau in S.prod(n)(X0[size], (0.1, 1.0, 2.5)):
            got = []
            x = P.ConsensusADMM(ps, x0.copy(), tau, niter=n, tol=0, callback=lambda v: got.append(np.array(v)))
            d = "ConsensusADMM %s x0=%s tau=%s" % (perm, x0, tau)
            S.compare(r, "consensus", d, got, S.ref_consensus(ps, x0, tau, n))
            r.check(S.close(x, got[-1], 0), "consensus|ret", d + ": result is not the last iterate")
            for w, eta, start in S.prod(n)(W, (1.0, 0.5, 1.7), ("1d", "list", "2d", "int")):
                ys = [x0 * (i + 1) - 0.5 * i for i in range(m)]
                if start == "int":
                    if size == "c" or eta != 1.0:
                        continue
                    arg = np.rint(x0).astype(int)
                    ys = [arg] * m
                elif start == "1d":
                    arg, ys = x0.copy(), [x0] * m
                else:
                    arg = [v.copy() for v in ys] if start == "list" else np.array(ys)
                got = []
                x = P.PPXA(ps, arg, tau, eta=eta, weights=w, niter=n, tol=0, callback=lambda v: got.append(np.array(v)))
                d = "PPXA %s x0=%s (%s) tau=%s eta=%s w=%s" % (perm, x0, start, tau, eta, w)
                S.compare(r, "ppxa", d, got, S.ref_ppxa(ps, ys, tau, n, eta, w))
                r.check(S.close(x, got[-1], 0), "ppxa|ret", d + ": result is not the last iterate")
