"""C22: Bregman iterations, SR3, plug-and-play, TwIST and segmentation do what their documentation says."""

import itertools

import numpy as np
import pylops

import pyproximal as pp
from pyproximal.optimization import primal as P
from pyproximal.optimization import primaldual as PD
from pyproximal.optimization.bregman import Bregman
from pyproximal.optimization.pnp import PlugAndPlay
from pyproximal.optimization.segmentation import Segment
from pyproximal.optimization.sr3 import SR3

from mc import refs as R
from mc import solv as S
from mc.props.c15 import A1, A2, A3, AC, B1, B2, BC, F, G, X0
from mc.props.c16 import D1, LM, fac, op

ID = "C22"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "problems with 1-4 unknowns (segmentation: images of up to 24 pixels, 2-D to 4-D, 2-4 classes; labels for 1-300 (thorough: 33000) classes), real and complex",
    "inner solvers of the Bregman iteration are run both to a few iterations (recursion compared exactly) and to convergence",
    "SR3 is judged by the gradient of the relaxed problem at its result, with an outer limit of 3000 iterations (it stops by itself earlier)",
    "the step sizes of the segmentation (tau = 1, mu = 1/(4 ndims)) are those of the implementation; its simplex projection is "
    "compared to 1e-5, and its result against a certified duality gap in the thorough tier",
]


def cases(tier):
    th = tier == "thorough"
    out = []
    for m, gn in itertools.product(LM, G):
        if LM[m][1] == "c" and gn == "box":
            continue
        out.append(["twist", m, gn, 15 if th else 6])
        if gn != "box":
            out.append(["breg", m, gn, 6 if th else 4])
        out.append(["bregA", m, gn, 5 if th else 3])
        out.append(["pnp", m, gn, 6])
    for sh in PNPSH:
        out.append(["pnp2", sh, 8 if th else 5])
    for m in SR:
        out.append(["sr3", m, th])
    for i, sh in enumerate(SEG):
        out.append(["seg", i, 40 if th else 8, th])
    out += [["segcl", k, 6 if th else 2] for k in (1, 2, 64, 130, 200, 300) + ((1000, 33000) if th else ())]
    out += [["seglay", i, 6 if th else 3] for i in range(len(SEG))]
    return out


def run(case, r):
    globals()["run_" + case[0]](r, *case[1:])


def bvec(m):
    M = LM[m][0]
    b = np.array([1.0, -2.0, 0.5])[: M.shape[0]]
    if M.shape[0] > 3:
        b = np.arange(M.shape[0]) * 5 % 11 / 4.0 - 1.25
    return b * (1 + 0.5j) if np.iscomplexobj(M) else b


# ------------------------------------------------------------------ TwIST
def run_twist(r, m, gn, n):
    M, size = LM[m]
    b = bvec(m)
    ev = np.linalg.eigvalsh(M.conj().T @ M)
    lmin, lmax = max(0.0, float(ev[0])), float(ev[-1])
    opts = [(1.0, 1.0, None), (1.5, 0.8, None), (0.5, 1.2, None), (None, None, (lmax, lmin)), (None, None, (0.5, 0.1)),
            (None, None, (4.0, 4.0)), (1.3, None, (lmax, lmin)), (None, 0.3, (lmax, lmin))]
    if size not in "1c":  # scipy cannot compute eigenvalues of such small operators
        opts += [(None, None, None), (1.2, None, None), (None, 0.6, None)]
    for x0, (al, be, eigs) in itertools.product(X0[size], opts):
        g = G[gn]()
        mx, mn = (lmax, lmin) if eigs is None else eigs
        mx = max(1.0, mx)
        k = mn / mx
        rho = (1 - np.sqrt(k)) / (1 + np.sqrt(k))
        alr = 1 + rho**2 if al is None else al
        ber = 2 * alr / (mx + mn) if be is None else be
        got = []
        kw = dict(alpha=al, beta=be, eigs=eigs, niter=n)
        x, j = P.TwIST(g, op(M), b.copy(), x0.copy(), callback=lambda v: got.append(np.array(v)), returncost=True, **kw)
        d = "TwIST g=%s A=%s x0=%s %s" % (gn, m, x0, kw)
        # a numerically estimated smallest eigenvalue of a singular operator is only accurate to its square root
        S.compare(r, "twist", d, got, S.ref_twist(g, M, b, x0, n, alr, ber), 1e-9 if eigs or al and be else 1e-5)
        r.check(S.close(x, got[-1], 0), "twist|ret", d + ": result is not the last iterate")
        jr = np.array([np.sum(np.abs(M @ v - b) ** 2) / 2 + g.f_val(v) for v in got])
        r.check(S.close(j, jr, 1e-9), "twist|cost", d + ": cost history is %s, expected %s" % (j, jr))
        x2 = P.TwIST(g, op(M), b.copy(), x0.copy(), **kw)
        r.check(S.close(x2, x, 1e-9 if eigs or al and be else 1e-5), "twist|cb", d + ": result changes without callback")


# ------------------------------------------------------------------ Bregman
NO = -1e9
TOLS = ((NO, NO), (0.2, NO), (NO, 0.3), (1e-4, 1e-6), (NO, 1e3), (1e3, NO))


def inner(kind, f, ga, x, q, alpha, A, n, tau, mu):
    """The documented inner problem, f - alpha q^T x, run with the reference recursion of the inner solver."""
    fq = S.Probe(lambda v: f.f_val(v) - alpha * float(np.real(np.vdot(q, v))),
                 lambda v, t: f.f_prox(v + t * alpha * q, t), lambda v: f.f_grad(v) - alpha * q)
    if kind == "pg":
        it = S.ref_pg(fq, ga, x, n, tau=tau)
    elif kind == "apg":
        it = S.ref_pg(fq, ga, x, n, tau=tau, acceleration="fista")
    elif kind == "admm":
        it = S.ref_admm(fq, ga, x, x, tau, n, False)
    else:
        it = S.ref_ladmm(fq, ga, A, x, A @ x, tau, mu, n)
    for v in it:
        pass
    return v[0] if isinstance(v, tuple) else v


def scaled(g, a):
    return S.Probe(lambda v: a * g.f_val(v), lambda v, t: g.f_prox(v, a * t), g.f_grad and (lambda v: a * g.f_grad(v)))


def ref_breg(kind, f, g, x0, alpha, nout, warm, tolx, tolf, A, nin, tau, mu):
    q = 0 * x0
    x = x0
    for _ in range(nout):
        xn = inner(kind, f, scaled(g, alpha), x if warm else x0, q, alpha, A, nin, tau, mu)
        q = q - f.f_grad(xn) / alpha
        dx, fx = float(np.linalg.norm(xn - x)), f.f_val(xn)
        x = xn
        yield x
        if S.decide(dx, tolx, 0) or S.decide(fx, tolf, 0):
            return


def run_breg(r, m, gn, n, useA=False):
    M, size = LM[m]
    if useA:
        fs = [k for k in F if F[k][1] == size]
    else:
        fs = [k for k in F if F[k][1] == size]
    kinds = ("ladmm",) if useA else ("pg", "apg", "admm")
    for fn, kind, x0, alpha, warm, nin, (tolx, tolf) in itertools.product(
            fs, kinds, X0[size], (1.0, 0.3, 2), (False, True), (1, 7), TOLS):
        f, g = F[fn][0](), G[gn]()
        L = {"sq": 2.0, "huber": 2.0, "lin": 1.0, "sq1": 0.7}.get(fn) or float(np.linalg.norm({"affA1": A1, "affA2": A2, "affA3": A3, "affC": AC}.get(fn, np.eye(2) * 3), 2) ** 2)
        tau = 0.9 / L
        mu = 0.5 * tau / float(np.linalg.norm(M, 2) ** 2)
        solver = {"pg": P.ProximalGradient, "apg": P.ProximalGradient, "admm": P.ADMM, "ladmm": P.LinearizedADMM}[kind]
        kw = dict(tau=tau, niter=nin)
        if kind == "apg":
            kw["acceleration"] = "fista"
        if kind == "ladmm":
            kw["mu"] = mu
        got = []
        x = Bregman(f, g, x0.copy(), solver, A=op(M) if useA else None, alpha=alpha, niterouter=n, warm=warm, tolx=tolx, tolf=tolf,
                    bregcallback=lambda v: got.append(np.array(v)), **kw)
        d = "Bregman f=%s g=%s A=%s x0=%s solver=%s alpha=%s warm=%s inner=%d tolx=%g tolf=%g" % (
            fn, gn, m if useA else None, x0, kind, alpha, warm, nin, tolx, tolf)
        S.compare(r, "breg", d, got, ref_breg(kind, f, g, x0, alpha, n, warm, tolx, tolf, M, nin, tau, mu), 1e-8)
        r.check(S.close(x, got[-1], 0), "breg|ret", d + ": result is not the last iterate")


def run_bregA(r, m, gn, n):
    run_breg(r, m, gn, n, True)


# ------------------------------------------------------------------ plug and play
def run_pnp(r, m, gn, n):
    M, size = LM[m]
    b = bvec(m)
    g = G[gn]()

    def den(v, t):
        return (g.f_prox(v.ravel(), t) * 0.9).reshape(v.shape)

    gd = S.Probe(lambda v: 0.0, lambda v, t: g.f_prox(v, t) * 0.9)
    for x0, dims in itertools.product(X0[size], ((-1,), (-1, 1), (1, -1), (1, -1, 1))):
        shape = np.zeros(x0.shape).reshape(dims).shape
        pnp_all(r, "A=%s denoiser=%s" % (m, gn), M, b, den, gd, x0, shape, n)


def _frozen(w):
    w.flags.writeable = False
    return w


# how a denoiser may hand back its image
LAY = {"C": lambda w: w, "F": np.asfortranarray, "flip": lambda w: w[..., ::-1].copy()[..., ::-1],
       "part": lambda w: np.stack([w, -w], axis=-1)[..., 0], "frozen": _frozen}
PNPSH = [[4], [2, 2], [4, 1], [2, 3], [3, 2], [1, 2, 3], [2, 1, 2], [2, 3, 2]]


def run_pnp2(r, sh, n):
    """images: the denoiser sees neighbours, so the order of the pixels matters"""
    shape = tuple(sh)
    k = int(np.prod(shape))
    for cplx in (False, True):
        M = np.diag(1.0 + np.arange(k) / 3.0) + 0.4 * np.eye(k, k=1) - 0.2 * np.eye(k, k=-2)
        b = np.cos(np.arange(k) * 1.7) * 2
        if cplx:
            M, b = M * (1 + 0.3j), b * (1 - 0.5j)

        def den(v, t):
            w = v + 0j if cplx else v.copy()
            for ax in range(v.ndim):
                w = w - (0.2 + 0.1 * ax) * (v - np.roll(v, 1, axis=ax)) * (t / (1 + t))
            s = 1.0 - 0.05 * np.arange(k).reshape(v.shape) / k  # row-major pixel numbers
            return w * s

        gd = S.Probe(lambda v: 0.0, lambda v, t: den(v.reshape(shape), t).ravel())
        for x0 in (np.zeros(k), np.arange(k) - 1.5):
            for lay in LAY:
                pnp_all(r, "image cplx=%s returned %s" % (cplx, lay), M, b, lambda v, t: LAY[lay](den(v, t)), gd, x0 + 0j if cplx else x0, shape, n)


def pnp_all(r, what, M, b, den_, gd, x0, shape, n):
    seen = []

    def den(v, t):
        seen.append((v.shape, float(t)))
        return den_(v, t)

    # LinearizedADMM and PrimalDual denoise in the range of their operator: give them a square one
    for name in ("ADMM", "PG", "LADMM", "PD", "HQS", "DR"):
        f = S.aff(M, b)()
        d = "PnP %s %s x0=%s dims=%s" % (name, what, x0, shape)
        got = []
        seen.clear()

        def cb(*v):
            got.append(tuple(np.array(w) for w in v))

        L = 1 / float(np.linalg.norm(M, 2) ** 2)
        I = pylops.Identity(x0.size, dtype=x0.dtype)
        ident = np.eye(x0.size)
        if name == "ADMM":
            ret = PlugAndPlay(f, den, shape, x0.copy(), tau=0.7, niter=n, callback=cb, callbackz=True)
            ref, taus = S.ref_admm(f, gd, x0, x0, 0.7, n, False), [0.7] * n
        elif name == "HQS":
            tv = np.array([0.7, 0.6, 0.5, 0.4, 0.3, 0.2, 0.15, 0.1])[:n]
            ret = PlugAndPlay(f, den, shape, x0.copy(), solver=P.HQS, tau=tv, niter=n, callback=cb, callbackz=True, gfirst=False)
            ref, taus = S.ref_hqs(f, gd, x0, x0, tv, n, False), list(tv)
        elif name == "DR":
            ret = PlugAndPlay(f, den, shape, x0.copy(), solver=P.DouglasRachfordSplitting, tau=0.7, niter=n, callback=cb, callbacky=True)
            ref, taus = S.ref_dr(f, gd, x0, 0.7, n, 1.0, True), None
        elif name == "PG":
            ret = PlugAndPlay(f, den, shape, x0.copy(), solver=P.ProximalGradient, tau=L, niter=n, callback=cb, tol=None)
            ref, taus = (v for v, _ in S.ref_pg(f, gd, x0, n, tau=L)), [L] * n
        elif name == "LADMM":
            ret = PlugAndPlay(f, den, shape, x0.copy(), solver=P.LinearizedADMM, A=I, tau=0.7, mu=0.5, niter=n, callback=cb)
            ref, taus = (v for v, _ in S.ref_ladmm(f, gd, ident, x0, x0, 0.7, 0.5, n)), [0.7] * n
        else:
            ret = PlugAndPlay(f, den, shape, x0.copy(), solver=PD.PrimalDual, A=I, tau=0.5, mu=0.25, niter=n, callback=cb)
            ref, taus = (v for v, _ in S.ref_pd(f, gd, ident, x0, 0 * x0, 0.5, 0.25, n, 1.0, True, None)), [4.0] * n
        S.compare(r, "pnp|" + name, d, got, ref, 1e-9)
        first = ret[0] if isinstance(ret, tuple) else ret
        r.check(S.close(first, got[-1][0], 0), "pnp|ret|" + name, d + ": result is not the last iterate")
        r.check(all(s == shape for s, _ in seen), "pnp|shape|" + name, d + ": denoiser called with shapes %s" % {s for s, _ in seen})
        if taus is not None:
            r.check(np.allclose([t for _, t in seen], taus), "pnp|tau|" + name,
                    d + ": denoiser called with parameters %s, expected %s" % ([t for _, t in seen], taus))


# ------------------------------------------------------------------ SR3
SR = {  # name: A, L (A^H A + L^H L nonsingular)
    "A1I": (A1, np.eye(2)), "A2I": (A2, np.eye(2)), "A3I": (A3, np.eye(3)), "A3D": (A3, D1), "A1D": (A1, np.array([[-1.0, 1.0]])),
    "A2tall": (A2, np.array([[1.0, 0.0], [0.0, 1.0], [1.0, -1.0]])), "I4D": (np.eye(4), np.eye(4)[1:] - np.eye(4)[:-1]),
    "1": (np.array([[2.0]]), np.array([[1.0]])), "row": (np.array([[1.0, -2.0]]), np.eye(2)),
    "A1pick": (A1, np.array([[1.0, 0.0]])), "A3pick": (np.vstack([A3, [0.3, 0.1, 1.0]]), np.array([[0.0, 1.0, 0.0]])),
}


def run_sr3(r, m, th):
    A, L = SR[m]
    bs = [np.zeros(A.shape[0]), np.array([1.0, -2.0, 0.5, 0.7])[: A.shape[0]], np.array([0.1, 0.05, -0.2, 0.0])[: A.shape[0]],
          np.array([3.0, 5.0, -4.0, 1.0])[: A.shape[0]]]
    if th:
        bs += [np.array(v) for v in itertools.product((-1.5, 0.0, 2.0), repeat=A.shape[0])]
    x0s = [None, np.zeros(A.shape[1]), np.arange(1.0, A.shape[1] + 1), -np.ones(A.shape[1]) * 0.3]
    for b, x0, kappa, eps, ad in itertools.product(bs, x0s, (0.1, 1.0, 5.0, 2), (0.01, 0.3, 2.0, 1), (True, False)):
        b0, xx = b.copy(), None if x0 is None else x0.copy()
        x = SR3(pylops.MatrixMult(A), pylops.MatrixMult(L), b0, kappa, eps, x0=xx, adaptive=ad, iter_lim_outer=3000)
        d = "SR3 A=%s b=%s x0=%s kappa=%g eps=%g adaptive=%s" % (m, b, x0, kappa, eps, ad)
        r.check(np.array_equal(b0, b) and (x0 is None or np.array_equal(xx, x0)), "sr3|mut", d + ": inputs were modified")
        r.state(m, b, x0, kappa, eps, ad)
        r.trans()
        r.trace()
        if not r.check(x.shape == (A.shape[1],) and bool(np.all(np.isfinite(x))), "sr3|finite", d + ": result is %s" % x):
            continue
        r.outcome(x)
        Lx = L @ x
        gr = A.T @ (A @ x - b) + kappa * L.T @ (Lx - R.soft(Lx, eps / kappa))
        sc = 1 + np.linalg.norm(A.T @ b) + kappa * np.linalg.norm(Lx)
        r.check(np.linalg.norm(gr) <= 1e-3 * sc, "sr3|opt", d + ": gradient of the relaxed problem at the result %s has norm %g (scale %g)"
                % (x, np.linalg.norm(gr), sc))


# ------------------------------------------------------------------ segmentation
def img(shape, k):
    n = int(np.prod(shape))
    base = np.array([0.0, 1.0, 2.0, 1.1, 0.1, 1.9, 0.9, 0.05, 2.1, 1.0, 0.4, 1.6])
    return np.resize(np.roll(base, k), n).reshape(shape)


SEG = [((2, 2), 2), ((3, 2), 3), ((2, 4), 2), ((4, 4), 3), ((3, 3), 4), ((2, 2, 2), 2), ((2, 3, 2), 3), ((1, 5), 2), ((2, 2, 3, 2), 2)]


def grad_mat(shape):
    """Forward differences, zero at the last sample of every axis."""
    n = int(np.prod(shape))
    idx = np.arange(n).reshape(shape)
    out = []
    for ax in range(len(shape)):
        D = np.zeros((n, n))
        a = np.moveaxis(idx, ax, 0)
        for i in range(a.shape[0] - 1):
            for p, q in zip(a[i].ravel(), a[i + 1].ravel()):
                D[p, q] += 1
                D[p, p] -= 1
        out.append(D)
    return np.vstack(out)


def simplex_cols(v):
    return np.stack([R.simplex(c, 1.0) for c in v.T], axis=1)


def run_seg(r, i, n, th):
    shape, ncl = SEG[i]
    N, nd = int(np.prod(shape)), len(shape)
    D = grad_mat(shape)
    for k, sigma, alpha, sg, zz, st in itertools.product((0, 3), (1.0, 0.3), (0.2, 1.0, 0.03), (None, 1), (None, 1), (None, 1)):
        y = img(shape, k)
        cl = np.linspace(0.0, 2.0, ncl)
        sig = None if sg is None else np.array([0.5, 1.0, 2.0, 4.0])[:ncl]
        z = None if zz is None else np.resize(np.array([0.1, -0.2, 0.0, 0.3, -0.05]), N * ncl)
        x0 = None if st is None else np.resize(np.array([0.2, 0.7, 0.1, 0.0, 1.0, -0.3]), N * ncl)
        got = []
        y_, cl_ = y.copy(), cl.copy()
        x, c = Segment(y_, cl_, sigma, alpha, clsigmas=None if sig is None else sig.copy(), z=None if z is None else z.copy(),
                       niter=n, x0=None if x0 is None else x0.copy(), callback=lambda v: got.append(np.array(v)))
        d = "Segment shape=%s ncl=%d image=%d sigma=%g alpha=%g clsigmas=%s z=%s x0=%s" % (shape, ncl, k, sigma, alpha, sg, zz, st)
        r.check(np.array_equal(y, y_) and np.array_equal(cl, cl_), "seg|mut", d + ": inputs were modified")
        f = np.stack([sigma / 2 * (y.ravel() - ci) ** 2 / (1 if sig is None else sig[j]) for j, ci in enumerate(cl)])
        lc = f + (0 if z is None else z.reshape(ncl, N))

        def ref():
            tau, mu = 1.0, 1.0 / (4 * nd)
            xx = np.zeros((ncl, N)) if x0 is None else x0.reshape(ncl, N)
            xb, u = xx, np.zeros((ncl, nd * N))
            for _ in range(n):
                u = u + mu * xb @ D.T
                un = np.sqrt(np.sum(u.reshape(ncl, nd, N) ** 2, axis=1, keepdims=True))
                u = (u.reshape(ncl, nd, N) * np.where(un > alpha / 2, alpha / 2 / np.maximum(un, 1e-300), 1)).reshape(ncl, nd * N)
                xn = simplex_cols(xx - tau * (u @ D + lc))
                xb = 2 * xn - xx
                xx = xn
                yield xx.ravel()

        S.compare(r, "seg", d, got, ref(), 1e-5)
        ok = r.check(x.shape == (N, ncl) and c.shape == shape, "seg|shape", d + ": results have shapes %s, %s" % (x.shape, c.shape))
        if not ok:
            continue
        r.check(S.close(x.T.ravel(), got[-1], 0), "seg|ret", d + ": result is not the last iterate")
        rough = []
        xr, _ = Segment(y, cl, sigma, alpha, clsigmas=sig, z=z, niter=n, x0=x0, callback=lambda v: rough.append(np.array(v)),
                        kwargs_simplex=dict(maxiter=1, xtol=10.0))
        r.check(S.close(xr.T.ravel(), rough[-1], 0), "seg|rough", d + ": result with rough projections is not the last iterate")
        r.check(np.all(x >= -1e-6) and np.all(np.abs(x.sum(1) - 1) <= 1e-6), "seg|simplex", d + ": probabilities are not on the simplex")
        r.check(np.all(x[np.arange(N), c.ravel()] == x.max(1)), "seg|classes", d + ": classes are not the most probable ones")
        if th and x0 is None:
            # certified duality gap of the reference, run long, bounds the optimum from below
            xr, u = np.zeros((ncl, N)), np.zeros((ncl, nd * N))
            xb = xr
            for _ in range(1500):
                u = u + xb @ D.T / (4 * nd)
                un = np.sqrt(np.sum(u.reshape(ncl, nd, N) ** 2, axis=1, keepdims=True))
                u = (u.reshape(ncl, nd, N) * np.where(un > alpha / 2, alpha / 2 / np.maximum(un, 1e-300), 1)).reshape(ncl, nd * N)
                xn = simplex_cols(xr - (u @ D + lc))
                xb, xr = 2 * xn - xr, xn
            low = float(np.sum(np.min(u @ D + lc, axis=0)))
            xs, _ = Segment(y, cl, sigma, alpha, clsigmas=sig, z=z, niter=600)
            X = xs.T
            val = float(np.sum(X * lc) + alpha / 2 * np.sum(np.sqrt(np.sum((X @ D.T).reshape(ncl, nd, N) ** 2, axis=1))))
            r.check(val - low <= 1e-3 * (1 + abs(low)), "seg|opt", d + ": objective %g, lower bound %g" % (val, low))


def run_segcl(r, ncl, n):
    """Any number of classes: every one of them can be the label of a pixel; hardly distinguishable memberships too."""
    cl = np.linspace(0.0, ncl - 1.0, ncl)
    h = max(ncl - 1, 1)
    near = [0.5 + e for e in (0.0, 1e-3, -1e-3, 1e-5, -1e-5, 1e-7, -1e-7, 1e-9, -1e-9)]
    vals = sorted({float(v) for v in (0, 1, h // 2, 127, 128, 255, 256, h - 1, h) if 0 <= v < ncl}) + near
    for alpha, sg in itertools.product((1e-4, 0.2), (None, 1)):
        y = np.array(vals)[None, :]
        sig = None if sg is None else 1.0 + np.arange(ncl) % 3
        for m in range(1, n + 1):
            got = []
            x, c = Segment(y.copy(), cl.copy(), 0.7, alpha, clsigmas=sig, niter=m, callback=lambda v: got.append(np.array(v)))
            r.state("segcl", ncl, alpha, sg, m, x), r.trans(m), r.trace()
            d = "Segment %d classes alpha=%g clsigmas=%s niter=%d" % (ncl, alpha, sg, m)
            r.check(x.shape == (y.size, ncl) and np.shape(c) == y.shape, "segcl|shape", d + ": results have shapes %s, %s" % (x.shape, np.shape(c)))
            c = np.asarray(c).ravel()
            bad = [i for i in range(y.size) if not (0 <= int(c[i]) < ncl) or x[i, int(c[i])] < x[i].max()]
            r.check(not bad, "segcl|classes", d + ": pixels %s are labelled %s, which are not the most probable classes" % (bad, c[bad]))


def run_seglay(r, i, n):
    """The way the image is stored does not matter."""
    shape, ncl = SEG[i]
    cl = np.linspace(0.0, 2.0, ncl)
    for k in (0, 1, 3, 5):
        y = img(shape, k)
        big = np.zeros(tuple(2 * s for s in shape))
        strided = big[tuple(slice(None, None, 2) for _ in shape)]
        strided[...] = y
        rev = y[tuple(slice(None, None, -1) for _ in shape)].copy()[tuple(slice(None, None, -1) for _ in shape)]
        ax = np.roll(np.arange(len(shape)), 1)
        perm = np.ascontiguousarray(y.transpose(ax)).transpose(np.argsort(ax))
        want = Segment(y.copy(), cl.copy(), 1.0, 0.2, niter=n)
        for nm, v in (("fortran", np.asfortranarray(y)), ("strided", strided), ("reversed", rev), ("transposed", perm), ("swapped", y.astype(">f8")), ("long double", y.astype(np.longdouble))):
            x, c = Segment(v, cl.copy(), 1.0, 0.2, niter=n)
            r.state("seglay", shape, k, nm, x), r.trans(n), r.trace()
            d = "Segment shape=%s image=%d stored %s" % (shape, k, nm)
            r.check(S.close(x.ravel(), want[0].ravel(), 1e-5), "seglay|x", d + ": memberships differ from those of the contiguous image")
            clear = np.sort(want[0], axis=1)
            clear = (clear[:, -1] - clear[:, -2] > 1e-3).reshape(shape)
            r.check(np.array_equal(np.asarray(c)[clear], want[1][clear]), "seglay|c", d + ": classes differ from those of the contiguous image")
