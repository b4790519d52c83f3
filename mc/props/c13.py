"""C13: operators lifted through orthogonal maps and singular values."""

import itertools

import numpy as np
import pylops

import pyproximal as pp

from mc import refs as R
from mc.catalog import catalog, lat, mop, short, vecs

ID = "C13"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "orthogonal maps: all signed permutation matrices of size 2 (size 3 in the thorough tier), rotations by 3-4-5 "
    "and 5-12-13 angles, identity, a DCT; partial: scaled row selections/rotations with Q Q^T = alpha I",
    "penalties that move zero singular values: every rank-one, zero and (2x2) full rank lattice matrix, real and complex",
    "matrices of 12 shapes (1x1 to 20x20, 50x2, 2x50) given by their decomposition, singular values from 0 to 1e6 in all combinations, steps 1e-7 to 30",
    "singular value lifts: all lattice matrices of shapes 2x2, 2x3, 3x2 (thinned); optimality for QuadraticEnvelopeRankL2 by "
    "an exact convex (Fenchel) certificate",
]

BASE = {
    "L1": (lambda: pp.L1(0.5), lambda y: 0.5 * np.sum(np.abs(y)), lambda y, t: R.soft(y, 0.5 * t)),
    "Euc": (lambda: pp.Euclidean(1.5), lambda y: 1.5 * np.linalg.norm(y), lambda y, t: R.shrink_group(y, 1.5 * t)),
    "L2": (lambda: pp.L2(sigma=2.0), lambda y: np.sum(y ** 2), lambda y, t: y / (1 + 2 * t)),
    "Box": (lambda: pp.Box(-0.5, 1.0), None, lambda y, t: np.clip(y, -0.5, 1.0)),
    "Hub": (lambda: pp.Huber(0.5), lambda y: R.huber_val(y, 0.5), lambda y, t: R.huber_prox(y, 0.5, t)),
}


def signed_perms(n):
    out = []
    for p in itertools.permutations(range(n)):
        for s in itertools.product((1.0, -1.0), repeat=n):
            M = np.zeros((n, n))
            for i in range(n):
                M[i, p[i]] = s[i]
            out.append(M)
    return out


def qmats(tier):
    out = {}
    for n in (2, 3) if tier == "thorough" else (2,):
        for i, M in enumerate(signed_perms(n)):
            out["sp%d_%d" % (n, i)] = (M, 1.0, False)
    out["rot345"] = (np.array([[0.6, 0.8], [-0.8, 0.6]]), 1.0, False)
    c, s = 5 / 13, 12 / 13
    out["rot3"] = (np.array([[c, s, 0], [-s, c, 0], [0, 0, -1.0]]), 1.0, False)
    # partial: Q Q^T = alpha I
    out["sel"] = (np.array([[1.0, 0, 0], [0, 0, 1.0]]), 1.0, True)
    out["sel4"] = (2.0 * np.array([[0, 1.0, 0], [-1.0, 0, 0]]), 4.0, True)
    out["row"] = (np.array([[1.0, 1.0, 1.0]]), 3.0, True)
    out["rows"] = (np.array([[1.0, 1.0, 1.0, 1.0], [1.0, -1.0, 1.0, -1.0]]), 4.0, True)
    out["sqscaled"] = (1.5 * np.array([[0.6, 0.8], [-0.8, 0.6]]), 2.25, True)
    return out


def cases(tier):
    out = [[tier, "orth", q, b, f] for q in qmats(tier) for b in ("none", "vec") for f in BASE]
    out += [[tier, "lib", l] for l in ("Identity", "DCT", "Flip")]
    out += [[tier, "svd", p, list(d)] for p in pens() for d in ((2, 2), (2, 3), (3, 2), (1, 3))]
    out += [[tier, "shift", p, list(d)] for p in shifted() for d in ((2, 2), (2, 3), (3, 2), (3, 3), (1, 3))]
    out += [[tier, "rank", list(d), r0] for d in ((2, 2), (2, 3), (3, 2), (3, 3)) for r0 in (1, 2, 3) if r0 <= min(d)]
    out += [[tier, "nuc", k] for k, e in catalog(tier).items() if e.group in ("Nuclear", "NuclearBall")]
    out += [[tier, "ladder", list(d), p] for d in LADDIMS for p in LADPEN]
    return out


# matrices given by their decomposition: singular values over fifteen orders of magnitude, square to very flat or tall
LADDIMS = ((1, 1), (1, 9), (9, 1), (2, 2), (2, 8), (8, 2), (2, 50), (50, 2), (3, 3), (3, 12), (13, 3), (20, 20))
LADVALS = (0.0, 1e-9, 1e-5, 1e-2, 1.0, 1e6)
LADPEN = {
    "nuc": (lambda d, k: pp.Nuclear(d, 0.7), lambda s, t: np.maximum(s - 0.7 * t, 0.0)), "l1": (lambda d, k: pp.SingularValuePenalty(d, pp.L1(0.7)), lambda s, t: np.maximum(s - 0.7 * t, 0.0)),
    "l2": (lambda d, k: pp.SingularValuePenalty(d, pp.L2(sigma=0.7)), lambda s, t: s / (1 + 0.7 * t)),
    "euc": (lambda d, k: pp.SingularValuePenalty(d, pp.Euclidean(0.7)), lambda s, t: s * max(0.0, 1 - 0.7 * t / max(np.linalg.norm(s), 1e-300))),
    "l0": (lambda d, k: pp.SingularValuePenalty(d, pp.L0Ball(1)), lambda s, t: s * (np.arange(s.size) == 0)),
    "box": (lambda d, k: pp.SingularValuePenalty(d, pp.Box(0.0, 0.5)), lambda s, t: np.clip(s, 0.0, 0.5)),
}


def orthonormal(n, k, cx):
    """k orthonormal columns of length n (two reflections, with phases when complex)"""
    Q = np.eye(n, dtype=complex if cx else float)
    for w in (np.cos(np.arange(n) + 0.3), np.sin(1.3 * np.arange(n) + 1.0)):
        if cx:
            w = w * np.exp(1j * np.arange(n))
        w = w / np.linalg.norm(w)
        Q = Q - 2 * np.outer(w, np.conj(w) @ Q)
    return Q[:, :k]


def do_ladder(case, r):
    tier, _, d, pn = case
    k = min(d)
    mk, f = LADPEN[pn]
    vals = LADVALS if tier == "thorough" or k < 3 else LADVALS[1:]
    tup = [t for t in itertools.product(vals, repeat=min(k, 3)) if list(t) == sorted(t, reverse=True)]
    for cx in (False, True):
        U, V = orthonormal(d[0], k, cx), orthonormal(d[1], k, cx)
        for t0 in tup:
            s = np.array(sorted((list(t0) * k)[:k], reverse=True)) * (1 - np.arange(k) * 1e-2)
            s = np.sort(s)[::-1]
            X = (U * s) @ V.conj().T
            for tau in (1e-7, 1e-3, 0.4, 30.0):
                if pn == "l0" and k > 1 and s[0] - s[1] < 1e-3 * s[0]:
                    continue
                p = np.asarray(mk(tuple(d), k).prox(X.ravel().copy(), tau))
                want = (U * f(s, tau)) @ V.conj().T
                err = np.max(np.abs(p.reshape(d) - want)) if p.size == want.size else np.inf
                r.state(pn, d, cx, t0, tau), r.trans(), r.trace(), r.outcome(pn, d, t0, tau)
                r.check(err <= 1e-12 * (s[0] + 1e-300) * max(d), "ladder|%s" % pn, "%s of a %s %s matrix with singular values %s, tau=%g: off by %g" % (
                    pn, d, "complex" if cx else "real", s[:4], tau, err))
                # membership of the singular spaces: nothing leaks out of them
                q = p.reshape(d)
                r.check(np.max(np.abs(q - U @ (U.conj().T @ q)), initial=0) <= 1e-12 * (s[0] + 1e-300) * max(d), "ladder-space|%s" % pn, "%s of a %s matrix with singular values %s leaves their space" % (pn, d, s[:4]))


def run(case, r):
    globals()["do_" + case[1]](case, r)


def xs_of(n, tier):
    return short(vecs(tier, n) if n <= 3 else lat([-2.0, 0.5, 3.0], n), 27 if tier == "quick" else 200)


def do_orth(case, r):
    tier, _, qn, bn, fn = case
    Q, alpha, partial = qmats(tier)[qn]
    m, n = Q.shape
    b = None if bn == "none" else np.array([0.5, -1.0, 2.0, 0.25])[:m]
    mk, val, prox = BASE[fn]
    bb = 0.0 if b is None else b
    for x in xs_of(n, tier):
        for tau in (0.4, 1.5):
            op = pp.Orthogonal(mk(), mop(Q), partial=partial, b=None if b is None else b.copy(), alpha=alpha if partial else 77.0)
            p = op.prox(x.copy(), tau)
            y = Q @ x + bb
            z = prox(y, alpha * tau)
            ref = x + Q.T @ (z - y) / alpha
            r.state(x, tau)
            r.trans()
            r.trace()
            r.outcome(p)
            sig = "orth %s %s b=%s|tau=%g|x=%s" % (qn, fn, bn, tau, x.tolist())
            r.check(p.shape == x.shape and np.max(np.abs(p - ref)) < 1e-8 * (1 + np.abs(x).max()), sig, "prox %s, minimiser %s" % (p, ref), x=x)
            # objective certificate: no neighbour of p is better
            if val is not None:
                F = lambda u: float(val(Q @ u + bb)) + np.sum((u - x) ** 2) / (2 * tau)
                Fp = F(p)
                for i in range(n):
                    for h in (0.5, -0.5, 1e-3, -1e-3):
                        u = p.copy()
                        u[i] += h
                        if F(u) < Fp - 1e-9 * (1 + abs(Fp)):
                            r.fail(sig + "|cert", "neighbour %s of prox has a smaller objective" % u)
                            return
                v = op(x.copy())
                vr = float(val(Q @ x + bb))
                r.trans()
                r.check(abs(v - vr) < 1e-9 * (1 + abs(vr)), sig + "|val", "value %r, f(Qx+b) = %r" % (v, vr))
    r.sample("orthogonal %s, f=%s, b=%s" % (qn, fn, bn))


def do_nuc(case, r):
    tier, _, key = case
    e = catalog(tier)[key]
    for x in short(e.xs, 40 if tier == "quick" else 400):
        for tau in (0.4, 1.5):
            op = e.build()[0]
            p, ref = op.prox(x.copy(), tau), e.prox(x, tau)
            v = op(x.copy())
            r.state(x, tau), r.trans(2), r.trace(), r.outcome(p)
            r.check(p.shape == x.shape and np.max(np.abs(p - ref)) <= e.tol * (1 + np.max(np.abs(x))), "%s|tau=%g|x=%s" % (key, tau, x.tolist()),
                    "prox %s, documented map of the singular values gives %s" % (p, ref), x=x)
            if e.group == "Nuclear":
                vr = e.f(x)
                r.check(abs(v - vr) <= 1e-9 * (1 + abs(vr)), "%s|val|x=%s" % (key, x.tolist()), "value %r, documented %r" % (v, vr), x=x)
    r.sample(key)


def do_lib(case, r):
    tier, _, nm = case
    n = 4
    Op = {"Identity": lambda: pylops.Identity(n), "DCT": lambda: pylops.signalprocessing.DCT(dims=n),
          "Flip": lambda: pylops.Flip(n)}[nm]()
    Q = np.stack([Op.matvec(np.eye(n)[i]) for i in range(n)], axis=1)
    b = np.array([0.5, -1.0, 2.0, 0.25])
    for fn, (mk, val, prox) in BASE.items():
        for x in xs_of(n, tier):
            for bb in (None, b):
                op = pp.Orthogonal(mk(), Op, b=None if bb is None else bb.copy())
                b0 = 0.0 if bb is None else bb
                xin = x.copy()
                p = op.prox(xin, 0.7)
                ref = Q.T @ (prox(Q @ x + b0, 0.7) - b0)
                r.state(fn, x, bb is None)
                r.trans()
                r.trace()
                r.outcome(p)
                sig = "lib %s %s b=%s|x=%s" % (nm, fn, bb is not None, x.tolist())
                r.check(np.max(np.abs(p - ref)) < 1e-8, sig, "prox %s, expected %s" % (p, ref))
                if val is not None:
                    v = op(xin)
                    r.check(abs(v - float(val(Q @ x + b0))) < 1e-9 * (1 + abs(v)), sig + "|val", "value %r" % v)
                r.check(np.array_equal(xin, x), sig + "|x", "input modified to %s" % xin)


def pens():
    return {
        "L1": (lambda: pp.L1(0.5), lambda s: 0.5 * np.sum(s), lambda s, t: R.soft(s, 0.5 * t)),
        "Euc": (lambda: pp.Euclidean(0.8), lambda s: 0.8 * np.linalg.norm(s), lambda s, t: R.shrink_group(s, 0.8 * t)),
        "L2": (lambda: pp.L2(sigma=2.0), lambda s: np.sum(s ** 2), lambda s, t: s / (1 + 2 * t)),
        "SCAD": (lambda: pp.SCAD(0.5, 3.7), lambda s: sum(R.pen_scad(v, 0.5, 3.7) for v in s), ("scad", lambda z: R.pen_scad(z, 0.5, 3.7))),
        "Log": (lambda: pp.Log(0.5, 1.3), lambda s: sum(R.pen_log(v, 0.5, 1.3) for v in s), ("log", lambda z: R.pen_log(z, 0.5, 1.3))),
        "ETP": (lambda: pp.ETP(1.0, 0.5), lambda s: sum(R.pen_etp(v, 1.0, 0.5) for v in s), ("etp", lambda z: R.pen_etp(z, 1.0, 0.5))),
        "Geman": (lambda: pp.Geman(1.0, 0.5), lambda s: sum(R.pen_geman(v, 1.0, 0.5) for v in s), ("geman", lambda z: R.pen_geman(z, 1.0, 0.5))),
        "QEC": (lambda: pp.QuadraticEnvelopeCard(0.5), lambda s: sum(R.pen_card(v, 0.5) for v in s), ("card", lambda z: R.pen_card(z, 0.5))),
        "QECI": (lambda: pp.QuadraticEnvelopeCardIndicator(1), lambda s: R.ksupport_env(np.array(s), 1), None),
    }


def shifted():
    """penalties whose prox moves zero singular values (prox is single valued up to the choice of the singular vectors)"""
    return {
        "L2b": (lambda n: pp.L2(b=np.arange(n, 0, -1.0), sigma=2.0), lambda s, t: (s + 2 * t * np.arange(s.size, 0, -1.0)) / (1 + 2 * t)),
        "L1g": (lambda n: pp.L1(0.5, g=np.full(n, 1.5)), lambda s, t: 1.5 + R.soft(s - 1.5, 0.5 * t)),
        "Box": (lambda n: pp.Box(0.5, 2.0), lambda s, t: np.clip(s, 0.5, 2.0)),
        "Lin": (lambda n: pp.Quadratic(b=np.full(n, -0.75)), lambda s, t: s + 0.75 * t),
        "Simplex": (lambda n: pp.Simplex(n, 3.0, xtol=1e-12), lambda s, t: R.simplex(s, 3.0)),
    }


def do_shift(case, r):
    tier, _, pn, d = case
    mk, prox = shifted()[pn]
    n, k = d[0] * d[1], min(d)
    ms = lat([-1.0, 0.0, 2.0], n) if n <= 4 else [np.outer(u, v).ravel() for u in lat([-1.0, 0.0, 2.0], d[0]) for v in lat([0.0, 0.5, 3.0], d[1])]
    for x, cx in itertools.product(short(ms, 81 if tier == "quick" else 729), (False, True)):
        x = x * (0.6 + 0.8j) if cx else x
        X = x.reshape(d)
        s = np.linalg.svd(X, compute_uv=False)
        for tau in (0.4, 1.5):
            p = np.asarray(pp.SingularValuePenalty(tuple(d), mk(k)).prox(x.copy(), tau))
            r.state(x, tau), r.trans(), r.trace(), r.outcome(p)
            sig = "shift %s %s|tau=%g|x=%s" % (pn, d, tau, x.tolist())
            if not r.check(p.shape == x.shape and np.all(np.isfinite(p)), sig + "|shape", "bad prox %s" % p):
                continue
            want = prox(s, tau)
            got = np.linalg.svd(p.reshape(d), compute_uv=False)
            r.check(np.max(np.abs(got - np.sort(np.abs(want))[::-1])) <= 1e-7, sig, "singular values of the prox %s, prox of the singular values %s" % (got, want), x=x)
            # same singular vectors: the distance to x is the distance of the singular values
            dist, wd = np.linalg.norm(p - x), np.linalg.norm(want - s)
            r.check(abs(dist - wd) <= 1e-7 * (1 + wd), sig + "|dist", "prox moved by %g, its singular values by %g" % (dist, wd), x=x)
    r.sample("%s on %s: rank deficient matrices" % (pn, d))


def matrices(d, tier):
    N = d[0] * d[1]
    xs = short(vecs("thorough", N) if N <= 6 else lat([-1.0, 2.0], N), 60 if tier == "quick" else 500)
    if N == 9:
        xs = xs + [np.diag(v).ravel() for v in lat([0.0, 1.0, 2.5], 3)]
    return xs


def do_svd(case, r):
    tier, _, pn, d = case
    mk, val, prox = pens()[pn]
    for x in matrices(d, tier):
        X = x.reshape(d)
        s = np.linalg.svd(X, compute_uv=False)
        op = pp.SingularValuePenalty(tuple(d), mk())
        v = op(x.copy())
        vr = float(val(s))
        r.state(x)
        r.trans()
        r.trace()
        r.outcome(v)
        sig = "svd %s %s|x=%s" % (pn, d, x.tolist())
        r.check(abs(v - vr) < 1e-6 * (1 + abs(vr)), sig + "|val", "value %r, penalty of the singular values %r" % (v, vr))
        for tau in (0.4, 1.0):
            p = op.prox(x.copy(), tau)
            r.trans()
            r.trace()
            if not r.check(p.shape == x.shape and np.all(np.isfinite(p)), sig + "|shape", "bad prox %s" % p):
                continue
            P = p.reshape(d)
            if callable(prox):
                ref = R.svd_apply(X, lambda q: prox(q, tau)).ravel()
                r.check(np.max(np.abs(p - ref)) < 1e-6 * (1 + np.abs(x).max()), sig + "|tau%g" % tau, "prox %s, expected %s" % (p, ref))
            else:
                # von Neumann: minimum over X equals minimum over singular values
                F = float(val(np.linalg.svd(P, compute_uv=False))) + np.sum((P - X) ** 2) / (2 * tau)
                if prox is None:
                    n, rho = s.size, 1 / tau
                    if rho > 1:
                        # Fenchel certificate as in C03, on matrices
                        Z = rho * X - (rho - 1) * P
                        top = 0.5 * np.sum(np.sort(np.linalg.svd(Z, compute_uv=False))[max(n - 1, 0):] ** 2)
                        gap = R.ksupport_env(np.linalg.svd(P, compute_uv=False), 1) + 0.5 * np.sum(P ** 2) + top - np.sum(P * Z)
                        r.check(abs(gap) < 1e-6 * (1 + np.sum(X ** 2)), sig + "|tau%g" % tau, "optimality gap %g" % gap)
                    continue
                best = sum(R.scalar_min("svd" + prox[0], prox[1], q, tau) for q in s)
                r.check(F <= best + 1e-6 * (1 + best), sig + "|tau%g" % tau, "objective %g, minimum %g" % (F, best), got=p)
    r.sample("lift of %s to %s matrices" % (pn, d))


def do_rank(case, r):
    """QuadraticEnvelopeRankL2: Fenchel certificate.

    With R the rank envelope, R(Z)+1/2||Z||^2 = h(Z) = 1/2 (spectral r0-support norm)^2 is convex, so the objective
    h(Z) - <Z,M> + 1/(2tau)||Z-X||^2 (+const) is minimised at Z iff M + (X-Z)/tau is a subgradient of h at Z, i.e.
    h(Z) + 1/2*(sum of the r0 largest squared singular values of G) = <Z,G>, G = M + (X-Z)/tau."""
    tier, _, d, r0 = case
    N = d[0] * d[1]
    Ms = [np.zeros(N), np.arange(N) * 0.5 - 1.0, np.array([2.0, 0.5, -1.0, 1.0, 0.0, -2.0, 1.5, 0.25, 3.0])[:N]]
    for mi, M in enumerate(Ms):
        for x in matrices(d, tier):
            op = pp.QuadraticEnvelopeRankL2(tuple(d), r0, M.reshape(d).copy())
            for tau in (0.4, 1.0, 2.5):
                p = op.prox(x.copy(), tau)
                r.state(mi, x, tau)
                r.trans()
                r.trace()
                r.outcome(p)
                sig = "rank%s r0=%d M%d|tau=%g|x=%s" % (d, r0, mi, tau, x.tolist())
                if not r.check(p.shape == x.shape and np.all(np.isfinite(p)), sig + "|shape", "bad prox %s" % p):
                    continue
                Z = p.reshape(d)
                G = M.reshape(d) + (x.reshape(d) - Z) / tau
                sz, sg = (np.linalg.svd(u, compute_uv=False) for u in (Z, G))
                h = R.ksupport_env(sz, r0) + 0.5 * np.sum(sz ** 2)
                gap = h + 0.5 * np.sum(np.sort(sg ** 2)[max(sg.size - r0, 0):]) - np.sum(Z * G)
                r.check(abs(gap) < 1e-6 * (1 + np.sum(x ** 2) + np.sum(M ** 2)), sig, "optimality (Fenchel) gap %g" % gap, got=p)
    r.sample("rank envelope %s r0=%d" % (d, r0))
