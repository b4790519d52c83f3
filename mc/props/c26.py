"""C26: complex vectors: penalties of the modulus commute with a global phase and with conjugation, agree with the
real implementation on real vectors stored as complex, and never read only part of a complex number."""

import itertools

import numpy as np
import pylops

import pyproximal as pp

from mc.catalog import lat, short

ID = "C26"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "operators documented on the modulus (or a unitarily invariant norm) of their input; vectors of length up to 4 over a "
    "5-value complex alphabet away from ties; phases -1, i, exp(0.7i), exp(-2i); 3 step sizes",
    "Box, Simplex, Intersection and Quadratic are documented for real vectors only, Hankel refuses complex ones with a TypeError",
]

AL = [0.0, 1.1, -0.6j, 1.5 - 2j, -2.1 + 0.3j]
PH = [-1.0, 1j, np.exp(0.7j), np.exp(-2j)]
TT = [0.3, 1.0, 2.6]


def opsd():
    d = {}

    def add(k, mk, n, sep=False, val=True, tol=1e-8):
        d[k] = (mk, n, sep, val, tol)
    for s in (0.4, 1.3):
        add("L2-%g" % s, lambda s=s: pp.L2(sigma=s), 2, True)
        add("L1-%g" % s, lambda s=s: pp.L1(s), 3, True)
        add("Euclidean-%g" % s, lambda s=s: pp.Euclidean(s), 3)
        add("HuberCircular-%g" % s, lambda s=s: pp.HuberCircular(s), 3)
        add("L21-%g" % s, lambda s=s: pp.L21(2, s), 4)
        add("L21b-%g" % s, lambda s=s: pp.L21(3, s), 3)
        add("L21_plus_L1-%g" % s, lambda s=s: Mat(pp.L21_plus_L1(s, 0.6), (2, 2)), 4)
        add("Nuclear-%g" % s, lambda s=s: pp.Nuclear((2, 2), s), 4)
        add("Log-%g" % s, lambda s=s: pp.Log(s, 1.3), 2, True)
        add("Log1-%g" % s, lambda s=s: pp.Log1(s, 0.4), 2, True)
        add("Geman-%g" % s, lambda s=s: pp.Geman(s, 1.3), 2, True)
        add("L0-%g" % s, lambda s=s: pp.L0(s), 2, True)
        add("ETP-%g" % s, lambda s=s: pp.ETP(s, 1.3), 2, True)
        add("SCAD-%g" % s, lambda s=s: pp.SCAD(s, 3.7), 2, True)
        add("Huber-%g" % s, lambda s=s: pp.Huber(s), 2, True)
        add("EnvI-%g" % s, lambda s=s: pp.QuadraticEnvelopeCardIndicator(1 if s < 1 else 2), 3)
        add("SVPLog-%g" % s, lambda s=s: pp.SingularValuePenalty((2, 2), pp.Log(s, 1.3)), 4)
        add("Env-%g" % s, lambda s=s: pp.QuadraticEnvelopeCard(s), 2, True)
        add("SVP-%g" % s, lambda s=s: pp.SingularValuePenalty((2, 2), pp.L1(s)), 4)
        add("L1Ball-%g" % s, lambda s=s: pp.L1Ball(3, s, xtol=1e-11), 3, tol=1e-7)
        add("NuclearBall-%g" % s, lambda s=s: pp.NuclearBall((2, 2), s, xtol=1e-11), 4, tol=1e-7)
        add("EuclideanBall-%g" % s, lambda s=s: pp.EuclideanBall(0.0, s), 3)
        add("TV-%g" % s, lambda s=s: pp.TV((4,), s, niter=15, rtol=0), 4)
        add("TV2-%g" % s, lambda s=s: pp.TV((2, 2), s, niter=15, rtol=0), 4)
        add("TV3-%g" % s, lambda s=s: pp.TV((2, 1, 2), s, niter=15, rtol=0), 4)
        add("TV4-%g" % s, lambda s=s: pp.TV((1, 2, 2, 1), s, niter=15, rtol=0), 4)
        add("VStack-%g" % s, lambda s=s: pp.VStack([pp.L1(s), pp.Euclidean(s)], nn=[1, 2]), 3)
        add("Orthogonal-%g" % s, lambda s=s: pp.Orthogonal(pp.L1(s), pylops.MatrixMult(np.array([[0.6, 0.8j], [0.8j, 0.6]]), dtype=complex)), 2)
        add("mul-%g" % s, lambda s=s: s * pp.Euclidean(), 2)
        add("chain-%g" % s, lambda s=s: pp.L1(s).chain(pp.L2(sigma=s)), 2, val=False)
        add("Sum-%g" % s, lambda s=s: pp.Sum([pp.L1(s), pp.Euclidean(s)], tol=1e-12), 2, tol=1e-6)
    for r in (1, 2):
        add("L0Ball-%d" % r, lambda r=r: pp.L0Ball(r), 3)
        add("L10Ball-%d" % r, lambda r=r: pp.L10Ball(2, r), 4)
    add("RelaxedMS", lambda: pp.RelaxedMumfordShah(0.7, 1.9), 2, True)
    return d


class Mat(pp.ProxOperator):
    def __init__(self, op, dims):
        super().__init__(None, False)
        self.op, self.dims = op, dims

    def __call__(self, x):
        return self.op(x.reshape(self.dims))

    def prox(self, x, tau):
        return self.op.prox(x.reshape(self.dims), tau).ravel()


def cases(tier):
    out = [[tier, k] for k in opsd()]
    out += [[tier, "@L1g"], [tier, "@L2b"], [tier, "@Ball"], [tier, "@dual"]]
    out += [[tier, "@op", k] for k in LINEAR]
    return out


def run(case, r):
    if case[1] == "@op":
        return linear(case[0], case[2], r)
    tier, k = case
    if k.startswith("@"):
        return special(case, r)
    mk, n, sep, val, tol = opsd()[k]
    xs = lat(AL, n, complex)
    # distinct moduli per entry: break ties of the ball projections
    xs = [x * np.linspace(1.0, 1.37, n) for x in xs]
    xs = short(xs, 125 if tier == "quick" else 625)
    if k.startswith("Orthogonal"):
        pass
    for x, t in itertools.product(xs, TT):
        y = np.asarray(mk().prox(x.copy(), t))
        r.state(k, x, t), r.trans(), r.trace(), r.outcome(k, y)
        r.check(y.shape == x.shape, "shape|" + k, "shape changed", x=x)
        for w in PH:
            z = np.asarray(mk().prox(w * x, t))
            r.trans()
            r.check(np.max(np.abs(z - w * y)) <= tol * (1 + np.max(np.abs(y))), "phase|" + k,
                    "prox does not commute with a global phase", x=x, tau=t, phase=str(w), got=z, want=w * y)
            if val and t == TT[0]:
                a, b = float(mk()(x.copy())), float(mk()(w * x))
                r.trans(2)
                r.check(abs(a - b) <= 1e-8 * (1 + abs(a)), "value|" + k, "value changes with a global phase", x=x, got=b, want=a)
        if not k.startswith("Orthogonal"):
            c = np.asarray(mk().prox(np.conj(x), t))
            r.trans()
            r.check(np.max(np.abs(c - np.conj(y))) <= tol * (1 + np.max(np.abs(y))), "conj|" + k, "prox does not commute with conjugation",
                    x=x, tau=t, got=c, want=np.conj(y))
            xr = np.ascontiguousarray(np.abs(x) * np.sign(x.real - x.imag + 0.01))
            a = np.asarray(mk().prox(xr.copy(), t))
            b = np.asarray(mk().prox(xr.astype(complex), t))
            r.trans(2)
            r.check(np.max(np.abs(a - b)) <= tol * (1 + np.max(np.abs(a))), "real|" + k, "real vector stored as complex gives another answer",
                    x=xr, tau=t, got=b, want=a)
            if val:
                va, vb = float(mk()(xr.copy())), float(mk()(xr.astype(complex)))
                r.check(abs(va - vb) <= 1e-9 * (1 + abs(va)), "realval|" + k, "value of a real vector stored as complex differs", x=xr, got=vb, want=va)
        if sep:
            # phases may differ per entry
            w = np.exp(1j * np.arange(1, n + 1))
            z = np.asarray(mk().prox(w * x, t))
            r.check(np.max(np.abs(z - w * y)) <= tol * (1 + np.max(np.abs(y))), "phases|" + k, "separable prox does not commute with entrywise phases",
                    x=x, tau=t, got=z, want=w * y)
            # and only the modulus matters
            m = np.asarray(mk().prox(np.abs(x), t))
            r.trans(2)
            r.check(np.max(np.abs(np.abs(y) - np.abs(m))) <= tol * (1 + np.max(np.abs(m))), "modulus|" + k,
                    "modulus of the prox is not the prox of the modulus", x=x, tau=t, got=np.abs(y), want=np.abs(m))


def special(case, r):
    tier, k = case
    xs = short(lat(AL, 2, complex), 25)
    g = np.array([0.5 - 1j, 1.0 + 0.25j])
    for x, t in itertools.product(xs, TT):
        if k == "@L1g":
            op, d = pp.L1(0.8, g=g.copy()), x - g
            y = op.prox(x.copy(), t)
            want = g + d * np.maximum(0, 1 - 0.8 * t / np.maximum(np.abs(d), 1e-300))
            val, vw = op(x.copy()), 0.8 * np.sum(np.abs(d))
        elif k == "@L2b":
            op = pp.L2(b=g.copy(), sigma=0.7)
            y, want = op.prox(x.copy(), t), (x + 0.7 * t * g) / (1 + 0.7 * t)
            val, vw = op(x.copy()), 0.35 * np.sum(np.abs(x - g) ** 2)
            r.check(np.allclose(op.grad(x.copy()), 0.7 * (x - g), atol=1e-10), "grad|" + k, "complex gradient wrong", x=x)
        elif k == "@Ball":
            op, d = pp.EuclideanBall(g.copy(), 0.9), x - g
            y, want = op.prox(x.copy(), t), g + d * min(1.0, 0.9 / max(np.linalg.norm(d), 1e-300))
            val, vw = float(op(x.copy())), float(np.linalg.norm(d) <= 0.9)
        else:
            # Moreau identity with complex vectors
            for op, nm in ((pp.L1(0.8), "L1"), (pp.L1(0.8, g=g.copy()), "L1g"), (pp.Euclidean(0.8), "Euc"), (pp.L2(b=g.copy(), sigma=0.7), "L2"),
                           (pp.L21(2, 0.8), "L21"), (pp.HuberCircular(0.7), "HC"), (pp.EuclideanBall(g.copy(), 0.9), "Ball")):
                p, q = op.prox(x.copy(), t), op.proxdual(x / t, 1.0 / t)
                r.state(nm, x, t), r.trans(2), r.trace(), r.outcome(p, q)
                r.check(np.max(np.abs(p + t * q - x)) <= 1e-9, "moreau|" + nm, "complex Moreau identity fails", x=x, tau=t, got=p + t * q)
            continue
        r.state(k, x, t), r.trans(2), r.trace(), r.outcome(k, y)
        r.check(np.max(np.abs(y - want)) <= 1e-8, "prox|" + k, "complex prox wrong", x=x, tau=t, got=y, want=want)
        r.check(abs(val - vw) <= 1e-9 * (1 + vw), "val|" + k, "complex value wrong", x=x, got=val, want=vw)


MATS = {
    "wide": np.array([[1 + 1j, 2, -1j], [0.5, 1j, 1.0]]), "square": np.array([[2, 1j, 0], [-1j, 1, 0.5 + 1j], [0, 0.3, 1 - 1j]]),
    "row": np.array([[1j, 2 - 1j, 0.5]]), "tall": np.array([[1 + 1j, 2, -1j], [0.5, 1j, 1.0], [0, 1 - 2j, 1], [1j, 0, 0.3]]),
    "unitary": np.array([[0.6, 0.8j, 0], [0.8j, 0.6, 0], [0, 0, np.exp(0.3j)]]), "rows": np.array([[0.6, 0.8j, 0], [0, 0, np.exp(0.3j)]]),
}
RHS = np.array([1.0 - 0.5j, 2j, -0.7, 0.3 + 1j])


def cop(M, explicit=True):
    M = np.asarray(M, dtype=complex)
    if explicit:
        return pylops.MatrixMult(M, dtype=complex)
    return pylops.FunctionOperator(lambda v: M @ v, lambda v: M.conj().T @ v, *M.shape, dtype=complex)


def affine(M, b, x, t):
    return x - np.linalg.pinv(M) @ (M @ x - b)


def lsq(M, b, x, t):
    return np.linalg.solve(np.eye(M.shape[1]) + 0.7 * t * M.conj().T @ M, x + 0.7 * t * M.conj().T @ b)


def softc(v, t):
    return v * np.maximum(0, 1 - t / np.maximum(np.abs(v), 1e-300))


def orth(M, b, x, t):
    # argmin of 0.8 |M x + b|_1 + |x - v|^2 / (2 t), M with orthonormal rows
    return x + M.conj().T @ (softc(M @ x + b, 0.8 * t) - b - M @ x)


def circ(h, n):
    return np.array([[h[(i - j) % n] for j in range(n)] for i in range(n)])


H3 = np.array([1 + 1j, -0.5j, 0.25])
# name: (constructor from matrix and right hand side, matrices, prox, gradient, value, tolerance)
GL2 = lambda M, b, x: 0.7 * M.conj().T @ (M @ x - b)
VL2 = lambda M, b, x: 0.35 * np.sum(np.abs(M @ x - b) ** 2)
ALLM = ("wide", "square", "row", "tall", "unitary")
LINEAR = {
    "affine": (lambda M, b: pp.AffineSet(cop(M), b, 100), ("wide", "square", "row", "unitary", "rows"), affine, None, lambda M, b, x: float(np.max(np.abs(M @ x - b)) <= 1e-6), 1e-3),
    "affineF": (lambda M, b: pp.AffineSet(cop(M, False), b, 100), ("wide", "square", "row", "unitary", "rows"), affine, None, None, 1e-3),
    "l2": (lambda M, b: pp.L2(Op=cop(M), b=b, sigma=0.7), ALLM, lsq, GL2, VL2, 1e-8),
    "l2numpy": (lambda M, b: pp.L2(Op=cop(M), b=b, sigma=0.7, densesolver="numpy"), ALLM, lsq, GL2, VL2, 1e-8),
    "l2fact": (lambda M, b: pp.L2(Op=cop(M), b=b, sigma=0.7, densesolver="factorize"), ALLM, lsq, GL2, VL2, 1e-8),
    "l2legacy": (lambda M, b: pp.L2(Op=cop(M, False), b=b, sigma=0.7, niter=60), ALLM, lsq, GL2, VL2, 1e-5),
    "l2cg": (lambda M, b: pp.L2(Op=cop(M, False), b=b, sigma=0.7, niter=60, solver="cg"), ALLM, lsq, GL2, VL2, 1e-4),
    "l2cgls": (lambda M, b: pp.L2(Op=cop(M, False), b=b, sigma=0.7, niter=60, solver="cgls"), ALLM, lsq, GL2, VL2, 1e-4),
    "orth": (lambda M, b: pp.Orthogonal(pp.L1(0.8), cop(M), b=b), ("unitary",), orth, None, lambda M, b, x: 0.8 * np.sum(np.abs(M @ x + b)), 1e-8),
    "orthP": (lambda M, b: pp.Orthogonal(pp.L1(0.8), cop(M), b=b, partial=True), ("unitary", "rows"), orth, None, lambda M, b, x: 0.8 * np.sum(np.abs(M @ x + b)), 1e-8),
    "orthA": (lambda M, b: pp.Orthogonal(pp.L1(0.8), cop(np.sqrt(2.0) * M), b=b, partial=True, alpha=2.0), ("unitary", "rows"),
              lambda M, b, x, t: x + M.conj().T @ (softc(np.sqrt(2.0) * M @ x + b, 1.6 * t) - b - np.sqrt(2.0) * M @ x) / np.sqrt(2.0), None, lambda M, b, x: 0.8 * np.sum(np.abs(np.sqrt(2.0) * M @ x + b)), 1e-8),
    "convolve": (lambda M, b: pp.L2Convolve(np.array(H3), b, nfft=3, sigma=0.7), ("circ",), lsq, GL2, VL2, 1e-8),
    "convolve2": (lambda M, b: pp.L2Convolve(np.array(H3), b, nfft=3, sigma=0.7, dims=(3,)), ("circ",), lsq, GL2, VL2, 1e-8),
}
MATS["circ"] = circ(H3, 3)


def linear(tier, k, r):
    """operators of a complex matrix against the dense formula"""
    mk, mats, prox, grad, val, tol = LINEAR[k]
    xs = short(lat([0.0, 1.1, -0.6j, 1.5 - 2j], 3, complex), 20 if tier == "quick" else 64)
    for mn in mats:
        M = MATS[mn]
        b = RHS[: M.shape[0]]
        for x, t in itertools.product(xs, TT):
            op = mk(M, b.copy())
            y, want = np.asarray(op.prox(x.copy(), t)), prox(M, b, x, t)
            r.state(k, mn, x, t), r.trans(), r.trace(), r.outcome(k, y)
            r.check(y.shape == want.shape and np.max(np.abs(y - want)) <= tol * (1 + np.max(np.abs(want))), "oprox|%s" % k,
                    "prox of a complex operator differs from the dense formula", matrix=mn, x=x, tau=t, got=y, want=want)
            if t != TT[0]:
                continue
            if grad is not None:
                g, w = np.asarray(op.grad(x.copy())), grad(M, b, x)
                r.check(np.max(np.abs(g - w)) <= 1e-9 * (1 + np.max(np.abs(w))), "ograd|%s" % k, "gradient with a complex operator wrong", matrix=mn, x=x, got=g, want=w)
            if val is not None:
                v, w = float(op(x.copy())), val(M, b, x)
                r.check(abs(v - w) <= 1e-9 * (1 + abs(w)), "oval|%s" % k, "value with a complex operator wrong", matrix=mn, x=x, got=v, want=w)
            if prox is affine:
                v = np.max(np.abs(M @ y - b))
                r.check(v <= tol * (1 + np.max(np.abs(b))), "ofeas|%s" % k, "projection with a complex operator is infeasible", matrix=mn, x=x, got=y, want=v)
