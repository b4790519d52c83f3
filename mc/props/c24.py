"""C24: LowRankFactorizedMatrix is the documented bilinear functional for every shape, operator, point and
history of internal updates; gradients are exact and its Lipschitz constants bound the partial gradients."""

import itertools

import numpy as np
import pylops

from pyproximal.utils.bilinear import LowRankFactorizedMatrix

from mc.catalog import lat, short

ID = "C24"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "shapes n,k,m in 1..3; operators: none, dense real, dense complex, restriction; factors from a 3-5 value lattice "
    "(thinned for larger shapes); histories of internal updates and evaluations to depth 3 (quick) / 4 (thorough)",
    "comparisons to 1e-9",
]


def ops(n, m, kind, cplx=False):
    N = n * m
    if kind == "none":
        return None, np.eye(N)
    if kind == "dense":
        A = np.array([[((3 * i + 5 * j) % 7) / 2.0 - 1.5 for j in range(N)] for i in range(N + 1)])
        return pylops.MatrixMult(A, dtype=complex if cplx else float), A
    if kind == "cdense":
        A = np.array([[((3 * i + 5 * j) % 7) / 2.0 - 1.5 + 1j * (((2 * i + j) % 5) - 2) for j in range(N)] for i in range(max(1, N - 1))])
        return pylops.MatrixMult(A, dtype=complex), A
    idx = np.arange(0, N, 2)
    A = np.eye(N)[idx]
    return pylops.Restriction(N, idx, dtype=complex if cplx else float), A


def points(n, k, m, cplx, nmax):
    al = [0.0, 1.0, -0.5j, 1.5 - 1j] if cplx else [-1.5, 0.0, 0.5, 2.0]
    L = n * k + k * m
    tot = len(al) ** L
    cnt = min(nmax, tot)
    out = []
    for i in range(cnt):
        # evenly spread over the complete lattice, last index always included
        c = (i * (tot - 1)) // max(1, cnt - 1)
        c = (c * 1 + 0) % tot
        v = []
        for _ in range(L):
            v.append(al[c % len(al)])
            c //= len(al)
        v = np.array(v, dtype=complex if cplx else float)
        out.append((v[: n * k], v[n * k:]))
    return out


class Model:
    def __init__(self, n, k, m, A, d, x, y):
        self.n, self.k, self.m, self.A, self.d, self.x, self.y = n, k, m, A, d, x.copy(), y.copy()

    def X(self, x):
        return np.asarray(x).reshape(self.n, self.k)

    def Y(self, y):
        return np.asarray(y).reshape(self.k, self.m)

    def data(self, x, y):
        return self.A @ (self.X(x) @ self.Y(y)).ravel()

    def value(self, x, y):
        return 0.5 * float(np.sum(np.abs(self.data(x, y) - self.d) ** 2))

    def back(self, x, y):
        return (self.A.conj().T @ (self.data(x, y) - self.d)).reshape(self.n, self.m)

    def gx(self, x):
        return (self.back(x, self.y) @ self.Y(self.y).conj().T).ravel()

    def gy(self, y):
        return (self.X(self.x).conj().T @ self.back(self.x, y)).ravel()


def cases(tier):
    out = []
    for n, k, m in itertools.product((1, 2, 3), (1, 2, 3), (1, 2, 3)):
        if n * k + k * m > (9 if tier == "quick" else 12):
            continue
        for kind in ("none", "dense", "cdense", "restr"):
            for cplx in (False, True):
                if kind == "cdense" and not cplx:
                    continue
                out.append([tier, "points", n, k, m, kind, cplx])
    for n, k, m in ((2, 1, 3), (2, 2, 2), (1, 2, 2)):
        for kind in ("none", "dense"):
            out.append([tier, "hist", n, k, m, kind, False])
    return out


def close(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.max(np.abs(a - b), initial=0.0) <= 1e-9 * (1 + np.max(np.abs(b), initial=0.0))


def setup(n, k, m, kind, x, y):
    Op, A = ops(n, m, kind, np.iscomplexobj(x))
    d = (np.arange(1.0, A.shape[0] + 1) * 0.5 - 1.0).astype(complex if np.iscomplexobj(x) else float)
    if np.iscomplexobj(x):
        d = d + 0.25j
    X, Y = x.reshape(n, k).copy(), y.reshape(k, m).copy()
    H = LowRankFactorizedMatrix(X, Y, d.copy(), Op)
    return H, Model(n, k, m, A, d, x, y), X, Y


def run(case, r):
    tier, mode, n, k, m, kind, cplx = case
    if mode == "points":
        pts = points(n, k, m, cplx, 40 if tier == "quick" else 300)
        for i, (x, y) in enumerate(pts):
            H, M, X, Y = setup(n, k, m, kind, x, y)
            x2, y2 = pts[(7 * i + 3) % len(pts)]
            tag = "n%dk%dm%d|%s|%s" % (n, k, m, kind, "c" if cplx else "r")
            for (a, b) in ((x, y), (x2, y2), (x2, y), (x, y2)):
                for how in ("two", "cat"):
                    aa, bb = a.copy(), b.copy()
                    v = H(aa, bb) if how == "two" else H(np.hstack([aa, bb]))
                    r.state(x, y, a, b, how), r.trans(), r.trace(), r.outcome(v)
                    w = M.value(a, b)
                    r.check(abs(v - w) <= 1e-9 * (1 + w), "value|" + tag, "H(x,y) wrong", x=a, y=b, got=v, want=w)
                    r.check(np.array_equal(aa, a) and np.array_equal(bb, b), "mut|" + tag, "evaluation modifies its arguments", x=a, y=b)
                r.check(close(H.gradx(a.copy()), M.gx(a)), "gradx|" + tag, "gradient in x wrong", x=a, y=M.y, got=H.gradx(a.copy()), want=M.gx(a))
                r.check(close(H.grady(b.copy()), M.gy(b)), "grady|" + tag, "gradient in y wrong", y=b, x=M.x, got=H.grady(b.copy()), want=M.gy(b))
                g = H.grad(np.hstack([a, b]))
                r.check(close(g, np.hstack([M.gx(a), M.gy(b)])), "grad|" + tag, "stacked gradient wrong", x=a, y=b, got=g)
                r.trans(3)
            # exact directional derivatives (quadratic along every line)
            H.updatexy(np.hstack([x2, y2]))
            M.x, M.y = x2, y2
            gx, gy = H.gradx(x2), H.grady(y2)
            for j in range(x.size + y.size):
                for h in ((1.0, 1j) if cplx else (1.0,)):
                    e = np.zeros(x.size + y.size, dtype=complex if cplx else float)
                    e[j] = h
                    p = np.hstack([x2, y2])
                    slope = (H(p + e) - H(p - e)) / 2.0
                    gg = np.hstack([gx, gy])[j]
                    want = gg.real if h == 1.0 else gg.imag
                    r.trans(2)
                    r.check(abs(slope - want) <= 1e-8 * (1 + abs(want)), "slope|" + tag, "gradient entry %d is not the slope of H" % j,
                            x=x2, y=y2, got=slope, want=want)
            if n != m:
                r.check(close(H.matvec(x), M.data(x, M.y)), "matvecx|" + tag, "matvec in x wrong", x=x)
                r.check(close(H.matvec(y), M.data(M.x, y)), "matvecy|" + tag, "matvec in y wrong", y=y)
            r.check(np.array_equal(X.ravel(), x) and np.array_equal(Y.ravel(), y), "user|" + tag, "the factors given at construction were modified")
            if kind == "none":
                lx, ly = H.lx(x2), H.ly(y2)
                sx = np.linalg.norm(M.X(x2), 2) ** 2
                sy = np.linalg.norm(M.Y(y2), 2) ** 2
                r.check(sx * (1 - 1e-9) <= lx + 1e-12 and abs(lx - np.linalg.norm(M.X(x2).conj().T @ M.X(x2))) <= 1e-9 * (1 + lx),
                        "lx|" + tag, "lx does not bound the Lipschitz constant of the gradient in y", x=x2, got=lx, want=sx)
                r.check(sy * (1 - 1e-9) <= ly + 1e-12 and abs(ly - np.linalg.norm(M.Y(y2) @ M.Y(y2).conj().T)) <= 1e-9 * (1 + ly),
                        "ly|" + tag, "ly does not bound the Lipschitz constant of the gradient in x", y=y2, got=ly, want=sy)
                dgy = np.linalg.norm(H.grady(y) - H.grady(y2))
                r.check(dgy <= lx * np.linalg.norm(y - y2) * (1 + 1e-9) + 1e-9, "lipx|" + tag, "grad_y grows faster than lx", y=y, y2=y2)
                dgx = np.linalg.norm(H.gradx(x) - H.gradx(x2))
                r.check(dgx <= ly * np.linalg.norm(x - x2) * (1 + 1e-9) + 1e-9, "lipy|" + tag, "grad_x grows faster than ly", x=x, x2=x2)
                r.trans(6)
    else:
        depth = 3 if tier == "quick" else 4
        pts = points(n, k, m, cplx, 5)
        ev = []
        for i in (1, 3):
            x, y = pts[i]
            ev += [("updatex", x), ("updatey", y), ("updatexy", np.hstack([x, y])), ("call", (x, y)), ("gradx", x), ("grady", y)]
        ev += [("grad", np.hstack(pts[2])), ("lx", pts[2][0]), ("ly", pts[2][1])]
        tag = "n%dk%dm%d|%s" % (n, k, m, kind)
        for h in itertools.product(range(len(ev)), repeat=depth):
            x0, y0 = pts[4]
            H, M, X, Y = setup(n, k, m, kind, x0, y0)
            for step, i in enumerate(h):
                name, a = ev[i]
                r.trans()
                if name == "updatex":
                    H.updatex(a.copy()); M.x = a
                elif name == "updatey":
                    H.updatey(a.copy()); M.y = a
                elif name == "updatexy":
                    H.updatexy(a.copy()); M.x, M.y = a[: n * k], a[n * k:]
                elif name == "call":
                    v, w = H(a[0].copy(), a[1].copy()), M.value(*a)
                    r.check(abs(v - w) <= 1e-9 * (1 + w), "hist-call|" + tag, "value depends on history", hist=[ev[j][0] for j in h], got=v, want=w)
                elif name in ("gradx", "grady", "grad"):
                    g = getattr(H, name)(a.copy())
                    w = {"gradx": M.gx, "grady": M.gy, "grad": lambda z: np.hstack([M.gx(z[: n * k]), M.gy(z[n * k:])])}[name](a)
                    r.check(close(g, w), "hist-%s|%s" % (name, tag), "gradient is not the one at the stored variable",
                            hist=[ev[j][0] for j in h], got=g, want=w)
                    r.outcome(g)
                elif kind == "none":
                    v = getattr(H, name)(a.copy())
                    r.outcome(v)
                r.state(h[: step + 1])
                # the stored variables are the ones last set
                ok = np.array_equal(np.ravel(H.x), M.x) and np.array_equal(np.ravel(H.y), M.y)
                r.check(ok, "hist-state|" + tag, "%s changed the stored variables" % name, hist=[ev[j][0] for j in h])
            r.trace()
