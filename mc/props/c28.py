"""C28: malformed parameters and problems are refused, well-formed ones accepted, at every boundary.

The lattice of arguments straddles every documented (or enforced) precondition; the oracle is the precondition."""

import itertools

import numpy as np
import pylops

import pyproximal as pp
from pyproximal import projection as pj
from pyproximal.optimization import primal as P
from pyproximal.utils.bilinear import LowRankFactorizedMatrix

ID = "C28"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "a refusal is a ValueError, KeyError, TypeError or NotImplementedError; boundary values which the documentation leaves open "
    "(a zero sigma or gamma of a logarithmic penalty) are not tried",
    "only preconditions the library documents or checks are in scope, others are the caller's responsibility",
]
REFUSE = (ValueError, KeyError, TypeError, NotImplementedError)
TINY = 1e-9
A23 = np.array([[1.0, 2.0, -1.0], [0.5, 0.0, 1.0]])


def mm(M):
    return pylops.MatrixMult(np.asarray(M, dtype=float))


def pen():
    pos = [-2.0, -1.0, -TINY, TINY, 0.5, 3.0]
    one = np.array([1.0, -3.0, 0.25])

    def use(op):
        op(one.copy())
        op.prox(one.copy(), 0.3)

    for s, a in itertools.product(pos + [0.0], [-3.0, 0.0, 1.0, 2 - TINY, 2.0, 2 + TINY, 2.5, 3.7]):
        yield "SCAD(%g,%.10g)" % (s, a), s > 0 and a > 2, lambda s=s, a=a: use(pp.SCAD(s, a))
    for s, g in itertools.product(pos, pos):
        yield "Log(%g,%g)" % (s, g), s > 0 and g > 0, lambda s=s, g=g: use(pp.Log(s, g))
    for s, g in itertools.product(pos, pos + [0.0]):
        yield "Geman(%g,%g)" % (s, g), s > 0 and g > 0, lambda s=s, g=g: use(pp.Geman(s, g))
        yield "ETP(%g,%g)" % (s, g), s > 0 and g > 0, lambda s=s, g=g: use(pp.ETP(s, g))
    for s, d in itertools.product([0.5, 3.0], pos):
        yield "Log1(%g,%g)" % (s, d), d > 0, lambda s=s, d=d: use(pp.Log1(s, d))


def engines():
    x2, x6 = np.array([1.0, -2.0, 0.5]), np.array([1.0, 2, -1, 0.5, 3, -2])
    for s in ("legacy", "cg", "cgls", "lsqr", "CG", "", "cgl", None):
        for Op in (None, A23):
            yield ("L2(solver=%s, Op=%s)" % (s, Op is not None), s in ("legacy", "cg", "cgls"),
                   lambda s=s, Op=Op: pp.L2(Op=None if Op is None else mm(Op), b=np.ones(2 if Op is not None else 3), solver=s).prox(x2.copy(), 0.5))
    for e in ("numpy", "numba", "Numpy", "cupy", "", None):
        for dims in (None, (6,), (2, 3), [3, 2], (1, 6), (1, 2, 3), (2, 3, 1), ()):
            for ax in (0, 1):
                ok = e in ("numpy", "numba") and (dims is None or len(dims) == 2)
                yield ("Simplex(engine=%s, dims=%s, axis=%d)" % (e, dims, ax), ok,
                       lambda e=e, dims=dims, ax=ax: pp.Simplex(6, 1.0, dims=dims, axis=ax, engine=e).prox(x6.copy(), 1.0))
    for m, n in itertools.product(range(1, 5), repeat=2):
        yield ("Quadratic(Op %dx%d)" % (m, n), m == n,
               lambda m=m, n=n: pp.Quadratic(Op=mm(np.eye(m, n) + 0.1), b=np.ones(n)).prox(np.ones(n), 0.5))


def stacks():
    splits = [[1], [3], [1, 2], [2, 1], [1, 1, 1], [2, 2], [4, 1]]
    for nn in splits:
        for mode in ("nn", "restr"):
            for size in range(0, sum(nn) + 4):
                for m in ("call", "prox", "proxdual", "grad"):
                    def go(nn=nn, mode=mode, size=size, m=m):
                        ops = [pp.L2(sigma=1.0 + i) for i in range(len(nn))]
                        N = sum(nn)
                        if mode == "nn":
                            op = pp.VStack(ops, nn=list(nn))
                        else:
                            ends = np.cumsum(nn)
                            op = pp.VStack(ops, restr=[pylops.Restriction(N, np.arange(b - k, b)) for k, b in zip(nn, ends)])
                        x = np.arange(1.0, size + 1)
                        y = {"call": lambda: op(x), "prox": lambda: op.prox(x, 0.5), "proxdual": lambda: op.proxdual(x, 0.5),
                             "grad": lambda: op.grad(x)}[m]()
                        w = np.repeat(1.0 + np.arange(len(nn)), nn)
                        ref = {"call": lambda: np.sum(w * x**2) / 2, "prox": lambda: x / (1 + 0.5 * w),
                               "proxdual": lambda: x - 0.5 * (x / 0.5) / (1 + w / 0.5), "grad": lambda: w * x}[m]()
                        assert np.allclose(y, ref), "wrong result %s for an accepted vector" % (y,)
                    yield "VStack %s=%s %s of %d elements" % (mode, nn, m, size), size == sum(nn), go
    for nn in splits:
        N, ends = sum(nn), np.cumsum(nn)
        for extra in (-1, 0, 1, 2):
            for m in ("call", "prox", "proxdual", "grad"):
                def go(nn=nn, N=N, ends=ends, extra=extra, m=m):
                    # the number of functions must be that of the restrictions
                    op = pp.VStack([pp.L2(sigma=1.0 + i) for i in range(len(nn) + extra)],
                                   restr=[pylops.Restriction(N, np.arange(b - k, b)) for k, b in zip(nn, ends)])
                    x = np.arange(1.0, N + 1)
                    return op(x) if m == "call" else op.grad(x) if m == "grad" else getattr(op, m)(x, 0.5)
                yield "VStack of %d functions and %d restrictions, %s" % (len(nn) + extra, len(nn), m), extra == 0, go
    yield "VStack without nn and restr", False, lambda: pp.VStack([pp.L1()])


def algebra():
    x = np.array([1.0, -2.0])
    things = {"array": np.array([0.5, 1.0]), "list": [0.5, 1.0], "float": 0.5, "int": 2, "str": "a", "None": None, "tuple": (1.0, 2.0),
              "npfloat": np.float64(0.5), "complex": 1 + 2j, "op": "OP"}
    for k, v in things.items():
        arr, fl = k == "array", k in ("float", "npfloat")
        val = lambda v=v, k=k: pp.L2() if k == "op" else v
        f = lambda: pp.L1(0.5)
        yield "translation by " + k, arr, lambda val=val, f=f: f().translation(val()).prox(x.copy(), 0.5) if hasattr(f(), "translation") else f().affine_addition(val()).prox(x.copy(), 0.5)
        yield "affine_addition of " + k, arr, lambda val=val, f=f: f().affine_addition(val()).prox(x.copy(), 0.5)
        yield "postcomposition by " + k, fl, lambda val=val, f=f: f().postcomposition(val()).prox(x.copy(), 0.5)
        for k2, v2 in things.items():
            v2_ = lambda v2=v2, k2=k2: pp.L2() if k2 == "op" else v2
            yield ("precomposition(%s, %s)" % (k, k2), fl and k2 in ("float", "npfloat", "array"),
                   lambda val=val, v2_=v2_, f=f: f().precomposition(val(), v2_()).prox(x.copy(), 0.5))


def lowrank():
    for n, k, m in itertools.product((1, 2, 3), (1, 2), (1, 2, 3)):
        def mk(n=n, k=k, m=m, op=False):
            X, Y = np.arange(1.0, n * k + 1).reshape(n, k), np.arange(1.0, k * m + 1).reshape(k, m)
            d = np.zeros(n * m)
            return LowRankFactorizedMatrix(X, Y, d, Op=pylops.Identity(n * m) if op else None), X, Y
        for op in (False, True):
            def lx(mk=mk, op=op):
                H, X, Y = mk(op=op)
                assert H.lx(X.ravel()) > 0
            def ly(mk=mk, op=op):
                H, X, Y = mk(op=op)
                assert H.ly(Y.ravel()) > 0
            yield "lx n=%d k=%d m=%d Op=%s" % (n, k, m, op), not op, lx
            yield "ly n=%d k=%d m=%d Op=%s" % (n, k, m, op), not op, ly

            def mv(mk=mk, op=op, which="x"):
                H, X, Y = mk(op=op)
                v = X if which == "x" else Y
                assert np.allclose(H.matvec(2 * v.ravel()), 2 * (X @ Y).ravel()), "wrong block used"
            yield "matvec(x) n=%d k=%d m=%d Op=%s" % (n, k, m, op), n != m, mv
            yield "matvec(y) n=%d k=%d m=%d Op=%s" % (n, k, m, op), n != m, lambda mv=mv: mv(which="y")


def solvers():
    x, z, u = np.array([1.0, -2.0, 0.5]), np.array([0.5, 0.0, 1.0]), np.array([0.3, -0.1])
    b = np.array([1.0, 0.5])
    f = lambda: pp.L2(b=np.array([0.2, 1.0, -1.0]))
    g = lambda: pp.L1(0.3)
    cp = lambda v: None if v is None else v.copy()

    def same(a, w):
        a, w = a[:2], w[:2]
        assert all(np.allclose(p, q) for p, q in zip(a, w)), "start %s is not completed as documented" % (a,)

    for n, gf in itertools.product((1, 3), (False, True)):
        for x0, z0 in itertools.product((None, x), (None, z)):
            xx, zz = (z if x0 is None else x0), (x if z0 is None else z0)
            w = "x0=%s z0=%s niter=%d gfirst=%s" % (x0, z0, n, gf)
            for nm, S in (("ADMM", P.ADMM), ("HQS", P.HQS)):
                def go(S=S, x0=x0, z0=z0, xx=xx, zz=zz, n=n, gf=gf):
                    kw = dict(tau=0.5, niter=n, gfirst=gf)
                    same(S(f(), g(), cp(x0), z0=cp(z0), **kw), S(f(), g(), xx.copy(), z0=zz.copy(), **kw))
                yield nm + " " + w, x0 is not None or z0 is not None, go
        for x0, z0 in itertools.product((None, x), (None, u)):
            zz = (A23 @ x if x0 is not None else None) if z0 is None else z0
            w = "x0=%s z0=%s niter=%d gfirst=%s" % (x0, z0, n, gf)

            def go2(x0=x0, z0=z0, zz=zz, n=n, gf=gf):
                kw = dict(tau=0.5, niter=n, gfirst=gf)
                I = pylops.Identity(3)
                same(P.ADMML2(g(), I, x, mm(A23), cp(x0), z0=cp(z0), **kw), P.ADMML2(g(), I, x, mm(A23), cp(x0), z0=cp(zz), **kw))
            yield "ADMML2 " + w, x0 is not None, go2
            if not gf:
                def go3(x0=x0, z0=z0, zz=zz, n=n):
                    kw = dict(tau=0.5, mu=0.05, niter=n)
                    same(P.LinearizedADMM(f(), g(), mm(A23), cp(x0), z0=cp(z0), **kw), P.LinearizedADMM(f(), g(), mm(A23), cp(x0), z0=cp(zz), **kw))
                yield "LinearizedADMM " + w, x0 is not None, go3
    for a in (None, "None", "vandenberghe", "fista", "FISTA", "none", "nesterov", "", 1, False):
        ok = a is None or a in ("None", "vandenberghe", "fista")
        for tau, bt in ((0.5, False), (None, False), (1.0, True)):
            yield ("ProximalGradient acceleration=%r tau=%s backtracking=%s" % (a, tau, bt), ok,
                   lambda a=a, tau=tau, bt=bt: P.ProximalGradient(f(), g(), x.copy(), tau=tau, backtracking=bt, niter=3, acceleration=a))
        yield ("GeneralizedProximalGradient acceleration=%r" % (a,), ok,
               lambda a=a: P.GeneralizedProximalGradient([f()], [g()], x.copy(), tau=0.5, niter=3, acceleration=a))
    vals = [0.0, 0.1, 0.25, 1 / 3, 0.5, 0.75, 0.9, 1.0, 1.01, 2.0]
    for m in (1, 2, 3):
        for k in (1, 2, 3):
            for w in itertools.product(vals if k < 3 else [0.1, 0.25, 1 / 3, 0.5, 0.8], repeat=k):
                if 0.0 in w:
                    continue
                ok = k == m and abs(sum(w) - 1) < 1e-4
                for arr in (True, False):
                    yield ("GeneralizedProximalGradient %d functions, weights=%s" % (m, [round(v, 3) for v in w]), ok,
                           lambda m=m, w=w, arr=arr: P.GeneralizedProximalGradient([f()], [g() for _ in range(m)], x.copy(), tau=0.2, niter=1,
                                                                                  weights=np.array(w) if arr else list(w)))


GROUPS = {"pen": pen, "engines": engines, "stacks": stacks, "algebra": algebra, "lowrank": lowrank, "solvers": solvers}


def cases(tier):
    return [[k] for k in GROUPS]


def run(case, r):
    for d, ok, go in GROUPS[case[0]]():
        r.state(d)
        r.trans()
        r.trace()
        try:
            go()
            out = "accepted"
        except REFUSE as ex:
            out = "refused: %s: %s" % (type(ex).__name__, str(ex)[:120])
        except AssertionError as ex:
            out = "wrong: %s" % ex
        except Exception as ex:  # an accident, not a refusal
            out = "fails: %s: %s" % (type(ex).__name__, str(ex)[:120])
        r.outcome(d, out)
        want = "accepted" if ok else "refused"
        r.check(out.startswith(want), "%s|%s" % (case[0], d), "%s is %s, must be %s" % (d, out, want))
    r.sample(case[0])
