"""C25: the verdict of the gradient tests and of the Moreau check is right for every random draw they can make.

The random choices of gradtest_* are made by a controlled scheduler: every outcome of every np.random.randint
call is explored depth first, on operators with a correct gradient and on operators with one wrong component."""

import itertools

import numpy as np

import pyproximal as pp
from pyproximal.utils.bilinear import LowRankFactorizedMatrix
from pyproximal.utils.gradtest import gradtest_bilinear, gradtest_proximal
from pyproximal.utils.moreau import moreau

ID = "C25"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "vectors of length 1-4, factors up to 2x2 and 2x3; every sequence of random draws; one gradient component wrong by "
    "+-0.05 or 50 percent (real or imaginary part), or none; absolute or relative tolerance",
    "if the random choices are not made through np.random.randint, 300 seeds are used instead of the exhaustive tree",
    "moreau: one component of prox or proxdual wrong by 0.02-1 or right, tolerances 1e-5, 1e-3, 0.05 and 0.5 (deviations within 20% of the tolerance are not judged)",
]


class Draws:
    """Depth-first enumeration of all outcomes of randint."""

    def __init__(self):
        self.prefix = []
        self.log = []

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        assert size is None
        i = len(self.log)
        v = self.prefix[i] if i < len(self.prefix) else 0
        self.log.append((v, high - low))
        return low + v

    def next(self):
        p = list(self.log)
        while p and p[-1][0] + 1 >= p[-1][1]:
            p.pop()
        if not p:
            return False
        self.prefix = [v for v, _ in p[:-1]] + [p[-1][0] + 1]
        self.log = []
        return True


def explore(fun):
    """Runs fun under every schedule of random draws; yields (schedule, result of fun)."""
    orig = np.random.randint
    D = Draws()
    n = 0
    while True:
        np.random.randint = D.randint
        try:
            res = fun()
        finally:
            np.random.randint = orig
        n += 1
        if not D.log and n == 1:
            yield (), res
            for s in range(300):
                np.random.seed(s)
                yield ("seed", s), fun()
            return
        yield tuple(v for v, _ in D.log), res
        if not D.next():
            return


class Probe(pp.ProxOperator):
    """f(x) = sum_i w_i |x_i|^2/2 + Re<c, x>; gradient with an optional error. Records where it is evaluated."""

    def __init__(self, n, cplx, bad=None, err=0.0):
        super().__init__(None, True)
        self.w = np.arange(1.0, n + 1)
        self.c = np.arange(1.0, n + 1) * (0.37 - (0.21j if cplx else 0))
        self.bad, self.err = bad, err
        self.calls = []

    def __call__(self, x):
        self.calls.append(np.array(x))
        return float(np.sum(self.w * np.abs(x) ** 2) / 2 + np.real(np.vdot(self.c, x)))

    def prox(self, x, tau):
        return (x - tau * self.c) / (1 + tau * self.w)

    def exact(self, x):
        return self.w * x + self.c

    def grad(self, x):
        g = self.exact(x)
        if self.bad is not None:
            g = g.copy()
            g[self.bad] += self.err
        return g


class ProbeBil(LowRankFactorizedMatrix):
    def __init__(self, X, Y, d, bad=None, err=0.0):
        super().__init__(X, Y, d)
        self.bad, self.err = bad, err
        self.calls = []

    def __call__(self, x, y=None):
        self.calls.append(np.hstack([x, y]) if y is not None else np.array(x))
        return super().__call__(x, y)

    def gradx(self, x):
        g = np.array(super().gradx(x))
        if self.bad is not None and self.bad < g.size:
            g[self.bad] += self.err
        return g

    def grady(self, y):
        g = np.array(super().grady(y))
        if self.bad is not None and self.bad >= self.sizex:
            g[self.bad - self.sizex] += self.err
        return g


XR = [np.array([1.5, -0.5, 2.0, 0.25]), np.array([-1.0, 3.0, 0.5, -2.0])]
XI = np.array([3, -1, 2, 0])
TOL = [dict(atol=1e-4), dict(rtol=1e-4, atol=1e-9), dict(rtol=1e-3, atol=1e-3, delta=1e-5)]


def cases(tier):
    out = []
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for cplx in (False, True):
            for given in (False, True):
                out.append([tier, "prox", n, cplx, given])
    for nkm in ((1, 1, 1), (2, 1, 2), (1, 2, 2), (2, 2, 1)) + (((2, 2, 3),) if tier == "thorough" else ()):
        for cplx in (False, True, "int"):
            out.append([tier, "bil", list(nkm), cplx])
    for n in (1, 2, 3):
        out.append([tier, "moreau", n])
    return out


def call(f):
    try:
        return ("ret", f())
    except AssertionError:
        return ("raise", None)
    except ValueError:
        return ("raise", None)


def judge(r, sig, kind, res, raiseerror, right, ctx):
    """right: True/False expected verdict"""
    want = ("raise", None) if (not right and raiseerror) else ("ret", right)
    r.check(res == want and (res[1] is None or isinstance(res[1], bool)), sig,
            "%s answered %s for a %s gradient/identity at the tested component (raiseerror=%s)" % (kind, res, "right" if right else "wrong", raiseerror), **ctx)


def run(case, r):
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        {"prox": run_prox, "bil": run_bil, "moreau": run_moreau}[case[1]](case, r)


def run_prox(case, r):
    tier, _, n, cplx, given = case
    errs = [(None, 0.0)] + [(i, e) for i in range(n) for e in ((0.05, -0.05, 0.05j, -0.05j) if cplx else (0.05, -0.05))]
    for (bad, err), tol, raiseerror, verb in itertools.product(errs, TOL, (False, True), (False, True)):
        if verb and tier == "quick" and (bad or 0) > 0:
            continue
        xs = [x[:n] * (1 + (0.5j if cplx else 0)) for x in XR] + ([] if cplx else [XI[:n]]) if given else [None]
        for x in xs:
            seen = set()
            k = 4.0 if "atol" in tol and tol["atol"] == 1e-9 else 1.0
            for sched, (res, op, x1) in explore(lambda: one(n, cplx, bad, err * k, x, tol, raiseerror, verb)):
                r.trans(), r.state(n, cplx, bad, err, str(tol), raiseerror, verb, x, sched), r.outcome(str(res))
                ctx = dict(n=n, bad=bad, err=str(err), draws=str(sched), x=x, tol=tol)
                if len(op.calls) != 2:
                    continue
                d = op.calls[1] - op.calls[0]
                nz = np.flatnonzero(np.abs(d) > 1e-9)
                if not r.check(len(nz) == 1, "perturb|prox", "the function is not compared at two points differing in one component", d=d, **ctx):
                    continue
                j = int(nz[0])
                im = abs(d[j].imag) > abs(d[j].real)
                r.check(cplx or not im, "imag|prox", "real vector perturbed in its imaginary part", **ctx)
                seen.add((j, im))
                wrong = bad == j and abs((err.imag if im else err.real) if isinstance(err, complex) else (0.0 if im else err)) > 0
                judge(r, "verdict|prox|%s" % ("wrong" if wrong else "right"), "gradtest_proximal", res, raiseerror, not wrong, ctx)
                if x is not None:
                    r.check(np.array_equal(x1, x), "mut|prox", "the vector given by the user was modified", **ctx)
            r.trace()
            need = {(j, im) for j in range(n) for im in ((False, True) if cplx else (False,))}
            r.check(seen == need, "cover|prox", "components that no draw tests: %s" % sorted(need - seen), n=n, cplx=cplx)


def one(n, cplx, bad, err, x, tol, raiseerror, verb):
    op = Probe(n, cplx, bad, err)
    x1 = None if x is None else x.copy()
    st = np.random.get_state()
    np.random.seed(5)
    res = call(lambda: gradtest_proximal(op, n, x=x1, complexflag=cplx, raiseerror=raiseerror, verb=verb, **tol))
    np.random.set_state(st)
    return res, op, x1


def run_bil(case, r):
    tier, _, (n, k, m), cplx = case
    whole, cplx = cplx == "int", cplx is True
    f = 1 + (0.5j if cplx else 0)
    L = n * k + k * m
    base = np.array([1.5, -0.5, 2.0, 0.25, -1.0, 3.0, 0.5, -2.0, 1.0, 0.75])[:L] * f
    if whole:
        base = np.array([2, -1, 3, 0, -1, 3, 1, -2, 1, 4])[:L]
    d = (np.arange(1.0, n * m + 1) - 0.5) * (1 - (0.25j if cplx else 0))
    errs = [(None, 0.0)] + [(i, e) for i in range(L) for e in ((0.5, -0.5j) if cplx else (0.5, -0.5))]
    for (bad, err), raiseerror, verb in itertools.product(errs, (False, True), (False, True)):
        for tol in (dict(atol=1e-3), dict(rtol=1e-3, atol=1e-7)):
            seen = set()

            def go():
                X, Y = base[: n * k].reshape(n, k).copy(), base[n * k:].reshape(k, m).copy()
                H = ProbeBil(X, Y, d.copy(), bad, err)
                res = call(lambda: gradtest_bilinear(H, complexflag=cplx, raiseerror=raiseerror, verb=verb, **tol))
                return res, H, X, Y

            for sched, (res, H, X, Y) in explore(go):
                r.trans(), r.state(bad, str(err), raiseerror, verb, str(tol), sched), r.outcome(str(res))
                ctx = dict(shape=[n, k, m], bad=bad, err=str(err), draws=str(sched), tol=tol)
                if len(H.calls) != 2:
                    continue
                dd = H.calls[1] - H.calls[0]
                nz = np.flatnonzero(np.abs(dd) > 1e-9)
                if not r.check(len(nz) == 1, "perturb|bil", "the function is not compared at two points differing in one component", d=dd, **ctx):
                    continue
                j = int(nz[0])
                im = abs(dd[j].imag) > abs(dd[j].real)
                seen.add((j, im))
                e = complex(err)
                wrong = bad == j and abs(e.imag if im else e.real) > 0
                judge(r, "verdict|bil|%s" % ("wrong" if wrong else "right"), "gradtest_bilinear", res, raiseerror, not wrong, ctx)
                same = all(np.array_equal(np.ravel(a), b) for a, b in ((X, base[: n * k]), (Y, base[n * k:]), (H.x, base[: n * k]), (H.y, base[n * k:])))
                r.check(same, "mut|bil", "the operator's variables were modified by the test", **ctx)
            r.trace()
            need = {(j, im) for j in range(L) for im in ((False, True) if cplx else (False,))}
            r.check(seen == need, "cover|bil", "components that no draw tests: %s" % sorted(need - seen))


class Fake(pp.ProxOperator):
    def __init__(self, where=None, i=0, e=0.0):
        super().__init__(None, False)
        self.where, self.i, self.e = where, i, e

    def __call__(self, x):
        return float(np.sum(np.abs(x)))

    def prox(self, x, tau):
        y = np.sign(x) * np.maximum(np.abs(x) - tau, 0)
        if self.where == "prox":
            y[self.i] += self.e
        return y

    def proxdual(self, x, tau):
        y = np.clip(x, -1, 1)
        if self.where == "dual":
            y[self.i] += self.e
        return y


def run_moreau(case, r):
    tier, _, n = case
    xs = [np.array(v) for v in itertools.product([-2.0, 0.0, 0.5, 3.0], repeat=n)]
    for x, tau in itertools.product(xs, (0.25, 1.0, 4.0)):
        for where, i, e in [(None, 0, 0.0)] + [(w, i, s * e) for w in ("prox", "dual") for i in range(n) for e in (0.02, 1.0) for s in (1, -1)]:
            for raiseerror, verb, tol in itertools.product((False, True), (False, True), (None, 1e-3, 0.05, 0.5)):
                x1 = x.copy()
                kw = {} if tol is None else {"tol": tol}
                res = call(lambda: moreau(Fake(where, i, e), x1, tau, raiseerror=raiseerror, verb=verb, **kw))
                r.state(x, tau, where, i, e, raiseerror, verb, tol), r.trans(), r.trace(), r.outcome(str(res))
                dev = abs(e) * (tau if where == "dual" else 1.0)
                tl = tol or 1e-5
                if 0.9 * tl < dev < 1.2 * tl + 1e-3:
                    continue
                judge(r, "moreau|%s" % where, "moreau", res, raiseerror, dev <= tl, dict(x=x, tau=tau, where=where, i=i, e=e, tol=tol))
                r.check(np.array_equal(x1, x), "moreau-mut", "input modified", x=x)
