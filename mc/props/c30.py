"""C30: an interrupted call or run leaves nothing behind, and runs nested into one another do not disturb each other.

Fault injection under a controlled scheduler: the interpreter's trace hook turns every line, call and return executed inside
the library, and every call the library makes into user code, into a numbered event. A first execution counts the events;
then one execution per event is cut there by an exception, and the caller's arrays, the operators' later answers, a second run
and the process-wide numerical settings are compared with what they are without the interruption. In the nesting part a
complete second run is scheduled at every entry of an operator's method or of the callback instead of the exception."""

import contextlib
import io
import os
import sys
import warnings

import numpy as np

import pyproximal as pp
from pyproximal.utils.bilinear import LowRankFactorizedMatrix

from mc.props import c09, c18

ID = "C30"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "solver configurations of C18 (real and complex), run length 2 (quick) / 4 (thorough), first start other than zero; all "
    "operator settings of C09; the low-rank functional (3 shapes, with and without operator, real and complex) at every event",
    "crash points: every line, call and return executed inside the package and every Python function it calls directly; of an "
    "operator call with more than 160 (quick) / 1200 (thorough) events the first and last 80 / 600",
    "callback exceptions: 7 exception classes at every iteration; user linear operators: 4 classes at every application",
    "an interrupted prox of an operator with iteration-dependent parameters may or may not have been counted",
    "nested runs are scheduled between operator calls and inside callbacks, not inside one operator's method (operators are not "
    "claimed to be re-entrant)",
]
PKG = os.path.dirname(os.path.abspath(pp.__file__)) + os.sep
EXC = (KeyboardInterrupt, ValueError, TypeError, KeyError, AttributeError, FloatingPointError, NotImplementedError)


class Cut(KeyboardInterrupt):
    pass


@contextlib.contextmanager
def events(at, act):
    """number the events inside; call act() at number at"""
    n = [0]

    def tick():
        n[0] += 1
        if n[0] == at:
            act()

    def local(frame, event, arg):
        if event in ("line", "return"):
            tick()
        return local

    def glob(frame, event, arg):
        mine = frame.f_code.co_filename.startswith(PKG)
        b = frame.f_back
        if mine or b is not None and b.f_code.co_filename.startswith(PKG):
            tick()
        return local if mine else None

    sys.settrace(glob)
    try:
        yield n
    finally:
        sys.settrace(None)


def boom():
    raise Cut("cut")


def settings():
    st = np.random.get_state()
    return (tuple(sorted(np.geterr().items())), repr(sorted(np.get_printoptions().items(), key=str)), st[1].tobytes(), st[2:],
            repr(warnings.filters), sys.getrecursionlimit())


def cases(tier):
    out = [["solver", tier, s, c] for s in c18.CONF for c in (0, 1) if not (c and s in c18.REAL)]
    out += [["nest", tier, s, c] for s in c18.CONF for c in (0, 1) if not (c and s in c18.REAL)]
    out += [["exc", tier, s] for s in c18.CONF]
    out += [["op", tier, k] for k in c09.entries(tier)]
    out += [["sched", tier, k] for k in SCHED]
    out += [["bil", tier, sh, o, c] for sh in ("321", "212", "143") for o in (0, 1) for c in (0, 1)]
    return out


def run(case, r):
    kind = case[0]
    # unusual settings, so that setting them to any usual value shows
    with np.errstate(all="call", call=lambda *a: None), np.printoptions(precision=11):
        {"solver": solver, "op": operator, "exc": exceptions, "sched": scheduled, "nest": nested, "bil": bilinear}[kind](case, r)


def shorten(N, cap):
    return list(range(1, N + 1)) if N <= 2 * cap else list(range(1, cap + 1)) + list(range(N - cap + 1, N + 1))


def solver(case, r):
    _, tier, name, cplx = case
    f, k = c18.CONF[name], (2 if tier == "quick" else 4)
    st = 1
    go = lambda e: c18.flat(f(e, k))
    want = go(c18.Env(cplx, st))
    g0 = settings()
    with events(None, None) as n:
        go(c18.Env(cplx, st))
    base = events_of(lambda: c18.Env(cplx, st))
    r.check(settings() == g0, "settings|" + name, "a run changes process-wide settings")
    cap = 160 if tier == "quick" else 1500
    for at in shorten(n[0] - base, cap):
        e = c18.Env(cplx, st)
        before = e.snapshot()
        cut = None
        with events(at, boom):
            try:
                go(e)
            except Cut as ex:
                cut = ex
        r.trans()
        d = "%s %s cut at event %d of %d" % (name, "complex" if cplx else "real", at, n[0] - base)
        after = e.snapshot()
        r.check(before == after, "mut|" + name, "%s: the caller's %s changed" % (d, [a[0] for a, b in zip(before, after) if a != b]))
        r.check(settings() == g0, "settings|" + name, d + ": process-wide settings stay changed")
        again = go(e)
        r.trans()
        r.check(c18.same(again, want), "again|" + name, "%s: the next run gives %s, without the interruption %s" % (d, again, want))
        r.state(name, cplx, at)
        r.outcome(cut is not None, *again)
        r.trace()
    r.sample("%s: %d crash points" % (name, n[0] - base))


def events_of(fn):
    with events(None, None) as n:
        fn()
    return n[0]


def exceptions(case, r):
    """whatever the callback or a linear operator raises reaches the caller as it is"""
    _, tier, name = case
    f, k = c18.CONF[name], 3
    total = [0]
    if name not in c18.NOCB:
        hist = []
        f(c18.Env(0, 1), k, callback=lambda *v: hist.append(0))
        want = c18.flat(f(c18.Env(0, 1), k))
        for j in range(1, len(hist) + 1):
            for X in EXC:
                ex, m = X("user"), [0]

                def cb(*v):
                    m[0] += 1
                    if m[0] == j:
                        raise ex
                e = c18.Env(0, 1)
                before = e.snapshot()
                got = caught(lambda: f(e, k, callback=cb))
                d = "%s: callback raises %s at iteration %d" % (name, X.__name__, j)
                r.check(got is ex, "exc|%s|%s" % (name, X.__name__), "%s, the caller gets %r" % (d, got))
                r.check(m[0] == j, "exc|%s|goes on" % name, d + " and is called again")
                r.check(before == e.snapshot(), "mut|" + name, d + ": the caller's data changed")
                r.check(c18.same(c18.flat(f(e, k)), want), "again|" + name, d + ": the next run differs")
                r.trans(2)
                r.trace()
                r.state(name, j, X.__name__)
                r.outcome(type(got).__name__)
    # linear operators of the user
    mv = c18.pylops.MatrixMult._matvec, c18.pylops.MatrixMult._rmatvec
    cnt, at, exc = [0], [0], [None]

    def hook(i):
        def go(self, x):
            cnt[0] += 1
            if cnt[0] == at[0]:
                raise exc[0]
            return mv[i](self, x)
        return go

    try:
        c18.pylops.MatrixMult._matvec, c18.pylops.MatrixMult._rmatvec = hook(0), hook(1)
        e = c18.Env(0, 1)
        cnt[0] = 0
        want = c18.flat(f(e, k))
        N = cnt[0]
        for j in shorten(N, 60 if tier == "quick" else 300):
            for X in EXC[:4]:
                exc[0] = X("user")
                e = c18.Env(0, 1)
                before = e.snapshot()
                cnt[0], at[0] = 0, j
                got = caught(lambda: f(e, k))
                at[0] = 0
                d = "%s: a linear operator raises %s at its application %d" % (name, X.__name__, j)
                r.check(got is exc[0], "exc|%s|Op %s" % (name, X.__name__), "%s, the caller gets %r" % (d, got))
                r.check(before == e.snapshot(), "mut|" + name, d + ": the caller's data changed")
                if X is ValueError:
                    r.check(c18.same(c18.flat(f(e, k)), want), "again|" + name, d + ": the next run differs")
                r.trans(2)
                r.trace()
                r.state(name, "Op", j, X.__name__)
    finally:
        c18.pylops.MatrixMult._matvec, c18.pylops.MatrixMult._rmatvec = mv


def caught(fn):
    try:
        fn()
    except BaseException as ex:
        return ex
    return None


def operator(case, r):
    _, tier, key = case
    e = c09.entries(tier)[key]
    xs = [x for x in e.xs if x.shape == e.xs[0].shape and not np.iscomplexobj(x)] or e.xs
    xs = [xs[len(xs) // 5], xs[(4 * len(xs)) // 5]]
    t1, t2 = e.taus[0], e.taus[-1]
    EV = {"prox": lambda a, x: a.prox(x, t1), "dual": lambda a, x: a.proxdual(x, t2), "val": lambda a, x: a(x), "grad": lambda a, x: a.grad(x)}
    fresh = {}
    for n, f in EV.items():
        try:
            fresh[n] = [f(e.build(True)[0], x.copy()) for x in xs]
        except NotImplementedError:
            pass
    fresh = {n: v for n, v in fresh.items() if v[0] is not None}
    tol = 1e-5 if e.iterative else 1e-9

    def same(y, w):
        ya, wa = np.asarray(y, dtype=complex), np.asarray(w, dtype=complex)
        return ya.shape == wa.shape and np.max(np.abs(ya - wa), initial=0) <= tol * (1 + np.max(np.abs(wa), initial=0))

    g0 = settings()
    cap = 80 if tier == "quick" else 600
    for n in fresh:
        f = EV[n]
        a, _ = e.build(True)
        pre = public(a)
        N = events_of(lambda: f(a, xs[0].copy()))
        post = public(a)
        r.check(settings() == g0, "settings|" + key, "%s changes process-wide settings" % n)
        for at in shorten(N, cap):
            a, arrs = e.build(True)
            keep = {k: np.array(v, copy=True) for k, v in arrs.items() if isinstance(v, np.ndarray)}
            x = xs[0].copy()
            with events(at, boom):
                try:
                    f(a, x)
                except Cut:
                    pass
            r.trans()
            d = "%s of %s cut at event %d of %d" % (n, key, at, N)
            r.check(x.tobytes() == xs[0].tobytes(), "%s|%s|input" % (key, n), d + ": the input vector is left modified")
            r.check(all(np.array_equal(keep[k], arrs[k], equal_nan=True) for k in keep), "%s|%s|array" % (key, n), d + ": a constructor array is left modified")
            r.check(settings() == g0, "settings|" + key, d + ": process-wide settings stay changed")
            now = public(a)
            for k in pre:
                r.check(k not in post or now.get(k) in (pre[k], post[k]), "%s|%s|%s" % (key, n, k), "%s: attribute %s is left with another value" % (d, k))
            # the same call again, the others at the other point
            for m in [n] + [m for m in fresh if m != n]:
                i = 0 if m == n else 1
                y = EV[m](a, xs[i].copy())
                r.trans()
                r.check(same(y, fresh[m][i]), "%s|%s|then %s" % (key, n, m), "%s: %s then gives %s, without the interruption %s" % (d, m, y, fresh[m][i]))
            r.state(key, n, at)
            r.trace()
            r.outcome(n, np.asarray(y, dtype=complex))


def public(a):
    """public attributes with plain values"""
    return {k: (np.shape(v), np.asarray(v).tobytes()) for k, v in vars(a).items()
            if not k.startswith("_") and isinstance(v, (np.ndarray, np.number, int, float, complex)) and np.asarray(v).dtype != object}


SCHED = {
    "L0": (lambda: pp.L0(sigma=lambda k: 1.0 + k), 1), "L0Ball": (lambda: pp.L0Ball(lambda k: 1 + k), 1), "L10Ball": (lambda: pp.L10Ball(2, lambda k: 1 + k), 1),
    "L1": (lambda: pp.L1(sigma=lambda k: 0.1 * (1 + k)), 1), "TV": (lambda: pp.TV((4,), sigma=0.4, niter=lambda k: 1 + k, rtol=0), 1),
    "RelaxedMumfordShah": (lambda: pp.RelaxedMumfordShah(sigma=lambda k: 0.1 * (1 + k), kappa=lambda k: 2.0 + k), 1),
}


def scheduled(case, r):
    _, tier, name = case
    make = SCHED[name][0]
    x = np.array([1.0, -2.0, 3.0, 0.5])
    if name == "L10Ball":
        x = np.array([1.0, -2.0, 3.0, 0.5, 2.0, 1.5])
    ref = make()
    seq = [np.array(ref.prox(x.copy(), 0.7)) for _ in range(5)]
    for done in range(3):
        a = make()
        for _ in range(done):
            a.prox(x.copy(), 0.7)
        N = events_of(lambda: a.prox(x.copy(), 0.7))
        for at in range(1, N + 1):
            a = make()
            for _ in range(done):
                a.prox(x.copy(), 0.7)
            with events(at, boom):
                try:
                    a.prox(x.copy(), 0.7)
                except Cut:
                    pass
            y = np.array(a.prox(x.copy(), 0.7))
            y2 = np.array(a.prox(x.copy(), 0.7))
            ok = any(np.allclose(y, seq[done + i], atol=1e-12) and np.allclose(y2, seq[done + i + 1], atol=1e-12) for i in (0, 1))
            r.check(ok, "sched|" + name, "%s: after %d prox and one cut at event %d, the next two give %s, %s" % (name, done, at, y, y2))
            r.trans(done + 3)
            r.trace()
            r.state(name, done, at)
            r.outcome(y, y2)


class Flaky(c18.pylops.LinearOperator):
    """a diagonal operator of the user that fails at one of its applications"""

    def __init__(self, n, cplx):
        super().__init__(dtype=complex if cplx else float, shape=(n, n))
        self.w = np.linspace(1.0, 2.0, n) * (1 + 0.5j if cplx else 1)
        self.at, self.exc = 0, None

    def tick(self):
        self.at -= 1
        if self.at == 0:
            raise self.exc

    def _matvec(self, v):
        self.tick()
        return self.w * v

    def _rmatvec(self, v):
        self.tick()
        return np.conj(self.w) * v


def bilinear(case, r):
    """calls of the low-rank functional that are cut, that fail in the user's operator or that are refused"""
    _, tier, sh, useop, cplx = case
    n, m, k = map(int, sh)
    fac = 1 + 0.3j if cplx else 1.0
    X, Y = fac * np.arange(1.0, n * k + 1).reshape(n, k), np.conj(fac) * np.linspace(-1, 2, k * m).reshape(k, m)
    D = fac * np.cos(np.arange(n * m))
    x, y = X.ravel() * 0.5 - 1, Y.ravel() + 0.7
    xy = np.concatenate([x, y])
    CALLS = {"value": lambda H: H(x, y), "value1": lambda H: H(xy), "gradx": lambda H: H.gradx(x), "grady": lambda H: H.grady(y), "grad": lambda H: H.grad(xy)}
    if not useop:
        CALLS.update(lx=lambda H: H.lx(x), ly=lambda H: H.ly(y))
    if n != m:
        CALLS.update(mvx=lambda H: H.matvec(x), mvy=lambda H: H.matvec(y))
    BAD = {"value, short x": lambda H: H(x[:-1], y), "value, short y": lambda H: H(x, y[:-1]), "value, long x": lambda H: H(np.tile(x, 3)[: x.size + 1], y), "value, short": lambda H: H(xy[:-1]),
           "gradx, short": lambda H: H.gradx(x[:-1]), "grady, short": lambda H: H.grady(y[:-1]), "value, no array": lambda H: H(None, y), "value, y no array": lambda H: H(x, "y")}

    def mk():
        o = Flaky(n * m, cplx) if useop else None
        return LowRankFactorizedMatrix(X.copy(), Y.copy(), D.copy(), o), o
    want = {q: np.asarray(f(mk()[0])) for q, f in CALLS.items()}
    g0 = settings()

    def after(H, d):
        for q, f in CALLS.items():
            v = np.asarray(f(H))
            r.trans()
            r.check(v.shape == want[q].shape and np.allclose(v, want[q], rtol=1e-10, atol=1e-12), "bil|%s" % q, "%s: %s then gives %s, without the interruption %s" % (d, q, v, want[q]))
        r.check(np.array_equal(np.ravel(H.x), X.ravel()) and np.array_equal(np.ravel(H.y), Y.ravel()), "bil|factors", d + ": the internal factors changed")
        r.check(settings() == g0, "settings|bil", d + ": process-wide settings stay changed")
        r.trace()

    for q, f in CALLS.items():
        N = events_of(lambda: f(mk()[0]))
        for at in range(1, N + 1):
            H, _ = mk()
            with events(at, boom):
                try:
                    f(H)
                except Cut:
                    pass
            r.state(sh, useop, cplx, q, at)
            r.outcome(q, want[q])
            after(H, "%s cut at event %d of %d" % (q, at, N))
        for j, E in ((j, E) for j in (1, 2, 3, 4) for E in EXC[:4]) if useop else ():
            H, o = mk()
            o.at, o.exc = j, E("user")
            got = caught(lambda: f(H))
            hit, o.at = o.at <= 0, 0
            r.check((got is o.exc) == hit, "bil|exc|%s" % q, "%s: the operator raises %s, the caller gets %r" % (q, E.__name__, got))
            r.state(sh, useop, cplx, q, j, E.__name__)
            after(H, "%s whose operator raises %s at application %d" % (q, E.__name__, j))
    for q, f in BAD.items():
        H, _ = mk()
        got = caught(lambda: f(H))
        r.check(isinstance(got, Exception), "bil|accepted", "%s is accepted" % q)
        r.state(sh, useop, cplx, q)
        after(H, "%s is refused" % q)


OPS = ("f2", "fid", "l1", "l2", "box", "aff")


def nested(case, r):
    """a second run, or evaluations of all operators, inserted at every operator call and callback of a run"""
    _, tier, name, cplx = case
    f, k = c18.CONF[name], (3 if tier == "quick" else 6)
    st = 1
    cb = name not in c18.NOCB

    def outer(e, at, inner):
        n, hist, busy = [0], [], [0]

        def tick():
            if busy[0]:
                return
            n[0] += 1
            if n[0] == at:
                busy[0] = 1
                tr = sys.gettrace()
                inner(e)
                busy[0] = 0

        saved = []
        for o in OPS:
            op = getattr(e, o)
            cls = type(op)

            def wrap(meth, cls=cls):
                def go(self, *a, **kw):
                    if busy[0] > 1:
                        return meth(self, *a, **kw)
                    tick()
                    old, busy[0] = busy[0], 2
                    try:
                        return meth(self, *a, **kw)
                    finally:
                        busy[0] = old
                return go
            new = type(cls.__name__, (cls,), {m: wrap(getattr(cls, m)) for m in ("prox", "proxdual", "grad", "__call__") if hasattr(cls, m)})
            op.__class__ = new
            saved.append((op, cls))
        o = {}
        if cb:
            def callback(*v):
                hist.append(tuple(np.array(w) for w in v))
                tick()
            o["callback"] = callback
        try:
            res = c18.flat(f(e, k, **o))
        finally:
            for op, cls in saved:
                op.__class__ = cls
        return res, hist, n[0]

    want, whist, N = outer(c18.Env(cplx, st), None, None)
    alone = c18.flat(f(c18.Env(cplx, st), k))
    r.check(c18.same(alone, want), "observed|" + name, "%s: instrumented run differs" % name)

    def second(e):
        got.append(c18.flat(f(e, k)))

    def nosy(e):
        x, t = np.array([0.3, -2.0, 1.0]) * (1 + 0.5j if cplx else 1), 0.9
        for o in OPS:
            op = getattr(e, o)
            for m in (lambda: op(x), lambda: op.prox(x, t), lambda: op.proxdual(x, t), lambda: op.grad(x)):
                try:
                    m()
                except NotImplementedError:
                    pass

    for at in range(1, N + 1):
        for iname, inner in (("run", second), ("evaluation", nosy)):
            got = []
            res, hist, _ = outer(c18.Env(cplx, st), at, inner)
            d = "%s %s with a second %s at switch point %d of %d" % (name, "complex" if cplx else "real", iname, at, N)
            r.trans(2)
            r.trace()
            r.state(name, cplx, at, iname)
            r.outcome(*res)
            r.check(c18.same(res, want), "nest|%s|%s" % (name, iname), "%s: result %s, alone %s" % (d, res, want))
            r.check(len(hist) == len(whist) and all(c18.same(a, b) for a, b in zip(hist, whist)), "nest|%s|%s" % (name, iname), d + ": other iterates")
            if got:
                r.check(c18.same(got[0], alone), "nest|%s|inner" % name, "%s: the inner run gives %s, alone %s" % (d, got[0], alone))
