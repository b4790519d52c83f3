"""C20: stopping rules stop at exactly the documented iteration; accepted line search steps satisfy the documented
sufficient decrease condition."""

import itertools

import numpy as np
import pylops

from pyproximal.optimization import palm as PL
from pyproximal.optimization import primal as P
from pyproximal.optimization import primaldual as PD
from pyproximal.optimization.bregman import Bregman

from mc import solv as S
from mc.props.c15 import F, G, X0
from mc.props.c16 import FS, LM, fac, op
from mc.props.c21 import MODELS, vec

ID = "C20"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "problems with 1-4 unknowns, probes with closed forms; horizon 25 (quick) / 60 (thorough) iterations",
    "the run without tolerance gives the path; a criterion within 1e-9 (relative) of its threshold ends the comparison of that run; "
    "an objective of exactly zero makes the relative criterion of the proximal gradient undefined: either answer is accepted",
    "PPXA and ConsensusADMM: largest absolute change of the solution below tol; PG/Anderson/ProximalPoint: relative change of the "
    "objective below tol; AdaptivePrimalDual: both residual norms at most tol; Bregman: as documented",
]
TOLS = [0.5, 1e-1, 1e-2, 1e-3, 1e-5]


def cases(tier):
    n = 25 if tier == "quick" else 60
    out = []
    for fn, gn in itertools.product(F, G):
        if F[fn][1] == "c" and gn == "box":
            continue
        out += [["pgtol", fn, gn, n], ["constol", fn, gn, n], ["bt", fn, gn, n]]
    out += [["pptol", gn, n] for gn in list(G)]
    for m, gn in itertools.product(LM, G):
        if LM[m][1] == "c" and gn == "box":
            continue
        out.append(["apdtol", m, gn, n])
    for m in MODELS:
        out.append(["palmbt", m, n])
    out += [["breg", f, g, n] for f in ("affA1", "affA2", "sq", "affA3") for g in ("l1", "euc", "hub")]
    return out


def run(case, r):
    globals()["run_" + case[0]](r, *case[1:])


def stop_relative(J, tol, n):
    """First k (1-based) whose objective changed by less than tol relative to the previous one."""
    for k in range(1, len(J)):
        a, b = J[k - 1], J[k]
        if a == 0 and b == 0:
            raise S.Ambiguous
        q = abs(b - a) - tol * abs(a)
        if abs(q) <= 1e-9 * max(abs(a), abs(b), 1e-300):
            if not (a == b and tol > 1e-6):
                raise S.Ambiguous
        if q < 0:
            return k + 1
    return n


def stop_at(path, crit, n):
    for k, v in enumerate(path):
        if crit(k, v):
            return k + 1
    return n


def judge(r, sig, d, full, got, x, want):
    r.trace()
    r.trans(len(got))
    r.state(d)
    r.outcome(sig, len(got), want)
    if r.check(len(got) == want, sig + "|stop", "%s: stopped after %d iterations, the criterion is first met at %d" % (d, len(got), want)):
        r.check(all(np.array_equal(a, b) for a, b in zip(got, full)), sig + "|path", d + ": the tolerance changes the iterates")
        r.check(np.array_equal(x, full[want - 1]), sig + "|ret", d + ": result is not the iterate that met the criterion")


def paths(call, tols, n):
    full = []
    call(None, full.append)
    for tol in tols:
        got = []
        x = call(tol, got.append)
        yield tol, full, got, x


def cp(lst):
    return lambda v, *a: lst(np.array(v))


def run_pptol(r, gn, n):
    for x0, tau in itertools.product(X0["1"] + X0["2"] + X0["3"] + X0["c"][: 0 if gn == "box" else 2], (0.05, 0.3, 2.0)):
        f = G[gn]()
        d = "ProximalPoint %s x0=%s tau=%g" % (gn, x0, tau)

        def call(tol, cb):
            return P.ProximalPoint(f, x0.copy(), tau, niter=n, tol=tol, callback=cp(cb))

        for tol, full, got, x in paths(call, TOLS, n):
            try:
                J = [float(f(v)) for v in full]
                # zero objective twice: no change, stop
                want = n
                for k in range(1, n):
                    if J[k] == J[k - 1] == 0:
                        want = k + 1
                        break
                    if stop_relative(J[k - 1 : k + 1], tol, 99) != 99:
                        want = k + 1
                        break
            except S.Ambiguous:
                continue
            judge(r, "pp", "%s tol=%g" % (d, tol), full, got, x, want)


def run_pgtol(r, fn, gn, n):
    ff, size = F[fn]
    for x0, v, eps in itertools.product(X0[size], ("pg", "pgbt", "fista", "vand", "apg", "aa", "aas"), (1.0, 0.3)):
        f, g = ff(), G[gn]()
        d = "%s f=%s g=%s x0=%s epsg=%g" % (v, fn, gn, x0, eps)

        def call(tol, cb):
            kw = dict(niter=n, tol=tol, callback=cp(cb), epsg=eps)
            if v == "pg":
                return P.ProximalGradient(f, g, x0.copy(), tau=0.12, **kw)
            if v == "pgbt":
                return P.ProximalGradient(f, g, x0.copy(), tau=1.0, backtracking=True, **kw)
            if v in ("fista", "vand"):
                return P.ProximalGradient(f, g, x0.copy(), tau=0.12, acceleration=dict(fista="fista", vand="vandenberghe")[v], **kw)
            if v == "apg":
                return P.AcceleratedProximalGradient(f, g, x0.copy(), tau=0.12, **kw)
            return P.AndersonProximalGradient(f, g, x0.copy(), tau=0.12, nhistory=3, safeguard=v == "aas", **kw)

        for tol, full, got, x in paths(call, TOLS, n):
            try:
                want = stop_relative([float(f(w) + eps * g(w)) for w in full], tol, n)
            except S.Ambiguous:
                continue
            judge(r, v, "%s tol=%g" % (d, tol), full, got, x, want)


def run_constol(r, fn, gn, n):
    ff, size = F[fn]
    for x0, v, tau in itertools.product(X0[size], ("ppxa", "ppxaw", "cons", "cons3"), (0.3, 2.0)):
        f, g = ff(), G[gn]()
        d = "%s f=%s g=%s x0=%s tau=%g" % (v, fn, gn, x0, tau)

        def call(tol, cb):
            kw = dict(niter=n, tol=0.0 if tol is None else tol, callback=cp(cb))
            if v == "ppxa":
                return P.PPXA([f, g], x0.copy(), tau, **kw)
            if v == "ppxaw":
                return P.PPXA([f, g], x0.copy(), tau, eta=0.7, weights=[0.25, 0.75], **kw)
            return P.ConsensusADMM([f, g] if v == "cons" else [f, g, G["l1"]()], x0.copy(), tau, **kw)

        for tol, full, got, x in paths(call, TOLS + [5.0], n):
            # x^0 of PPXA is the weighted average of its starting points
            steps = [np.max(np.abs(a - b)) for a, b in zip(full, [x0] + full[:-1])]
            if any(abs(s - tol) <= 1e-9 * max(s, tol) for s in steps):
                continue
            judge(r, v, "%s tol=%g" % (d, tol), full, got, x, stop_at(steps, lambda k, s: s < tol, n))


def run_apdtol(r, m, gn, n):
    M, size = LM[m]
    for fn, x0, (tau, mu) in itertools.product(FS[size], X0[size], ((0.3, 0.2), (2.0, 0.05))):
        f, g = fac(fn)(), G[gn]()
        d = "AdaptivePrimalDual f=%s g=%s A=%s x0=%s tau=%g mu=%g" % (fn, gn, m, x0, tau, mu)
        full = []
        PD.AdaptivePrimalDual(f, g, op(M), x0.copy(), tau, mu, niter=n, tol=0.0, callback=lambda v: full.append(np.array(v)))
        for tol in TOLS:
            got = []
            x, st = PD.AdaptivePrimalDual(f, g, op(M), x0.copy(), tau, mu, niter=n, tol=tol, callback=lambda v: got.append(np.array(v)))
            try:
                want = len(list(S.ref_apd(f, g, M, x0, tau, mu, 0.5, 0.95, 1.0, 1.5, None, n, tol, exact=True)))
            except S.Ambiguous:
                continue
            if want > len(full):
                continue
            judge(r, "apd", "%s tol=%g" % (d, tol), full, got, x, want)
            r.check(all(len(s) == want + 1 for s in st), "apd|steps", d + ": step histories do not match the iterations")


def run_bt(r, fn, gn, n):
    """Every step accepted by the backtracking of the proximal gradient satisfies the sufficient decrease condition,
    is not larger than the previous one and is tau0 beta^m."""
    ff, size = F[fn]
    for x0, tau0, beta, acc, eps in itertools.product(X0[size], (8.0, 1.0, 0.3), (0.5, 0.8), (None, "fista", "vandenberghe"), (1.0, 0.4)):
        f, g = ff(), G[gn]()
        xs, ts = [], []

        def cb(v):
            xs.append(np.array(v))
            ts.append(float(g.log[-1][2]))

        P.ProximalGradient(f, g, x0.copy(), tau=tau0, backtracking=True, beta=beta, acceleration=acc, epsg=eps, niter=n, niterback=200, callback=cb)
        d = "ProximalGradient f=%s g=%s x0=%s tau=%g beta=%g %s epsg=%g" % (fn, gn, x0, tau0, beta, acc, eps)
        om = S.omega_seq(acc)
        y, last = x0, tau0
        for k, (x, t) in enumerate(zip(xs, ts)):
            t = t / eps
            dd = x - y
            lhs, rhs = f.f_val(x), S.ftilde(f, x, y, t)
            r.state(d, k, t)
            r.trans()
            r.check(lhs <= rhs + 1e-9 * max(1, abs(lhs), abs(rhs)), "bt|decrease", "%s: step %d (tau=%g) violates f(x) <= f~(x): %g > %g" % (d, k, t, lhs, rhs))
            r.check(t <= last * (1 + 1e-12), "bt|monotone", "%s: step %d grows from %g to %g" % (d, k, last, t))
            mexp = np.log(t / tau0) / np.log(beta)
            r.check(abs(mexp - round(mexp)) < 1e-6, "bt|factor", "%s: step %d is %g, not a power of beta times tau0" % (d, k, t))
            # a step is only reduced if the larger one failed
            if t < last * 0.999:
                big = t / beta
                z = g.f_prox(y - big * f.f_grad(y), eps * big)
                a, b = f.f_val(z), S.ftilde(f, z, y, big)
                r.check(a > b - 1e-9 * max(1, abs(a), abs(b)), "bt|needless", "%s: step %d reduced to %g although %g is acceptable" % (d, k, t, big))
            ref = g.f_prox(y - t * f.f_grad(y), eps * t)
            r.check(S.close(x, ref, 1e-9), "bt|step", "%s: iterate %d is not the proximal step with the accepted tau" % (d, k))
            last = t
            xp = xs[k - 1] if k else x0
            y = x + next(om) * (x - xp)
        r.outcome(*ts)
        r.trace()


def run_palmbt(r, m, n):
    mod, cplx = MODELS[m]
    a_, k_, b_ = mod.s
    n = min(n, 15)
    for st, (pf, pg), a, beta in itertools.product((0, 3, 5), (("l1", "l1"), ("sq", "euc"), ("hub", "l1")), (None, (0.0, 0.0), (0.5, 0.3)), (0.5, 0.8)):
        x0, y0 = vec(a_ * k_, st, cplx), vec(k_ * b_, st + 1, cplx)
        H = mod.impl(x0, y0)
        f, g = G[pf](), G[pg]()
        tr = []
        solver = PL.PALM if a is None else PL.iPALM
        kw = {} if a is None else dict(a=a)
        solver(H, f, g, x0.copy(), y0.copy(), gammaf=None, gammag=None, beta=beta, niter=n, niterback=200,
               callback=lambda u, v: tr.append((np.array(u), np.array(v), float(f.log[-1][2]), float(g.log[-1][2]))), **kw)
        d = "%s %s f=%s g=%s start=%d a=%s beta=%g" % (solver.__name__, m, pf, pg, st, a, beta)
        ai = a or (0.0, 0.0)
        xo, x, yo, y, tl, sl = x0, x0, y0, y0, 1.0, 1.0
        for k, (xn, yn, t, s) in enumerate(tr):
            xz, yz = x + ai[0] * (x - xo), y + ai[1] * (y - yo)
            for nm, z, znew, step, prev, fun, gr in (
                    ("x", xz, xn, t, tl, lambda v: mod.val(v, y), lambda v: mod.gx(v, y)),
                    ("y", yz, yn, s, sl, lambda v: mod.val(xn, v), lambda v: mod.gy(xn, v))):
                dz = znew - z
                lhs = fun(znew)
                rhs = fun(z) + float(np.real(np.vdot(gr(z), dz))) + float(np.sum(np.abs(dz) ** 2)) / (2 * step)
                r.state(d, k, nm)
                r.trans()
                r.check(step < 1e-11 or lhs <= rhs + 1e-9 * max(1, abs(lhs), abs(rhs)), "palmbt|decrease",
                        "%s: iteration %d, block %s (step %g) violates sufficient decrease: %g > %g" % (d, k, nm, step, lhs, rhs))
                r.check(step <= prev * (1 + 1e-12), "palmbt|monotone", "%s: iteration %d, block %s: step grows" % (d, k, nm))
            xo, x, yo, y, tl, sl = x, xn, y, yn, t, s
        r.outcome(*[v[2:] for v in tr])
        r.trace()


def run_breg(r, fn, gn, n):
    """Default tolerances: stop when the update or f falls below 1e-10, not before."""
    for x0, alpha, warm in itertools.product((0, 1), (1.0, 0.4), (False, True)):
        ff, size = F[fn]
        x0 = X0[size][x0]
        f, g = ff(), G[gn]()
        L = {"sq": 2.0, "affA1": 6.0, "affA2": 1.2, "affA3": 2.3}[fn]
        for tolx, tolf in ((None, None), (1e-3, 1e-12), (1e-12, 1e-3), (0.05, 0.05)):
            kw = {} if tolx is None else dict(tolx=tolx, tolf=tolf)
            full, got = [], []
            for hist, k2 in ((full, dict(tolx=-1.0, tolf=-1.0)), (got, kw)):
                x = Bregman(f, g, x0.copy(), P.ProximalGradient, alpha=alpha, niterouter=n, warm=warm, tau=0.9 / L, niter=25,
                            bregcallback=lambda v: hist.append(np.array(v)), **k2)
            tx, tf = (1e-10, 1e-10) if tolx is None else (tolx, tolf)
            steps = [(float(np.linalg.norm(a - b)), f.f_val(a)) for a, b in zip(full, [x0] + full[:-1])]
            near = [k for k, (s, v) in enumerate(steps) if abs(s - tx) <= 1e-6 * tx or abs(v - tf) <= 1e-6 * tf or (tx < 1e-8 and s < 1e-8 and s > tx * 0.1)]
            want = stop_at(steps, lambda k, sv: sv[0] < tx or sv[1] < tf, n)
            if near and near[0] < want:
                continue
            judge(r, "bregman", "Bregman f=%s g=%s x0=%s alpha=%g warm=%s %s" % (fn, gn, x0, alpha, warm, kw), full, got, x, want)
