"""C29: the iteration log reports the iterates it claims to report, and reporting is the only thing it does.

Every configuration of C18 is run for every length with the log on; the rows are parsed and compared with the functions
evaluated at the iterates the callback shows."""

import contextlib
import io

import numpy as np

from mc.props import c18

ID = "C29"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "solver configurations, starts and (real and complex) problems of C18; run lengths 1..12, 25 and 101",
    "values are compared to the printed precision; complex first entries are reported by their real part; at least the first "
    "and the last nine iterations have a row",
    "SR3 has no iterate log; segmentation and PnP report the run of their inner solver (checked there)",
]
NS = {"quick": (1, 2, 5, 10, 11, 12, 25), "thorough": tuple(range(1, 26)) + (50, 101)}


def num(v):
    return 0.0 if v is None else float(np.real(v))


def f_of(*ops):
    return lambda e, k, x: [num(getattr(e, o)(x)) for o in ops]


def plus(fn):
    """f, g and their sum"""
    def go(e, k, *v):
        c = fn(e, k, *v)
        return c + [sum(c)]
    return go


def total(fn):
    return lambda e, k, *v: [sum(fn(e, k, *v))]


def pgrow(tau=None, eps=None):
    def go(e, k, x):
        f, g = num(e.f2(x)), num(e.l1(x))
        w = 1.0 if eps is None else eps(e, k)
        return [f, g, f + w * g, tau(e) if tau else None]
    return go


def pdrow(f, g, z):
    def go(e, k, x, *_):
        def val(o, v):
            v = getattr(e, o)(v)
            return 0.0 if isinstance(v, (bool, np.bool_)) else float(v)
        a, b, c = val(f, x), val(g, e.D @ x), float(np.real(np.dot(e.zlin, x))) if z else 0.0
        return [a, b, c, a + b + c]
    return go


def palmrow(f, g, ck, dk):
    def go(e, k, x, y):
        H = 0.5 * np.linalg.norm(np.outer(x, y).ravel() - e.M0) ** 2
        return [num(y[0]), num(getattr(e, f)(x)) if f else 0.0, num(getattr(e, g)(y)) if g else 0.0, H, None, None]
    return go


def lsq(s, A=None):
    return lambda e, k, x: [0.5 * np.linalg.norm(e.A @ x / s - e.b) ** 2, num(e.l1(x if A is None else e.D @ x))]


t0 = lambda e: 0.9 / e.L
tv = lambda e: e.taus[2]
ROW = {
    "pp": f_of("l2"), "pptol": f_of("l1"), "pg": pgrow(t0), "pgtol": pgrow(t0), "pgbt": pgrow(), "pgnone": pgrow(), "pgeta": pgrow(t0),
    "pgfista": pgrow(t0), "pgvand": pgrow(), "pgeps": None, "pgtauv": pgrow(tv), "apgtauv": pgrow(tv), "aatauv": pgrow(tv), "apg": pgrow(t0),
    "aa": pgrow(t0), "aasafe": pgrow(t0),
    "gpg": plus(lambda e, k, x: [num(e.f2(x)) + num(e.fid(x)), num(e.l1(x)) + num(e.box(x))]),
    "gpgacc": plus(lambda e, k, x: [num(e.f2(x)), num(e.l1(x)) + 0.5 * num(e.l2(x))]),
    "hqs": plus(lambda e, k, x, z: [num(e.f2(x)), num(e.l1(x))]), "hqsv": plus(lambda e, k, x, z: [num(e.f2(x)), num(e.l1(x))]),
    "admm": plus(lambda e, k, x, z: [num(e.f2(x)), num(e.l1(x))]), "admmg": plus(lambda e, k, x, z: [num(e.fid(x)), num(e.box(x))]),
    "admmz": plus(lambda e, k, x, z: [num(e.fid(x)), num(e.aff(x))]),
    "admml2": plus(lsq(1, "D")), "admml2g": plus(lsq(1, "D")), "ladmm": plus(lambda e, k, x: [num(e.f2(x)), num(e.l1(e.D @ x))]),
    "twist": plus(lsq(4)), "twistc": plus(lsq(4)),
    "dr": plus(lambda e, k, x, y: [num(e.f2(x)), num(e.l1(x))]), "drf": plus(lambda e, k, x, y: [num(e.box(x)), num(e.l1(x))]),
    "ppxa": total(f_of("f2", "l1")), "ppxal": total(f_of("fid", "box")), "ppxa2": total(f_of("f2", "l1")),
    "cons": total(f_of("f2", "l1", "fid")), "constol": total(f_of("f2", "l1")),
    "pd": None, "pdx": pdrow("box", "l2", False), "apd": None,
    "palm": palmrow("l1", "l1", 1, 1), "palmbt": palmrow(None, "l1", 0, 0), "ipalm": palmrow("l2", None, 1, 1), "ipalmbt": palmrow("l2", "l1", 0, 1),
    "breg": plus(lambda e, k, x: [num(e.f2(x)), 0.5 * num(e.l1(x))]), "bregw": plus(lambda e, k, x: [num(e.fid(x)), 2 * num(e.l1(x))]),
    "bregA": plus(lambda e, k, x: [num(e.f2(x)), num(e.l1(e.D @ x))]),
    "pnp": None, "pnppd": None,
}
ROW["pgeps"] = pgrow(t0, None)
ROW["pd"] = pdrow("f2", "l1", True)
ROW["apd"] = pdrow("f2", "l1", True)

def cases(tier):
    return [[tier, s, c, st] for s in ROW if ROW[s] for c in (0, 1) for st in range(3)]


def rows(text):
    out, on = [], False
    for l in text.splitlines():
        if l.strip().startswith("Itn"):
            on = True
            continue
        t = l.split()
        if on and t:
            try:
                out.append([float(v) for v in t])
            except ValueError:
                on = False
    return out


def run(case, r):
    tier, name, cplx, st = case
    for n in NS[tier]:
        e = c18.Env(cplx, st)
        hist, buf = [], io.StringIO()
        with contextlib.redirect_stdout(buf):
            c18.CONF[name](e, n, callback=lambda *v: hist.append([np.array(w) for w in v]), show=True)
        got = rows(buf.getvalue())
        r.state(name, cplx, st, n), r.trans(), r.trace(), r.outcome(*map(tuple, got))
        d = "%s %s start=%d niter=%d" % (name, "complex" if cplx else "real", st, n)
        its = [int(t[0]) for t in got]
        ok = r.check(its == sorted(set(its)) and all(1 <= i <= len(hist) for i in its), "rows|" + name,
                     "%s: rows are numbered %s but there were %d iterations" % (d, its[:12], len(hist)))
        if not ok:
            return
        need = [i for i in range(1, len(hist) + 1) if i < 10 or n - i < 9]
        r.check(set(need) <= set(its), "missing|" + name, "%s: no row for iterations %s" % (d, sorted(set(need) - set(its))[:6]))
        fresh = c18.Env(cplx, st)
        for t in got:
            k = int(t[0]) - 1
            v = hist[k]
            want = [float(np.real(v[0].ravel()[0]))]
            if name == "pgeps":
                w = fresh.taus[k] if n > 1 else fresh.taus[0]
                f, g = num(fresh.f2(v[0])), num(fresh.l1(v[0]))
                want += [f, g, f + w * g, t0(fresh)]
            else:
                want += ROW[name](fresh, k, *v)
            r.trans()
            good = len(t) == len(want) + 1 and all(w is None or abs(a - w) <= 2e-2 * 10 ** -digits(name, i) * abs(w) + 1e-9 for i, (a, w) in enumerate(zip(t[1:], want)))
            if not r.check(good, "row|" + name, "%s: the log says %s at iteration %d, where the values are %s" % (d, t[1:], k + 1, want)):
                return
    r.sample("%s: %s" % (name, got[-1]))


def digits(name, i):
    """digits printed after the leading two"""
    if "palm" in name and i > 0:
        return 0
    return 1
