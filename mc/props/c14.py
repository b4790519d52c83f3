"""C14: Sum is the prox of the (weighted) sum, GenericIntersection the projection on the intersection,
for every small set of components, weights, order, algorithm variant, point and step."""

import itertools

import numpy as np

import pyproximal as pp
from pyproximal import projection as pj

ID = "C14"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "vectors of length 2; all ordered pairs (and all unordered triples, quick: from 6 components, thorough: ordered "
    "triples from 8) of component functions / sets with a common point, 9 (quick) / 25 (thorough) input vectors, 2-3 step sizes",
    "reference minimiser by nested golden section search on the exact convex objective; comparison to 2e-4 with "
    "niter=20000, tol=1e-11 and to 2e-2 with the default settings",
    "convex components only; weights sum to one",
]
INF = np.inf
G = (np.sqrt(5) - 1) / 2


class Comp:
    """A convex function of two variables: value on its domain, x1-range and x2-range given x1."""

    def __init__(self, make, val, r1=(-INF, INF), seg=None, member=None, proj=None):
        self.make, self.val, self.r1 = make, val, r1
        self.seg = seg or (lambda t: (-INF, INF))
        self.member, self.proj = member, proj


def ballseg(c, rad):
    def seg(t):
        d = rad ** 2 - (t - c[0]) ** 2
        if d < 0:
            return (1.0, -1.0)
        return (c[1] - np.sqrt(d), c[1] + np.sqrt(d))
    return seg


A_ = np.array
zero = lambda a, b: 0.0
FUNCS = {
    "L1": Comp(lambda: pp.L1(0.8), lambda a, b: 0.8 * (abs(a) + abs(b))),
    "L1g": Comp(lambda: pp.L1(0.5, g=A_([2.0, -1.0])), lambda a, b: 0.5 * (abs(a - 2) + abs(b + 1))),
    "L2b": Comp(lambda: pp.L2(b=A_([-1.0, 1.0]), sigma=0.6), lambda a, b: 0.3 * ((a + 1) ** 2 + (b - 1) ** 2)),
    "Euc": Comp(lambda: pp.Euclidean(0.9), lambda a, b: 0.9 * np.sqrt(a * a + b * b)),
    "Box": Comp(lambda: pp.Box(-0.5, 1.5), zero, (-0.5, 1.5), lambda t: (-0.5, 1.5)),
    "Ball": Comp(lambda: pp.EuclideanBall(A_([1.0, 0.0]), 1.25), zero, (-0.25, 2.25), ballseg((1.0, 0.0), 1.25)),
    "Half": Comp(lambda: pp.HalfSpace(A_([1.0, 1.0]), 0.8) if hasattr(pp, "HalfSpace") else None, zero, (-INF, INF),
                 lambda t: (-INF, 0.8 - t)),
    "Pos": Comp(lambda: pp.Box(0.25, np.inf), zero, (0.25, INF), lambda t: (0.25, INF)),
}
if FUNCS["Half"].make() is None:
    del FUNCS["Half"]
SETS = {
    "Box": Comp(lambda: pj.BoxProj(-0.5, 1.5), zero, (-0.5, 1.5), lambda t: (-0.5, 1.5)),
    "Ball": Comp(lambda: pj.EuclideanBallProj(A_([1.0, 0.0]), 1.25), zero, (-0.25, 2.25), ballseg((1.0, 0.0), 1.25)),
    "Half": Comp(lambda: pj.HalfSpaceProj(A_([1.0, 1.0]), 0.8), zero, (-INF, INF), lambda t: (-INF, 0.8 - t)),
    "HalfB": Comp(lambda: pj.HalfSpaceProj(A_([-1.0, 2.0]), 0.4), zero, (-INF, INF), lambda t: (-INF, (0.4 + t) / 2)),
    "Pos": Comp(lambda: pj.BoxProj(0.25, np.inf), zero, (0.25, INF), lambda t: (0.25, INF)),
    "L1B": Comp(lambda: pj.L1BallProj(2, 1.5), zero, (-1.5, 1.5), lambda t: (-(1.5 - abs(t)), 1.5 - abs(t))),
    "Hyper": Comp(lambda: pj.HyperPlaneBoxProj(A_([1.0, 1.0]), 0.7, -3.0, 3.0), zero, (-2.3, 3.0), lambda t: (0.7 - t, 0.7 - t)),
}


def golden(f, lo, hi, it):
    a, b = lo, hi
    c, d = b - G * (b - a), a + G * (b - a)
    fc, fd = f(c), f(d)
    for _ in range(it):
        if fc < fd:
            b, d, fd = d, c, fc
            c = b - G * (b - a)
            fc = f(c)
        else:
            a, c, fc = c, d, fd
            d = a + G * (b - a)
            fd = f(d)
    cand = [a, b, (a + b) / 2, lo, hi]
    v = [f(t) for t in cand]
    return cand[int(np.argmin(v))]


def seg_of(comps, t):
    ss = [c.seg(t) for c in comps]
    return max(s[0] for s in ss), min(s[1] for s in ss)


def reference(comps, coefs, x, tau):
    """argmin sum coef_i f_i(z) + |z-x|^2/(2 tau) (coefs only matter for finite valued components)"""
    B = 12.0
    lo1 = max([c.r1[0] for c in comps] + [-B])
    hi1 = min([c.r1[1] for c in comps] + [B])

    def gap(t):
        l, h = seg_of(comps, t)
        return l - h

    # x1-range on which the x2-segment is non empty (an interval by convexity)
    ts = np.linspace(lo1, hi1, 241)
    ok = [t for t in ts if gap(t) <= 1e-12]
    if not ok:
        return None

    def edge(inside, outside):
        for _ in range(60):
            m = (inside + outside) / 2
            if gap(m) <= 1e-12:
                inside = m
            else:
                outside = m
        return inside
    l1 = ok[0] if ok[0] == lo1 else edge(ok[0], ok[0] - (ts[1] - ts[0]))
    h1 = ok[-1] if ok[-1] == hi1 else edge(ok[-1], ok[-1] + (ts[1] - ts[0]))

    def obj(a, b):
        return sum(k * c.val(a, b) for k, c in zip(coefs, comps)) + ((a - x[0]) ** 2 + (b - x[1]) ** 2) / (2 * tau)

    def inner(a):
        l, h = seg_of(comps, a)
        l, h = max(l, -B), min(h, B)
        if h < l:
            l = h = (l + h) / 2
        if h - l < 1e-12:
            return l
        return golden(lambda b: obj(a, b), l, h, 48)

    a = golden(lambda a: obj(a, inner(a)), l1, h1, 48)
    b = inner(a)
    return np.array([a, b]), obj(a, b), obj


XQ = [A_(v) for v in itertools.product([-2.0, 0.5, 3.0], repeat=2)]
XT = [A_(v) for v in itertools.product([-2.0, -0.25, 0.0, 1.0, 4.0], repeat=2)]


def sym_points():
    """Inputs at which two opposed components cancel: every half-integer point of a box."""
    return [A_(v) for v in itertools.product([-1.0, -0.5, 0.0, 0.5, 1.0], repeat=2)]


def cases(tier):
    out = []
    fk, sk = list(FUNCS), list(SETS)
    for c in itertools.permutations(fk, 2):
        out.append([tier, "sum", list(c)])
    tr = itertools.combinations(fk, 3) if tier == "quick" else itertools.permutations(fk, 3)
    for c in tr:
        out.append([tier, "sum", list(c)])
    for c in itertools.permutations(sk, 2):
        out.append([tier, "int", list(c)])
    for c in itertools.permutations(sk, 3) if tier == "thorough" else itertools.combinations(sk, 3):
        out.append([tier, "int", list(c)])
    for k in fk:
        out.append([tier, "sum", [k]])
    for k in sk:
        out.append([tier, "int", [k]])
    for n in (1, 2, 3):
        out.append([tier, "value", n])
    for a, b in itertools.product([0.5, 1.0, 2.0], [0.5, 1.0, 2.0]):
        out.append([tier, "opposed", a, b])
    out.append([tier, "counts"])
    return out


def close_pt(y, ref, tol):
    z, v, obj = ref
    return np.linalg.norm(y - z) <= tol


def run(case, r):
    tier, mode = case[:2]
    xs = XQ if tier == "quick" else XT
    taus = [0.5, 2.0] if tier == "quick" else [0.1, 0.5, 2.0, 8.0]
    if mode == "sum":
        run_sum(case, r, xs, taus, tier)
    elif mode == "int":
        run_int(case, r, xs, taus)
    elif mode == "value":
        run_value(case, r)
    elif mode == "opposed":
        run_opposed(case, r)
    else:
        run_counts(case, r)


def run_sum(case, r, xs, taus, tier):
    names = case[2]
    comps = [FUNCS[k] for k in names]
    m = len(names)
    if m == 1:
        for x, tau in itertools.product(xs, taus):
            y = pp.Sum([comps[0].make()]).prox(x.copy(), tau)
            z = comps[0].make().prox(x.copy(), tau)
            r.state(names, x, tau), r.trans(), r.trace(), r.outcome(y)
            r.check(np.allclose(y, z, atol=1e-12), "single|%s" % names[0], "Sum of one operator differs from that operator",
                    x=x, tau=tau, got=y, want=z)
        return
    wl = [None, [0.5, 0.5] if m == 2 else [0.5, 0.25, 0.25]]
    wl.append([0.2, 0.8] if m == 2 else [0.2, 0.2, 0.6])
    for x, tau in itertools.product(xs, taus):
        refs = {}
        variants = [(False, False, None)] if m == 2 else []
        variants += [(True, og, w) for og in (False, True) for w in wl]
        if m == 2:
            # default algorithm and settings
            variants.append(("default", False, None))
        for par, og, w in variants:
            ww = np.array(w) if w is not None else np.full(m, 1.0 / m)
            coefs = tuple(ww) if og else (1.0,) * m
            if coefs not in refs:
                refs[coefs] = reference(comps, coefs, x, tau)
            ref = refs[coefs]
            if ref is None:
                return
            ops = [c.make() for c in comps]
            if par == "default":
                op, tol = pp.Sum(ops), 2e-2
            else:
                op = pp.Sum(ops, weights=w, niter=20000 if tier == "thorough" else 5000, tol=1e-9, use_parallel=par, use_original_tau=og)
                tol = 1e-3
            y = op.prox(x.copy(), tau)
            r.state(names, x, tau, str(par), og, w), r.trans(), r.trace(), r.outcome(names, y)
            r.check(close_pt(y, ref, tol), "sum|%s|par=%s|orig=%s" % ("+".join(names), par, og),
                    "Sum.prox is not the minimiser of the (weighted) sum plus |z-x|^2/2tau", x=x, tau=tau, weights=w,
                    got=y, want=ref[0])


def run_int(case, r, xs, taus):
    names = case[2]
    comps = [SETS[k] for k in names]
    m = len(names)
    for x in xs:
        ref = reference(comps, (0.0,) * m, x, 1.0)
        if ref is None:
            return
        variants = [False, True] if m == 2 else [False]
        for par in variants:
            for niter, tol, acc in ((5000, 1e-9, 1e-3), (1000, 1e-6, 2e-2)):
                ps = [c.make() for c in comps]
                P = pj.GenericIntersectionProj(ps, niter=niter, tol=tol, use_parallel=par)
                op = pp.GenericIntersectionProx([c.make() for c in comps], niter=niter, tol=tol, use_parallel=par)
                y = P(x.copy())
                y1, y2 = op.prox(x.copy(), 0.3), op.prox(x.copy(), 7.0)
                r.state(names, x, par, niter), r.trans(3), r.trace(), r.outcome(names, y)
                s = "%s|par=%s" % ("+".join(names), par)
                r.check(close_pt(y, ref, acc), "int|" + s, "not the projection on the intersection", x=x, got=y, want=ref[0],
                        niter=niter, tol=tol)
                r.check(np.array_equal(y1, y) and np.array_equal(y2, y), "int-tau|" + s,
                        "projection depends on the step size or differs from GenericIntersectionProj", x=x, got=[y1, y2], want=y)
                # membership: points well inside / outside
                inside = all(viol(c, x) <= -1e-3 for c in comps)
                outside = any(viol(c, x) >= 1e-3 for c in comps)
                v = op(x.copy())
                if inside or outside:
                    r.check(bool(v) == inside, "int-member|" + s, "membership wrong", x=x, got=bool(v), want=inside)
                r.trans()


def viol(c, x):
    """>0 outside, <0 inside (coordinate-wise distance to the ranges)"""
    l1, h1 = c.r1
    l2, h2 = c.seg(min(max(x[0], l1), h1))
    return max(l1 - x[0], x[0] - h1, l2 - x[1], x[1] - h2)


class Const(pp.ProxOperator):
    def __init__(self, v):
        super().__init__(None, False)
        self.v = v

    def __call__(self, x):
        return self.v

    def prox(self, x, tau):
        return x


def run_value(case, r):
    """Every combination of component values of length n over booleans (python and numpy) and numbers."""
    vals = [True, False, np.bool_(True), np.bool_(False), 0.0, 1.5, -2.0, np.float64(3.0), 2]
    for vv in itertools.product(vals, repeat=case[2]):
        got = pp.Sum([Const(v) for v in vv])(np.zeros(2))
        bools = [bool(v) for v in vv if isinstance(v, (bool, np.bool_))]
        nums = [float(v) for v in vv if not isinstance(v, (bool, np.bool_))]
        want = False if not all(bools) else (sum(nums) if nums else True)
        r.state(str(vv)), r.trans(), r.trace(), r.outcome(str(vv), str(got))
        ok = (isinstance(want, bool) and isinstance(got, (bool, np.bool_)) and bool(got) == want) or (
            not isinstance(want, bool) and not isinstance(got, (bool, np.bool_)) and abs(got - want) < 1e-12)
        r.check(ok, "value|%s" % "".join(type(v).__name__[0] for v in vv), "Sum value: %s -> %s, expected %s" % (vv, got, want))


def run_opposed(case, r):
    """Two components pulling in opposite directions, at every point of a lattice: the averaged iterate may stand
    still for an iteration although the algorithm has not converged."""
    a, b = case[2], case[3]
    comps = [Comp(lambda: pp.Box(a, np.inf), zero, (a, INF), lambda t: (a, INF)),
             Comp(lambda: pp.L2(b=A_([-b, -b]), sigma=1.0), lambda u, v: 0.5 * ((u + b) ** 2 + (v + b) ** 2))]
    for x, tau, w in itertools.product(sym_points(), [0.5, 1.0, 2.0], [None, [0.25, 0.75]]):
        ref = reference(comps, (1.0, 1.0), x, tau)
        y = pp.Sum([c.make() for c in comps], weights=w, use_parallel=True, niter=5000, tol=1e-9).prox(x.copy(), tau)
        r.state(x, tau, w), r.trans(), r.trace(), r.outcome(y)
        r.check(close_pt(y, ref, 1e-3), "opposed", "parallel Sum.prox is not the minimiser", x=x, tau=tau, w=w, got=y, want=ref[0], a=a, b=b)


class Counting(pp.ProxOperator):
    def __init__(self, op):
        super().__init__(None, False)
        self.op, self.n, self.taus = op, 0, set()

    def __call__(self, x):
        return self.op(x)

    def prox(self, x, tau):
        self.n += 1
        self.taus.add(float(tau))
        return self.op.prox(x, tau)


def run_counts(case, r):
    """tol=0 runs exactly niter rounds; every round evaluates every component once with the documented step."""
    x = A_([3.0, -2.0])
    for m, par, niter, og in itertools.product((2, 3), (False, True), (1, 2, 3, 7, 25), (False, True)):
        w = [0.25, 0.75] if m == 2 else [0.5, 0.25, 0.25]
        ops = [Counting(FUNCS[k].make()) for k in ("L1", "Box", "L2b")[:m]]
        pp.Sum(ops, weights=w, niter=niter, tol=0, use_parallel=par, use_original_tau=og).prox(x.copy(), 0.5)
        r.state(m, par, niter, og), r.trans(niter * m), r.trace()
        two = m == 2 and not par
        for o, wi in zip(ops, w):
            r.outcome(o.n, sorted(o.taus))
            r.check(o.n == niter, "rounds|m=%d|par=%s" % (m, par), "tol=0: component evaluated %d times in %d iterations" % (o.n, niter))
            t = 0.5 if (og or two) else 0.5 / wi
            r.check(len(o.taus) == 1 and abs(list(o.taus)[0] - t) < 1e-12, "step|m=%d|par=%s|orig=%s" % (m, par, og),
                    "component evaluated with step %s instead of %s" % (sorted(o.taus), t))
    # the documented recursion, for weights down to 1e-9
    for e, og, n, tau in itertools.product((0.2, 1e-2, 1e-4, 1e-6, 1e-9), (False, True), (1, 2, 3, 5, 40), (0.5, 30.0)):
        for w in ([1 - 2 * e, e, e], [e, 1 - 3 * e, 2 * e], [2 * e, e, 1 - 3 * e]):
            cs = [FUNCS[k].make() for k in ("L1", "Box", "L2b")]
            ops = [Counting(c) for c in cs]
            got = pp.Sum(ops, weights=list(w), niter=n, tol=0, use_original_tau=og).prox(x.copy(), tau)
            taus = [tau if og else tau / wi for wi in w]
            r.state(e, og, n, tau, tuple(w)), r.trans(3 * n), r.trace(), r.outcome(got)
            for o, t in zip(ops, taus):
                r.check(len(o.taus) == 1 and abs(list(o.taus)[0] - t) <= 1e-12 * t, "step|weights", "weights %s: component evaluated with step %s instead of %s" % (w, sorted(o.taus), t))
            z, y = [x.copy() for _ in w], x
            for _ in range(n):
                pz = [c.prox(v.copy(), t) for c, v, t in zip(cs, z, taus)]
                y = sum(wi * v for wi, v in zip(w, pz))
                z = [v + y - u for v, u in zip(z, pz)]
            r.check(np.allclose(got, y, atol=1e-10), "recursion|weights", "weights %s, tau=%g, %d iterations: %s, documented recursion %s" % (w, tau, n, got, y))
    for bad in ("sum", "int"):
        try:
            pp.Sum([]) if bad == "sum" else pp.GenericIntersectionProx([])
            r.fail("empty|" + bad, "empty list of components accepted")
        except (ValueError, ZeroDivisionError):
            pass
        r.trans()
