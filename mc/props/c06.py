"""C06: operator algebra - every expression tree computes the value, prox, dual prox and gradient of
the function it denotes."""

import itertools

import numpy as np

import pyproximal as pp

from mc.catalog import catalog, lat

ID = "C06"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "expression trees up to depth 3 (quick) / 4 (thorough) over the constructors +v, -v, float*, int*, "
    "precomposition with scalar and vector offset, on base functions with exact reference prox",
    "the model keeps each tree in the normal form s*phi(a*x+b)+w.x+c and derives prox/grad from it in one step",
]

V = np.array([0.75, -1.25])
W = np.array([-0.5, 2.0])
B = np.array([1.0, -0.25])

CONS = {
    "add": (lambda o: o + V.copy(), lambda n: dict(n, w=n["w"] + V)),
    "sub": (lambda o: o - W.copy(), lambda n: dict(n, w=n["w"] - W)),
    "mulf": (lambda o: 2.5 * o, lambda n: dict(n, s=n["s"] * 2.5, w=n["w"] * 2.5, c=n["c"] * 2.5)),
    "muli": (lambda o: 3 * o, lambda n: dict(n, s=n["s"] * 3, w=n["w"] * 3, c=n["c"] * 3)),
    "pre": (lambda o: o.precomposition(-0.5, 0.75), lambda n: pre(n, -0.5, 0.75)),
    "prev": (lambda o: o.precomposition(2.0, B.copy()), lambda n: pre(n, 2.0, B)),
}


def pre(n, a, b):
    return dict(n, a=n["a"] * a, b=n["a"] * b + n["b"], c=n["c"] + float(np.sum(n["w"] * b)), w=n["w"] * a)


BASES = [
    "L1[('g', None), ('sigma', 0.5)]", "L1[('g', (1.0, -0.5)), ('sigma', 2.0)]", "Euclidean[('sigma', 1.0)]",
    "L2[('bq', 'bq'), ('sigma', 2.5)]", "L2[('bq', 'none'), ('sigma', 1.0)]", "Huber[('alpha', 0.5)]",
    "Quadratic[('b', True), ('mode', 'explicit')]", "HuberCircular[('alpha', 1.0)]",
    "Box[('lo', 'arr'), ('up', 'arr')]", "EuclideanBall[('c', 'arr'), ('r', 1.5)]", "HalfSpace[('b', 1.0), ('w', (1.0, 2.0))]",
    "L2op[('eng', 'dense'), ('mat', 'tall'), ('q', True), ('sigma', 2.5)]", "L21[('n', 2), ('ndim', 2), ('sigma', 1.0)]",
]


def cases(tier):
    out = []
    d = 3 if tier == "quick" else 4
    for b in BASES:
        for c in CONS:
            out.append([tier, "tree", b, c, d])
        out.append([tier, "tree", b, None, d])
    for b1 in BASES:
        for b2 in BASES:
            out.append([tier, "chain", b1, b2])
    out.append([tier, "types"])
    return out


def base(key):
    e = catalog("quick")[key]
    return e


def xs_for(e, tier):
    n = e.xs[0].size
    if n == 2:
        return lat([-2.0, 0.5, 3.0] if tier == "quick" else [-2.0, -0.75, 0.0, 0.5, 3.0], 2)
    return lat([-2.0, 0.5], n)


def run(case, r):
    if case[1] == "types":
        return types(r)
    if case[1] == "chain":
        return chain(case, r)
    tier, _, key, first, depth = case
    e = base(key)
    n = e.xs[0].size
    if n != 2:
        # vectors used in the constructors are of length 2: tile them
        rep = n // 2
    else:
        rep = 1
    if first is None:
        seqs = [()]
    else:
        seqs = [(first,) + t for k in range(depth) for t in itertools.product(CONS, repeat=k)]
    xs = xs_for(e, tier)
    for seq in seqs:
        X = xs if len(seq) <= 2 else xs[::2]
        tree(e, seq, X, rep, r, len(seq) <= 2)
    r.sample("%s under %d constructor sequences starting with %s" % (key, len(seqs), first))


def build(e, seq, rep):
    op = e.build()[0]
    if rep == 1:
        for c in seq:
            op = CONS[c][0](op)
        return op
    Vt, Wt, Bt = np.tile(V, rep), np.tile(W, rep), np.tile(B, rep)
    for c in seq:
        op = {"add": lambda o: o + Vt, "sub": lambda o: o - Wt, "mulf": lambda o: 2.5 * o, "muli": lambda o: 3 * o,
              "pre": lambda o: o.precomposition(-0.5, 0.75), "prev": lambda o: o.precomposition(2.0, Bt)}[c](op)
    return op


def normal(seq, rep):
    n = dict(s=1.0, a=1.0, b=np.zeros(2), w=np.zeros(2), c=0.0)
    for c in seq:
        n = CONS[c][1](n)
    k = dict(n)
    k["b"] = np.tile(n["b"] + np.zeros(2), rep)
    k["w"] = np.tile(n["w"], rep)
    k["c"] = n["c"]
    # the constant accumulates once per tiled block
    if rep > 1:
        k["c"] = n["c"] * rep
    return k


def tree(e, seq, xs, rep, r, full):
    nf = normal(seq, rep)
    s, a, b, w, c = nf["s"], nf["a"], nf["b"], nf["w"], nf["c"]
    ref = lambda x, t: (e.prox(a * (x - t * w) + b, s * t * a * a).reshape(x.shape) - b) / a
    op = build(e, seq, rep)
    ind = e.kind == "proj"
    for x in xs:
        scale = 1 + np.max(np.abs(x)) + np.max(np.abs(b)) + np.max(np.abs(w))
        for tau in (0.4, 1.5):
            sig = "%s%s|tau=%g|x=%s" % (e.key, list(seq), tau, x.tolist())
            p = np.asarray(op.prox(x.copy(), tau))
            q = ref(x, tau)
            r.state(seq, tau, x)
            r.trans()
            r.trace()
            r.outcome(p)
            r.check(p.shape == x.shape and np.max(np.abs(p - q)) <= 1e-7 * scale, sig + "|prox",
                    "prox %s, denoted function's prox %s" % (p, q), x=x, got=p, expected=q)
            if full:
                d = np.asarray(op.proxdual(x.copy(), tau))
                dq = x - tau * ref(x / tau, 1 / tau)
                r.trans()
                r.check(np.max(np.abs(d - dq)) <= 1e-7 * scale * max(1, tau), sig + "|dual", "dual prox %s, expected %s" % (d, dq), x=x)
                h = np.asarray(op.H.prox(x.copy(), tau))
                r.check(np.max(np.abs(h - d)) <= 1e-9 * scale, sig + "|H", "H.prox %s, proxdual %s" % (h, d), x=x)
        sig = "%s%s|x=%s" % (e.key, list(seq), x.tolist())
        if not ind:
            v = op(x.copy())
            vr = s * e.f(a * x + b) + float(w @ x) + c
            r.trans()
            r.outcome(v)
            r.check(abs(v - vr) <= 1e-8 * (1 + abs(vr)), sig + "|value", "value %r, denoted function %r" % (v, vr), x=x)
        if e.grad is not None and e.smooth_at(a * x + b):
            g = np.asarray(op.grad(x.copy()))
            gr = a * s * np.asarray(e.grad(a * x + b)) + w
            r.trans()
            r.check(g.shape == x.shape and np.max(np.abs(g - gr)) <= 1e-8 * (1 + np.max(np.abs(gr))), sig + "|grad",
                    "gradient %s, denoted function's gradient %s" % (g, gr), x=x)
    r.check(op.hasgrad == e.build()[0].hasgrad, e.key + str(list(seq)) + "|hasgrad", "hasgrad flag lost")


def chain(case, r):
    tier, _, k1, k2 = case
    e1, e2 = base(k1), base(k2)
    if e1.xs[0].size != 2 or e2.xs[0].size != 2:
        return
    for x in lat([-2.0, -0.75, 0.5, 3.0], 2):
        for tau in (0.4, 1.5):
            want = e2.prox(e1.prox(x, tau), tau)
            ops = [("chain", e1.build()[0].chain(e2.build()[0]))]
            a, b = e1.build()[0], e2.build()[0]
            if type(a) is not type(b):  # Python never tries __rmul__ between operands of one type
                ops.append(("*", b * a))
            for nm, op in ops:
                p = np.asarray(op.prox(x.copy(), tau))
                r.state(nm, tau, x)
                r.trans()
                r.trace()
                r.outcome(p)
                r.check(np.max(np.abs(p - want)) <= 1e-8 * (1 + np.abs(want).max()), "%s of %s, %s|tau=%g|x=%s" % (nm, k1, k2, tau, x.tolist()),
                        "chained prox %s, prox of second applied to prox of first %s" % (p, want))


def types(r):
    """Operands of unsupported type are refused, supported ones accepted."""
    f = pp.L1()
    bad = [("add list", lambda: f + [1.0]), ("affine scalar", lambda: f.affine_addition(1.0)),
           ("post array", lambda: f.postcomposition(np.ones(2))), ("pre str", lambda: f.precomposition("a", 1.0)),
           ("pre b list", lambda: f.precomposition(1.0, [1.0]))]
    for nm, fn in bad:
        r.state(nm)
        r.trans()
        try:
            fn()
            r.fail("types|" + nm, "unsupported operand accepted")
        except NotImplementedError:
            pass
    x = np.array([2.0, -0.1])
    v0 = V.copy()
    for nm, op in (("add", f + v0), ("int", 2 * f), ("np.float64", float(np.float64(2.0)) * f)):
        r.state(nm)
        op.prox(x, 1.0)
        op(x)
        r.trans(2)
    r.check(np.array_equal(v0, V), "types|v modified", "operand vector was modified")
