"""C02: evaluating an operator returns the documented functional value."""

import numpy as np

from mc.catalog import catalog

ID = "C02"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "reference values are independent numpy transcriptions of the documented formulas (mc/catalog.py, mc/refs.py)",
    "inputs: the operator's full lattice plus its images under x -> -x/2 and x -> 1.37*x",
    "complex vectors, data and operators: lattices of 4 complex numbers (thinned to 256 quick, 4096 thorough)",
    "vectors with entries of very different size: all arrangements of fixed values over 15 orders of magnitude",
    "L0 and Log1 are compared with the value that the existing tests pin (without sigma; known findings)",
]


def entries(tier):
    return {k: e for k, e in catalog(tier).items() if e.kind in ("convex", "formula", "pen", "rule", "env")}


def cases(tier):
    return [[tier, k] for k in entries(tier)] + [[tier, "known"]] + [[tier, "@" + k] for k in cplx()] + [[tier, "=" + k] for k in entries(tier)]


def cplx():
    """functionals with complex data or operators: builder, documented value, length"""
    import pylops
    import pyproximal as pp

    h, hc = np.array([1.0, 0.5, -2.0]), np.array([1.0, 0.5j, -2.0 + 1j])
    b, bm = np.array([1.0, 2j, 0.5 - 1j, 0.0]), np.array([1.0, 2j, 0.5 - 1j, 0.0, -1.0, 3j])
    A = np.array([[1.0, 2j, 0.0], [0.5, -1.0, 1 - 1j]])
    c = np.array([1j, 0.5, -1.0])
    n2 = lambda v: float(np.sum(np.abs(v) ** 2))

    def conv(x, k, b, n):
        y = np.zeros(n, dtype=complex)
        f = np.convolve(k, x)
        y[:f.size] = f
        z = np.zeros(n, dtype=complex)
        z[:b.size] = b
        return n2(y - z)

    def conv2(x, k, b, dims, d, n):
        X, B = np.moveaxis(x.reshape(dims), d, -1), np.moveaxis(b.reshape(dims), d, -1)
        return sum(conv(X[i], k, B[i], n) for i in np.ndindex(X.shape[:-1]))

    out = {}
    for kn, k in (("real", h), ("complex", hc)):
        out["conv-" + kn] = (lambda k=k: pp.L2Convolve(k.copy(), b.copy(), nfft=8, sigma=0.7), lambda x, k=k: 0.35 * conv(x, k, b, 8), 4)
        for d in (0, 1):
            out["conv2-%s-%d" % (kn, d)] = (lambda k=k, d=d: pp.L2Convolve(k.copy(), bm.reshape(2, 3).copy(), nfft=8, sigma=0.7, dims=(2, 3), dir=d),
                                            lambda x, k=k, d=d: 0.35 * conv2(x, k, bm, (2, 3), d, 8), 6)
    for an, M in (("real", A.real), ("complex", A)):
        out["l2op-" + an] = (lambda M=M: pp.L2(Op=pylops.MatrixMult(M.astype(complex), dtype=complex), b=np.array([1j, 2.0]), sigma=0.7),
                             lambda x, M=M: 0.35 * n2(M @ x - np.array([1j, 2.0])), 3)
    out["l2b"] = (lambda: pp.L2(b=c.copy(), sigma=0.7), lambda x: 0.35 * n2(x - c), 3)
    out["l1g"] = (lambda: pp.L1(0.7, g=c.copy()), lambda x: 0.7 * float(np.sum(np.abs(x - c))), 3)
    out["euc"] = (lambda: pp.Euclidean(0.7), lambda x: 0.7 * np.sqrt(n2(x)), 3)
    out["huber"] = (lambda: pp.Huber(0.7), lambda x: float(sum(abs(v) ** 2 / 1.4 if abs(v) <= 0.7 else abs(v) - 0.35 for v in x)), 3)
    out["hubcirc"] = (lambda: pp.HuberCircular(0.7), lambda x: n2(x) / 1.4 if n2(x) <= 0.49 else np.sqrt(n2(x)) - 0.35, 3)
    out["l21"] = (lambda: pp.L21(2, 0.7), lambda x: 0.7 * float(np.sum(np.sqrt(np.sum(np.abs(x.reshape(2, -1)) ** 2, axis=0)))), 4)
    out["l21l1"] = (lambda: pp.L21_plus_L1(0.7, 0.4), lambda x: 0.28 * float(np.sum(np.abs(x))) + 0.42 * float(np.sum(np.linalg.norm(x, axis=0))), (2, 2))
    out["nuclear"] = (lambda: pp.Nuclear((2, 2), 0.7), lambda x: 0.7 * float(np.sum(np.sqrt(np.maximum(np.linalg.eigvalsh(x.reshape(2, 2).conj().T @ x.reshape(2, 2)), 0)))), 4)
    out["orth"] = (lambda: pp.Orthogonal(pp.L1(0.7), pylops.MatrixMult(np.array([[0.6, 0.8j], [0.8j, 0.6]]), dtype=complex), b=np.array([1j, 1.0])),
                   lambda x: 0.7 * float(np.sum(np.abs(np.array([[0.6, 0.8j], [0.8j, 0.6]]) @ x + np.array([1j, 1.0])))), 2)
    return out


def complex_values(key, tier, r):
    from mc.catalog import lat, short

    mk, ref, n = cplx()[key]
    N = int(np.prod(n))
    for x in short(lat([0.0, 1.5 - 2j, -0.3j, 0.8], N, complex), 256 if tier == "quick" else 4096):
        x = x.reshape(n)
        v, want = mk()(x.copy()), ref(x)
        r.state(x), r.trans(), r.trace(), r.outcome(v)
        r.check(np.ndim(v) == 0 and np.isreal(v) and abs(v - want) <= 1e-7 * (1 + abs(want)), "@%s|x=%s" % (key, x.ravel().tolist()),
                "value %r, documented formula gives %r" % (v, want), x=x)
    r.sample(key)


def orders(key, tier, r):
    """vectors whose entries differ by up to fifteen orders of magnitude"""
    from mc.catalog import lat, short

    e = entries(tier)[key]
    x0 = e.xs[0]
    if np.iscomplexobj(x0):
        return r.sample("complex")
    vals = [0.0, 1e-9, -5e-3, 1.0, -3e3, 1e6] if x0.size <= 3 else [0.0, 1e-9, -5e-3, 1e6]
    pts = lat(vals, x0.size) if x0.size <= 6 else [np.resize(v, x0.size) for v in lat(vals, 5)]
    for x in short(pts, 256 if tier == "quick" else 4096):
        x = x.reshape(x0.shape)
        v, ref = e.build()[0](x.copy()), e.f(x)
        r.state(x), r.trans(), r.trace(), r.outcome(v)
        if isinstance(ref, (bool, np.bool_)) or not np.isfinite(ref):
            continue
        m = np.max(np.abs(x))
        r.check(np.ndim(v) == 0 and abs(v - ref) <= 1e-9 * (1 + abs(ref)) + 1e-14 * m ** 2 * (x.size if e.kind == "env" or e.group in ("TV", "Nuclear") else 0),
                "orders|%s" % e.name, "%s: value %r of %s, documented formula gives %r" % (key, v, x.ravel().tolist(), ref), x=x)


def run(case, r):
    tier, key = case
    if key == "known":
        return known(r)
    if key[0] == "@":
        return complex_values(key[1:], tier, r)
    if key[0] == "=":
        return orders(key[1:], tier, r)
    e = entries(tier)[key]
    tol = 1e-7 if e.kind == "env" or e.group in ("TV", "Nuclear") else 1e-9
    for x in e.xs:
        for m in (1.0, -0.5, 1.37):
            y = x * m
            op, _ = e.build()
            v = op(y.copy())
            r.state(y)
            r.trans()
            r.trace()
            r.outcome(v)
            ref = e.f(y)
            sig = "%s|x=%s" % (e.key, y.ravel().tolist())
            ok = np.ndim(v) == 0 and isinstance(v, (int, float, np.floating, np.integer)) and np.isfinite(v)
            if not r.check(ok, sig + "|type", "value is %r" % (v,)):
                continue
            r.check(abs(v - ref) <= tol * (1 + abs(ref)), sig, "value %r, documented formula gives %r" % (v, ref),
                    x=y, got=v, expected=ref)
    r.sample("%s: %d inputs, e.g. f(%s)=%g" % (e.key, 3 * len(e.xs), y.ravel().tolist(), ref))


def known(r):
    """Documented values that the existing tests contradict: one fixed input each."""
    import pyproximal as pp

    x = np.array([1.0, 0.0, -2.0])
    r.state("L0")
    r.trans(3)
    v = pp.L0(sigma=2.0)(x)
    r.check(abs(v - 4) < 1e-9, "known|L0 sigma", "L0(sigma=2)([1,0,-2]) is %s, sigma*||x||_0 is 4" % v)
    r.state("Log1")
    v = pp.Log1(sigma=2.0, delta=0.5)(x)
    ref = 2 * np.sum(np.log(np.abs(x) + 0.5))
    r.check(abs(v - ref) < 1e-9, "known|Log1 sigma", "Log1(sigma=2)([1,0,-2]) is %s, sigma*sum(log(|x|+delta)) is %s" % (v, ref))
    r.state("QERL2")
    v = pp.QuadraticEnvelopeRankL2((2, 2), 2, np.zeros((2, 2)))(np.array([2.0, 0, 0, 0]))
    r.check(abs(v - 2) < 1e-9, "known|QuadraticEnvelopeRankL2 square",
            "QuadraticEnvelopeRankL2 value is %s, documented 1/2||X-M||_F^2 gives 2" % v)
