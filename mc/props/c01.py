"""C01: the prox of every convex function is the minimiser of f(y)+||y-x||^2/(2 tau)."""

import numpy as np

from mc.catalog import catalog, rays

ID = "C01"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "besides the lattices, one direction per operator (real and complex) is swept in 800 geometric steps of 0.8% (40 steps for inner iterative solvers)",
    "input vectors, parameters and step sizes are drawn from the finite alphabets in mc/catalog.py "
    "(every combination within an operator's lattice is run; lattices of expensive operators are thinned deterministically)",
    "reference minimisers are computed by independent closed forms / exact enumeration; "
    "tolerances 1e-9 (closed form) to 2e-4 (inner iterative solvers)",
    "inner iterative solvers are given enough iterations to converge",
]

KINDS = ("convex", "formula", "proj")


def entries(tier):
    return {k: e for k, e in catalog(tier).items() if e.kind in ("convex", "formula")}


def cases(tier):
    return [[tier, k] for k in entries(tier)]


def dirs(shape, cplx):
    n = int(np.prod(shape))
    ds = [np.eye(n)[i] for i in range(n)] + [np.ones(n)]
    if n > 1:
        d = np.ones(n)
        d[0] = -1
        ds.append(d)
    out = [d.reshape(shape) for d in ds]
    if cplx:
        out += [1j * d for d in out]
    return out


def run(case, r):
    tier, key = case
    e = entries(tier)[key]
    check_entry(e, r, rays(e, tier))


def check_entry(e, r, extra=()):
    lattice = len(e.xs)
    for tau in e.taus:
        for ix, x in enumerate(list(e.xs) + (list(extra) if tau in (e.taus[0], e.taus[-1]) else [])):
            op, _ = e.build()  # fresh operator: history independence is C09's subject
            p = op.prox(x.copy(), tau)
            r.state(tau, x)
            r.trans()
            p = np.asarray(p)
            sig = "%s|tau=%g|x=%s" % (e.key, tau, x.ravel().tolist())
            if not r.check(p.size == x.size and np.all(np.isfinite(p)), sig + "|shape",
                           "prox returned size %s / non-finite values for input size %s" % (p.shape, x.shape), got=p):
                continue
            if p.shape != x.shape:
                p = p.reshape(x.shape)
            if np.iscomplexobj(p) and not np.iscomplexobj(x):
                if not r.check(np.max(np.abs(p.imag)) < 1e-9, sig + "|imag", "complex prox of a real input", got=p):
                    continue
                p = p.real
            ref = e.prox(x, tau).reshape(x.shape)
            r.trace()
            r.outcome(p)
            scale = 1 + np.max(np.abs(x))
            if e.remake is not None and np.max(np.abs(p - ref)) > e.tol * scale:
                # the relative-change stopping rule may fire on a plateau: run without it
                p = np.asarray(e.remake().prox(x.copy(), tau)).reshape(x.shape)
                r.trans()
            r.check(np.max(np.abs(p - ref)) <= e.tol * scale, sig,
                    "prox is not the minimiser: got %s, expected %s" % (p.ravel()[:6], ref.ravel()[:6]),
                    x=x, tau=tau, got=p, expected=ref)
            if e.kind != "convex" or ix >= lattice:
                continue
            # reference-free certificate: no lattice neighbour of p has a smaller objective
            F = lambda y: e.f(y) + float(np.sum(np.abs(y - x) ** 2)) / (2 * tau)
            Fp = F(p)
            slack = 1e-9 * (1 + abs(Fp)) if not e.iterative else (1e-5 if e.name == "TV" else 1e-8) * (1 + abs(Fp))
            for h in (1.0, 1e-2):
                for d in dirs(x.shape, np.iscomplexobj(x)):
                    for s in (h, -h):
                        if F(p + s * d) < Fp - slack:
                            r.fail(sig + "|cert", "a neighbour of prox(x) has a smaller objective",
                                   x=x, tau=tau, got=p, better=p + s * d, gain=Fp - F(p + s * d))
                            return
    r.sample("%s: %d inputs x %d taus, last tau=%g x=%s" % (e.key, len(e.xs), len(e.taus), tau, x.ravel().tolist()))
