"""C08: no operator method modifies its input or an array handed to the constructor."""

import numpy as np

from mc.catalog import catalog, short
from mc.extras import extras

ID = "C08"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "every sequence of up to two method calls is followed by a byte comparison of the inputs and constructor arrays",
    "a returned vector is compared byte for byte before and after one further call",
    "the caller overwriting a returned vector afterwards may change a warm start but not the function computed "
    "(compared with tolerance 1e-5)",
]

METHODS = ("prox", "proxdual", "call", "grad")


def entries(tier):
    d = dict(catalog(tier))
    d.update(extras(tier))
    return d


def cases(tier):
    return [[tier, k] for k in entries(tier)]


def invoke(op, m, x, tau):
    if m == "call":
        return op(x)
    if m == "grad":
        return op.grad(x)
    return getattr(op, m)(x, tau)


def run(case, r):
    tier, key = case
    e = entries(tier)[key]
    heavy = e.group in ("TV", "Intersection")
    xs = short(e.xs, 3 if heavy else (8 if tier == "quick" else 40))
    for x in xs:
        for tau in e.taus[: 1 if heavy else 2]:
            for m1 in METHODS:
                for m2 in (None,) + METHODS:
                    if heavy and m2 is not None:
                        continue
                    op, arrs = e.build(True)
                    arrs = {k: v for k, v in arrs.items() if v is not None}
                    keep = {k: v.copy() for k, v in arrs.items()}
                    sig = "%s|%s,%s|tau=%g|x=%s" % (e.key, m1, m2, tau, x.ravel().tolist())
                    r.state(tau, x, m1, m2)
                    ok = True
                    for m in (m1, m2):
                        if m is None:
                            continue
                        xin = x.copy()
                        y = invoke(op, m, xin, tau)
                        r.trans()
                        r.outcome(m, np.asarray(y))
                        ok = ok and r.check(xin.tobytes() == x.tobytes(), sig + "|input", "%s modified its input to %s" % (m, xin.ravel()[:6]), x=x)
                        for k in arrs:
                            ok = ok and r.check(arrs[k].tobytes() == keep[k].tobytes(), sig + "|ctor " + k,
                                                "%s modified the constructor array %s" % (m, k), before=keep[k], after=arrs[k])
                        if not ok:
                            break
                        if isinstance(y, np.ndarray) and y.flags.writeable and not np.shares_memory(y, xin):
                            # the caller owns the result: scribbling on it must not reach the operator
                            y[...] = 7.5
                            for k in arrs:
                                ok = ok and r.check(arrs[k].tobytes() == keep[k].tobytes(), sig + "|alias " + k,
                                                    "result of %s aliases the constructor array %s" % (m, k))
                        xin[...] = -3.25  # and so must reusing the input buffer
                    if not ok:
                        continue
                    r.trace()
                    if m2 is not None:
                        # a result handed out must survive the next call
                        op = e.build(True)[0]
                        xa, xb = x.copy(), x[::-1].copy()
                        ya = invoke(op, m1, xa, tau)
                        kept = np.array(ya, copy=True)
                        invoke(op, m2, xb, tau)
                        r.trans(2)
                        r.check(np.asarray(ya).tobytes() == kept.tobytes(), sig + "|kept",
                                "the result of %s changed when %s was called afterwards" % (m1, m2), got=ya, want=kept)
                    if heavy or m2 is not None and e.iterative:
                        continue
                    p = np.asarray(op.prox(x.copy(), tau))
                    q = np.asarray(e.build(True)[0].prox(x.copy(), tau))
                    r.trans(2)
                    r.check(np.max(np.abs(p - q)) <= (1e-5 if e.iterative else 1e-10) * (1 + np.max(np.abs(q))), sig + "|state",
                            "after overwriting returned vectors the operator computes %s instead of %s" % (p.ravel()[:6], q.ravel()[:6]))
    r.sample(e.key)
