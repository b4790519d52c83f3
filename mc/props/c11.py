"""C11: a non-positive step size is refused, with no effect on operator or input."""

import numpy as np

from mc.catalog import catalog
from mc.extras import extras
from mc.props.c09 import opstate

ID = "C11"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "rejected values: 0, 0.0, -1, -1e-12, numpy scalars and arrays with one non-positive element; positional and keyword",
]

BAD = {"0": 0, "0.0": 0.0, "-1": -1.0, "-eps": -1e-12, "np0": np.float64(0.0), "arr": "arr"}


def entries(tier):
    d = dict(catalog(tier))
    d.update(extras(tier))
    return d


def cases(tier):
    return [[tier, k] for k in entries(tier)]


def counters(o, depth=0):
    """All call counters of the operator and its parts."""
    out = []
    if depth > 3 or not hasattr(o, "__dict__"):
        return out
    for k, v in sorted(o.__dict__.items()):
        if k == "count":
            out.append(int(v))
        elif k in ("f", "g", "ops", "l1", "l2", "penalty"):
            for w in v if isinstance(v, list) else [v]:
                out += counters(w, depth + 1)
    return out


def run(case, r):
    tier, key = case
    e = entries(tier)[key]
    x = e.xs[len(e.xs) // 3]
    for prior in (False, True):
        for bn, bad in BAD.items():
            tau = np.concatenate([np.ones(max(x.size - 1, 0)), [0.0]]).reshape(x.shape) if isinstance(bad, str) else bad
            for meth in ("prox", "proxdual"):
                for kw in (False, True):
                    op, arrs = e.build(True)
                    if prior:
                        op.prox(x.copy(), e.taus[0])
                    s0, c0 = opstate(op), counters(op)
                    xin = x.copy()
                    sig = "%s|%s|tau=%s|kw=%s|prior=%s" % (key, meth, bn, kw, prior)
                    r.state(meth, bn, kw, prior)
                    r.trans()
                    try:
                        y = getattr(op, meth)(xin, tau=tau) if kw else getattr(op, meth)(xin, tau)
                        r.fail(sig, "non-positive tau accepted, result %s" % np.asarray(y).ravel()[:4])
                        continue
                    except ValueError as ex:
                        r.outcome(str(ex))
                        r.trace()
                        if not r.check("tau" in str(ex), sig + "|msg", "ValueError does not come from the step size check: %s" % ex):
                            continue
                    r.check(np.array_equal(xin, x), sig + "|x", "input modified by a rejected call")
                    r.check(opstate(op) == s0, sig + "|state", "operator state changed by a rejected call")
                    r.check(counters(op) == c0, sig + "|count", "call counter advanced by a rejected call: %s -> %s" % (c0, counters(op)))
        # the smallest positive values are not refused
    for meth in ("prox", "proxdual"):
        op, _ = e.build(True)
        y1 = np.asarray(getattr(op, meth)(x.copy(), tau=e.taus[0]))
        y2 = np.asarray(getattr(e.build(True)[0], meth)(x.copy(), e.taus[0]))
        r.trans(2)
        r.check(np.allclose(y1, y2, atol=1e-9, equal_nan=True), "%s|%s|kwpos" % (key, meth), "tau by keyword and by position give different results")
    r.sample(key)
