"""C12: stacking operators acts blockwise, for every split of the input and every assignment of entries."""

import itertools

import numpy as np
import pylops

import pyproximal as pp

from mc import refs as R

ID = "C12"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "vectors of length up to 4 (quick) / 5 (thorough); all compositions of the length into blocks (consecutive mode) and "
    "all ordered set partitions of the indices (restriction mode), all assignments of 5 component types to the blocks "
    "(restriction mode quick tier: 3 types); in addition six lists of block sizes around 127, 255, 32767 and 65535",
]

COMP = {
    "L1": (lambda n: pp.L1(0.5), lambda x: 0.5 * np.sum(np.abs(x)), lambda x, t: R.soft(x, 0.5 * t), None),
    "L2": (lambda n: pp.L2(b=np.arange(1.0, n + 1), sigma=2.0), lambda x: np.sum((x - np.arange(1.0, x.size + 1)) ** 2),
           lambda x, t: (x + 2 * t * np.arange(1.0, x.size + 1)) / (1 + 2 * t), lambda x: 2 * (x - np.arange(1.0, x.size + 1))),
    "Euc": (lambda n: pp.Euclidean(1.5), lambda x: 1.5 * np.linalg.norm(x), lambda x, t: R.shrink_group(x, 1.5 * t),
            lambda x: 1.5 * x / np.linalg.norm(x)),
    "Hub": (lambda n: pp.Huber(0.5), lambda x: R.huber_val(x, 0.5), lambda x, t: R.huber_prox(x, 0.5, t), None),
    "Quad": (lambda n: pp.Quadratic(b=np.full(n, -0.75), c=1.0), lambda x: -0.75 * np.sum(x) + 1.0, lambda x, t: x + 0.75 * t,
             lambda x: np.full(x.size, -0.75)),
}


def compositions(n):
    if n == 0:
        return [()]
    return [(k,) + c for k in range(1, n + 1) for c in compositions(n - k)]


def ordered_partitions(n, k):
    """All ways of sending indices 0..n-1 to k labelled non-empty blocks, each block also listed in reverse order."""
    out = []
    for lab in itertools.product(range(k), repeat=n):
        if len(set(lab)) != k:
            continue
        blocks = [[i for i in range(n) if lab[i] == b] for b in range(k)]
        out.append(blocks)
        out.append([bl[::-1] for bl in blocks])
    return out


def cases(tier):
    N = 4 if tier == "quick" else 5
    out = [[tier, "flag", n] for n in (1, 2, 3)]
    for n in range(1, N + 1):
        for c in compositions(n):
            out.append([tier, "nn", list(c)])
    for n in range(2, N + 1):
        for k in (1, 2, 3):
            if k <= n:
                ps = ordered_partitions(n, k)
                for i in range(0, len(ps), 8):
                    out.append([tier, "restr", n, ps[i:i + 8]])
    out += [[tier, "long", nn, k] for nn in LONG for k in ("nn", "restr", "shuffled")]
    return out


# block sizes around the limits of small integer types
LONG = [[130, 5], [5, 130, 2], [256, 256, 3], [300, 1, 200, 7], [33000, 40], [70000, 3, 2]]


def long(case, r):
    _, _, nn, kind = case
    n = sum(nn)
    o = np.cumsum([0] + nn)
    perm = np.arange(n)
    if kind == "shuffled":
        m = 7919  # coprime to every length above
        perm = (perm * m + 3) % n
        assert np.unique(perm).size == n
    blocks = [perm[o[i]:o[i + 1]] for i in range(len(nn))]
    for ts in itertools.product(("L1", "L2", "Euc"), repeat=len(nn)) if len(nn) < 4 else [("L2", "L1", "Euc", "L2"), ("L1", "Euc", "L2", "L1")]:
        ops = [COMP[t][0](len(b)) for t, b in zip(ts, blocks)]
        op = pp.VStack(ops, nn=list(nn)) if kind == "nn" else pp.VStack(ops, restr=[pylops.Restriction(n, b) for b in blocks])
        x = np.sin(np.arange(n) * 1.7) * 3
        for tau in (0.4, 2.0):
            ref = np.zeros(n)
            for t, b in zip(ts, blocks):
                ref[b] = COMP[t][2](x[b], tau)
            p = np.asarray(op.prox(x.copy(), tau))
            r.state(nn, ts, tau, kind), r.trans(), r.trace(), r.outcome(p[:3], p[-3:])
            r.check(p.shape == x.shape and np.max(np.abs(p - ref)) < 1e-8 * (1 + np.max(np.abs(ref))), "long|%s|%s|%s" % (kind, nn, ts),
                    "prox of a long stack is not the blockwise one", bad=np.flatnonzero(np.abs(p - ref) > 1e-8 * (1 + np.max(np.abs(ref))))[:5] if p.shape == x.shape else p.shape)
        v, vr = op(x.copy()), sum(float(COMP[t][1](x[b])) for t, b in zip(ts, blocks))
        r.trans()
        r.check(abs(v - vr) <= 1e-9 * (1 + abs(vr)), "longval|%s|%s|%s" % (kind, nn, ts), "value %r, sum of block values %r" % (v, vr))
        if "L1" not in ts:
            g, gr = np.asarray(op.grad(x.copy())), np.zeros(n)
            for t, b in zip(ts, blocks):
                gr[b] = COMP[t][3](x[b])
            r.trans()
            r.check(g.shape == x.shape and np.max(np.abs(g - gr)) <= 1e-8 * (1 + np.max(np.abs(gr))), "longgrad|%s|%s|%s" % (kind, nn, ts), "gradient of a long stack is not the blockwise one")


def xs_for(n, tier):
    base = [np.array([1.5, -2.0, 0.3, 0.9, -0.6])[:n], np.array([-0.2, 3.0, 1.0, -1.0, 2.0])[:n], np.array([0.75, 0.05, -4.0, 2.0, 1.0])[:n]]
    return base if tier == "quick" else base + [-b for b in base] + [np.ones(n)]


def flag(case, r):
    """whether a stack offers a gradient depends on its blocks, not on their order"""
    m = case[2]
    mk = {**COMP, "none": (lambda n: pp.Box(-1.0, 1.0),), "custom": (lambda n: pp.ProxOperator(None, True),)}
    for ts in itertools.combinations_with_replacement(mk, m):
        seen = set()
        for q in itertools.permutations(ts):
            v = pp.VStack([mk[t][0](2) for t in q], nn=[2] * m)
            seen.add(bool(v.hasgrad))
            r.trans(), r.trace(), r.state(q), r.outcome(v.hasgrad)
        r.check(len(seen) == 1, "hasgrad", "VStack of %s: hasgrad depends on the order of the blocks" % (ts,))


def run(case, r):
    tier, mode = case[:2]
    if mode == "long":
        return long(case, r)
    if mode == "flag":
        return flag(case, r)
    types = list(COMP) if mode == "nn" else (["L1", "L2", "Euc"] if tier == "quick" else list(COMP))
    if mode == "nn":
        nn = case[2]
        n = sum(nn)
        o = np.cumsum([0] + nn)
        blockings = [[list(range(o[i], o[i + 1])) for i in range(len(nn))]]
    else:
        n, blockings = case[2], case[3]
    for blocks in blockings:
        for ts in itertools.product(types, repeat=len(blocks)):
            one(tier, mode, n, blocks, ts, r)
    r.sample("%s n=%d blocks=%s: %d component assignments" % (mode, n, blockings[0], len(types) ** len(blockings[0])))


def one(tier, mode, n, blocks, ts, r):
    def build():
        ops = [COMP[t][0](len(b)) for t, b in zip(ts, blocks)]
        if mode == "nn":
            return pp.VStack(ops, nn=[len(b) for b in blocks])
        return pp.VStack(ops, restr=[pylops.Restriction(n, np.array(b)) for b in blocks])

    op = build()
    xs = xs_for(n, tier)
    for b in blocks if len(blocks) > 1 else []:
        z = xs[0].copy()
        z[b] = 0.0
        xs = xs + [z]
    for x in xs + [np.zeros(n)]:
        nm = "%s%s%s|x=%s" % (mode, blocks, list(ts), x.tolist())
        parts = [x[b] for b in blocks]
        for tau in (0.4, 2.0):
            ref, dref = np.zeros(n), np.zeros(n)
            for t, b, xp in zip(ts, blocks, parts):
                ref[b] = COMP[t][2](xp, tau)
                dref[b] = xp - tau * COMP[t][2](xp / tau, 1 / tau)
            xin = x.copy()
            p = op.prox(xin, tau)
            d = op.proxdual(x.copy(), tau)
            r.state(blocks, ts, tau, x)
            r.trans(2)
            r.trace()
            r.outcome(p)
            r.check(p.shape == x.shape and np.max(np.abs(p - ref)) < 1e-8, nm + "|prox%g" % tau, "prox %s, blockwise prox %s" % (p, ref), x=x)
            r.check(d.shape == x.shape and np.max(np.abs(d - dref)) < 1e-8, nm + "|dual%g" % tau, "dual prox %s, blockwise %s" % (d, dref), x=x)
            r.check(np.array_equal(xin, x), nm + "|x", "input modified")
        v = op(x.copy())
        vr = sum(float(COMP[t][1](xp)) for t, xp in zip(ts, parts))
        r.trans()
        r.check(abs(v - vr) < 1e-9 * (1 + abs(vr)), nm + "|val", "value %r, sum of block values %r" % (v, vr))
        if all(COMP[t][3] and (t != "Euc" or np.any(xp)) for t, xp in zip(ts, parts)):
            g = op.grad(x.copy())
            gr = np.zeros(n)
            for t, b, xp in zip(ts, blocks, parts):
                gr[b] = COMP[t][3](xp)
            r.trans()
            r.check(np.max(np.abs(g - gr)) < 1e-8, nm + "|grad", "gradient %s, blockwise %s" % (g, gr))
    # wrong length is refused by every method
    for m in (n - 1, n + 1):
        for meth in ("prox", "call", "grad"):
            y = np.ones(m)
            r.trans()
            try:
                op(y) if meth == "call" else (op.grad(y) if meth == "grad" else op.prox(y, 1.0))
                r.fail("%s%s%s|len%d|%s" % (mode, blocks, list(ts), m, meth), "input of length %d accepted, %d expected" % (m, n))
            except ValueError:
                pass
