"""Explorer core: enumerates cases, runs each on the real code, counts what was
visited, matches violations against the known-findings file, writes evidence
and replay files.

A property module provides
    ID, LEVEL ("model_checking" | "exploration"), ASSUMPTIONS (list of str)
    cases(tier)   -> list of JSON-able case keys (the bounded space, complete)
    run(case, r)  -> drives the real code and reports to the Recorder `r`
Optionally RULE (how distinct non-trivial outcomes are counted).
"""

import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAY_DIR = os.path.join(VERIF, "evidence", "replays")
KNOWN = os.path.join(VERIF, "known_findings.json")


def h64(obj):
    """Stable 64 bit hash of a (nested) observation."""
    return int.from_bytes(
        hashlib.blake2b(canon(obj).encode(), digest_size=8).digest(), "big"
    )


def canon(o):
    """Canonical text of an observation: floats rounded to 7 significant digits."""
    if isinstance(o, np.ndarray):
        return "A%s[%s]" % (o.shape, ",".join(canon(v) for v in o.ravel().tolist()))
    if isinstance(o, (bool, np.bool_)):
        return "B%d" % bool(o)
    if isinstance(o, (int, np.integer)):
        return "I%d" % int(o)
    if isinstance(o, (float, np.floating)):
        f = float(o)
        return "F%.6e" % (0.0 if abs(f) < 1e-9 else f)
    if isinstance(o, (complex, np.complexfloating)):
        return "C" + canon(float(o.real)) + canon(float(o.imag))
    if isinstance(o, (list, tuple)):
        return "(" + ",".join(canon(v) for v in o) + ")"
    if isinstance(o, dict):
        return "{" + ",".join("%s:%s" % (k, canon(o[k])) for k in sorted(o)) + "}"
    return str(o)


def js(o):
    if isinstance(o, np.ndarray):
        if np.iscomplexobj(o):
            return {"re": o.real.tolist(), "im": o.imag.tolist()}
        return o.tolist()
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if isinstance(o, complex):
        return [o.real, o.imag]
    return str(o)


class Recorder:
    """Collects what one worker visited."""

    MAXV = 40
    limit = 0.0
    longest = 0.0

    def __init__(self):
        self.case = None
        self.states = set()
        self.transitions = 0
        self.evals = 0
        self.traces = 0
        self.outcomes = set()
        self.samples = []
        self.viol = []
        self.nviol = 0

    # -- coverage -----------------------------------------------------
    def state(self, *key):
        """One distinct reached state (operator/solver configuration+history+input)."""
        self.states.add(h64((self.case, key)))

    def trans(self, n=1):
        """One executed transition of the implementation (a call into it)."""
        self.transitions += n

    def trace(self, n=1):
        """One model trace/behaviour compared step by step with the implementation."""
        self.traces += n

    def outcome(self, *obs):
        """An observation produced by the implementation (distinct ones are counted)."""
        self.evals += 1
        self.outcomes.add(h64(obs))

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(str(s)[:300])

    # -- verdicts -----------------------------------------------------
    def fail(self, sig, msg, **data):
        """Report a violation. `sig` names call site + specific input."""
        self.nviol += 1
        if len(self.viol) < self.MAXV:
            self.viol.append(
                {
                    "sig": sig,
                    "msg": msg,
                    "case": self.case,
                    "data": json.loads(json.dumps(data, default=js)),
                }
            )

    def check(self, ok, sig, msg, **data):
        if not ok:
            self.fail(sig, msg, **data)
        return bool(ok)

    def pack(self):
        return {
            k: getattr(self, k)
            for k in (
                "states",
                "transitions",
                "evals",
                "traces",
                "outcomes",
                "samples",
                "viol",
                "nviol",
                "longest",
            )
        }


class Hang(BaseException):
    """The case used far more processor time than any case needs: the code under test does not return."""


HANG_CPU_S = 300.0  # processor seconds; the longest case of any quick tier needs a few
HANG_WALL_S = 600.0  # quick tier: no case finished anywhere for this long
_hung = [False]


def _on_timer(signum, frame):
    raise Hang()


def guarded(mod, case, r):
    r.case = case
    if _hung[0]:  # this worker has reported a hang: do not run into it again
        return
    try:
        if r.limit:
            signal.signal(signal.SIGVTALRM, _on_timer)
            signal.setitimer(signal.ITIMER_VIRTUAL, r.limit)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                mod.run(case, r)
    except Hang:
        _hung[0] = True
        r.fail("hang", "a call did not return within %g processor seconds" % r.limit, trace=traceback.format_exc()[-1500:])
    except Exception as e:  # an unexpected exception is a violation of the case
        tb = traceback.extract_tb(e.__traceback__)
        where = [
            "%s:%s" % (os.path.basename(f.filename), f.name)
            for f in tb
            if "pyproximal" in f.filename
        ]
        r.fail(
            "exception|%s|%s" % (type(e).__name__, where[-1] if where else "harness"),
            "unexpected %s: %s" % (type(e).__name__, e),
            trace=traceback.format_exc()[-1500:],
        )
    finally:
        if r.limit:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def _work(args):
    modname, cases, limit = args
    mod = importlib.import_module(modname)
    r = Recorder()
    r.limit = limit
    for c in cases:
        t = time.process_time()
        guarded(mod, c, r)
        r.longest = max(r.longest, time.process_time() - t)
    return r.pack()


def load_known(pid):
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        d = json.load(f)
    return [k for k in d["findings"] if k["property"] == pid]


def main(argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--first", action="store_true", help="stop exploring at the first unlisted violation")
    ap.add_argument("--case", help="run only cases whose JSON contains this text")
    a = ap.parse_args(argv)
    modname = "mc.props.%s" % a.prop.lower()
    t0 = time.time()
    import pyproximal

    repo = os.environ.get("VERIF_REPO", "/repo")
    if not os.path.abspath(pyproximal.__file__).startswith(repo + "/"):
        print("harness error: pyproximal imported from", pyproximal.__file__)
        return 2
    mod = importlib.import_module(modname)

    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        r = Recorder()
        guarded(mod, rep["case"], r)
        hit = [v for v in r.viol if v["sig"] == rep["sig"]]
        for v in hit or r.viol:
            print("reproduced:", v["sig"], "--", v["msg"])
        print("replay of %s: %d violation(s), same signature: %s" % (a.replay, r.nviol, bool(hit)))
        return 1 if r.nviol else 0

    cases = list(mod.cases(a.tier))
    if a.case:
        cases = [c for c in cases if a.case in json.dumps(c, default=js)]
    listed = {k["sig"] for k in load_known(a.prop) if k["status"] == "open"}
    limit = HANG_CPU_S if a.tier == "quick" else 0.0
    n = max(1, min(a.jobs, len(cases)))
    if n == 1:
        parts = [_work((modname, cases, limit))]
    else:
        # many small chunks, dealt round-robin so that heavy families spread out
        nchunk = min(len(cases), n * 12)
        chunks = [(modname, cases[i::nchunk], limit) for i in range(nchunk)]
        parts = []
        with mp.get_context("fork").Pool(n) as pool:
            it = pool.imap_unordered(_work, chunks)
            try:
                while len(parts) < len(chunks):
                    parts.append(it.next(HANG_WALL_S if limit else None))
                    if a.first and any(v["sig"] not in listed for v in parts[-1]["viol"]):
                        pool.terminate()
                        break
            except mp.TimeoutError:
                r = Recorder()
                r.fail("hang", "no case finished for %g seconds: a compiled loop does not return" % HANG_WALL_S)
                parts.append(r.pack())
                pool.terminate()
    tot = Recorder()
    for p in parts:
        tot.states |= p["states"]
        tot.outcomes |= p["outcomes"]
        for k in ("transitions", "evals", "traces", "nviol"):
            setattr(tot, k, getattr(tot, k) + p[k])
        tot.viol += p["viol"]
        tot.longest = max(tot.longest, p["longest"])
        for s in p["samples"]:
            if len(tot.samples) < 12:
                tot.samples.append(s)

    known = load_known(a.prop)
    open_ = {k["sig"]: k for k in known if k["status"] == "open"}
    seen_known, new = {}, {}
    for v in tot.viol:
        if v["sig"] in open_:
            seen_known[v["sig"]] = v
        else:
            new.setdefault(v["sig"], v)
    for s in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s" % (a.prop, open_[s]["what"]))
    os.makedirs(REPLAY_DIR, exist_ok=True)
    for old in os.listdir(REPLAY_DIR):
        if old.startswith(a.prop + "-"):
            os.unlink(os.path.join(REPLAY_DIR, old))
    lim = 10
    for i, s in enumerate(sorted(new, key=lambda s: len(s))[:lim]):
        v = new[s]
        path = os.path.join(REPLAY_DIR, "%s-%02d.json" % (a.prop, i))
        with open(path, "w") as f:
            json.dump({"property": a.prop, **v}, f, indent=1, default=js)
        print("  %s: %s" % (s, v["msg"]))
        print("  replay: /verif/run.sh %s --replay %s" % (a.prop, path))
        print("VIOLATION property=%s replay=%s" % (a.prop, path))

    wall = time.time() - t0
    capped = a.case is not None or a.first and bool(new)
    if mod.LEVEL == "model_checking":
        cov = {
            "states": len(tot.states),
            "transitions": tot.transitions,
            "traces_validated_against_impl": tot.traces,
            "samples": tot.samples,
            "exhaustive": not capped,
        }
    else:
        cov = {
            "evaluations": tot.evals,
            "distinct_nontrivial": len(tot.outcomes),
            "rule": getattr(mod, "RULE", ""),
            "samples": tot.samples,
            "exhaustive": not capped,
        }
    ev = {
        "property": a.prop,
        "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": mod.LEVEL,
        "coverage": cov,
        "assumptions": list(mod.ASSUMPTIONS),
        "wall_s": round(wall, 3),
        "violations": len(new),
    }
    with open(os.path.join(VERIF, "evidence", "%s.json" % a.prop), "w") as f:
        json.dump(ev, f, indent=1)
    print(
        "%s tier=%s cases=%d states=%d transitions=%d traces=%d outcomes=%d/%d violations=%d (raw %d) known=%d wall=%.1fs longest=%.1fs"
        % (
            a.prop, a.tier, len(cases), len(tot.states), tot.transitions, tot.traces,
            len(tot.outcomes), tot.evals, len(new), tot.nviol, len(seen_known), wall, tot.longest,
        )
    )
    return 1 if new else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
