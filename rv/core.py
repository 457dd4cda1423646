"""Runtime-verification framework.

A property module (props/<id>.py) supplies

    TITLE, RULE          text used in the evidence
    cases(tier, seed)    -> list of JSON-able dictionaries
    run(case, m)         executes real freegs code for one case, while the
                         monitor `m` observes and judges it

Every case runs in its own forked process, so a crash, a hang or leaked state
in the code under test cannot affect the judgement of another case.
"""

import contextlib
import hashlib
import io
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
import warnings

import numpy as np

from . import cover

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CASE_TIMEOUT = float(os.environ.get("VERIF_CASE_TIMEOUT", "240"))


class Skip(Exception):
    """The case turned out not to exercise the property (inconclusive)."""


class Stop(Exception):
    """Abandon the case after a violation which makes the rest meaningless."""


def _plain(x):
    """Make a value JSON-able"""
    if isinstance(x, dict):
        return {str(k): _plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_plain(v) for v in x]
    if isinstance(x, np.ndarray):
        if x.size > 12:
            return {
                "shape": list(x.shape),
                "min": _plain(np.nanmin(x)) if x.dtype.kind in "fiub" else None,
                "max": _plain(np.nanmax(x)) if x.dtype.kind in "fiub" else None,
            }
        return [_plain(v) for v in x.tolist()]
    if isinstance(x, (np.floating, float)):
        x = float(x)
        return x if np.isfinite(x) else repr(x)
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.bool_, bool)):
        return bool(x)
    if x is None or isinstance(x, (int, str)):
        return x
    return repr(x)[:200]


class Monitor:
    """Observes one case: counts events, remembers the distinct states seen,
    and records violations."""

    def __init__(self, prop, case):
        self.prop = prop
        self.case = case
        self.events = {}
        self.states = set()
        self.violations = []
        self.samples = []
        self.skips = []
        self.margins = {}

    # ------------------------------------------------------------ observation
    def ev(self, kind, n=1):
        self.events[kind] = self.events.get(kind, 0) + int(n)

    def state(self, *key):
        """A distinct, non-trivial situation in which the oracle was applied"""
        text = json.dumps(_plain(key), sort_keys=True)
        self.states.add(hashlib.sha1(text.encode()).hexdigest()[:16])

    def sample(self, **kw):
        if len(self.samples) < 2:
            self.samples.append(_plain(kw))

    def skip(self, reason):
        self.skips.append(reason)

    # --------------------------------------------------------------- judgement
    def fail(self, rule, **detail):
        if len(self.violations) < 20:
            self.violations.append({"rule": rule, "detail": _plain(detail)})

    def ok(self, cond, rule, **detail):
        self.ev(rule)
        cond = bool(cond)
        if not cond:
            self.fail(rule, **detail)
        return cond

    def close(self, got, want, tol, rule, scale=None, **detail):
        """|got - want| <= tol * scale everywhere, same shape, all finite.

        scale defaults to the largest |want|
        """
        self.ev(rule)
        try:
            got = np.asarray(got, dtype=float)
            want = np.asarray(want, dtype=float)
        except (TypeError, ValueError):
            self.fail(rule, why="not numeric", got=repr(got)[:200], **detail)
            return False
        if got.shape != want.shape:
            self.fail(rule, why="shape", got=got.shape, want=want.shape, **detail)
            return False
        if got.size == 0:
            return True
        if scale is None:
            scale = np.max(np.abs(want))
        bound = tol * np.asarray(scale, dtype=float)
        err = np.abs(got - want)
        bad = ~(err <= bound)  # catches nan
        with np.errstate(all="ignore"):
            ratio = np.max(np.where(bound > 0, err / np.where(bound > 0, bound, 1), 0))
        if np.isfinite(ratio):
            self.margins[rule] = max(self.margins.get(rule, 0.0), float(ratio))
        if np.any(bad):
            i = np.unravel_index(
                np.argmax(np.where(bad, np.nan_to_num(err, nan=np.inf), -1)), bad.shape
            )
            b = np.broadcast_to(bound, bad.shape)[i]
            self.fail(
                rule,
                why="differs",
                index=[int(j) for j in i],
                got=got[i],
                want=want[i],
                allowed=b,
                nbad=int(bad.sum()),
                of=int(bad.size),
                **detail
            )
            return False
        return True

    @contextlib.contextmanager
    def expect_raises(self, rule, *types, **detail):
        self.ev(rule)
        try:
            yield
        except types or Exception:
            return
        self.fail(rule, why="no exception", **detail)

    def result(self):
        return {
            "events": self.events,
            "states": sorted(self.states),
            "violations": self.violations,
            "samples": self.samples,
            "skips": self.skips,
            "margins": self.margins,
        }


@contextlib.contextmanager
def quiet():
    """Silence prints and warnings of the code under test"""
    with contextlib.redirect_stdout(io.StringIO()):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                yield


def run_case(module, prop, case):
    m = Monitor(prop, case)
    try:
        with quiet():
            module.run(case, m)
    except Skip as e:
        m.skip(str(e))
    except Stop:
        pass
    except KeyboardInterrupt:
        raise
    except BaseException as e:  # an exception the property does not allow
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if "/freegs/" in f.filename]
        harness = [f for f in tb if "/props/" in f.filename]
        m.fail(
            "unexpected-exception",
            type=type(e).__name__,
            message=str(e)[:300],
            at=["%s:%s" % (os.path.basename(f.filename), f.name) for f in where[-2:]],
            harness=["%s:%d" % (os.path.basename(f.filename), f.lineno) for f in harness[-1:]],
        )
    return m.result()


def _child(conn, module, prop, case):
    try:
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)  # prints from C code as well
        cover.start(REPO)
        res = run_case(module, prop, case)
        res["lines"] = sorted(cover.seen)
        conn.send(res)
    finally:
        conn.close()
        os._exit(0)


def run_cases(module, prop, cases, jobs):
    """Run all cases, each in a forked process. Yields (case, result)"""
    ctx = mp.get_context("fork")
    pending = list(enumerate(cases))[::-1]
    running = {}
    results = [None] * len(cases)
    while pending or running:
        while pending and len(running) < jobs:
            i, case = pending.pop()
            r, w = ctx.Pipe(duplex=False)
            p = ctx.Process(target=_child, args=(w, module, prop, case))
            p.start()
            w.close()
            running[i] = (p, r, time.time())
        mp.connection.wait([v[1] for v in running.values()], timeout=1.0)
        for i in list(running):
            p, r, t0 = running[i]
            res = None
            if r.poll():
                try:
                    res = r.recv()
                except EOFError:
                    p.join()
                    res = Monitor(prop, cases[i])
                    res.fail("process-died", exitcode=p.exitcode)
                    res = res.result()
            elif time.time() - t0 > CASE_TIMEOUT:
                p.kill()
                res = Monitor(prop, cases[i])
                res.fail("no-answer", seconds=CASE_TIMEOUT)
                res = res.result()
                # A hang: don't wait for every other case to hang as well
                for j, _ in pending:
                    results[j] = Monitor(prop, cases[j]).result()
                    results[j]["skips"].append("not run after a hang")
                    results[j]["seconds"] = 0.0
                pending = []
            if res is not None:
                p.join()
                r.close()
                del running[i]
                res["seconds"] = time.time() - t0
                results[i] = res
    return results


# ------------------------------------------------------------- known findings


def known_findings(prop):
    """Lines of KNOWN_FINDINGS.txt of the form

    finding: property=<id> key=<rule>|<case key> <what fails>
    """
    out = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            words = line.split(None, 3)
            if len(words) == 4 and words[0] == "finding:" and words[1] == "property=" + prop:
                assert words[2].startswith("key=")
                out[words[2][4:]] = words[3].strip()
    return out
