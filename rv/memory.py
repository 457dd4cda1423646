"""Answers must not depend on what was asked before.

Of two like equilibria, made in the same way, one is questioned, then both are changed in the same way through the public
interface, then both are questioned. The other one lives in a forked process, so that nothing remembered at any level, of the
object, its parts or the modules, can reach it. Any difference between the answers comes from something remembered."""
import os
import pickle

import numpy as np

from rv import scen
from rv.core import Skip


def apart(f):
    """f() in a process of its own"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                data = pickle.dumps((True, f()))
            except Skip as e:
                data = pickle.dumps((False, str(e)))
            except BaseException as e:
                data = pickle.dumps((None, "%s: %s" % (type(e).__name__, e)))
            with os.fdopen(w, "wb") as out:
                out.write(data)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f_:
        data = f_.read()
    os.waitpid(pid, 0)
    ok, value = pickle.loads(data)
    if ok is False:
        raise Skip(value)
    if ok is None:
        raise RuntimeError("apart: " + value)
    return value


def play(key, ask, names, ops, always):
    """Make a state, change it by ops; ask before and between if always. Returns description, answers after the last change"""
    from props import c27

    eq, prof, con, desc = c27.make_state(scen.rng_of(*key))
    held = {}
    for n, op in enumerate([None] + list(ops)):
        if op is not None:
            try:
                prof = c27.change(op, eq, prof, con, scen.rng_of(*key, n))
            except (ValueError, RuntimeError, IndexError, TypeError) as e:
                return desc, {"change": (None, type(e).__name__)}
        if not always and n < len(ops):
            continue
        q = ask(eq, prof, con, scen.rng_of(*key, 99), held)
        answers = {}
        for name in names(q):
            answers[name] = c27.call(q[name])
            c27.plt.close("all")
    return desc, answers


def later(case, m, tag, ask, pick=None, ops=None, rule="remembered"):
    """ask(eq, prof, con, rng, held) -> {name: function}; pick: how many (all if not given). The same questions each time"""
    from props import c27

    key = (case["seed"], case["i"], 275, tag)
    rng = scen.rng_of(*key, 1)
    ops = [str(k) for k in rng.choice(ops or c27.CHANGES, int(rng.integers(1, 3)))]

    def names(q):
        all_ = [str(k) for k in scen.rng_of(*key, 2).permutation(sorted(q))]
        return all_[:pick]

    desc, want = apart(lambda: play(key, ask, names, ops, False))
    _, got = play(key, ask, names, ops, True)
    for name in got:
        m.ev("answered" if got[name][1] is None else "no answer")
        m.ok(name in want and got[name][1] == want[name][1] and c27.close(got[name][0], want[name][0]), rule, query=name, changes=ops,
             raised=(got[name][1], want.get(name, (0, "missing"))[1]), got=small(got[name][0]), want=small(want.get(name, (None,))[0]), **desc)
    m.ok(set(got) == set(want), rule, what="the changes themselves", changes=ops, **desc)
    m.state("memory", case["i"], tuple(ops))


def small(x):
    return x if isinstance(x, (int, float, str, type(None))) else np.ravel(np.asarray(x, dtype=object))[:3].tolist() if not isinstance(x, dict) else list(x)[:3]


def standard():
    """The queries of C27"""
    from props import c27

    def ask(eq, prof, con, rng, held):
        return c27.queries(eq, prof, con, rng)[0]

    return ask
