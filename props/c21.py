"""C21: the optimiser"""
import copy
import itertools

import matplotlib

matplotlib.use("Agg")
import numpy as np

from freegs import optimise, optimiser, picard
from freegs.coil import Coil
from freegs.machine import Circuit, Machine, Wall
from rv import oracle, scen
from rv.core import Skip, quiet

TITLE = "Optimiser"
RULE = (
    "Differential evolution on generic objects and on real equilibria (coil radii and heights, re-solved), with smooth, flat, quantised, infinite and failing measures, random "
    "population sizes, crossover, weights and limits. Every candidate is logged at evaluation, together with each generation's population. Oracle: own replay of the "
    "bookkeeping over the log: best = argmin over the log, members never get worse, every trial is parent or a+F(b-c) within limits, objects unchanged after evaluation. "
    "Distinct by (population, controls, measure, limits)."
)
REQUIRED_EVENTS = ("argmin", "not-modified", "start-kept", "evaluations", "generations", "members-improve", "monotone", "monitor-best", "trial", "limits", "initial",
                   "pick-distinct", "pick-all", "control-set", "control-only", "measure-current", "measure-force", "measure-wall", "weighted", "eq-argmin", "eq-score", "eq-limits",
                   "eq-consistent", "seen-cr0", "seen-cr1", "seen-inf", "seen-nan")


def cases(tier, seed):
    n = 500 if tier == "quick" else 4000
    out = [dict(kind="eq", seed=seed, i=i) for i in range(12 if tier == "quick" else 120)]
    out += [dict(kind="generic", seed=seed, i=i) for i in range(n)]
    out += [dict(kind="pick", seed=seed, i=i) for i in range(n // 5)]
    out += [dict(kind="control", seed=seed, i=i) for i in range(n // 3)]
    out += [dict(kind="measures", seed=seed, i=i) for i in range(n // 3)]
    return out


def run(case, m):
    rng = scen.rng_of(case["seed"], case["i"], 21, len(case["kind"]))
    np.random.seed(int(rng.integers(2**31)))
    globals()[case["kind"] + "_case"](case, m, rng)


# ----------------------------------------------------------------- generic objects


class Thing:
    def __init__(self, values):
        self.values = list(values)
        self.marks = []  # would be shared by shallow copies


class Knob:
    def __init__(self, index, lo=None, hi=None):
        self.index, self.lo, self.hi = index, lo, hi

    def clamp(self, v):
        if self.lo is not None and v < self.lo:
            v = self.lo
        if self.hi is not None and v > self.hi:
            v = self.hi
        return v

    def set(self, obj, value):
        obj.values[self.index] = self.clamp(value)

    def get(self, obj):
        return obj.values[self.index]


def generic_case(case, m, rng):
    n = int(rng.integers(1, 5))
    N = int(rng.integers(4, 8))
    gens = int(rng.integers(0, 7))
    CR = float(rng.choice([0.0, 1.0, rng.uniform(0, 1)]))
    F = float(rng.uniform(0, 2))
    start = [float(v) for v in rng.normal(size=n) * 10 ** rng.uniform(-2, 2)]
    if rng.random() < 0.15:
        start[0] = 0.0
    target = [float(v) for v in rng.normal(size=n)]
    shape = str(rng.choice(["square", "abs", "flat", "steps", "hills", "linear"]))
    failing = float(rng.choice([0.0, 0.3, 0.7]))
    how = str(rng.choice(["inf", "nan"]))
    knobs = []
    for k in range(n):
        lo = start[k] - abs(rng.normal()) * (abs(start[k]) + 0.1) if rng.random() < 0.4 else None
        hi = start[k] + abs(rng.normal()) * (abs(start[k]) + 0.1) if rng.random() < 0.4 else None
        knobs.append(Knob(k, lo, hi))
    log = []  # (object, values, score)
    obj = Thing(start)

    def f(v):
        d = np.array(v) - target
        if shape == "square":
            return float(np.sum(d**2))
        if shape == "abs":
            return float(np.sum(np.abs(d)))
        if shape == "flat":
            return 1.0
        if shape == "steps":
            return float(np.sum(np.floor(np.abs(d) * 3)))
        if shape == "hills":
            return float(np.sum(np.cos(5 * d) + 0.1 * d**2))
        return float(np.sum(v))

    def measure(o):
        s = f(o.values)
        if log and rng.random() < failing:
            s = float(how)
            m.ev("seen-" + how)
        elif not log and rng.random() < 0.1:
            s = float(how)
        o.marks.append(len(log))
        log.append((o, list(o.values), s))
        return s

    pops = []

    def watch(generation, best, population):
        pops.append((generation, best, list(population), len(log)))

    result = optimiser.optimise(obj, knobs, measure, maxgen=gens, N=N, CR=CR, F=F, monitor=watch if rng.random() < 0.95 else None)
    m.ok(obj.values == start, "start-kept", got=obj.values, want=start)
    log = [(o, v, s if s == s else float('inf')) for o, v, s in log]  # not a number: as bad as can be
    good = [s for _, _, s in log]
    low = min(good)
    mine = [k for k, (o, _, _) in enumerate(log) if o is result]
    m.ok(len(mine) == 1 and log[mine[0]][2] == low, "argmin", N=N, gens=gens, shape=shape, got=[log[k][2] for k in mine], best=low)
    m.ok(len({id(o) for o, _, _ in log}) == len(log) and all(o.marks == [k] or (o.marks and o.marks[-1] == k) for k, (o, _, _) in enumerate(log)), "not-modified", what="one object per evaluation")
    for k, (o, v, s) in enumerate(log):
        if not m.ok(o.values == v, "not-modified", candidate=k, at_evaluation=v, now=list(o.values)):
            break
    m.ok(len(log) == N * (gens + 1), "evaluations", got=len(log), N=N, gens=gens)
    # Initial population: variations of the start
    for k in range(1, min(N, len(log))):
        for kn, a, b in zip(knobs, start, log[k][1]):
            if abs(a) > 1e-9:
                lo, hi = sorted([a * 0.95, a * 1.05])
                m.ok(kn.clamp(lo) - 1e-12 <= b <= kn.clamp(hi) + 1e-12, "initial", start=a, got=b)
            else:
                m.ok(b == kn.clamp(b) and b != a or kn.lo == a or kn.hi == a, "initial", what="zero start", got=b)
    for _, v, _ in log[1:]:
        m.ok(all(x == kn.clamp(x) for kn, x in zip(knobs, v)), "limits", values=v)
    if pops:
        m.ok([p[0] for p in pops] == list(range(gens)), "generations", got=[p[0] for p in pops])
        scores = {id(o): (k, s) for k, (o, _, s) in enumerate(log)}
        prev = [(s, o) for o, _, s in log[:N]]
        best = min(good[:1] + [s for _, _, s in log[:N] if s == s])
        for g, b, pop, seen in pops:
            m.ok(len(pop) == N and all(id(o) in scores for _, o in pop), "generations", what="population", size=len(pop))
            low = min(s for _, _, s in log[:seen] if s == s)
            m.ok(b[0] == low and scores.get(id(b[1]), (0, None))[1] == low, "monitor-best", got=b[0], want=low, generation=g)
            m.ok(b[0] <= best, "monotone", before=best, now=b[0])
            best = b[0]
            for (s0, o0), (s1, o1) in zip(prev, pop):
                same = o0 is o1
                m.ok(same or s1 < s0, "members-improve", before=s0, now=s1, generation=g)
                got = scores[id(o1)][1]
                m.ok(s1 == got, "members-improve", what="score belongs to the object", listed=s1, evaluated=got)
            # replay the trials of this generation
            first = seen - N
            for ai in range(N):
                o, v, s = log[first + ai]
                parent = prev[ai][1].values
                idx = [j for j in range(N) if j != ai]
                found = False
                for a, b1, c in itertools.permutations(idx, 3):
                    tv = [kn.clamp(kn.get(prev[a][1]) + F * (kn.get(prev[b1][1]) - kn.get(prev[c][1]))) for kn in knobs]
                    fresh = [abs(x - t) <= 1e-12 * (1 + abs(t)) for x, t in zip(v, tv)]
                    old = [x == p for x, p in zip(v, parent)]
                    if all(x or y for x, y in zip(fresh, old)) and any(fresh) and (CR < 1 or all(fresh)) and (CR > 0 or n == 1 or sum(not y for y in old) <= 1):
                        found = True
                        break
                m.ok(found, "trial", generation=g, member=ai, trial=v, parent=parent, F=F, CR=CR)
            prev = pop
        if CR == 0:
            m.ev("seen-cr0")
        if CR == 1:
            m.ev("seen-cr1")
        m.ok(any(o is result for _, o in prev), "argmin", what="the result is in the last population")
    m.state("generic", N, n, gens, shape, round(CR, 2), failing)
    m.sample(N=N, controls=n, generations=gens, measure=shape, evaluated=len(log), best=low)


def pick_case(case, m, rng):
    N = int(rng.integers(4, 9))
    e = sorted(int(v) for v in rng.choice(N, size=int(rng.integers(0, N - 2)), replace=False))
    rng.shuffle(e)
    k = int(rng.integers(1, N - len(e) + 1))
    allowed = set(range(N)) - set(e)
    seen = [set() for _ in range(k)]
    for _ in range(1500):
        given = list(e)
        p = optimiser.pickUnique(N, k, given)
        if not m.ok(len(p) == k and len(set(p)) == k and set(p) <= allowed and given == e, "pick-distinct", N=N, m=k, e=e, got=list(map(int, p))):
            return
        for s, v in zip(seen, p):
            s.add(int(v))
    for j, s in enumerate(seen):
        m.ok(s == allowed, "pick-all", N=N, m=k, e=e, position=j, never=sorted(allowed - s))
    m.state("pick", N, k, tuple(e))


# ----------------------------------------------------------------- controls and measures


def snapshot(tok):
    out = {}
    for label, c in tok.coils:
        out[label] = (type(c).__name__, getattr(c, "R", None), getattr(c, "Z", None), c.current, getattr(c, "turns", None), c.control)
    return out


class Holder:
    """The part of an equilibrium which controls and measures may use"""

    def __init__(self, tok):
        self.tokamak = tok


def control_case(case, m, rng):
    tok, fils = scen.random_machine(rng, kinds=("coil", "multi", "filament"))
    labels = [l for l, c in tok.coils if hasattr(c, "R")]
    if not labels:
        raise Skip("only circuits")
    eq = Holder(tok)
    for _ in range(4):
        label = str(rng.choice(labels))
        cls, attr = ((optimise.CoilRadius, "R"), (optimise.CoilHeight, "Z"))[int(rng.integers(2))]
        lo = float(rng.uniform(0.3, 0.9)) if rng.random() < 0.5 else None
        hi = float(rng.uniform(1.0, 1.9)) if rng.random() < 0.5 else None
        if attr == "Z":
            lo, hi = (None if lo is None else lo - 1.5), (None if hi is None else hi - 1.0)
        special = rng.random()
        v = float(rng.uniform(0.2, 2.4) if attr == "R" else rng.uniform(-2, 2))
        kw = dict(minimum=lo, maximum=hi)
        if special < 0.15 and attr == "R":
            # a radius is not negative unless this is asked for
            kw, lo, v = ({} if hi is None else dict(maximum=hi)), 0.0, -v
        elif special < 0.15:
            kw = dict(maximum=0) if rng.random() < 0.5 else dict(minimum=0.0)
            lo, hi = kw.get("minimum"), kw.get("maximum")
        elif special < 0.25 and lo is not None and hi is not None:
            hi = kw["maximum"] = lo  # one value only
        elif special < 0.3 and lo is not None:
            v = lo
        ctl = cls(label, **kw)
        m.close(float(ctl.get(eq)), float(getattr(tok[label], attr)), 0.0, "control-set", what="get")
        before = snapshot(tok)
        ctl.set(eq, v)
        want = max(v, lo) if lo is not None else v
        want = min(want, hi) if hi is not None else want
        m.close(float(getattr(tok[label], attr)), want, 1e-12, "control-set", label=label, attr=attr, lo=lo, hi=hi, asked=v)
        m.close(float(ctl.get(eq)), want, 1e-12, "control-set", what="get after set")
        after = snapshot(tok)
        k = 1 if attr == "R" else 2
        ok = all(after[l] == before[l] for l in before if l != label) and all(
            j == k or after[label][j] == before[label][j] or abs(after[label][j] - before[label][j]) < 1e-12 for j in range(6)
        )
        m.ok(ok, "control-only", label=label, attr=attr, before=before, after=after)
    m.state("control", [type(c).__name__ for _, c in tok.coils], round(want, 3))


def measures_case(case, m, rng):
    tok, fils = scen.random_machine(rng, kinds=("coil", "multi1", "filament", "solenoid"), ncoils=int(rng.integers(2, 6)))
    eq = Holder(tok)
    Is = [c.current for _, c in tok.coils]
    m.close(float(optimise.max_abs_coil_current(eq)), max(abs(v) for v in Is), 1e-12, "measure-current", currents=Is)
    flat = []

    def collect(f):
        for v in f.values():
            if isinstance(v, dict):
                collect(v)
            else:
                flat.append(float(np.hypot(v[0], v[1])))

    # separated plain coils: the default areas give finite forces
    pts = [(0.5 + 0.4 * k, float(rng.uniform(-1, 1))) for k in range(4)]
    cs = [Coil(r, z, current=float(rng.normal() * 1e4), turns=int(rng.integers(1, 9)), area=1e-3) for r, z in pts]
    tk = Machine([("a", cs[0]), ("k", Circuit([("b", cs[1], 1.0), ("c", cs[2], float(rng.choice([3.0, -2.0, 0.1])))], current=float(rng.normal() * 1e4))), ("d", cs[3])])
    collect(tk.getForces())
    before = snapshot(tk), [c.current for c in cs]
    m.close(float(optimise.max_coil_force(Holder(tk))), max(flat), 1e-9, "measure-force", forces=flat)
    m.ok((snapshot(tk), [c.current for c in cs]) == before, "measure-force", what="unchanged")

    class W(Holder):
        def __init__(self, hit):
            self.hit = hit

        def intersectsWall(self):
            return self.hit

    m.ok(optimise.no_wall_intersection(W(True)) == float("inf") and optimise.no_wall_intersection(W(False)) == 0.0, "measure-wall")
    k = int(rng.integers(1, 5))
    vals, weights = rng.normal(size=k), rng.normal(size=k)
    args, want = [], 0.0
    for v, w in zip(vals, weights):
        fn = lambda o, v=v: float(v) * o
        if rng.random() < 0.4:
            args.append(fn)
            want += v
        else:
            args.append((fn, float(w)))
            want += v * w
    if rng.random() < 0.5:
        # the same measure again counts again
        args.append(args[0])
        want += vals[0] * (args[0][1] if isinstance(args[0], tuple) else 1.0)
    if rng.random() < 0.2:
        args.append((lambda o: float("nan") if o > 1e6 else 3.0 * o, 0.0))
    fn = optimise.weighted_sum(*args)
    for x in (1.0, -2.5):
        m.close(float(fn(x)), float(want) * x, 1e-12, "weighted", scale=float(np.sum(np.abs(vals)) + 1) * abs(x), n=k)
    m.state("measures", len(Is), round(max(map(abs, Is))))


# ----------------------------------------------------------------- equilibria


def eq_case(case, m, rng):
    wall = Wall([0.75, 0.75, 1.5, 1.8, 1.8, 1.5], [-0.85, 0.85, 0.85, 0.25, -0.25, -0.85])
    try:
        eq, prof, con, desc = scen.quick_eq(rng, steps=2, tame=True, style=str(rng.choice(["coils", "turns", "shaped"])), nx=33, ny=33, wall=wall)
        with quiet():
            picard.solve(eq, prof, con, rtol=1e-3, maxits=40)
    except (RuntimeError, ValueError) as e:
        raise Skip(str(e))
    lo, hi = 1.70, 1.80
    controls = [optimise.CoilRadius("P2U", minimum=lo, maximum=hi), optimise.CoilHeight("P1L", maximum=-1.05)]
    if rng.random() < 0.5:
        controls.append(optimise.CoilHeight("P2L", minimum=-0.75, maximum=-0.5))
    limits = [(c.minimum, c.maximum) for c in controls]
    N, gens = 4, int(rng.integers(1, 3))
    failing = float(rng.choice([0.0, 0.3]))
    kind = str(rng.choice(["current", "force", "sum"]))
    base = {"current": optimise.max_abs_coil_current, "force": optimise.max_coil_force, "sum": optimise.weighted_sum(optimise.max_abs_coil_current, (optimise.max_coil_force, 0.1))}[kind]
    log, started = [], []

    def measure(e):
        if log and rng.random() < failing:
            log.append((e, [c.get(e) for c in controls], float("inf"), None))
            raise ValueError("injected failure")
        s = float(base(e))
        log.append((e, [float(c.get(e)) for c in controls], s, np.array(e.psi())))
        return s

    pops = []
    with quiet():
        result = optimise.optimise(eq, controls, measure, maxgen=gens, N=N, CR=0.5, F=0.8, monitor=lambda g, b, p: pops.append((g, b, list(p))))
    good = [x for x in log if np.isfinite(x[2])]
    if not good:
        raise Skip("no candidate could be solved")
    low = min(x[2] for x in good)
    mine = [x for x in log if x[0] is result]
    m.ok(len(mine) == 1 and mine[0][2] == low, "eq-argmin", got=[x[2] for x in mine], best=low, measure=kind, **desc)
    if any(not np.isfinite(x[2]) for x in log) or len(log) < N * (gens + 1):
        m.ok(np.isfinite(mine[0][2]) if mine else False, "eq-failed", evaluated=len(log))
    for e, v, s, psi in log[1:]:
        m.ok(all((a is None or x >= a - 1e-12) and (b is None or x <= b + 1e-12) for x, (a, b) in zip(v, limits)), "eq-limits", values=v, limits=limits)
    for k, (e, v, s, psi) in enumerate(log):
        if psi is None:
            continue
        now = float(base(e))
        m.ok(now == s and v == [float(c.get(e)) for c in controls] and np.array_equal(psi, e.psi()), "eq-score", candidate=k, at_evaluation=s, now=now)
    # the returned equilibrium is the field of the coils where they now are
    with quiet():
        want = sum(c.psi(result.R, result.Z) for _, c in result.tokamak.coils) + result.plasma_psi
    m.close(np.array(result.psi()), want, 1e-8, "eq-consistent", scale=np.ptp(want), **desc)
    for g, b, p in pops:
        fin = [s for s, _ in p]
        m.ok(b[0] == min(fin), "eq-argmin", what="monitor", got=b[0], population=fin)
    m.state("eq", desc, kind, gens)
    m.sample(evaluated=len(log), best=low, start=log[0][2], **desc)
