"""C27: queries do not change state, objects do not share it"""
import copy
import io
import os
import tempfile

import matplotlib.pyplot as plt
import numpy as np
import shapely

import freegs
from freegs import boundary, control, critical, dump, equilibrium, fieldtracer, geqdsk, jtor, machine, plotting
from freegs.machine import Circuit, Coil, FluxLoopSensor, Machine, PoloidalFieldSensor, RogowskiSensor, Solenoid, Wall
from freegs.multi_coil import MultiCoil
from freegs.shaped_coil import ShapedCoil
from freegs.filament_coil import FilamentCoil
from rv import memory, observe, scen
from rv.core import Skip, quiet

TITLE = "Queries do not change state, objects do not share it"
RULE = (
    "Random states (all kinds of coils, circuits, sensors, diverted and limited, solved and vacuum). Random sequences of some eighty queries: diagnostics, fields, critical points, plots, files, field lines, forces, measurements, "
    "profiles, changes of resolution; around each the observable state is recorded, bit by bit, and repeated queries, also after others, must agree. What is handed in or was handed out is watched. "
    "Of two like equilibria one is questioned, both are then changed (solved, driven, moved, limited), and both must give the same answers: nothing remembered from before may show. "
    "Runs of one object are repeated with operations on others in between. Objects made with defaults are changed and made again. Distinct by (state, sequence of queries)."
)
REQUIRED_EVENTS = ("state", "repeat", "handed-in", "handed-out", "solve-handed-out", "seen-vacuum", "seen-limited", "seen-sensors", "seen-circuit", "seen-plot", "seen-file", "seen-forces", "seen-raised",
                   "interleaved", "defaults", "machines", "given-lists", "copy", "profiles", "seen-profile-shared", "scribble", "answers-after")


def cases(tier, seed):
    n = 110 if tier == "quick" else 1200
    out = [dict(kind="interleave", seed=seed, i=i) for i in range(n // 4)]
    out += [dict(kind="queries", seed=seed, i=i) for i in range(n)]
    out += [dict(kind="defaults", seed=seed, i=i) for i in range(n // 8)]
    out += [dict(kind="given", seed=seed, i=i) for i in range(n // 4)]
    out += [dict(kind="history", seed=seed, i=i) for i in range(4 * n // 11)]
    return out


def run(case, m):
    rng = scen.rng_of(case["seed"], case["i"], 27, len(case["kind"]))
    with quiet():
        globals()[case["kind"] + "_case"](case, m, rng)


# ---------------------------------------------------------------- states

def make_machine(rng):
    style = str(rng.choice(["coils", "shaped", "turns", "mixed", "circuit"]))
    wall = None
    kind = rng.random()
    if kind < 0.4:
        wall = Wall([0.75, 0.75, 1.5, 1.8, 1.8, 1.5], [-0.85, 0.85, 0.85, 0.25, -0.25, -0.85])
    elif kind < 0.6:
        wall = Wall([0.85, 0.85, 1.3, 1.45, 1.45, 1.3], [-0.7, 0.7, 0.7, 0.25, -0.25, -0.7])
    if style == "circuit":
        tok = scen.d_machine(rng, 0.01, "turns", wall)
        c = dict(tok.coils)
        tok = Machine([("P1L", c["P1L"]), ("P1U", c["P1U"]), ("CL", Circuit([("P2L", c["P2L"], 1.0), ("P3L", Coil(1.5, -1.15, turns=2), 0.3)])),
                       ("CU", Circuit([("P2U", c["P2U"], 1.0), ("P3U", Coil(1.5, 1.15), 0.2)]))], wall=wall)
    else:
        tok = scen.d_machine(rng, 0.01, style, wall)
    if rng.random() < 0.5:
        tok.sensors = [RogowskiSensor([1.3, 1.3, 0.9, 0.9], [-0.5, 0.5, 0.5, -0.5], name="rog"), FluxLoopSensor(1.2, 0.4, name="loop"), PoloidalFieldSensor(1.0, 0.3, 0.4, name="pick")]
    return style, tok


def make_state(rng, m=None):
    style, tok = make_machine(rng)
    vacuum = rng.random() < 0.1
    kw = dict(nx=33, ny=int(rng.choice([33, 65], p=[0.8, 0.2])), order=int(rng.choice([2, 4])), bd=str(rng.choice(["free", "hagenow"])))
    try:
        eq, prof, con, desc = scen.quick_eq(rng, steps=0 if vacuum else int(rng.integers(2, 4)), tame=True, style=style, tok=tok, **kw)
        if not vacuum and tok.wall is not None and rng.random() < 0.6:
            eq.check_limited = True
            con(eq), eq.solve(prof)
    except (ValueError, RuntimeError, IndexError, TypeError) as e:
        raise Skip(str(e))
    if m is not None:
        for name, yes in (("vacuum", vacuum), ("limited", eq.is_limited), ("sensors", bool(tok.sensors)), ("circuit", style == "circuit")):
            if yes:
                m.ev("seen-" + name)
    desc.update(limited=bool(eq.is_limited), vacuum=vacuum)
    return eq, prof, con, desc


def fingerprint(eq, measurements=False):
    out = observe.equilibrium(eq)
    if not measurements:
        out = {k: v for k, v in out.items() if k != ("m", "sensors")}
    for lab, c in eq.tokamak.coils:
        out["repr", lab] = repr(c)
        for a in ("mirror", "polarity", "shape", "Rfil", "Zfil", "points"):
            v = getattr(c, a, None)
            if v is not None:
                out["coil", lab, a] = np.array(v, float)
    con = getattr(eq, "_constraints", None)
    if con is not None:
        out["con"] = repr([list(con.xpoints), list(con.isoflux), list(con.psivals)])
    return out


def plain(x):
    """A result as something to compare"""
    if x is None or isinstance(x, (bool, str, int, float)):
        return x
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, (np.ndarray, np.generic)):
        return np.array(x)
    return type(x).__name__


def equal(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        # (the same numbers; last bits may depend on how arrays are laid out in memory)
        return isinstance(b, np.ndarray) and a.shape == b.shape and np.allclose(a, b, rtol=1e-12, atol=0, equal_nan=True) if a.dtype.kind == "f" else np.array_equal(a, b)
    if isinstance(a, float):
        return a == b or (a != a and b != b) or abs(a - b) <= 1e-12 * abs(a)
    return a == b


# ---------------------------------------------------------------- queries

def axes():
    return plt.figure().add_subplot(111)


def text_file(eq):
    f = io.StringIO()
    geqdsk.write(eq, f, label="x")
    return f.getvalue().split("\n", 1)[1]


def hdf_file(eq):
    with tempfile.TemporaryDirectory() as d:
        name = os.path.join(d, "x.h5")
        with freegs.OutputFile(name, "w") as f:
            f.write_equilibrium(eq)
        with freegs.OutputFile(name, "r") as f:
            back = f.read_equilibrium()
    return np.array(back.plasma_psi)


def hdf_machine(eq):
    """Currents and positions as a file holds them"""
    with tempfile.TemporaryDirectory() as d:
        name = os.path.join(d, "x.h5")
        with freegs.OutputFile(name, "w") as f:
            f.write_machine(eq.tokamak)
        with freegs.OutputFile(name, "r") as f:
            back = f.read_machine()
    return repr(back)


def points(rng, n=4):
    return rng.uniform(0.5, 1.5, n), rng.uniform(-0.6, 0.6, n)


def queries(eq, prof, con, rng):
    """name -> function of nothing. Arrays which are handed in are made here, once"""
    tok = eq.tokamak
    r, z = points(rng)
    q = {}
    for name in ("plasmaCurrent", "plasmaVolume", "psi", "psiN", "fvac", "separatrix", "getForces", "printForces", "innerOuterSeparatrix", "intersectsWall", "magneticAxis", "Rmagnetic", "Zmagnetic",
                 "geometricAxis", "Rgeometric", "Zgeometric", "minorRadius", "aspectRatio", "inverseAspectRatio", "elongation", "elongationUpper", "elongationLower", "effectiveElongation", "triangularityUpper",
                 "triangularityLower", "triangularity", "shafranovShift", "internalInductance1", "internalInductance2", "internalInductance3", "internalInductance", "poloidalBeta", "poloidalBeta2", "poloidalBeta3",
                 "toroidalBeta", "totalBeta", "betaN", "pressure_ave", "w_th", "qcyl", "getMachine", "q"):
        q["eq." + name] = (lambda name=name: getattr(eq, name)())
    pn = np.array([0.2, 0.5, 0.9])
    for name in ("Br", "Bz", "Bpol", "Btor", "Btot", "psiRZ", "psiNRZ", "plasmaBr", "plasmaBz"):
        q["eq.%s()" % name] = (lambda name=name: getattr(eq, name)(r, z))
    for name in ("pprime", "ffprime", "pressure", "fpol", "q"):
        q["eq.%s(pn)" % name] = (lambda name=name: getattr(eq, name)(pn))
    for name in ("psi", "Br", "Bz", "controlPsi", "controlBr", "controlBz"):
        q["tok." + name] = (lambda name=name: getattr(tok, name)(r, z))
    q["tok.getForces"] = lambda: tok.getForces(eq)
    q["tok.getForces()"] = lambda: tok.getForces()
    q["tok.getCurrents"] = lambda: tok.getCurrents()
    q["tok.controlCurrents"] = lambda: tok.controlCurrents()
    q["tok.printCurrents"] = lambda: tok.printCurrents()
    q["tok.takeMeasurements"] = lambda: (tok.takeMeasurements(eq), [s.measurement for s in tok.sensors or []])[1]
    q["tok.printMeasurements"] = lambda: tok.printMeasurements(eq)
    q["tok.greens"] = lambda: tok.calcPsiFromGreens(tok.createPsiGreens(eq.R, eq.Z))
    lab = str(rng.choice([l for l, _ in tok.coils]))
    region = shapely.box(0.9, -1.2, 1.8, 0.2)
    q["coil"] = lambda: [tok[lab].inShape(region), repr(tok[lab]), tok[lab] == tok[lab], tok[lab] != tok[lab]]
    q["coil.forces"] = lambda: tok[lab].getForces(eq)
    q["coil.array"] = lambda: str(tok[lab].to_numpy_array())
    q["coil.plot"] = lambda: tok[lab].plot(axis=axes()) and None
    q["tok.plot"] = lambda: tok.plot(axis=axes(), show=False) and None
    q["eq.plot"] = lambda: eq.plot(axis=axes(), show=False) and None
    q["plotEquilibrium"] = lambda: plotting.plotEquilibrium(eq, axis=axes(), show=False) and None
    q["plotConstraints"] = lambda: plotting.plotConstraints(con, axis=axes(), show=False) and None
    q["plotCoils"] = lambda: plotting.plotCoils(tok.coils, axis=axes()) and None
    q["geqdsk"] = lambda: text_file(eq)
    q["hdf"] = lambda: hdf_file(eq)
    psi = np.array(eq.psi())
    q["find_critical"] = lambda: critical.find_critical(eq.R, eq.Z, psi)
    q["find_separatrix"] = lambda: critical.find_separatrix(eq, ntheta=24)
    q["find_safety"] = lambda: critical.find_safety(eq, npsi=5, ntheta=24)
    q["core_mask"] = lambda: critical.core_mask(eq.R, eq.Z, psi, *critical.find_critical(eq.R, eq.Z, psi))
    ang = np.array([0.0, 0.3])
    q["follow"] = lambda: fieldtracer.FieldTracer(eq).follow(r, z, ang)
    q["refine"] = lambda: np.array(equilibrium.refine(eq).psi())
    q["coarsen"] = lambda: np.array(equilibrium.coarsen(eq).psi())
    q["newDomain"] = lambda: np.array(equilibrium.newDomain(eq, Rmin=0.15).psi())
    q["deepcopy"] = lambda: np.array(copy.deepcopy(eq).psi())
    if hasattr(prof, "L") or not hasattr(prof, "eq"):
        for name in ("pprime", "ffprime", "pressure", "fpol"):
            q["prof." + name] = (lambda name=name: np.array([getattr(prof, name)(float(p)) for p in pn]))
    q["prof.fvac"] = lambda: prof.fvac()
    q["wall"] = lambda: repr(tok.wall)
    handed = dict(r=r, z=z, pn=pn, psi=psi, ang=ang)
    return q, handed


def call(f):
    try:
        return plain(f()), None
    except NameError:
        raise
    except Exception as e:  # some quantities do not exist in some states
        return None, type(e).__name__


def queries_case(case, m, rng):
    eq, prof, con, desc = make_state(rng, m)
    q, handed = queries(eq, prof, con, rng)
    given = {k: v.copy() for k, v in handed.items()}
    base = fingerprint(eq)
    meas = fingerprint(eq, True)
    # arrays which a user holds
    held = {"psi": eq.psi(), "plasma_psi": eq.plasma_psi, "psiN": call(eq.psiN)[0], "Jtor": getattr(eq, "Jtor", None), "mask": getattr(eq, "mask", None), "R": eq.R}
    held = {k: (v, np.array(v)) for k, v in held.items() if v is not None and not isinstance(v, (str, type(None)))}
    names = [str(k) for k in rng.permutation(sorted(q))][: int(rng.integers(12, 26))]
    first, history = {}, []
    for name in names + [str(k) for k in rng.choice(names, 6)]:
        history.append(name)
        res, err = call(q[name])
        plt.close("all")
        info = dict(query=name, history=history[-4:], **desc)
        bad = observe.differences(base, fingerprint(eq, False), 1e-13)
        m.ok(not bad, "state", changed=bad[:5], raised=err, **info)
        if bad:
            return
        if not name.endswith("Measurements"):
            m.ok(repr(meas.get(("m", "sensors"))) == repr(fingerprint(eq, True).get(("m", "sensors"))), "state", what="measurements", **info)
        else:
            meas = fingerprint(eq, True)
        if err:
            m.ev("seen-raised")
        if "plot" in name:
            m.ev("seen-plot")
        if name in ("geqdsk", "hdf"):
            m.ev("seen-file")
        if "orces" in name:
            m.ev("seen-forces")
        if name in first:
            m.ok(err == first[name][1] and equal(first[name][0], res), "repeat", raised=(first[name][1], err), **info)
        else:
            first[name] = res, err
        m.ok(all(np.array_equal(given[k], handed[k]) for k in handed), "handed-in", which=[k for k in handed if not np.array_equal(given[k], handed[k])], **info)
        m.ok(all(np.array_equal(v, c, equal_nan=True) for v, c in held.values()), "handed-out", which=[k for k, (v, c) in held.items() if not np.array_equal(v, c, equal_nan=True)], **info)
    m.state(case["i"], tuple(history))
    # what a query has returned is the user's
    res = eq.psi()
    res[:] = -1.0
    a, _ = call(eq.psiN)
    sep = call(eq.separatrix)[0]
    for x in (eq.Br(eq.R, eq.Z), eq.tokamak.psi(eq.R, eq.Z), eq.tokamak.controlCurrents()):
        if isinstance(x, np.ndarray):
            x[:] = -7.0
        else:
            x[:] = [-7.0] * len(x)
    d = eq.tokamak.getCurrents()
    for k in d:
        d[k] = -3.0
    bad = observe.differences(base, fingerprint(eq), 1e-13)
    m.ok(not bad, "scribble", changed=bad[:5], **desc)
    # a copy is independent
    other = copy.deepcopy(eq)
    for _, c in other.tokamak.coils:
        c.current = 0.123
    bad = observe.differences(base, fingerprint(eq), 1e-13)
    m.ok(not bad, "copy", changed=bad[:5], **desc)
    # solving on does not change what was handed out
    if not desc["vacuum"]:
        try:
            eq.solve(prof)
        except (ValueError, RuntimeError, IndexError, TypeError):
            return
        m.ok(all(np.array_equal(v, c, equal_nan=True) for v, c in held.values()), "solve-handed-out", which=[k for k, (v, c) in held.items() if not np.array_equal(v, c, equal_nan=True)], **desc)


CHANGES = ("currents", "drive", "solve", "solve", "picard", "move", "profiles", "limited", "control-off", "turns", "wall")


def change(op, eq, prof, con, rng):
    """Something which a user does to an equilibrium. Returns the profiles now in use"""
    tok = eq.tokamak
    lab = str(rng.choice([lab for lab, _ in tok.coils]))
    if op == "currents":
        tok[lab].current = float(tok[lab].current) * 1.07 + 50.0
    elif op == "drive":
        tok.setControlCurrents([float(c) * 1.03 + 10.0 for c in tok.controlCurrents()])
    elif op == "solve":
        con(eq)
        eq.solve(prof)
    elif op == "picard":
        freegs.solve(eq, prof, con, maxits=2, rtol=1e-2)
    elif op == "move":
        c = tok[lab]
        if hasattr(c, "Z") and not hasattr(c, "coils"):
            c.Z = float(np.mean(c.Z)) + 0.01
            if hasattr(eq, "_pgreen"):
                eq._pgreen = tok.createPsiGreens(eq.R, eq.Z)
    elif op == "profiles":
        prof = scen.make_profiles(eq, "pf" if not isinstance(prof, jtor.ConstrainBetapIp) else "paxis", Ip=float(eq.plasmaCurrent()) * 1.02 or 2e5, fvac=1.7)
        eq.solve(prof)
    elif op == "limited":
        if tok.wall is not None:
            eq.check_limited = not eq.check_limited
        eq.solve(prof)
    elif op == "control-off":
        tok[lab].control = not tok[lab].control
    elif op == "wall":
        if tok.wall is not None:
            tok.wall = Wall([1.1 + 0.9 * (r - 1.1) for r in tok.wall.R], list(tok.wall.Z))
            tok.limit_points_R, tok.limit_points_Z = tok.generate_limit_points(len(tok.limit_points_R))
            eq.check_limited = True
        eq.solve(prof)
    elif op == "turns":
        if type(tok[lab]) is Coil:
            tok[lab].current = float(tok[lab].current) / 2
    return prof


def history_case(case, m, rng):
    ask = memory.standard()
    memory.later(case, m, 27, ask, pick=18, rule="answers-after")


def close(a, b):
    """As equal(), up to rounding"""
    if isinstance(a, (list, dict)):
        ok = type(a) is type(b) and len(a) == len(b)
        return ok and (all(k in b and close(a[k], b[k]) for k in a) if isinstance(a, dict) else all(close(x, y) for x, y in zip(a, b)))
    if isinstance(a, (float, np.ndarray)) and np.asarray(a).dtype.kind == "f":
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and (a.size == 0 or np.allclose(a, b, rtol=0, atol=1e-9 * (np.nanmax(np.abs(a)) if np.isfinite(a).any() else 1.0), equal_nan=True))
    return equal(a, b)


# ---------------------------------------------------------------- several objects

class Actor:
    """One machine, equilibrium, profiles and constraints, with a script of operations. Everything follows from its key"""

    def __init__(self, key, shape=None, dom=None):
        rng = scen.rng_of(*key)
        style, tok = make_machine(rng)
        nx, ny = shape or (33, 33)
        dom = dom or (0.1, 2.0, -1.0, 1.0)
        self.eq = scen.build_eq(tok, nx=nx, ny=ny, Rmin=dom[0], Rmax=dom[1], Zmin=dom[2], Zmax=dom[3], bd=str(rng.choice(["free", "hagenow"])), order=int(rng.choice([2, 4])))
        if rng.random() < 0.3:
            self.eq.setSolverVcycle(nlevels=int(rng.integers(1, 4)), ncycle=2, niter=5)
        Ip = float(rng.uniform(1e5, 3e5) * rng.choice([1, -1]))
        if Ip < 0:
            self.eq._updatePlasmaPsi(-self.eq.plasma_psi)
        self.prof = scen.make_profiles(self.eq, str(rng.choice(["paxis", "betap", "pf"])), Ip=Ip, fvac=float(rng.uniform(0.5, 2)), am=1.0, an=float(rng.uniform(1.3, 2)))
        self.con = scen.d_constraint((1.1 + float(rng.uniform(-0.02, 0.02)), -0.6), (1.1, 0.8))
        self.rng = rng
        self.log = []

    def steps(self):
        eq = self.eq
        for k in range(int(self.rng.integers(3, 6))):
            op = str(self.rng.choice(["step", "step", "query", "solve", "critical"]))
            try:
                if op == "step" or k == 0:
                    self.con(eq)
                    eq.solve(self.prof)
                    self.log.append(np.array(eq.plasma_psi))
                elif op == "query":
                    r, z = points(self.rng)
                    self.log += [eq.Br(r, z), eq.Bz(r, z), eq.psiRZ(r, z), np.array(eq.plasmaCurrent()), np.array(eq.q([0.3, 0.6]))]
                elif op == "critical":
                    o, x = critical.find_critical(eq.R, eq.Z, eq.psi())
                    self.log += [np.array(o), np.array(x)]
                else:
                    freegs.solve(eq, self.prof, self.con, maxits=3, rtol=1e-2)
            except Exception as e:
                self.log.append(np.array([len(type(e).__name__)]))
            self.log.append(np.array(eq.psi()))
            self.log.append(np.array([c.current for _, c in eq.tokamak.coils]))
            yield op


def interleave_case(case, m, rng):
    key = (case["seed"], case["i"], 271)
    # same numbers of points in different domains, so that anything remembered by size is found out
    doms = [(0.1, 2.0, -1.0, 1.0), (0.15, 1.95, -1.05, 1.02), (0.1, 2.0, -1.0, 1.0)]
    n = 3 if rng.random() < 0.5 else 2
    alone = []
    for k in range(n):
        a = Actor(key + (k,), dom=doms[k])
        for _ in a.steps():
            pass
        alone.append(a.log)
    actors = [Actor(key + (k,), dom=doms[k]) for k in range(n)]
    runs = [a.steps() for a in actors]
    order = []
    while runs:
        k = int(rng.integers(len(runs)))
        order.append(k)
        try:
            next(runs[k])
        except StopIteration:
            runs.pop(k)
    m.state(case["i"], tuple(order))
    for k in range(n):
        same = len(alone[k]) == len(actors[k].log)
        m.ok(same, "interleaved", what="number of results", actor=k)
        if same:
            bad = [j for j, (x, y) in enumerate(zip(alone[k], actors[k].log)) if x.shape != y.shape or not np.allclose(x, y, rtol=1e-9, atol=1e-9 * (np.max(np.abs(x)) if x.size else 1), equal_nan=True)]
            m.ok(not bad, "interleaved", actor=k, results=bad[:5], order=order)
    # profiles used for one equilibrium, then for another of the same grid, then for the first again
    a = actors[0]
    if n > 2 and hasattr(a.eq, "_profiles"):
        try:
            q = copy.deepcopy(a.eq)
            p = a.prof
            p.eq = q if hasattr(p, "eq") else None
            j1 = np.array(p.Jtor(q.R, q.Z, q.psi()))
            o = actors[2].eq
            p.Jtor(o.R, o.Z, o.psi())
            j2 = np.array(p.Jtor(q.R, q.Z, q.psi()))
            m.ok(np.allclose(j1, j2, rtol=1e-10, atol=1e-10 * np.max(np.abs(j1))), "profiles")
            m.ev("seen-profile-shared")
        except (ValueError, RuntimeError, IndexError, TypeError):
            m.skip("no current density")


# ---------------------------------------------------------------- defaults and given lists

def defaults_case(case, m, rng):
    # change one made with default arguments in place: another one made the same way must not notice
    def constrain_lists(c):
        c.xpoints.append((1.0, 0.5))
        c.isoflux.append((1.0, 0.5, 1.0, -0.5))
        c.psivals.append((1.0, 0.5, 0.1))
        c.gamma = 1.0

    def multi(c):
        c.polarity[1] = -1.0
        c.polarity[0] = 3.0
        c.area = 0.1

    def coil(c):
        c.area, c.R, c.current, c.control = 0.3, 2.0, 1e5, False

    def shaped(c):
        c.R, c.current, c.turns = 2.0, 1e3, 7

    def tok(t):
        for lab, c in t.coils:
            c.current = 12.0
            c.control = False
            for a in ("R", "Z"):
                try:
                    setattr(c, a, 3.0)
                except Exception:
                    pass
        if t.wall is not None:
            for w in (t.wall.R, t.wall.Z):
                if isinstance(w, list):
                    w[0] = 99.0
        t.coils.append(("more", Coil(1.0, 0.0)))

    def circuit(c):
        c.current, c.control = 5.0, False
        c.coils[0][1].R = 2.0

    def eqn(e):
        e._updatePlasmaPsi(0 * e.plasma_psi + np.outer(np.hanning(e.R.shape[0]), np.hanning(e.R.shape[1])))
        e.check_limited = True
        for _, c in e.tokamak.coils:
            c.current = 5.0

    pts = [(1.0, 0.0), (1.1, 0.0), (1.1, 0.1)]
    r, z = points(rng)
    makers = {
        "constrain": (lambda: control.constrain(), constrain_lists, lambda c: [list(c.xpoints), list(c.isoflux), list(c.psivals), c.gamma]),
        "MultiCoil": (lambda: MultiCoil(1.0, 0.5, current=1.0, mirror=True), multi, lambda c: [c.psi(r, z), list(c.polarity), c.area]),
        "Coil": (lambda: Coil(1.0, 0.5, current=1.0), coil, lambda c: [c.psi(r, z), c.area, c.control]),
        "ShapedCoil": (lambda: ShapedCoil(pts), shaped, lambda c: [c.controlPsi(r, z), c.turns, c.current, [list(p) for p in c.shape]]),
        "FilamentCoil": (lambda: FilamentCoil([1.0, 1.1, 1.05], [0.5, 0.5, 0.6]), shaped, lambda c: [c.controlPsi(r, z), c.turns, c.current, [list(p) for p in c.shape]]),
        "Circuit": (lambda: Circuit([("a", Coil(1.0, 0.2), 1.0)], 2.0), circuit, lambda c: [c.psi(r, z), c.control, c.current]),
        "Equilibrium": (lambda: freegs.Equilibrium(nx=17, ny=17), eqn, lambda e: [np.array(e.psi()), np.array(e.plasma_psi), e.check_limited, len(e.tokamak.coils)]),
    }
    machines = ["TestTokamak", "TestTokamakLimited", "TestTokamakSensor", "DIIID", "MAST", "MAST_sym", "TCV", "MASTU_simple", "EmptyTokamak"]
    for name, (make, spoil, look) in makers.items():
        a, b = make(), make()
        want = plain(look(b))
        spoil(a)
        m.ok(equal(plain(look(b)), want), "defaults", what=name, which="one made before")
        m.ok(equal(plain(look(make())), want), "defaults", what=name, which="one made after")
    for name in [str(k) for k in rng.choice(machines, 3, replace=False)]:
        make = getattr(machine, name)
        a, b = make(), make()
        want = observe.machine(b)
        tok(a)
        for which, t in (("before", b), ("after", make())):
            bad = observe.differences(want, observe.machine(t))
            m.ok(not bad, "machines", what=name, which=which, changed=bad[:4])
    m.state("defaults", case["i"])


def given_case(case, m, rng):
    """Lists and arrays given to constructors and operations stay as they were"""
    n = 33
    R = np.linspace(0.1, 2.0, n)
    xp, iso, pv = [(1.1, -0.6), (1.1, 0.8)], [(1.1, -0.6, 1.1, 0.6)], []
    lims = [(-1e6, 1e6)] * 4
    wr, wz = [0.75, 0.75, 1.5, 1.8, 1.8, 1.5], [-0.85, 0.85, 0.85, 0.25, -0.25, -0.85]
    shape = [(1.7, -0.65), (1.7, -0.55), (1.8, -0.55), (1.8, -0.65)]
    fr, fz = np.array([0.95, 1.05]), np.array([1.1, 1.1])
    mr, mz = [1.74, 1.76], [0.6, 0.6]
    coils = [("P1L", Coil(1.0, -1.1)), ("P1U", FilamentCoil(fr, fz)), ("P2L", ShapedCoil(shape)), ("P2U", MultiCoil(mr, mz))]
    psi0 = np.outer(np.hanning(n), np.hanning(n)) * float(rng.uniform(0.05, 1.0))
    things = dict(xp=xp, iso=iso, pv=pv, lims=lims, wr=wr, wz=wz, shape=shape, fr=fr, fz=fz, mr=mr, mz=mz, psi0=psi0)
    labels = [a for a, _ in coils]
    before = {k: copy.deepcopy(v) for k, v in things.items()}
    wall = Wall(wr, wz) if rng.random() < 0.6 else None
    tok = Machine(coils, wall=wall)
    eq = freegs.Equilibrium(tokamak=tok, Rmin=0.1, Rmax=2.0, Zmin=-1.0, Zmax=1.0, nx=n, ny=n, psi=psi0,
                            boundary=[boundary.freeBoundary, boundary.freeBoundaryHagenow, boundary.fixedBoundary][case["i"] % 3])
    prof = scen.make_profiles(eq, str(rng.choice(["paxis", "betap", "pf"])))
    con = control.constrain(xpoints=xp, isoflux=iso, psivals=pv, **({"current_lims": lims} if rng.random() < 0.3 else {}))
    ops = []
    J0 = None
    for _ in range(int(rng.integers(3, 8))):
        op = str(rng.choice(["con", "solve", "picard", "jtor", "plot", "move", "currents", "given-j", "critical", "limited"]))
        ops.append(op)
        try:
            if op == "con":
                con(eq)
            elif op == "solve":
                eq.solve(prof)
            elif op == "picard":
                freegs.solve(eq, prof, con, maxits=2, rtol=0.5)
            elif op == "jtor":
                psi = eq.psi()
                keep = psi.copy()
                prof.Jtor(eq.R, eq.Z, psi)
                m.ok(np.array_equal(psi, keep), "given-lists", what="psi given to Jtor")
            elif op == "given-j":
                J = np.outer(np.hanning(n), np.hanning(n)) * 1e5
                keep = J.copy()
                eq.solve(prof, Jtor=J)
                m.ok(np.array_equal(J, keep), "given-lists", what="Jtor given to solve")
            elif op == "critical":
                psi = np.array(eq.psi())
                keep = psi.copy()
                o, x = critical.find_critical(eq.R, eq.Z, psi)
                ko, kx = list(o), list(x)
                critical.core_mask(eq.R, eq.Z, psi, o, x)
                m.ok(np.array_equal(psi, keep) and o == ko and x == kx, "given-lists", what="core_mask arguments")
            elif op == "plot":
                eq.plot(axis=axes(), show=False)
                plotting.plotConstraints(con, axis=axes(), show=False)
                plt.close("all")
            elif op == "move":
                lab = str(rng.choice(labels[1:]))
                c = tok[lab]
                r0, z0 = c.R, c.Z
                c.R, c.Z = r0 + 0.02, z0 - 0.03
                c.R, c.Z = r0, z0
            elif op == "currents":
                v = [float(k) for k in rng.normal(size=4) * 1e3]
                keep = list(v)
                old = tok.controlCurrents()
                tok.setControlCurrents(v)
                tok.controlAdjust(np.array(v))
                tok.setControlCurrents(old)
                m.ok(v == keep, "given-lists", what="currents")
            elif op == "limited":
                psi = np.array(eq.psi())
                keep = psi.copy()
                eq.solve(prof, psi=psi)
                m.ok(np.array_equal(psi, keep), "given-lists", what="psi given to solve")
        except (ValueError, RuntimeError, IndexError, TypeError):
            pass
        for k, v in things.items():
            m.ok(np.array_equal(np.asarray(v, float), np.asarray(before[k], float)), "given-lists", what=k, ops=list(ops))
    m.ok([a for a, _ in coils] == labels, "given-lists", what="coils")
    m.state(tuple(ops), case["i"])
