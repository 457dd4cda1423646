"""C29: plots"""
import copy
import io

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np

import freegs
from freegs import control, critical, fieldtracer, geqdsk, optimise, plotting
from freegs.machine import FluxLoopSensor, Machine, PoloidalFieldSensor, RogowskiSensor, Wall
from freegs.shaped_coil import ShapedCoil
from rv import memory, observe, scen
from rv.core import Skip, quiet

TITLE = "Plots"
RULE = (
    "Random machines (all coil kinds, circuits, moved coils), sensors, constraints and equilibria (both signs, walls, diverted and limited (with and without X-points), all options) are drawn on a given axis "
    "while another one is current, or on a new one. All vertices, centres and contour levels drawn are collected from the axis: contour vertices must lie on the flux of their "
    "level, points, walls, coils, sensors and constraints must be where the objects are, options switch their parts off, other axes stay empty, and nothing is changed. "
    "Distinct by (objects, options)."
)
REQUIRED_EVENTS = ("remembered", "coil-drawn", "coil-only", "given-axis", "other-axis", "show", "flux-contours", "levels", "boundary-contour", "points", "points-off", "wall", "wall-off", "sensors",
                   "sensors-off", "constraints", "unchanged", "seen-moved", "seen-new-axis", "seen-limited", "while-solving", "while-reading", "while-tracing", "while-optimising", "seen-round")


def cases(tier, seed):
    n = 120 if tier == "quick" else 1500
    out = [dict(kind="eq", seed=seed, i=i) for i in range(n // 3)]
    out += [dict(kind="coils", seed=seed, i=i) for i in range(n)]
    out += [dict(kind="constraints", seed=seed, i=i) for i in range(n // 2)]
    out += [dict(kind="solve", seed=seed, i=i) for i in range(n // 6)]
    out += [dict(kind="read", seed=seed, i=i) for i in range(n // 10)]
    out += [dict(kind="trace", seed=seed, i=i) for i in range(n // 6)]
    out += [dict(kind="optimise", seed=seed, i=i) for i in range(n // 20)]
    out += [dict(kind="memory", seed=seed, i=i) for i in range(16 if tier == "quick" else 240)]
    return out


def run(case, m):
    if case.get("kind") == "memory":
        with quiet():
            return memory_case(case, m)
    rng = scen.rng_of(case["seed"], case["i"], 29, len(case["kind"]))
    plt.close("all")
    shown = []
    keep, keep_pause = plt.show, plt.pause
    plt.show = lambda *a, **k: shown.append(1)
    plt.pause = lambda *a, **k: PAUSES.append(1)
    PAUSES.clear()
    try:
        with quiet():
            globals()[case["kind"] + "_case"](case, m, rng, shown)
    finally:
        plt.show, plt.pause = keep, keep_pause
        plt.close("all")


PAUSES = []


def drawn(axis):
    """Every point drawn, other than contours"""
    pts = [np.zeros((0, 2))]
    for line in axis.get_lines():
        x, y = np.ravel(line.get_xdata()).astype(float), np.ravel(line.get_ydata()).astype(float)
        pts.append(np.column_stack([x, y]))
    arrows = []
    for p in axis.patches + [a for a in axis.artists if hasattr(a, "get_path")]:
        if hasattr(p, "center") and hasattr(p, "radius"):
            pts.append(np.array([p.center], float))
        elif type(p).__name__ == "FancyArrow":
            arrows.append(np.array(p.get_xy(), float))
        elif hasattr(p, "get_xy"):
            pts.append(np.array(p.get_xy(), float).reshape(-1, 2))
    for c in axis.collections:
        if not isinstance(c, matplotlib.contour.ContourSet):
            pts.append(np.array(c.get_offsets(), float).reshape(-1, 2))
    return np.concatenate(pts), arrows


def has(pts, r, z, tol=1e-9):
    return len(pts) > 0 and bool(np.min(np.abs(pts[:, 0] - r) + np.abs(pts[:, 1] - z)) < tol)


def has_path(axis, rz, tol=1e-9):
    """A closed line through these points, in this order"""
    want = np.array(list(rz) + [rz[0]], float)
    for line in axis.get_lines():
        x, y = np.ravel(line.get_xdata()).astype(float), np.ravel(line.get_ydata()).astype(float)
        if len(x) == len(want) and np.allclose(x, want[:, 0], atol=tol) and np.allclose(y, want[:, 1], atol=tol):
            return True
    return False


def where(coil):
    """Points a drawing of this coil has to contain, and their reach"""
    if hasattr(coil, "coils"):
        out = []
        for _, c, _ in coil.coils:
            out += where(c)
        return out
    name = type(coil).__name__
    if name == "Solenoid":
        return []
    if name == "ShapedCoil":
        return [(float(r), float(z)) for r, z in coil.shape]
    if name == "FilamentCoil":
        return [(float(r), float(z)) for r, z in coil.points]
    if name == "MultiCoil":
        return [(float(r), float(z)) for r, z in zip(np.atleast_1d(coil.Rfil), np.atleast_1d(coil.Zfil))]
    return [(float(coil.R), float(coil.Z))]


def random_set(rng):
    tok, _ = scen.random_machine(rng, ncoils=int(rng.integers(1, 6)))
    coils = list(tok.coils)
    for k in range(int(rng.integers(0, 3))):
        r, z = float(rng.uniform(0.6, 1.8)), float(rng.uniform(-1, 1))
        coils.insert(int(rng.integers(len(coils) + 1)), ("s%d" % k, ShapedCoil(scen.star_polygon(rng, int(rng.integers(3, 8)), r, z, 0.1), current=1e3)))
    return Machine(coils)


def look(tok):
    return observe.machine(tok)


def coils_case(case, m, rng, shown):
    tok = random_set(rng)
    moved = []
    for label, c in tok.coils:
        if rng.random() < 0.4 and type(c).__name__ in ("Coil", "MultiCoil", "FilamentCoil", "ShapedCoil"):
            c.R, c.Z = float(c.R) + float(rng.uniform(0, 0.3)), float(rng.uniform(-1, 1))
            moved.append(label)
    if moved:
        m.ev("seen-moved")
    before = look(tok)
    fig, (mine, other) = plt.subplots(1, 2)
    plt.sca(other)
    show = bool(rng.random() < 0.4)
    kinds = [type(c).__name__ for _, c in tok.coils]
    solid = [c for _, c in tok.coils if where(c)]
    if rng.random() < 0.25 and solid and type(tok.coils[0][1]).__name__ not in ("Solenoid", "Circuit"):
        m.ev("seen-new-axis")
        n = len(plt.get_fignums())
        got = tok.plot(show=show)
        m.ok(got is not mine and got is not other and len(plt.get_fignums()) == n + 1, "given-axis", what="a new one", figures=len(plt.get_fignums()) - n, kinds=kinds)
        axis = got
        m.ok(len(drawn(mine)[0]) == 0, "other-axis", what="first", kinds=kinds)
    else:
        got = tok.plot(axis=mine, show=show)
        m.ok(got is mine, "given-axis", got=repr(got), kinds=kinds)
        axis = mine
    m.ok(len(drawn(other)[0]) == 0 and not other.collections, "other-axis", drawn=drawn(other)[0][:4].tolist(), kinds=kinds)
    m.ok(len(shown) == (1 if show else 0), "show", shown=len(shown), asked=show)
    pts, _ = drawn(axis)
    want = []
    for label, c in tok.coils:
        w = where(c)
        want += w
        for r, z in w:
            if not m.ok(has(pts, r, z), "coil-drawn", coil=type(c).__name__, at=(r, z), label=label, moved=label in moved):
                break
    # nothing where there is no coil
    w = np.array(want).reshape(-1, 2)
    if any(getattr(c, "mirror", False) for c in flat(tok)):
        w = np.concatenate([w, w * [1, -1]])  # the mirrored half may be drawn too
    for r, z in pts:
        if not m.ok(len(w) and np.min(np.hypot(w[:, 0] - r, w[:, 1] - z)) < 0.15, "coil-only", at=(r, z), kinds=kinds):
            break
    for p in axis.patches + list(axis.artists):
        if hasattr(p, "radius") and hasattr(p, "center"):
            match = [c for c in flat(tok) if type(c).__name__ == "Coil" and abs(c.R - p.center[0]) + abs(c.Z - p.center[1]) < 1e-9]
            m.ok(any(abs(np.pi * p.radius**2 - c.area) < 1e-9 * max(c.area, 1e-12) + 1e-15 for c in match), "coil-drawn", what="cross-section", radius=p.radius, areas=[c.area for c in match])
    for c in flat(tok):
        if type(c).__name__ == "ShapedCoil":
            outline = [np.array(p.get_xy()) for p in axis.patches if hasattr(p, "get_xy")]
            pts_ = {(round(float(r), 9), round(float(z), 9)) for r, z in c.shape}
            m.ok(any({(round(float(r), 9), round(float(z), 9)) for r, z in o} == pts_ for o in outline), "coil-drawn", what="outline filled")
    m.ok(not observe.differences(before, look(tok)), "unchanged", what="machine", kinds=kinds)
    m.state("coils", kinds, show, len(moved))
    m.sample(kinds=kinds, drawn=len(pts))


def flat(tok):
    for _, c in tok.coils:
        if hasattr(c, "coils"):
            for _, d, _ in c.coils:
                yield d
        else:
            yield c


def constraints_case(case, m, rng, shown):
    x = [tuple(map(float, rng.uniform(-2, 2, 2))) for _ in range(int(rng.integers(0, 12)))]
    iso = [tuple(map(float, rng.uniform(-2, 2, 4))) for _ in range(int(rng.integers(0, 12)))]
    val = [tuple(map(float, rng.uniform(-2, 2, 3))) for _ in range(int(rng.integers(0, 3)))]
    con = control.constrain(xpoints=x, isoflux=iso, psivals=val)
    fig, (mine, other) = plt.subplots(1, 2)
    plt.sca(other)
    show = bool(rng.random() < 0.4)
    how = con.plot if rng.random() < 0.5 else (lambda **k: plotting.plotConstraints(con, **k))
    got = how(axis=mine, show=show)
    m.ok(got is mine, "given-axis", what="constraints")
    m.ok(len(shown) == (1 if show else 0), "show", shown=len(shown), asked=show)
    m.ok(len(drawn(other)[0]) == 0, "other-axis", what="constraints")
    single, pairs = [], []
    for line in mine.get_lines():
        xs, ys = np.ravel(line.get_xdata()).astype(float), np.ravel(line.get_ydata()).astype(float)
        if len(xs) == 1:
            single.append((xs[0], ys[0]))
        elif len(xs) == 2:
            pairs.append((xs[0], ys[0], xs[1], ys[1]))
        elif len(xs):
            m.ok(False, "constraints", what="unexpected line", n=len(xs))
    m.ok(sorted(single) == sorted(x), "constraints", what="X-points", got=sorted(single)[:3], want=sorted(x)[:3])
    m.ok(sorted(pairs) == sorted(iso), "constraints", what="isoflux", got=sorted(pairs)[:2], want=sorted(iso)[:2])
    m.ok(con.xpoints == x and con.isoflux == iso and con.psivals == val, "unchanged", what="constraints")
    m.state("constraints", len(x), len(iso), show)


def eq_case(case, m, rng, shown):
    kind = str(rng.choice(["none", "open", "closed", "inside"]))
    wall = None
    if kind == "inside":
        c, w, h = rng.uniform(1.05, 1.15), rng.uniform(0.3, 0.45), rng.uniform(0.35, 0.5)
        wall = Wall([c - w, c + w, c + w, c - w, c - w], [-h, -h, h, h, -h])
    elif kind != "none":
        R, Z = [0.75, 0.75, 1.5, 1.8, 1.8, 1.5], [-0.85, 0.85, 0.85, 0.25, -0.25, -0.85]
        wall = Wall(R + R[:1], Z + Z[:1]) if kind == "closed" else Wall(R, Z)
    try:
        if case["i"] % 7 == 6:
            eq, prof, con, desc = scen.round_eq(rng)
            wall, kind = eq.tokamak.wall, "round"
            m.ev("seen-round")
        else:
            eq, prof, con, desc = scen.quick_eq(rng, steps=int(rng.integers(1, 4)), wall=wall, check_limited=kind == "inside")
    except (ValueError, RuntimeError) as e:
        raise Skip(str(e))
    desc["wall"] = kind
    sensors = None
    if rng.random() < 0.6:
        sensors = [RogowskiSensor(R=[0.8, 1.5, 1.6, 0.9], Z=[-0.5, -0.5, 0.4, 0.45]), FluxLoopSensor(float(rng.uniform(0.5, 1.5)), float(rng.uniform(-0.8, 0.8)), name="loop")]
        for k in range(int(rng.integers(0, 3))):
            sensors.append(PoloidalFieldSensor(float(rng.uniform(0.5, 1.5)), float(rng.uniform(-0.8, 0.8)), float(rng.uniform(-3, 3)), name="b%d" % k))
    eq.tokamak.sensors = sensors
    if eq.is_limited:
        m.ev("seen-limited")
    before = observe.equilibrium(eq)
    fig, (mine, other) = plt.subplots(1, 2)
    plt.sca(other)
    show = bool(rng.random() < 0.4)
    opts = dict(oxpoints=bool(rng.random() < 0.7), wall=bool(rng.random() < 0.7), plot_sensors=bool(rng.random() < 0.7))
    if rng.random() < 0.3:
        opts = dict(oxpoints=opts["oxpoints"], wall=True, plot_sensors=True)
        call = lambda axis: eq.plot(axis=axis, show=show, oxpoints=opts["oxpoints"])
    else:
        call = lambda axis: plotting.plotEquilibrium(eq, axis=axis, show=show, **opts)
    desc.update(opts)
    if rng.random() < 0.2:
        m.ev("seen-new-axis")
        axis = call(None)
        m.ok(axis is not mine and axis is not other and len(drawn(mine)[0]) == 0 and not mine.collections, "given-axis", what="a new one", **desc)
    else:
        axis = call(mine)
        m.ok(axis is mine, "given-axis", got=repr(axis), **desc)
    m.ok(len(drawn(other)[0]) == 0 and not other.collections, "other-axis", **desc)
    m.ok(len(shown) == (1 if show else 0), "show", shown=len(shown), asked=show)
    m.ok(not observe.differences(before, observe.equilibrium(eq)), "unchanged", changed=observe.differences(before, observe.equilibrium(eq))[:4], **desc)
    psi = np.array(eq.psi())
    lo, hi = float(psi.min()), float(psi.max())
    span = hi - lo
    sets = [c for c in axis.collections if isinstance(c, matplotlib.contour.ContourSet)]
    many, single = [c for c in sets if len(c.levels) > 1], [c for c in sets if len(c.levels) == 1]
    if not m.ok(len(many) == 1 and len(many[0].levels) >= 20, "levels", sets=[len(c.levels) for c in sets], **desc):
        return
    lv = np.array(many[0].levels)
    m.ok(abs(lv[0] - lo) < 0.05 * span and abs(lv[-1] - hi) < 0.05 * span and np.max(np.diff(lv)) < 0.06 * span, "levels", first=lv[0], last=lv[-1], lo=lo, hi=hi, **desc)
    r, z = eq.R[:, 0], eq.Z[0, :]
    for c in sets:
        for level, path in zip(c.levels, c.get_paths()):
            v = path.vertices
            v = v[np.isfinite(v).all(axis=1)]
            if path.codes is not None and len(path.codes) == len(v):
                v = v[path.codes != 79]  # closing points have no location of their own
            if not len(v):
                continue
            i = np.clip(np.searchsorted(r, v[:, 0] + 1e-12) - 1, 0, len(r) - 2)
            j = np.clip(np.searchsorted(z, v[:, 1] + 1e-12) - 1, 0, len(z) - 2)
            a, b = (v[:, 0] - r[i]) / (r[i + 1] - r[i]), (v[:, 1] - z[j]) / (z[j + 1] - z[j])
            p = (1 - a) * (1 - b) * psi[i, j] + a * (1 - b) * psi[i + 1, j] + (1 - a) * b * psi[i, j + 1] + a * b * psi[i + 1, j + 1]
            if not m.ok(np.max(np.abs(p - level)) < 1e-6 * span, "flux-contours", level=float(level), worst=float(np.max(np.abs(p - level)) / span), **desc):
                return
    opt, xpt = critical.find_critical(eq.R, eq.Z, psi)
    pts, arrows = drawn(axis)
    if opts["oxpoints"]:
        for q in list(opt) + list(xpt):
            m.ok(has(pts, q[0], q[1]), "points", at=q[:2], **desc)
        if xpt or eq.is_limited:
            m.ok(len(single) == 1 and abs(single[0].levels[0] - eq.psi_bndry) < 1e-9 * span, "boundary-contour", got=[float(c.levels[0]) for c in single], want=eq.psi_bndry, **desc)
        else:
            m.ok(not single, "boundary-contour", what="no X-point", **desc)
    else:
        m.ok(not single and not any(has(pts, q[0], q[1]) for q in list(opt) + list(xpt)), "points-off", **desc)
    if wall is not None:
        rz = list(zip(wall.R, wall.Z))
        shown_wall = has_path(axis, rz) or (kind in ("closed", "inside") and has_path(axis, rz[:-1]))
        m.ok(shown_wall == opts["wall"], "wall" if opts["wall"] else "wall-off", **desc)
    if sensors:
        on = opts["plot_sensors"]
        for s in sensors:
            if isinstance(s, RogowskiSensor):
                m.ok(has_path(axis, list(zip(s.R, s.Z))) == on, "sensors" if on else "sensors-off", what="Rogowski", **desc)
            else:
                m.ok(has(pts, s.R, s.Z) == on, "sensors" if on else "sensors-off", what=type(s).__name__, **desc)
        n = sum(isinstance(s, PoloidalFieldSensor) for s in sensors)
        m.ok(len(arrows) == (n if on else 0), "sensors" if on else "sensors-off", what="directions", **desc)
        for s in sensors:
            if on and isinstance(s, PoloidalFieldSensor):
                d = np.array([np.cos(s.theta), np.sin(s.theta)])
                ok = False
                for a in arrows:
                    rel = a - np.array([s.R, s.Z])
                    far = rel[np.argmax(np.hypot(rel[:, 0], rel[:, 1]))]
                    if np.min(np.hypot(rel[:, 0], rel[:, 1])) < 0.02 and np.dot(far, d) > 0.98 * np.hypot(*far):
                        ok = True
                m.ok(ok, "sensors", what="direction of the field sensor", theta=s.theta, **desc)
    m.state("eq", desc, show)
    m.sample(levels=len(lv), limited=bool(eq.is_limited), **{k: v for k, v in desc.items()})


# ---- drawing while something else is done: the result is the same, and what is drawn is right

def solve_case(case, m, rng, shown):
    """freegs.solve with show=True"""
    seed = int(rng.integers(2**31))
    show_how = ["axis", "new", "wait", "off"][case["i"] % 4]
    fresh = bool(rng.random() < 0.5)
    out, n, states = [], [], []
    fig, (mine, other) = plt.subplots(1, 2)
    plt.sca(other)
    for on in (False, True):
        q = np.random.default_rng(seed)
        try:
            eq, prof, con, desc = scen.quick_eq(q, steps=0 if fresh else 2, tame=True, nx=33, ny=33)
        except (ValueError, RuntimeError) as e:
            raise Skip(str(e))
        kw = {}
        if on and show_how != "off":
            kw = dict(show=True, pause=-1.0 if show_how == "wait" else 0.01)
            if show_how == "axis":
                kw["axis"] = mine
        elif on:
            kw = dict(show=False, axis=mine)
        real, count, seen = eq.solve, [0], []

        def solve(*a, **k):
            count[0] += 1
            seen.append(np.array(eq.psi()))
            if on and show_how == "axis" and count[0] % 4 == 1:
                # What is shown is the state before this step
                sets = [c for c in mine.collections if isinstance(c, matplotlib.contour.ContourSet) and len(c.levels) > 20]
                if m.ok(len(sets) == 1, "while-solving", what="one picture at a time", n=len(sets)):
                    lv = sets[0].levels
                    m.close([lv[0], lv[-1]], [seen[-1].min(), seen[-1].max()], 0.05, "while-solving", scale=np.ptp(seen[-1]), step=count[0])
            return real(*a, **k)

        eq.solve = solve
        before = len(plt.get_fignums())
        ended = "returned"
        try:
            freegs.solve(eq, prof, con, maxits=12, rtol=1e-2, **kw)
        except RuntimeError:
            ended = "gave up"
        except (ValueError, IndexError) as e:
            if not on:
                raise Skip(str(e))
            raise
        del eq.solve
        out.append((np.array(eq.psi()), [c.current for _, c in eq.tokamak.coils if hasattr(c, "current")], ended))
        n.append(count[0])
    new = len(plt.get_fignums()) - before
    m.ok(np.array_equal(out[0][0], out[1][0]) and out[0][1] == out[1][1] and out[0][2] == out[1][2], "while-solving", what="same result", how=show_how)
    m.ok(len(drawn(other)[0]) == 0 and not other.collections, "other-axis", what="solve", how=show_how)
    if show_how == "axis":
        m.ok(new == 0 and len(mine.collections) > 0 and not shown, "while-solving", what="on the axis given", figures=new)
    elif show_how == "new":
        m.ok(new == 1 and not mine.collections and not shown, "while-solving", what="on a new figure", figures=new)
    elif show_how == "wait":
        m.ok(new == n[1] and len(shown) == n[1], "while-solving", what="wait for each figure", figures=new, shown=len(shown), steps=n[1])
    else:
        m.ok(new == 0 and not mine.collections and not shown and not PAUSES, "while-solving", what="not asked to", figures=new)
    m.state("solve", show_how, fresh, n[1], out[1][2])


def read_case(case, m, rng, shown):
    """geqdsk.read with show or an axis"""
    try:
        eq, prof, con, desc = scen.quick_eq(rng, steps=4, tame=True, nx=33, ny=33, style="coils")
    except (ValueError, RuntimeError) as e:
        raise Skip(str(e))
    f = io.StringIO()
    geqdsk.write(eq, f)
    how = ["axis", "show", "both"][case["i"] % 3]
    fig, (mine, other) = plt.subplots(1, 2)
    plt.sca(other)
    out = []
    for on in (False, True):
        kw = dict(rtol=1e-3, maxits=20)
        if on and how != "show":
            kw["axis"] = mine
        if on and how != "axis":
            kw["show"] = True
        tok = copy.deepcopy(eq.tokamak)
        for _, c in tok.coils:
            c.current = 0.0
        try:
            new = geqdsk.read(io.StringIO(f.getvalue()), tok, **kw)
        except (RuntimeError, ValueError) as e:
            if not on:
                raise Skip(str(e))
            raise
        out.append(new)
    m.ok(np.array_equal(out[0].psi(), out[1].psi()), "while-reading", what="same result", how=how)
    m.ok(len(drawn(other)[0]) == 0 and not other.collections, "other-axis", what="read", how=how)
    if how != "show":
        sets = [c for c in mine.collections if isinstance(c, matplotlib.contour.ContourSet)]
        m.ok(len(sets) >= 1, "while-reading", what="drawn", how=how)
    else:
        m.ok(not mine.collections and len(plt.get_fignums()) > 1, "while-reading", what="own figure", figures=len(plt.get_fignums()))
    m.state("read", how, case["i"])


def trace_case(case, m, rng, shown):
    """Lines and surfaces drawn while they are traced"""
    try:
        eq, prof, con, desc = scen.quick_eq(rng, steps=int(rng.integers(2, 4)), tame=True, nx=33, ny=33)
    except (ValueError, RuntimeError) as e:
        raise Skip(str(e))
    fig, (mine, other) = plt.subplots(1, 2)
    plt.sca(other)
    nl, npts = int(rng.integers(1, 5)), int(rng.integers(10, 40))
    plain = fieldtracer.traceFieldLines(eq, nlines=nl, nturns=1, npoints=npts)
    m.ok(len(drawn(other)[0]) == 0 and not shown, "while-tracing", what="not asked to")
    got = fieldtracer.traceFieldLines(eq, nlines=nl, nturns=1, npoints=npts, axis=mine)
    same = all(np.array_equal(a.R, b.R) and np.array_equal(a.Z, b.Z) and np.array_equal(a.length, b.length) for a, b in zip(plain, got))
    m.ok(same, "while-tracing", what="same result")
    lines = [np.column_stack([np.ravel(v.get_xdata()).astype(float), np.ravel(v.get_ydata()).astype(float)]) for v in mine.get_lines()]
    for name, part in zip(("forward", "backward"), got):
        for k in range(nl):
            want = np.column_stack([part.R[:, k], part.Z[:, k]])
            m.ok(any(v.shape == want.shape and np.allclose(v, want) for v in lines), "while-tracing", what=name, line=k)
    # Separatrix
    ax2 = plt.figure().add_subplot(111)
    plt.sca(other)
    nt = int(rng.integers(8, 30))
    a = critical.find_separatrix(eq, ntheta=nt)
    b = critical.find_separatrix(eq, ntheta=nt, axis=ax2)
    m.ok(np.array_equal(np.array(a), np.array(b)), "while-tracing", what="same separatrix")
    pts = drawn(ax2)[0]
    for r, z in [v[:2] for v in b]:
        m.ok(has(pts, r, z), "while-tracing", what="separatrix points", at=(r, z))
    m.ok(len(drawn(other)[0]) == 0 and not other.collections, "other-axis", what="trace")
    m.state("trace", nl, npts, nt)


def optimise_case(case, m, rng, shown):
    """The monitor draws the best of each generation"""
    import os
    import tempfile

    try:
        eq, prof, con, desc = scen.quick_eq(rng, steps=2, tame=True, nx=33, ny=33, style="coils")
    except (ValueError, RuntimeError) as e:
        raise Skip(str(e))
    here = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        try:
            n = len(plt.get_fignums())
            mon = optimise.PlotMonitor()
            m.ok(len(plt.get_fignums()) == n + 1, "while-optimising", what="own figure")
            for g in range(int(rng.integers(1, 4))):
                score = float(rng.uniform(0, 1))
                if g:
                    eq._updatePlasmaPsi(eq.plasma_psi * 1.1)
                before = observe.equilibrium(eq)
                mon(g, (score, eq), [(score, eq)])
                m.ok(not observe.differences(before, observe.equilibrium(eq)), "while-optimising", what="unchanged")
                axis = mon.axis
                sets = [c for c in axis.collections if isinstance(c, matplotlib.contour.ContourSet) and len(c.levels) > 20]
                if m.ok(len(sets) == 1, "while-optimising", what="one at a time", n=len(sets)):
                    psi = np.array(eq.psi())
                    m.close([sets[0].levels[0], sets[0].levels[-1]], [psi.min(), psi.max()], 0.05, "while-optimising", scale=np.ptp(psi))
                title = axis.get_title()
                m.ok(str(g) in title and str(score) in title, "while-optimising", what="title", title=title)
                m.ok(any(str(g) in f for f in os.listdir(d)) and len(os.listdir(d)) == g + 1, "while-optimising", what="saved", files=os.listdir(d))
        finally:
            os.chdir(here)
    m.state("optimise", case["i"])


def memory_case(case, m):
    """Asked before and after a change: the answers are those of an equilibrium never asked before"""
    def ask(eq, prof, con, rng, held):
        def seen(draw):
            axis = plt.figure().add_subplot(111)
            draw(axis)
            out = [np.array(k.get_xydata(), float) for k in axis.lines] + [np.array(k.get_xy(), float) for k in axis.patches if hasattr(k, "get_xy")]
            for k in axis.collections:
                out.append(np.array(getattr(k, "levels", []), float))
                out += [np.array(p.vertices, float) for p in k.get_paths()]
            return out

        from freegs import plotting

        return {"equilibrium": lambda: seen(lambda a: eq.plot(axis=a, show=False)), "machine": lambda: seen(lambda a: eq.tokamak.plot(axis=a, show=False)),
                "coils": lambda: seen(lambda a: plotting.plotCoils(eq.tokamak.coils, axis=a)), "constraints": lambda: seen(lambda a: plotting.plotConstraints(con, axis=a, show=False))}

    memory.later(case, m, 29, ask)
