"""C23: field line tracing"""
import numpy as np
import shapely

from freegs.fieldtracer import FieldTracer, traceFieldLines
from freegs.machine import Wall
from rv import memory, oracle, scen
from rv.core import Skip, quiet

TITLE = "Field line tracing"
RULE = (
    "Lines traced in random diverted states (both signs of current and toroidal field) from core, scrape-off and private regions, many at once and one by one, forwards and backwards, without a wall and "
    "with convex and concave walls. Oracle: own Runge-Kutta integration of the field of the coils and of the plasma flux, flux and length along the line, exact point-in-polygon. Distinct by "
    "(state, wall, line)."
)
REQUIRED_EVENTS = ("remembered", "flux", "direction", "length", "length-grows", "start", "shape", "inverse", "stop-late", "stop-early", "stays-stopped", "goes-on", "independent", "trace-start", "trace-flux", "trace-back",
                   "seen-wall", "seen-no-wall", "seen-concave", "seen-core", "seen-open", "seen-shapes", "handedness", "unchanged", "outside-stays")


MARGIN = 0.06  # the integrator may stop within one of its steps of the edge


def cases(tier, seed):
    n = 64 if tier == "quick" else 700
    out = [dict(kind="follow", seed=seed, i=i) for i in range(n)]
    out += [dict(kind="trace", seed=seed, i=i) for i in range(n // 4)]
    out += [dict(kind="memory", seed=seed, i=i) for i in range(10 if tier == "quick" else 150)]
    return out


def run(case, m):
    if case.get("kind") == "memory":
        with quiet():
            return memory_case(case, m)
    rng = scen.rng_of(case["seed"], case["i"], 23, len(case["kind"]))
    globals()[case["kind"] + "_case"](case, m, rng)


def make_wall(rng):
    """A wall around the middle of the domain (1.05, 0), which the tracer assumes to be inside"""
    kind = str(rng.choice(["none", "box", "star", "concave"]))
    if kind == "none":
        return kind, None
    if kind == "box":
        R, Z = [0.4, 0.4, 1.7, 1.7], [-0.85, 0.9, 0.9, -0.85]
    elif kind == "star":
        n = int(rng.integers(5, 14))
        t = (np.arange(n) + rng.uniform(0, 0.6, n)) * 2 * np.pi / n
        a = rng.uniform(0.8, 1.0, n)
        R, Z = (1.05 + 0.75 * a * np.cos(t)).tolist(), (0.9 * a * np.sin(t)).tolist()
    else:
        # baffles sticking out between vertices
        R = [0.4, 0.4, 0.9, 0.95, 1.0, 1.75, 1.75, 1.45, 1.75, 1.75, 1.1, 1.05, 0.95, 0.6]
        Z = [-0.9, 0.9, 0.9, 0.75, 0.9, 0.9, 0.55, 0.5, 0.45, -0.9, -0.9, -0.5, -0.9, -0.9]
        Z[7] += float(rng.uniform(-0.03, 0.03))
        Z[11] -= float(rng.uniform(0.0, 0.1))
    if rng.random() < 0.5:
        R, Z = R[::-1], Z[::-1]
    if rng.random() < 0.5:
        R, Z = R + R[:1], Z + Z[:1]
    return kind, Wall(R, Z)


def reference(eq):
    """Own field: filaments, spline of the plasma flux, own toroidal field"""
    sp = oracle.bicubic(eq.R_1D, eq.Z_1D, np.array(eq.plasma_psi))
    fils = [(c.R, c.Z, c.current * c.turns) for _, c in eq.tokamak.coils]

    def field(R, Z):
        br, bz = oracle.filaments_B(fils, R, Z)
        return br - sp.ev(R, Z, dy=1) / R, bz + sp.ev(R, Z, dx=1) / R, np.asarray(eq.Btor(R, Z))

    def flux(R, Z):
        return sp.ev(R, Z) + oracle.filaments_psi(fils, R, Z)

    return field, flux


def rk(field, R, Z, angles, back, h=0.08):
    """Own tracer, fourth order. Returns positions (nangles, 3, nlines), and a finely sampled path"""
    s = -1.0 if back else 1.0

    def f(y):
        br, bz, bt = field(y[0], y[1])
        return np.array([s * y[0] * br / bt, s * y[0] * bz / bt, y[0] * np.sqrt(br**2 + bz**2 + bt**2) / np.abs(bt)])

    y = np.array([R, Z, 0 * R])
    out, fine = [y], [(0, y)]
    for i, (a, b) in enumerate(zip(angles[:-1], angles[1:])):
        n = max(1, int(np.ceil((b - a) / h)))
        d = (b - a) / n
        for _ in range(n):
            k1 = f(y)
            k2 = f(y + d / 2 * k1)
            k3 = f(y + d / 2 * k2)
            k4 = f(y + d * k3)
            y = y + d / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
            fine.append((i + 1, y))
        out.append(y)
    return np.array(out), fine


def state(rng, wall):
    try:
        eq, prof, con, desc = scen.quick_eq(rng, steps=3, style=str(rng.choice(["coils", "turns"])), nx=33, ny=33, wall=wall)
    except (ValueError, RuntimeError) as e:
        raise Skip(str(e))
    if not getattr(eq, "psi_axis", None) or not hasattr(eq, "psi_bndry") or eq.psi_bndry is None:
        raise Skip("no axis")
    o, x = __import__("freegs").critical.find_critical(eq.R, eq.Z, eq.psi())
    if not o or not x:
        raise Skip("no axis or X-point")
    return eq, desc, o, x


def follow_case(case, m, rng):
    kind, wall = make_wall(rng)
    eq, desc, o, x = state(rng, wall)
    desc["wall"] = kind
    m.ev("seen-wall" if wall else "seen-no-wall")
    if kind == "concave":
        m.ev("seen-concave")
    field, flux = reference(eq)
    span = np.ptp(eq.psi())
    if wall:
        poly = shapely.Polygon(list(zip(wall.R, wall.Z)))
    else:
        poly = shapely.box(eq.Rmin + 0.01, eq.Zmin + 0.01, eq.Rmax - 0.01, eq.Zmax - 0.01)
    edge = poly.exterior
    n = int(rng.integers(1, 6))
    pts = []
    while len(pts) < n:
        r, z = float(rng.uniform(0.45, 1.75)), float(rng.uniform(-0.85, 0.85))
        if not wall:
            r, z = float(rng.uniform(eq.Rmin, eq.Rmax)), float(rng.uniform(eq.Zmin, eq.Zmax))
        q = shapely.Point(r, z)
        if poly.contains(q) and edge.distance(q) > 0.03:
            pts.append((r, z))
    R0, Z0 = np.array([p[0] for p in pts]), np.array([p[1] for p in pts])
    na = int(rng.integers(10, 60))
    angles = np.linspace(0, float(rng.uniform(0.5, 4)) * 2 * np.pi, na)
    if rng.random() < 0.3:
        angles = np.sort(np.concatenate([[0.0], rng.uniform(0, 12, na - 1)]))
    back = bool(rng.random() < 0.5)
    before = (np.array(eq.psi()), [c.current for _, c in eq.tokamak.coils])
    tr = FieldTracer(eq)
    giveR, giveZ = (R0.copy(), Z0.copy()) if rng.random() < 0.5 else (R0.tolist(), Z0.tolist())
    y = tr.follow(giveR, giveZ, angles, backward=back)
    m.ok(np.array_equal(before[0], eq.psi()) and before[1] == [c.current for _, c in eq.tokamak.coils] and np.array_equal(giveR, R0) and np.array_equal(giveZ, Z0), "unchanged", **desc)
    if rng.random() < 0.3:
        m.ev("seen-shapes")
        few = np.array([0.0, 0.01, 0.02])
        y3 = tr.follow(R0, Z0, few, backward=back)
        g = tr.follow(np.tile(R0, (2, 1)), np.tile(Z0, (2, 1)), few, backward=back)
        if m.ok(g.shape == (3, 2, n, 3), "shape", what="grid", got=list(g.shape)):
            m.ok(np.allclose(g, y3[:, None], atol=1e-5), "shape", what="grid of locations", **desc)
        g = tr.follow(R0[0], Z0[0], few, backward=back)
        if m.ok(g.shape == (3, 3), "shape", what="one location", got=list(g.shape)):
            m.ok(np.allclose(g, y3[:, 0], atol=1e-5), "shape", what="one location", **desc)
    if not m.ok(y.shape == (na, n, 3) and np.all(np.isfinite(y)), "shape", got=list(y.shape), **desc):
        return
    m.ok(np.allclose(y[0, :, 0], R0, atol=1e-12) and np.allclose(y[0, :, 1], Z0, atol=1e-12) and np.all(y[0, :, 2] == 0), "start", **desc)
    # reference, with two neighbours of each line to see how strongly they separate
    d = 1e-6
    many, fine = rk(field, np.concatenate([R0, R0 + d, R0]), np.concatenate([Z0, Z0, Z0 + d]), angles, back)
    ref, near = many[:, :, :n], (many[:, :, n : 2 * n], many[:, :, 2 * n :])
    for j in range(n):
        info = dict(line=j, start=(float(R0[j]), float(Z0[j])), back=back, **desc)
        line = y[:, j]
        # (close to coils the code's field has finite difference errors, and what it follows is not exactly a surface)
        path = np.concatenate([line[:, :2], np.array([q[:2, j] for _, q in fine])])
        if min(np.min(np.hypot(path[:, 0] - c.R, path[:, 1] - c.Z)) for _, c in eq.tokamak.coils) > 0.3:
            m.close(flux(line[:, 0], line[:, 1]), np.full(na, float(flux(R0[j], Z0[j]))), 1e-4, "flux", scale=span, **info)
        # reference path: up to where is it well inside, and where does it leave?
        safe, left = na - 1, na
        for k, q in fine:
            q = shapely.Point(q[0, j], q[1, j])
            if not poly.contains(q):
                left, safe = k, min(safe, k - 1)
                break
            # (close to coils the code's field has finite difference errors)
            if edge.distance(q) < MARGIN or any(np.hypot(q.x - c.R, q.y - c.Z) < 0.3 for _, c in eq.tokamak.coils):
                safe = min(safe, k - 1)
        safe = max(safe, 0)
        grow = max(np.nanmax(np.hypot(w[: safe + 1, 0, j] - ref[: safe + 1, 0, j], w[: safe + 1, 1, j] - ref[: safe + 1, 1, j])) for w in near) / d
        tol = 2e-5 * max(grow, 1.0)
        if tol > 5e-3:
            m.skip("close to the X-point")
            continue
        m.ev("seen-core" if left == na else "seen-open")
        dl = np.diff(line[:, 2])
        going = dl > 1e-9
        stop = int(np.argmin(going)) if not going.all() else na - 1  # index of the last moving position
        m.ok(np.all(dl >= -1e-9), "length-grows", smallest=float(dl.min()), **info)
        end = shapely.Point(float(line[-1, 0]), float(line[-1, 1]))
        m.ok(stop >= safe, "goes-on", stopped_at=float(angles[stop]), distance=edge.distance(end), at=(end.x, end.y), **info)
        if stop < na - 1:
            m.ok(edge.distance(end) < MARGIN, "stop-early", distance=edge.distance(end), at=(end.x, end.y), angle=float(angles[stop]), **info)
            m.ok(np.allclose(line[stop + 1 :], line[-1], atol=1e-9), "stays-stopped", **info)
        if left < na - 2 and not wall:
            m.ev("seen-exit-" + min((abs(end.x - eq.Rmin), "Rmin"), (abs(end.x - eq.Rmax), "Rmax"), (abs(end.y - eq.Zmin), "Zmin"), (abs(end.y - eq.Zmax), "Zmax"))[1])
        if left < na - 2:
            m.ok(stop < na - 1, "stop-late", what="went on outside", **info)
        m.ok(poly.buffer(0.03).contains(end), "stop-late", distance=poly.distance(end), at=(end.x, end.y), **info)
        upto = min(safe, stop)
        if upto > 0:
            err = np.hypot(line[1 : upto + 1, 0] - ref[1 : upto + 1, 0, j], line[1 : upto + 1, 1] - ref[1 : upto + 1, 1, j])
            m.ok(err.max() < tol, "direction", worst=float(err.max()), tol=tol, **info)
            m.close(line[1 : upto + 1, 2], ref[1 : upto + 1, 2, j], 1e-4 * max(grow, 1.0) if grow < 50 else 5e-3, "length", scale=1 + ref[upto, 2, j], **info)
        # handedness: first step along or against the field
        br, bz, bt = [float(v) for v in field(R0[j], Z0[j])]
        h = angles[1]
        if upto > 0 and 0 < h < 0.4:
            want = np.array([br, bz]) / bt * R0[j] * h * (-1 if back else 1)
            got = line[1, :2] - line[0, :2]
            if np.hypot(*want) > 1e-3:
                m.ok(np.dot(got, want) > 0, "handedness", got=got.tolist(), want=want.tolist(), **info)
        # inverse
        if upto > 1 and grow < 30:
            k = upto
            b = tr.follow([line[k, 0]], [line[k, 1]], np.array([0.0, angles[k]]), backward=not back)
            m.ok(np.hypot(b[-1, 0, 0] - R0[j], b[-1, 0, 1] - Z0[j]) < 10 * tol and abs(b[-1, 0, 2] - line[k, 2]) < 1e-3 * (1 + line[k, 2]), "inverse", got=b[-1, 0].tolist(), length=float(line[k, 2]), **info)
        # does not depend on the other lines
        if n > 1 and j < 2:
            b = tr.follow([R0[j]], [Z0[j]], angles, backward=back)
            if upto > 0:
                e = np.hypot(b[: upto + 1, 0, 0] - line[: upto + 1, 0], b[: upto + 1, 0, 1] - line[: upto + 1, 1]).max()
                m.ok(e < tol, "independent", worst=float(e), **info)
    # Lines which start outside do not move (nor do they hold up others)
    out = []
    for _ in range(200):
        r, z = float(rng.uniform(eq.Rmin, eq.Rmax)), float(rng.uniform(eq.Zmin, eq.Zmax))
        if not wall:
            r, z = [(r, eq.Zmax - 0.005), (r, eq.Zmin + 0.005), (eq.Rmin + 0.005, z), (eq.Rmax - 0.005, z)][int(rng.integers(4))]
        q = shapely.Point(r, z)
        if not poly.contains(q) and (not wall or edge.distance(q) > 0.03) and min(np.hypot(r - c.R, z - c.Z) for _, c in eq.tokamak.coils) > 0.1:
            out.append((r, z))
        if len(out) == 2:
            break
    if len(out) == 2:
        b = tr.follow([out[0][0], R0[0], out[1][0]], [out[0][1], Z0[0], out[1][1]], angles, backward=back)
        for k, q in ((0, out[0]), (2, out[1])):
            m.ok(np.allclose(b[:, k, 0], q[0], atol=1e-9) and np.allclose(b[:, k, 1], q[1], atol=1e-9) and np.all(np.abs(b[:, k, 2]) < 1e-9), "outside-stays", start=q, end=b[-1, k].tolist(), **desc)
        dl, was = np.diff(b[:, 1, 2]), np.diff(y[:, 0, 2])
        m.ok((dl[0] > 1e-9) == (was[0] > 1e-9), "outside-stays", what="the others go on", **desc)
    m.state(desc, [round(v, 3) for v in pts[0]], back)
    m.sample(lines=n, angles=na, wall=kind, length=float(y[-1, 0, 2]), **{k: v for k, v in desc.items() if k != "wall"})


def trace_case(case, m, rng):
    kind, wall = make_wall(rng)
    eq, desc, o, x = state(rng, wall)
    desc["wall"] = kind
    field, flux = reference(eq)
    mid = np.linspace(o[0][0], eq.Rmax, 200)
    if np.max((flux(mid, np.full(200, o[0][1])) - o[0][2]) / (eq.psi_bndry - o[0][2])) < 1.01:
        raise Skip("the plasma reaches the outer edge of the domain")
    sol, n, turns, npt = float(rng.uniform(0.01, 0.05)), int(rng.integers(1, 7)), int(rng.integers(1, 6)), int(rng.integers(10, 60))
    fw, bw = traceFieldLines(eq, solwidth=sol, nlines=n, nturns=turns, npoints=npt)
    span = np.ptp(eq.psi())
    for a in (fw, bw):
        m.ok(a.R.shape == a.Z.shape == a.length.shape == (npt, n), "shape", got=[list(a.R.shape), list(a.length.shape)])
    r, z = fw.R[0], fw.Z[0]
    m.ok(np.array_equal(fw.R[0], bw.R[0]) and np.array_equal(fw.Z[0], bw.Z[0]), "trace-start", what="same start")
    edge = r[-1] - sol
    pn = (float(flux(edge, o[0][1])) - o[0][2]) / (eq.psi_bndry - o[0][2])
    m.close(pn, 1.0, 0.02, "trace-start", scale=1.0, what="outboard edge of the plasma", at=float(edge), **desc)
    m.ok(edge > o[0][0] and np.allclose(z, o[0][1], atol=1e-6), "trace-start", z=z.tolist(), axis=o[0][:2])
    m.ok(np.allclose(r, edge + sol / n + (sol - sol / n) * np.arange(n) / max(n - 1, 1)), "trace-start", what="spacing", got=(r - edge).tolist(), solwidth=sol, **desc)
    for a, back in ((fw, False), (bw, True)):
        for j in range(n):
            m.close(flux(a.R[:, j], a.Z[:, j]), np.full(npt, float(flux(r[j], z[j]))), 1e-4, "trace-flux", scale=span, back=back, **desc)
            m.ok(np.all(np.diff(a.length[:, j]) >= -1e-9), "trace-flux", what="length", back=back)
    # the two directions separate: first points lie on both sides
    angles = np.linspace(0, turns * 2 * np.pi, npt)
    k = 1
    ref = {b: rk(field, r, z, angles[: k + 1], b, h=0.02)[0] for b in (False, True)}
    for a, b in ((fw, False), (bw, True)):
        for j in range(n):
            inside = wall is None or shapely.Polygon(list(zip(wall.R, wall.Z))).buffer(-0.05).contains(shapely.LineString([(r[j], z[j]), (ref[b][k, 0, j], ref[b][k, 1, j])]))
            if inside and abs(ref[b][k, 0, j] - r[j]) + abs(ref[b][k, 1, j] - z[j]) < 0.25:
                e = np.hypot(a.R[k, j] - ref[b][k, 0, j], a.Z[k, j] - ref[b][k, 1, j])
                m.ok(e < 2e-3, "trace-back", worst=float(e), back=b, **desc)
    m.state("trace", desc, n, turns)


def memory_case(case, m):
    from freegs import fieldtracer

    """Asked before and after a change: the answers are those of an equilibrium never asked before"""
    def ask(eq, prof, con, rng, held):
        r, z = rng.uniform(0.6, 1.4, 4), rng.uniform(-0.5, 0.5, 4)
        ang = np.linspace(0.0, 3.0, 4)
        t = held.setdefault("tracer", fieldtracer.FieldTracer(eq))  # one tracer, used again
        return {"kept tracer": lambda: np.array(t.follow(r, z, ang)), "back": lambda: np.array(t.follow(r, z, ang, backward=True)), "new tracer": lambda: np.array(fieldtracer.FieldTracer(eq).follow(r, z, ang))}

    memory.later(case, m, 23, ask, pick=2, ops=("wall", "wall", "limited", "solve", "currents", "move"))
