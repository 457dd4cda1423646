"""C13: exported files"""
import io
import re

import numpy as np

from freegs import critical, divgeo, geqdsk
from rv import memory, oracle, scen
from rv.core import Skip, quiet

TITLE = "G-EQDSK and DivGeo output"
RULE = (
    "Equilibrium states (diverted and limited (with and without X-points), both signs of current and field, rectangular grids, shifted domains, random "
    "reference radius, with and without a wall) are written; the files are parsed by an independent reader of the fixed-width "
    "formats and every number is compared with the equilibrium's own queries; p' and ff' also against derivatives of the "
    "pressure and f columns. Distinct by (format, grid, signs, profile, wall, limited)."
)
REQUIRED_EVENTS = ("remembered", "grid", "axis", "flux-map", "fpol", "pressure", "pprime", "ffprime", "q", "current", "vacuum-field",
                   "boundary-points", "wall", "boundary-flux", "derivatives", "divgeo-flux", "divgeo-grid", "divgeo-scalars",
                   "unchanged", "label", "seen-round")


def cases(tier, seed):
    n = 32 if tier == "quick" else 160
    return [dict(kind="state", seed=seed, i=i) for i in range(n)] + [dict(kind="round", seed=seed, i=i) for i in range(6 if tier == "quick" else 60)] + [dict(kind="memory", seed=seed, i=i) for i in range(16 if tier == "quick" else 240)]


NUM = re.compile(r"[+-]?\d*\.\d+[Ee][+-]?\d+|[+-]?\d+\.\d*|[+-]?(?:nan|inf)", re.I)


def parse_geqdsk(text):
    lines = text.splitlines()
    head = lines[0]
    idum, nx, ny = [int(v) for v in head.split()[-3:]]
    body = "\n".join(lines[1:])
    # the block of floats up to the two integers nbdry, nlim
    nfl = 20 + 5 * nx + nx * ny
    vals, pos = [], 0
    while len(vals) < nfl:
        mt = NUM.search(body, pos)
        if mt is None:
            raise ValueError("file too short")
        vals.append(float(mt.group()))
        pos = mt.end()
    rest = body[pos:].strip().splitlines()
    nb, nl = [int(v) for v in rest[0].split()[:2]]
    tail = [float(v) for v in NUM.findall("\n".join(rest[1:]))]
    d = dict(label=head, nx=nx, ny=ny)
    names = ["rdim", "zdim", "rcentr", "rleft", "zmid", "rmaxis", "zmaxis", "simag", "sibry", "bcentr", "current", "simag2", "x",
             "rmaxis2", "x", "zmaxis2", "x", "sibry2", "x", "x"]
    for k, v in zip(names, vals):
        d[k] = v
    off = 20
    for name in ("fpol", "pres", "ffprime", "pprime"):
        d[name] = np.array(vals[off : off + nx])
        off += nx
    d["psi"] = np.array(vals[off : off + nx * ny]).reshape(ny, nx).T
    off += nx * ny
    d["q"] = np.array(vals[off : off + nx])
    bd = np.array(tail[: 2 * nb]).reshape(nb, 2)
    d["rb"], d["zb"] = bd[:, 0], bd[:, 1]
    lm = np.array(tail[2 * nb : 2 * nb + 2 * nl]).reshape(nl, 2)
    d["rl"], d["zl"] = lm[:, 0], lm[:, 1]
    d["extra"] = len(tail) - 2 * nb - 2 * nl
    return d


def parse_divgeo(text):
    out = {}
    for k in ("jm", "km"):
        out[k] = int(re.search(r"^\s*%s\s*=\s*(\d+)" % k, text, re.M).group(1))
    for k in ("psib", "btf", "rtf"):
        out[k] = float(re.search(r"^\s*%s\s*=\s*(\S+)" % k, text, re.M).group(1))
    r0 = text.index("r(1:jm);") + len("r(1:jm);")
    z0 = text.index("z(1:km);")
    p0 = text.index("((psi(j,k)-psib,j=1,jm),k=1,km)")
    out["r"] = np.array([float(v) for v in NUM.findall(text[r0:z0])])
    out["z"] = np.array([float(v) for v in NUM.findall(text[z0 + len("z(1:km);") : p0])])
    v = np.array([float(v) for v in NUM.findall(text[p0 + len("((psi(j,k)-psib,j=1,jm),k=1,km)") :])])
    out["psi"] = v.reshape(out["km"], out["jm"]).T
    return out


def run(case, m):
    if case.get("kind") == "memory":
        with quiet():
            return memory_case(case, m)
    rng = scen.rng_of(case["seed"], case["i"], 13)
    limited = case["i"] % 3 == 2
    wall = None
    if limited or rng.random() < 0.5:
        wall = scen.DEFAULT_WALL
    if limited:
        c, w, h = rng.uniform(1.05, 1.15), rng.uniform(0.3, 0.45), rng.uniform(0.35, 0.5)
        wall = scen.Wall([c - w, c + w, c + w, c - w, c - w], [-h, -h, h, h, -h])
    kw = dict(Zmin=-1.0 - float(rng.uniform(0, 0.1)), Zmax=1.0 + float(rng.uniform(0, 0.2)), Rmax=2.0 + float(rng.uniform(0, 0.1)))
    try:
        if case.get("kind") == "round":
            eq, prof, con, desc = scen.round_eq(rng)
            m.ev("seen-round")
            wall = eq.tokamak.wall
        else:
            eq, prof, con, desc = scen.quick_eq(rng, steps=3, tame=True, wall=wall, check_limited=limited, **kw)
    except ValueError as e:
        raise Skip(str(e))
    if eq.mask is None and case.get("kind") != "round":
        raise Skip("no boundary")
    if limited:
        desc["is_limited"] = bool(eq.is_limited)
    eq.tokamak.R0 = float(rng.uniform(0.7, 1.6))
    psi = np.array(eq.psi())
    before = (psi.copy(), eq.plasma_psi.copy(), [c.current for _, c in eq.tokamak.coils])
    opts, xpts = critical.find_critical(eq.R, eq.Z, psi)
    label = str(rng.choice(["", "freegs", "run 42"])) or None
    fh = io.StringIO()
    try:
        if rng.random() < 0.5:
            geqdsk.write(eq, fh, label=label)
        else:
            geqdsk.write(eq, fh, label=label, oxpoints=(opts, xpts))
    except IndexError as e:
        if not xpts and case.get("kind") != "round":
            raise Skip("no X-point")
        raise
    d = parse_geqdsk(fh.getvalue())
    m.ok(label is None or label in d["label"], "label", got=d["label"], want=label)
    nx, ny = psi.shape
    t = 2e-8
    m.ok((d["nx"], d["ny"]) == (nx, ny), "grid", got=[d["nx"], d["ny"]], **desc)
    m.close([d["rleft"], d["rleft"] + d["rdim"], d["zmid"] - d["zdim"] / 2, d["zmid"] + d["zdim"] / 2],
            [eq.Rmin, eq.Rmax, eq.Zmin, eq.Zmax], 1e-8, "grid", **desc)
    m.close([d["rmaxis"], d["zmaxis"], d["rmaxis2"], d["zmaxis2"]], [opts[0][0], opts[0][1]] * 2, t, "axis", scale=3.0, **desc)
    span = np.ptp(psi)
    dpsi = eq.psi_bndry - eq.psi_axis
    m.close([d["sibry"] - d["simag"], d["sibry2"] - d["simag2"]], [dpsi] * 2, t, "boundary-flux", scale=span, **desc)
    m.close(d["psi"] - d["simag"], psi - eq.psi_axis, t, "flux-map", scale=span, **desc)
    m.close(d["current"], eq.plasmaCurrent(), t, "current", **desc)
    m.close(d["bcentr"] * d["rcentr"], eq.fvac(), 1e-8, "vacuum-field", **desc)
    m.close(d["rcentr"], eq.tokamak.R0, t, "vacuum-field", **desc)
    pn = np.linspace(0, 1, nx)
    m.close(d["fpol"], [float(eq.fpol(v)) for v in pn], 1e-8, "fpol", **desc)
    m.close(d["fpol"][-1], eq.fvac(), 1e-8, "fpol", **desc)
    m.close(d["pres"], [float(eq.pressure(v)) for v in pn], 1e-8, "pressure", **desc)
    m.close(d["pprime"], [float(eq.pprime(v)) for v in pn], 1e-8, "pprime", **desc)
    m.close(d["ffprime"], [float(eq.ffprime(v)) for v in pn], 1e-8, "ffprime", **desc)
    # Columns are consistent with each other (the profiles carry the flux range of the last iteration, so the common
    # factor is only bounded; the shape and the sign are judged)
    for what, col, tot in (("pprime", d["pprime"], d["pres"] - d["pres"][0]),
                           ("ffprime", d["ffprime"], 0.5 * (d["fpol"] ** 2 - d["fpol"][0] ** 2))):
        integ = oracle_cumulative(col, pn) * dpsi
        big = np.max(np.abs(integ))
        if big < 1e-6 * max(1e-3, np.max(np.abs(d["fpol"])) ** 2) or np.max(np.abs(tot)) == 0:
            continue
        c = float(np.dot(integ, tot) / np.dot(integ, integ))
        m.ok(0.1 < c < 10, "derivatives", what=what, ratio=c, **desc)
        m.close(tot, c * integ, 5e-3, "derivatives", scale=abs(c) * big + 1e-9, what=what, **desc)
    q = np.asarray(eq.q(pn[1:]))
    m.close(d["q"][1:], q, 1e-6, "q", scale=np.max(np.abs(q)), **desc)
    m.ok(abs(d["q"][0] - q[0]) < 0.3 * abs(q[0]), "q", axis=d["q"][0], next=q[0], **desc)
    # Plasma boundary
    f = oracle.bicubic(eq.R[:, 0], eq.Z[0, :], psi)
    if star_shaped(eq, f, dpsi):
        bn = (f.ev(d["rb"], d["zb"]) - eq.psi_axis) / dpsi
        m.ok(len(bn) > 20 and np.all(np.abs(bn - 1) < 0.03), "boundary-points", n=len(bn), worst=float(np.max(np.abs(bn - 1))), **desc)
        area = abs(oracle.shoelace(d["rb"], d["zb"]))
        core = float(np.sum(eq.mask if eq.mask is not None else 1.0 + 0 * psi)) * eq.dR * eq.dZ
        m.ok(abs(area - core) < 0.15 * core, "boundary-points", area=area, core=core, **desc)
        m.ok(np.hypot(d["rb"][0] - d["rb"][-1], d["zb"][0] - d["zb"][-1]) < 1e-8, "boundary-points", what="closed", **desc)
    else:
        m.skip("an X-point inside the boundary was not resolved by the grid")
    if wall is not None:
        ok = len(d["rl"]) == len(wall.R) and np.allclose(d["rl"], wall.R, atol=1e-8) and np.allclose(d["zl"], wall.Z, atol=1e-8)
        m.ok(ok, "wall", got=[d["rl"], d["zl"]], **desc)
    m.ok(d["extra"] == 0 or wall is None, "format", extra=d["extra"], **desc)
    # DivGeo
    fh = io.StringIO()
    divgeo.write(eq, fh)
    g = parse_divgeo(fh.getvalue())
    m.ok((g["jm"], g["km"]) == (nx, ny), "divgeo-grid", **desc)
    m.close(g["r"], eq.R[:, 0], 1e-8, "divgeo-grid", **desc)
    m.close(g["z"], eq.Z[0, :], 1e-8, "divgeo-grid", **desc)
    m.close(g["psi"], psi - eq.psi_bndry, 1e-8, "divgeo-flux", scale=span, **desc)
    m.close([g["psib"], g["btf"] * g["rtf"]], [dpsi, eq.fvac()], 1e-8, "divgeo-scalars", scale=[span, abs(eq.fvac())], **desc)
    same = np.array_equal(before[0], eq.psi()) and np.array_equal(before[1], eq.plasma_psi) and before[2] == [c.current for _, c in eq.tokamak.coils]
    m.ok(same, "unchanged", **desc)
    m.state(desc, wall is not None)
    m.sample(q95=float(np.interp(0.95, pn[1:], q)), **desc)


def oracle_cumulative(y, x):
    from scipy.interpolate import InterpolatedUnivariateSpline as S

    s = S(x, y, k=3).antiderivative()
    return s(x) - s(x[0])


def star_shaped(eq, f, dpsi):
    """The flux rises to the boundary value along every ray from the axis"""
    r0, z0, _ = critical.find_critical(eq.R, eq.Z, eq.psi())[0][0]
    for t in np.linspace(0, 2 * np.pi, 180, endpoint=False):
        length = np.linspace(0, 3, 1500)
        r, z = r0 + length * np.cos(t), z0 + length * np.sin(t)
        inside = (r > eq.Rmin) & (r < eq.Rmax) & (z > eq.Zmin) & (z < eq.Zmax)
        p = (f.ev(r[inside], z[inside]) - eq.psi_axis) / dpsi
        k = int(np.argmax(p > 0.995))
        if p[k] <= 0.995 or np.any(np.diff(p[:k]) < -1e-3):
            return False
    return True


def memory_case(case, m):
    """Asked before and after a change: the answers are those of an equilibrium never asked before"""
    def ask(eq, prof, con, rng, held):
        from props import c27

        return {"geqdsk": lambda: c27.text_file(eq), "geqdsk again": lambda: c27.text_file(eq)}

    memory.later(case, m, 13, ask)
