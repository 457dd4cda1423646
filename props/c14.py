"""C14: reading G-EQDSK files"""
import copy
import io

import numpy as np

from freegs import critical, geqdsk, picard
from props.c13 import parse_geqdsk
from rv import oracle, scen
from rv.core import Skip

TITLE = "G-EQDSK input"
RULE = (
    "Converged equilibria (diverted and limited, both signs of current and field, several coil styles, square and rectangular "
    "grids) are put in G-EQDSK files by an independent writer, also with a constant added to the flux, in Wb instead of Wb/rad, "
    "on a grid which is not 2^n+1, with or without wall; the files are read with fresh machines or machines already carrying "
    "currents and another wall, with each option (domain, whole-domain fit, bounds on currents). The equilibrium read is compared with the file "
    "and with the equilibrium the file was made from. Distinct by (variant, option, grid, signs, profile, limited)."
)
REQUIRED_EVENTS = ("grid", "domain", "wall", "reference-radius", "vacuum-field", "pressure", "fpol", "pprime", "ffprime", "current",
                   "axis", "flux-range", "flux-map", "coil-currents", "options", "bounds", "control-usable", "x-point", "converged", "maxits")

VARIANTS = ["plain", "dirty", "offset", "cocos", "resample", "domain", "fit_sol", "bounds", "limited", "nowall"]


def cases(tier, seed):
    n = 2 if tier == "quick" else 10
    out = []
    for i in range(n):
        for v in VARIANTS:
            if v == "bounds" and i > (0 if tier == "quick" else 4):
                continue
            out.append(dict(kind=v, seed=seed, i=i))
    if tier == "quick":
        out += [dict(kind="domain", seed=seed, i=i) for i in (2, 3, 4)]
    return out


def fmt(vals, per=5):
    vals = np.ravel(vals)
    lines = []
    for k in range(0, len(vals), per):
        lines.append("".join("%16.9E" % v for v in vals[k : k + per]))
    return "\n".join(lines) + "\n"


def write_geqdsk(d):
    """Independent writer of the file format"""
    nx, ny = d["psi"].shape
    out = "  freegs    11/18/2026    #000001  0ms        %4d%4d%4d\n" % (0, nx, ny)
    out = "%-48s%4d%4d%4d\n" % ("  verif independent writer", 3, nx, ny)
    out += fmt([d["rdim"], d["zdim"], d["rcentr"], d["rleft"], d["zmid"],
                d["rmaxis"], d["zmaxis"], d["simag"], d["sibry"], d["bcentr"],
                d["current"], d["simag"], 0.0, d["rmaxis"], 0.0, d["zmaxis"], 0.0, d["sibry"], 0.0, 0.0])
    for k in ("fpol", "pres", "ffprime", "pprime"):
        out += fmt(d[k])
    out += fmt(d["psi"].T) + fmt(d["q"])
    out += "%5d%5d\n" % (len(d["rb"]), len(d["rl"]))
    out += fmt(np.column_stack([d["rb"], d["zb"]]))
    if len(d["rl"]):
        out += fmt(np.column_stack([d["rl"], d["zl"]]))
    return out


def source(case, m):
    """A converged equilibrium"""
    for attempt in range(4):
        rng = scen.rng_of(case["seed"], case["i"], VARIANTS.index(case["kind"]), attempt, 14)
        limited = case["kind"] == "limited"
        wall = scen.DEFAULT_WALL
        if limited:
            rin = float(rng.uniform(0.78, 0.92))
            wall = scen.Wall([rin, rin, 1.5, 1.8, 1.8, 1.5, rin], [-0.95, 0.95, 0.95, 0.25, -0.25, -0.95, -0.95])
        if case["kind"] == "nowall":
            wall = None
        style = str(rng.choice(["coils", "shaped", "turns"]))
        seedm = int(rng.integers(1 << 30))
        kw = dict(Zmin=-1.0 - float(rng.uniform(0, 0.05)), Zmax=1.0 + float(rng.uniform(0, 0.05)), Rmax=2.0 + float(rng.uniform(0, 0.1)))
        nx = 33
        ny = int(rng.choice([33, 65], p=[0.7, 0.3]))
        prof = str(rng.choice(["paxis", "betap"]))

        def machine():
            tok = scen.d_machine(np.random.default_rng(seedm), jitter=0.01, style=style, wall=wall)
            return tok

        try:
            eq, p, con, desc = scen.quick_eq(rng, steps=2, tame=True, style=style, profile=prof, tok=machine(), nx=nx, ny=ny,
                                             check_limited=limited, **kw)
            picard.solve(eq, p, con, rtol=1e-5, maxits=60, check_limited=limited, blend=0.3 if limited else 0.0)
        except (RuntimeError, ValueError):
            continue
        if limited and not eq.is_limited:
            continue
        if not limited and wall is not None:
            # must not touch the wall, since the reader looks for limiters
            xs = critical.find_critical(eq.R, eq.Z, eq.psi())[1]
            if not xs:
                continue
        eq.tokamak.R0 = float(rng.uniform(0.8, 1.3))
        return eq, p, machine, desc, rng, wall
    raise Skip("no converged source")


def run(case, m):
    kind = case["kind"]
    eq, prof, machine, desc, rng, wall = source(case, m)
    fh = io.StringIO()
    geqdsk.write(eq, fh)
    d = parse_geqdsk(fh.getvalue())
    if wall is None:
        d["rl"] = d["zl"] = np.zeros(0)
    psi_src = np.array(eq.psi())
    opt, xpt = critical.find_critical(eq.R, eq.Z, psi_src)
    src = oracle.bicubic(eq.R[:, 0], eq.Z[0, :], psi_src)
    kw = {}
    fac, loose, shift = 1.0, 1.0, 0.0
    if kind == "offset" or (kind in ("domain", "resample", "limited", "fit_sol", "nowall") and rng.random() < 0.6):
        c = float(rng.uniform(-0.5, 0.5))
        for k in ("psi", "simag", "sibry"):
            d[k] = d[k] + c
        d["simag2"], d["sibry2"] = d["simag"], d["sibry"]
        shift = c
    if kind == "cocos":
        fac = 2 * np.pi
        for k in ("psi", "simag", "sibry"):
            d[k] = d[k] * fac
        d["pprime"], d["ffprime"] = d["pprime"] / fac, d["ffprime"] / fac
        kw["cocos"] = 11
    elif kind == "resample":
        nx, ny = (int(rng.integers(36, 47)) if rng.random() < 0.5 else int(rng.integers(47, 63)) for _ in range(2))
        if rng.random() < 0.3:
            nx, ny = (65, ny) if rng.random() < 0.5 else (nx, 65)
        r, z = np.linspace(eq.Rmin, eq.Rmax, nx), np.linspace(eq.Zmin, eq.Zmax, ny)
        d["psi"] = src(r, z) - eq.psi_axis + shift
        pn = np.linspace(0, 1, nx)
        for k in ("fpol", "pres", "ffprime", "pprime", "q"):
            d[k] = np.interp(pn, np.linspace(0, 1, len(d[k])), d[k])
        d["pres"] = np.array([float(eq.pressure(v)) for v in pn])
        d["fpol"] = np.array([float(eq.fpol(v)) for v in pn])
        loose = 3.0
    elif kind == "domain":
        lo = float(rng.uniform(0.0, 0.1))
        dom = (eq.Rmin + lo, eq.Rmax - float(rng.uniform(0, 0.1)), -0.95, 0.95)
        how = rng.random()
        if how < 0.4:
            dom = (eq.Rmin + lo, eq.Rmax - float(rng.uniform(0, 0.1)), eq.Zmin - float(rng.uniform(0, 0.04)), eq.Zmax + float(rng.uniform(0.001, 0.04)))
        elif how < 0.7:
            dom = (eq.Rmin + lo, eq.Rmax + float(rng.uniform(0.02, 0.1)), eq.Zmin, eq.Zmax)
        kw["domain"] = list(dom)
    elif kind == "fit_sol":
        kw["fit_sol"] = True
    elif kind == "bounds":
        cur = [c.current for _, c in eq.tokamak.coils]
        big = 1.5 * max(abs(v) for v in cur)
        kw["current_bounds"] = [(-big, big)] * len(cur)
        loose = 3.0
    if kind == "limited":
        loose = 3.0
    text = write_geqdsk(d)
    tok = machine()
    if kind == "dirty" or rng.random() < 0.4:
        for _, c in tok.coils:
            c.current = float(rng.uniform(-1e5, 1e5))
        if kind == "dirty":
            tok.wall = scen.Wall([0.9, 1.2, 1.2, 0.9], [-0.1, -0.1, 0.1, 0.1])
            tok.limit_points_R, tok.limit_points_Z = tok.generate_limit_points(100)
            desc["dirty"] = True
            if case["i"] % 2 == 1 or rng.random() < 0.5:
                # The machine has been used to read another file: the same equilibrium with all currents larger or smaller
                desc["dirty"] = "other file"
                f = float(rng.uniform(0.6, 1.5))
                other = dict(d, current=d["current"] * f, pres=d["pres"] * f**2, pprime=d["pprime"] * f, ffprime=d["ffprime"] * f)
                for k in ("psi", "simag", "sibry"):
                    other[k] = d[k] * f
                fv = eq.fvac()
                other["fpol"] = np.sign(fv) * np.sqrt(fv**2 + f**2 * (d["fpol"] ** 2 - fv**2))
                try:
                    first = geqdsk.read(io.StringIO(write_geqdsk(other)), tok, rtol=1e-3, maxits=80)
                except RuntimeError as e:
                    raise Skip("fit did not converge: %s" % e)
                m.close(first.plasmaCurrent(), f * eq.plasmaCurrent(), 0.005, "current", what="scaled", **desc)
                keep = [float(first.pressure(v)) for v in (0.0, 0.4, 0.9)]
    elif kind == "nowall" and rng.random() < 0.6:
        # The file says nothing of the wall: that of the machine stays
        tok.wall = scen.DEFAULT_WALL
        tok.limit_points_R, tok.limit_points_Z = tok.generate_limit_points(300)
    was_wall = tok.wall
    if kind in ("domain", "fit_sol"):
        with m.expect_raises("options", ValueError, what="domain and whole-domain fit"):
            geqdsk.read(io.StringIO(text), machine(), fit_sol=True, domain=[eq.Rmin, eq.Rmax, eq.Zmin, eq.Zmax])
    if kind in ("plain", "offset") and rng.random() < 0.5:
        kw["blend"] = float(rng.uniform(0.1, 0.4))
    rtol = 3e-4
    if case["i"] % 2 == 1 and kind not in ("limited", "bounds"):
        rtol = float(10 ** rng.uniform(-6, -4))
        # Too few iterations for this tolerance
        try:
            few = geqdsk.read(io.StringIO(text), machine(), rtol=1e-12, maxits=2, **kw)
        except RuntimeError:
            few = None
        m.ok(few is None, "maxits", variant=kind)
    try:
        new = geqdsk.read(io.StringIO(text), tok, rtol=rtol, maxits=80, **kw)
    except RuntimeError as e:
        raise Skip("fit did not converge: %s" % e)
    m.ok(new.tokamak is tok, "machine", variant=kind)
    desc = dict(desc, variant=kind)
    # Grid and domain
    if kind == "domain":
        want = list(dom)
    else:
        want = [d["rleft"], d["rleft"] + d["rdim"], d["zmid"] - d["zdim"] / 2, d["zmid"] + d["zdim"] / 2]
    m.close([new.Rmin, new.Rmax, new.Zmin, new.Zmax], want, 1e-8, "domain", **desc)
    m.close([new.R[0, 0], new.R[-1, 0], new.Z[0, 0], new.Z[0, -1]], want, 1e-8, "domain", **desc)
    nx, ny = d["psi"].shape
    shape = np.array(new.psi()).shape
    if kind == "domain":
        # as good as the input or better
        m.ok(new.dR <= eq.dR * 1.001 and new.dZ <= eq.dZ * 1.001, "grid", got=shape, **desc)
    elif kind == "resample":
        m.ok(shape == (65, 65), "grid", got=shape, asked=[nx, ny], **desc)
    else:
        m.ok(shape == (nx, ny), "grid", got=shape, **desc)
    if wall is not None:
        ok = len(tok.wall.R) == len(wall.R) and np.allclose(tok.wall.R, wall.R, atol=1e-8) and np.allclose(tok.wall.Z, wall.Z, atol=1e-8)
        m.ok(ok, "wall", got=[tok.wall.R, tok.wall.Z], **desc)
    else:
        m.ok(tok.wall is was_wall, "wall", what="none in the file", got=tok.wall, **desc)
    m.close(tok.R0, eq.tokamak.R0, 1e-8, "reference-radius", **desc)
    m.close(new.fvac(), eq.fvac(), 1e-8, "vacuum-field", **desc)
    # Profiles
    pn = np.linspace(0.0, 1.0, 41)
    near = 1e-6 if kind != "resample" else 1e-5
    m.close(new.pressure(pn), eq.pressure(pn), 2e-3, "pressure", **desc)
    m.close(new.fpol(pn), eq.fpol(pn), 1e-5, "fpol", **desc)
    nodes = np.linspace(0, 1, nx)
    m.close(new.pressure(nodes), d["pres"], near, "pressure", **desc)
    m.close(new.fpol(nodes), d["fpol"], near, "fpol", **desc)
    inner = pn[2:-2]
    m.close(new.pprime(inner), d_of(d["pres"], nx, inner) / (eq.psi_bndry - eq.psi_axis), 2e-2, "pprime", **desc)
    m.close(new.ffprime(inner), d_of(0.5 * d["fpol"] ** 2, nx, inner) / (eq.psi_bndry - eq.psi_axis), 2e-2, "ffprime",
            scale=np.max(np.abs(d["ffprime"] * fac)) + 1e-7 * np.max(d["fpol"] ** 2) / abs(eq.psi_bndry - eq.psi_axis), **desc)
    for name in ("pressure", "fpol", "pprime", "ffprime"):
        f = getattr(new, name)
        want = np.array([float(f(np.array(v))) for v in pn])
        m.close(f(pn), want, 1e-9, name, what="array and points", **desc)
        m.close([float(f(float(v))) for v in pn], want, 1e-9, name, what="number and points", **desc)
        m.close(f(pn[:40].reshape(8, 5)), want[:40].reshape(8, 5), 1e-9, name, what="two dimensions", **desc)
    if desc.get("dirty") == "other file":
        # Profiles of the equilibrium read before are its own
        m.close([float(first.pressure(v)) for v in (0.0, 0.4, 0.9)], keep, 1e-12, "pressure", what="other file", **desc)
    m.ok(bool(new.check_limited), "options", what="limiter", **desc)
    # The equilibrium
    m.close(new.plasmaCurrent(), eq.plasmaCurrent(), 0.003 * loose, "current", **desc)
    m.close(new.psi_bndry - new.psi_axis, eq.psi_bndry - eq.psi_axis, 0.003 * loose, "flux-range", **desc)
    psi = np.array(new.psi())
    o, x = critical.find_critical(new.R, new.Z, psi)
    h = np.hypot(eq.dR, eq.dZ)
    if not m.ok(len(o) > 0, "axis", **desc):
        return
    m.close(o[0][:2], opt[0][:2], 0.02 * loose, "axis", scale=h, **desc)
    if xpt and kind != "limited":
        dist = min([np.hypot(p[0] - xpt[0][0], p[1] - xpt[0][1]) for p in x] or [9])
        m.ok(dist < 0.3 * loose * h, "x-point", dist=dist, h=h, **desc)
        m.ok(not new.is_limited or wall is None or wall_touch(eq, wall), "limited-or-diverted", **desc)
    if kind == "limited":
        m.ok(bool(new.is_limited), "limited-or-diverted", **desc)
    # Normalised flux inside the plasma
    rr, zz = np.meshgrid(eq.R[:, 0], eq.Z[0, :], indexing="ij")
    inside = (np.asarray(eq.mask) > 0.5) & (rr > new.Rmin) & (rr < new.Rmax) & (zz > new.Zmin) & (zz < new.Zmax)
    got = (oracle.bicubic(new.R[:, 0], new.Z[0, :], psi).ev(rr[inside], zz[inside]) - new.psi_axis) / (new.psi_bndry - new.psi_axis)
    was = (psi_src[inside] - eq.psi_axis) / (eq.psi_bndry - eq.psi_axis)
    m.close(got, was, 0.004 * loose, "flux-map", scale=1.0, **desc)
    a = np.array([c.current for _, c in tok.coils])
    b = np.array([c.current for _, c in eq.tokamak.coils])
    m.close(a, b, 0.015 * loose, "coil-currents", scale=np.max(np.abs(b)), **desc)
    if kind == "bounds":
        m.ok(all(lo - 1 <= v <= hi + 1 for v, (lo, hi) in zip(a, kw["current_bounds"])), "bounds", got=a, **desc)
    # Converged to the tolerance asked for
    if kind not in ("limited", "bounds"):
        again = copy.deepcopy(new)
        again.solve(again._profiles)
        m.close(again.psi(), psi, 3 * rtol + 1e-8, "converged", scale=np.ptp(psi), rtol=rtol, **desc)
    # The control system left with it can be used
    if x and hasattr(new, "control"):
        p0 = psi.copy()
        new.control(new)
        m.close(new.psi(), p0, 0.05 if kind != "limited" else 1.0, "control-usable", scale=np.ptp(psi), **desc)
    m.state(kind, desc)
    m.sample(read_Ip=[new.plasmaCurrent(), eq.plasmaCurrent()], currents=[list(a), list(b)], **desc)


def wall_touch(eq, wall):
    """The wall reaches (nearly) into the plasma of the source"""
    t = np.linspace(0, 1, 60)
    r = np.concatenate([a + (b - a) * t for a, b in zip(wall.R, list(wall.R[1:]) + [wall.R[0]])])
    z = np.concatenate([a + (b - a) * t for a, b in zip(wall.Z, list(wall.Z[1:]) + [wall.Z[0]])])
    f = oracle.bicubic(eq.R[:, 0], eq.Z[0, :], np.array(eq.psi()))
    ok = (r > eq.Rmin) & (r < eq.Rmax) & (z > eq.Zmin) & (z < eq.Zmax)
    return np.min((f.ev(r[ok], z[ok]) - eq.psi_axis) / (eq.psi_bndry - eq.psi_axis)) < 1.02


def d_of(y, nx, at):
    from scipy.interpolate import InterpolatedUnivariateSpline as S

    return S(np.linspace(0, 1, nx), y).derivative()(at)
