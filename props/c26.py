"""C26: symmetries of the physics, through complete executions"""
import copy

import numpy as np

import freegs
from freegs import control, jtor
from freegs.filament_coil import FilamentCoil
from freegs.machine import Circuit, Coil, Machine, Solenoid, Wall
from freegs.multi_coil import MultiCoil
from freegs.shaped_coil import ShapedCoil
from rv import scen
from rv.core import Skip, quiet

TITLE = "Symmetries of the physics"
RULE = (
    "Random machines (all coil kinds and circuits, walls), constraints, profiles, grids, boundary conditions; each is run twice, once as it is and once transformed by a random combination of: all currents "
    "times a factor (also negative), all lengths times a factor, up-down mirror, coils in another order and with other names, coils without current added, toroidal field reversed. "
    "Vacuum, fixed number of linear solves, complete free boundary solves (diverted and limited), fields, flux, axis, X-points and diagnostics must be related by the factors. Distinct by (scenario, transformation)."
)
REQUIRED_EVENTS = ("vacuum", "control", "steps-psi", "steps-jtor", "solve-psi", "solve-currents", "solve-iterations", "axis", "xpoint", "boundary", "field", "beta", "volume", "shape", "q", "pressure",
                   "limited", "seen-reverse", "seen-mirror", "seen-length", "seen-current", "seen-order", "seen-zero", "seen-torfield", "seen-limited", "seen-hagenow", "seen-circuit",
                   "seen-asymmetric", "forces", "critical", "integrals", "separatrix", "bounds", "seen-bounds", "psivals", "mask")


def cases(tier, seed):
    n = 54 if tier == "quick" else 900
    return [dict(seed=seed, i=i) for i in range(n)]


def spec(rng, i):
    """A scenario as plain data"""
    s = dict(coils=[])
    base = [("P1L", 1.0, -1.1), ("P1U", 1.0, 1.1), ("P2L", 1.75, -0.6), ("P2U", 1.75, 0.6)]
    style = str(rng.choice(["coils", "shaped", "mixed", "circuit"]))
    for k, (lab, r, z) in enumerate(base):
        r, z = r + float(rng.uniform(-0.01, 0.01)), z + float(rng.uniform(-0.01, 0.01))
        kind = {"coils": "coil", "shaped": "shaped", "circuit": "coil", "mixed": ["filament", "coil", "multi", "shaped"][k]}[style]
        s["coils"].append(dict(label=lab, kind=kind, R=r, Z=z, turns=int(rng.integers(1, 5)), I=0.0, control=True))
    if style == "circuit":
        a, b = s["coils"][2:]
        d = dict(a, label="P3L", R=1.5, Z=-1.05), dict(b, label="P3U", R=1.5, Z=1.05 + 0.02)
        s["coils"][2] = dict(label="CL", kind="circuit", sub=[a, d[0]], mult=[1.0, float(rng.uniform(-0.3, 0.5))], I=0.0, control=True)
        s["coils"][3] = dict(label="CU", kind="circuit", sub=[b, d[1]], mult=[1.0, float(rng.uniform(-0.3, 0.5))], I=0.0, control=True)
    five = rng.random() < 0.5
    if five:
        s["coils"].append(dict(label="P5", kind="coil", R=1.45, Z=-1.15 + float(rng.uniform(-0.02, 0.02)), turns=int(rng.integers(1, 5)), I=0.0, control=True))
    if rng.random() < 0.4:
        z0, z1 = -1.3 + float(rng.uniform(-0.2, 0.2)), 1.3 + float(rng.uniform(-0.2, 0.2))
        s["coils"].append(dict(label="Sol", kind="solenoid", R=0.05, Z=z0, Z1=z1, n=int(rng.integers(20, 60)), I=float(rng.normal() * 1e3), control=False))
    if rng.random() < 0.5:
        s["coils"].append(dict(label="Err", kind="coil", R=2.2, Z=float(rng.uniform(-0.5, 0.5)), turns=1, I=float(rng.normal() * 5e2), control=False))
    s["style"], s["five"] = style, five
    s["dom"] = [0.1, 2.0, -1.0, 1.0]
    if rng.random() < 0.5:
        s["dom"] = [0.15 + float(rng.uniform(-0.04, 0.04)), 1.9 + float(rng.uniform(-0.1, 0.1)), -1.05 + float(rng.uniform(-0.05, 0.05)), 1.0 + float(rng.uniform(-0.02, 0.1))]
    s["n"] = [int(rng.choice([33, 65], p=[0.8, 0.2])), int(rng.choice([33, 65], p=[0.7, 0.3]))]
    s["order"] = int(rng.choice([2, 4]))
    s["bd"] = str(rng.choice(["free", "hagenow"]))
    if s["bd"] == "free" and max(s["n"]) > 33 and rng.random() < 0.8:
        s["n"] = [33, 33]
    s["profile"] = str(rng.choice(["paxis", "betap", "pf"]))
    s["Ip"], s["fvac"] = float(rng.uniform(1.2e5, 3e5)), float(rng.uniform(0.7, 2.5))
    s["paxis"], s["betap"] = float(rng.uniform(5e2, 1.5e3)), float(rng.uniform(0.05, 0.15))
    s["am"], s["an"], s["Raxis"] = float(rng.uniform(1.0, 1.3)), float(rng.uniform(1.3, 1.9)), float(rng.uniform(0.9, 1.1))
    xl = [1.1 + float(rng.uniform(-0.03, 0.03)), -0.6 + float(rng.uniform(-0.03, 0.03))]
    xu = [1.1 + float(rng.uniform(-0.03, 0.03)), 0.8 + float(rng.uniform(-0.03, 0.03))]
    s["xpoints"], s["isoflux"], s["psivals"] = [xl, xu], [], []
    s["isoflux"] = [[xl[0], xl[1], xl[0], -xl[1]]]
    s["gamma"] = 1e-12
    s["wall"], s["limited"] = None, False
    if rng.random() < 0.6:
        # some of them cut into the plasma
        r0, r1 = float(rng.uniform(0.35, 0.9)), float(rng.uniform(1.35, 1.75))
        s["wall"] = [[r0, r0, 1.3, r1, r1, 1.25], [-0.9, 0.9, 0.9, 0.3, -0.35, -0.9]]
        s["limited"] = bool(rng.random() < 0.8)
    s["bounds"] = False
    for c in s["coils"]:
        c["lim"] = [-float(rng.uniform(5e3, 1e5)), float(rng.uniform(5e3, 1e5))]
    s["psi0"] = 1.0
    return s


def transform(s, t):
    """The transformed scenario, from the transformation t"""
    s = copy.deepcopy(s)
    lam, mu, mz = t["lam"], t["mu"], -1.0 if t["mirror"] else 1.0

    def coil(c):
        c["R"], c["Z"] = c["R"] * lam, c["Z"] * lam * mz
        if c["kind"] == "solenoid":
            c["Z1"] = c["Z1"] * lam * mz
            c["Z"], c["Z1"] = min(c["Z"], c["Z1"]), max(c["Z"], c["Z1"])
        c["I"] *= mu
        c["w"] = 0.04 * lam
        c["mz"] = mz

    for c in s["coils"]:
        if c["kind"] == "circuit":
            for d in c["sub"]:
                coil(d)
            c["I"] *= mu
        else:
            coil(c)
    d = s["dom"]
    s["dom"] = [lam * d[0], lam * d[1]] + ([lam * d[2], lam * d[3]] if mz > 0 else [-lam * d[3], -lam * d[2]])
    s["Ip"] *= mu
    s["fvac"] *= abs(mu) * t["tor"]
    s["paxis"] *= mu**2 / lam**2
    s["Raxis"] *= lam
    s["xpoints"] = [[r * lam, z * lam * mz] for r, z in s["xpoints"]]
    s["isoflux"] = [[a * lam, b * lam * mz, c * lam, e * lam * mz] for a, b, c, e in s["isoflux"]]
    s["psivals"] = [[a * lam, b * lam * mz, p * lam * mu] for a, b, p in s["psivals"]]
    s["gamma"] /= lam
    if s["wall"]:
        s["wall"] = [[r * lam for r in s["wall"][0]], [z * lam * mz for z in s["wall"][1]]]
        if t["wallrev"]:
            s["wall"] = [w[::-1] for w in s["wall"]]
    s["psi0"] *= lam * mu
    s["pp"], s["ffp"] = s.get("pp", 1.0) * mu / lam**3, s.get("ffp", 1.0) * mu / lam
    for c in s["coils"]:
        c["lim"] = sorted(v * mu for v in c["lim"])
    if t["perm"] is not None:
        s["coils"] = [s["coils"][k] for k in t["perm"]]
    for c in s["coils"]:
        c["old"] = c["label"]
        c["label"] = t["names"].get(c["label"], c["label"])
    for k, (r, z, pos) in enumerate(t["zero"]):
        s["coils"].insert(pos, dict(label="none%d" % k, old=None, kind=["coil", "shaped", "circuit", "multi"][k % 4], R=r * lam, Z=z * lam, turns=3, I=0.0, control=False, lim=[-1.0, 2.0], w=0.04 * lam, mz=1.0,
                                    sub=[dict(label="n%d" % k, kind="coil", R=r * lam, Z=z * lam, turns=2, I=0.0, control=False)], mult=[1.0]))
    return s


def make_coil(c):
    R, Z, w, mz = c["R"], c["Z"], c.get("w", 0.04), c.get("mz", 1.0)
    if c["kind"] == "coil":
        return Coil(R, Z, current=c["I"], turns=c["turns"], control=c["control"])
    if c["kind"] == "shaped":
        pts = [(R - w, Z - w * mz), (R - w, Z + w * mz), (R + w, Z + 0.8 * w * mz), (R + w, Z - w * mz)]
        return ShapedCoil(pts, current=c["I"], turns=c["turns"], control=c["control"])
    if c["kind"] == "filament":
        return FilamentCoil([R - w, R + w, R], [Z, Z, Z + w * mz], current=c["I"], turns=c["turns"], control=c["control"])
    if c["kind"] == "multi":
        return MultiCoil([R, R + w], [Z, Z + 0.5 * w * mz], current=c["I"], turns=c["turns"], control=c["control"])
    if c["kind"] == "solenoid":
        return Solenoid(R, c["Z"], c["Z1"], c["n"], current=c["I"], control=c["control"])
    raise ValueError(c["kind"])


def build(s):
    coils = []
    for c in s["coils"]:
        if c["kind"] == "circuit":
            coils.append((c["label"], Circuit([(d["label"], make_coil(d), m) for d, m in zip(c["sub"], c["mult"])], current=c["I"], control=c["control"])))
        else:
            coils.append((c["label"], make_coil(c)))
    tok = Machine(coils, wall=Wall(*s["wall"]) if s["wall"] else None)
    d = s["dom"]
    eq = scen.build_eq(tok, nx=s["n"][0], ny=s["n"][1], Rmin=d[0], Rmax=d[1], Zmin=d[2], Zmax=d[3], bd=s["bd"], order=s["order"])
    # initial flux: own, so that it scales
    x, y = (eq.R - d[0]) / (d[1] - d[0]), (eq.Z - d[2]) / (d[3] - d[2])
    eq._updatePlasmaPsi(s["psi0"] * np.exp(-((x - 0.5) ** 2 + (y - 0.5) ** 2) / 0.16) * (x > 1e-9) * (x < 1 - 1e-9) * (y > 1e-9) * (y < 1 - 1e-9))
    if s["profile"] == "paxis":
        prof = jtor.ConstrainPaxisIp(eq, s["paxis"], s["Ip"], s["fvac"], alpha_m=s["am"], alpha_n=s["an"], Raxis=s["Raxis"])
    elif s["profile"] == "betap":
        prof = jtor.ConstrainBetapIp(eq, s["betap"], s["Ip"], s["fvac"], alpha_m=s["am"], alpha_n=s["an"], Raxis=s["Raxis"])
    else:
        a, b, am, an = 1.2e4 * s.get("pp", 1.0), 0.35 * s.get("ffp", 1.0), s["am"], s["an"]
        prof = jtor.ProfilesPprimeFfprime(lambda pn: a * (1.0 - np.clip(pn, 0.0, 1.0) ** am) ** an, lambda pn: b * (1.0 - np.clip(pn, 0.0, 1.0) ** am) ** an, s["fvac"])
    con = control.constrain(xpoints=[tuple(x) for x in s["xpoints"]], isoflux=[tuple(x) for x in s["isoflux"]], psivals=[tuple(x) for x in s["psivals"]], gamma=s["gamma"],
                            **({"current_lims": [tuple(c["lim"]) for c in s["coils"]]} if s["bounds"] else {}))
    return eq, prof, con


class Pair:
    def __init__(self, m, s, t, tol):
        self.m, self.t, self.tol = m, t, tol
        self.exact = t["lam"] == 1.0 and abs(t["mu"]) == 1.0
        self.sa, self.sb = s, transform(s, t)
        self.a, self.b = build(self.sa), build(self.sb)
        self.info = dict(style=s["style"], n=s["n"], profile=s["profile"], order=s["order"], bd=s["bd"], limited=s["limited"],
                         t={k: v for k, v in t.items() if k in ("lam", "mu", "mirror", "tor")}, perm=t["perm"] is not None, zero=len(t["zero"]), isoflux=len(s["isoflux"]), bounds=bool(s["bounds"]))

    def grid(self, f):
        """An array on the grid of a, on that of b"""
        return f[:, ::-1] if self.t["mirror"] else f

    def same(self, a, b, rule, lam=0, mu=0, factor=1.0, tol=None, scale=None, **info):
        """b is a times powers of the factors"""
        k = self.t["lam"] ** lam * self.t["mu"] ** mu * factor
        a, b = np.asarray(a, float) * k, np.asarray(b, float)
        scale = np.max(np.abs(a)) if scale is None else abs(scale * k)
        return self.m.close(b, a, tol or self.tol, rule, scale=max(scale, 1e-300), **dict(self.info, **info))

    def point(self, r, z):
        return r * self.t["lam"], z * self.t["lam"] * (-1 if self.t["mirror"] else 1)

    def currents(self, eq, s):
        new = {}
        for c in s["coils"]:
            k = c.get("old", c["label"])
            if k is not None:
                new[k] = float(eq.tokamak[c["label"]].current)
        return np.array([new[k] for k in sorted(new)])

    def fields(self, rng, rule):
        ea, eb = self.a[0], self.b[0]
        d = self.sa["dom"]
        r, z = rng.uniform(d[0] + 0.2, min(d[1], 1.9) - 0.2, 6), rng.uniform(d[2] + 0.2, d[3] - 0.2, 6)
        where = [(c["R"], c["Z"]) for e in self.sa["coils"] for c in e.get("sub", [e])]
        far = np.min([np.hypot(r - a, z - b) for a, b in where], axis=0) > 0.3
        r, z = r[far], z[far]
        if len(r) == 0:
            return
        R, Z = self.point(r, z)
        sg = -1.0 if self.t["mirror"] else 1.0
        bp = np.max(ea.Bpol(r, z))
        self.same(ea.Br(r, z), eb.Br(R, Z), rule, -1, 1, sg, scale=bp, what="Br")
        self.same(ea.Bz(r, z), eb.Bz(R, Z), rule, -1, 1, scale=bp, what="Bz")
        self.same(ea.psiRZ(r, z), eb.psiRZ(R, Z), rule, 1, 1, what="psiRZ")
        if rule != "vacuum":
            self.same(ea.Btor(r, z), eb.Btor(R, Z), rule, -1, 0, abs(self.t["mu"]) * self.t["tor"], tol=10 * self.tol, what="Btor")


def transformation(rng, s, strong):
    t = dict(lam=1.0, mu=1.0, mirror=False, tor=1.0, perm=None, names={}, zero=[], wallrev=False)
    t["mirror"] = bool(rng.random() < 0.5)
    t["mu"] = float(rng.choice([1.0, -1.0]))
    t["tor"] = float(rng.choice([1.0, -1.0]))
    if strong:
        if rng.random() < 0.6:
            t["lam"] = float(rng.choice([0.4, 0.5, 1.7, 2.0, 3.0]))
        if rng.random() < 0.6:
            t["mu"] *= float(rng.choice([0.5, 0.7, 1.9, 4.0]))
    n = len(s["coils"])
    if rng.random() < 0.6:
        t["perm"] = [int(k) for k in rng.permutation(n)]
        labs = [c["label"] for c in s["coils"]]
        if rng.random() < 0.5:
            t["names"] = {a: labs[int(k)] for a, k in zip(labs, rng.permutation(n))}
        else:
            t["names"] = {a: "%s%d" % (str(rng.choice(["x", "A", "coil ", "Z"])), k) for k, a in enumerate(labs)}
    if rng.random() < 0.5:
        for k in range(int(rng.integers(1, 4))):
            t["zero"].append((float(rng.choice([0.04, 2.3])), float(rng.uniform(-1.3, 1.3)), int(rng.integers(0, n + 1))))
    t["wallrev"] = t["mirror"]
    return t


def run(case, m):
    rng = scen.rng_of(case["seed"], case["i"], 26)
    i = case["i"]
    s = spec(rng, i)
    strong = i % 3 == 0
    t = transformation(rng, s, strong)
    if t["mirror"]:
        # a mirrored polygon is cut into other triangles
        for c in [d for c in s["coils"] for d in c.get("sub", [c])]:
            c["kind"] = "filament" if c["kind"] == "shaped" else c["kind"]
    if t["lam"] != 1.0 and (s["bd"] == "hagenow" or not s["five"]):
        # more conditions than controls are weighed by their units; the von Hagenow boundary has a
        # length of its own
        if i % 2:
            t["lam"] = 1.0
        else:
            s["bd"] = "free"
            if not s["five"]:
                t["lam"] = 1.0
    s["psivals"] = []
    if i % 8 == 5:
        # flux values for control, only evaluated once
        s["psivals"] = [[1.4, 0.1, float(rng.uniform(0.01, 0.05))]]
        s["isoflux"] = []
    if i % 8 == 3:
        t["lam"], t["mu"] = 1.0, float(np.sign(t["mu"]))
        s["bounds"] = True
    exact = t["lam"] == 1.0 and abs(t["mu"]) == 1.0
    p = Pair(m, s, t, 1e-7 if exact else 1e-4)
    m.state(tuple(sorted((k, str(v)) for k, v in p.info.items())), i)
    for name, yes in (("reverse", t["mu"] < 0), ("mirror", t["mirror"]), ("length", t["lam"] != 1), ("current", abs(t["mu"]) != 1), ("order", t["perm"] is not None), ("zero", bool(t["zero"])),
                      ("torfield", t["tor"] < 0), ("hagenow", s["bd"] == "hagenow"), ("circuit", s["style"] == "circuit"), ("asymmetric", s["dom"][2] != -s["dom"][3]), ("bounds", bool(s["bounds"]))):
        if yes:
            m.ev("seen-" + name)
    (ea, pa, ca), (eb, pb, cb) = p.a, p.b
    # the machine alone, with some currents
    for e, sp in ((ea, p.sa), (eb, p.sb)):
        for c in sp["coils"]:
            k = c.get("old", c["label"])
            if k is not None and c["control"]:
                e.tokamak[c["label"]].current = 1e4 * (1 + len(k) + sum(map(ord, k)) % 7) * (t["mu"] if e is eb else 1.0)
    p.fields(rng, "vacuum")
    p.same(p.grid(ea.psi()), eb.psi(), "vacuum", 1, 1, what="psi")
    for e, sp in ((ea, p.sa), (eb, p.sb)):
        for c in sp["coils"]:
            if c["control"]:
                e.tokamak[c["label"]].current = 0.0
    # control
    try:
        ca(ea), cb(eb)
    except (RuntimeError, ValueError) as e:
        raise Skip(str(e))
    ia, ib = p.currents(ea, p.sa), p.currents(eb, p.sb)
    p.same(ia, ib, "bounds" if s["bounds"] else "control", 0, 1, tol=2e-3 if s["bounds"] else 1e-3 if s["psivals"] else max(p.tol, 1e-6), what="currents")
    if s["psivals"] and s["five"]:
        for e, sp in ((ea, p.sa), (eb, p.sb)):
            for r, z, v in sp["psivals"]:
                m.close(float(e.psiRZ(r, z)), v, 1e-3, "psivals", **p.info)
    if s["psivals"] or s["bounds"]:
        return
    # a number of linear steps
    nsteps = 2 if exact else 1
    try:
        for _ in range(nsteps):
            ca(ea), ea.solve(pa)
    except (RuntimeError, ValueError) as e:
        raise Skip(str(e))
    for _ in range(nsteps):
        cb(eb), eb.solve(pb)
    k = masks(p, m)
    p.same(p.grid(ea.plasma_psi), eb.plasma_psi, "steps-psi", 1, 1, tol=1e-2 if k or not exact else p.tol, what="%d steps" % nsteps)
    if k == 0:
        p.same(p.grid(np.asarray(ea.Jtor)), eb.Jtor, "steps-jtor", -2, 1, tol=100 * p.tol if exact else 5e-2, what="Jtor")
    if s["wall"] and exact and k == 0:
        one_limited(p, m)
    # the whole thing
    kw = dict(rtol=1e-3, maxits=40, convergenceInfo=True, check_limited=s["limited"], limit_it=3 if s["limited"] else 0)
    if i % 2:
        kw["blend"] = 0.2
    out = [complete(x, kw) for x in (p.a, p.b)]
    if isinstance(out[0], Exception):
        raise Skip("not converged: %r" % (out[0],))
    na = out[0]
    ra, za, _ = ea.magneticAxis()
    if not (1.0 < ra < 1.5 and abs(za) < 0.3):
        raise Skip("unusual solution")
    if na > 30:
        raise Skip("hardly converges")
    # how much do small perturbations of the start change the outcome? (points at the plasma edge are in or out)
    failed = isinstance(out[1], Exception)
    diff = np.inf if failed else np.max(np.abs(p.grid(ea.psi()) * t["lam"] * t["mu"] - eb.psi())) / np.ptp(eb.psi())
    p.tol = 1e-5 if exact else 1e-2
    if failed or diff > 0.1 * p.tol or out[1] != na:
        sensitive = 0.0
        for eps in (1e-9, -1e-9, 1e-7) if exact else (1e-3, -2e-3):
            other = build(s)
            other[0]._updatePlasmaPsi(other[0].plasma_psi * (1 + eps))
            for _ in range(nsteps):
                other[2](other[0]), other[0].solve(other[1])
            k = complete(other, kw)
            d = np.inf if isinstance(k, Exception) else np.max(np.abs(other[0].psi() - ea.psi())) / np.ptp(ea.psi())
            sensitive = max(sensitive, d, 1.0 if k != na else 0.0)
        if sensitive > 0.1 * p.tol or not exact:
            raise Skip("sensitive to small perturbations")
    if not m.ok(not failed, "solve-iterations", what="only the transformed one fails", error=repr(out[1]), **p.info):
        return
    m.ok(abs(na - out[1]) <= (0 if exact else 3), "solve-iterations", iterations=(na, out[1]), **p.info)
    p.same(p.grid(ea.psi()), eb.psi(), "solve-psi", 1, 1, what="psi")
    p.same(p.grid(ea.plasma_psi), eb.plasma_psi, "solve-psi", 1, 1, what="plasma_psi")
    p.same(p.currents(ea, p.sa), p.currents(eb, p.sb), "solve-currents", 0, 1, tol=10 * p.tol)
    p.same(ea.plasmaCurrent(), eb.plasmaCurrent(), "solve-currents", 0, 1, tol=10 * p.tol, what="plasma")
    p.fields(rng, "field")
    m.ok(bool(ea.is_limited) == bool(eb.is_limited), "limited", got=(ea.is_limited, eb.is_limited), **p.info)
    if ea.is_limited:
        m.ev("seen-limited")
    span = ea.psi_bndry - ea.psi_axis
    p.same(ea.psi_axis, eb.psi_axis, "axis", 1, 1, scale=span, what="psi_axis")
    p.same(ea.psi_bndry, eb.psi_bndry, "boundary", 1, 1, scale=span, what="psi_bndry")
    sg = -1.0 if t["mirror"] else 1.0
    ra, za, _ = ea.magneticAxis()
    rb, zb, _ = eb.magneticAxis()
    loose = 1e-4 if exact else 2e-2
    p.same([ra, sg * za], [rb, zb], "axis", 1, tol=loose, what="location")
    critical_points(p, m, sg, span, loose)
    if ea.is_limited and not exact:
        return
    k = masks(p, m)
    diagnostics(p, m, rng, sg, exact and k == 0)


def one_limited(p, m):
    """A step in which the wall is looked at"""
    (ea, pa, ca), (eb, pb, cb) = p.a, p.b
    keep = [np.array(e.plasma_psi) for e in (ea, eb)], [p.currents(ea, p.sa), p.currents(eb, p.sb)]
    ea.check_limited = eb.check_limited = True
    try:
        ca(ea), ea.solve(pa)
    except Exception as e:
        m.skip("limited step: %s" % type(e).__name__)
    else:
        cb(eb), eb.solve(pb)
        m.ok(bool(ea.is_limited) == bool(eb.is_limited), "limited", what="step", got=(bool(ea.is_limited), bool(eb.is_limited)), **p.info)
        if ea.is_limited:
            m.ev("seen-limited")
            span = ea.psi_bndry - ea.psi_axis
            p.same(ea.psi_bndry, eb.psi_bndry, "boundary", 1, 1, scale=span, tol=1e-6, what="limited psi_bndry")
        if masks(p, m) == 0:
            p.same(p.grid(ea.plasma_psi), eb.plasma_psi, "steps-psi", 1, 1, tol=1e-6, what="limited step")
    ea.check_limited = eb.check_limited = False
    for e, f in zip((ea, eb), keep[0]):
        e._updatePlasmaPsi(f)
    for e, sp, cur in zip((ea, eb), (p.sa, p.sb), keep[1]):
        back = {c.get("old", c["label"]): c["label"] for c in sp["coils"] if c.get("old", c["label"]) is not None}
        for k, v in zip(sorted(back), cur):
            e.tokamak[back[k]].current = v


def complete(x, kw):
    """Number of iterations, or what went wrong"""
    try:
        with quiet():
            return len(freegs.solve(x[0], x[1], x[2], **kw)[0])
    except (RuntimeError, ValueError, TypeError, IndexError) as err:
        return err


def masks(p, m):
    """The same cells must be in the core. A saddle point may fall on a grid point, which is then neither inside nor outside.
    Returns the number of cells which differ"""
    ea, eb = p.a[0], p.b[0]
    if ea.mask is None or eb.mask is None:
        m.ok((ea.mask is None) == (eb.mask is None), "mask", **p.info)
        return 0
    A, B = p.grid(np.asarray(ea.mask)), np.asarray(eb.mask)
    diff = np.argwhere(A != B)
    exact = p.t["lam"] == 1.0 and abs(p.t["mu"]) == 1.0
    pn = p.grid((ea.psi() - ea.psi_axis) / (ea.psi_bndry - ea.psi_axis))
    far = [(int(i), int(j)) for i, j in diff if abs(pn[i, j] - 1) > (1e-6 if exact else 2e-2)]
    if exact or len(diff) > 0.05 * A.size:
        m.ok(not far, "mask", cells=far[:4], psin=[float(pn[c]) for c in far[:4]], **p.info)
    else:
        m.ev("mask")
    return len(diff)


def critical_points(p, m, sg, span, loose):
    from freegs import critical

    ea, eb = p.a[0], p.b[0]
    (oa, xa), (ob, xb) = [critical.find_critical(e.R, e.Z, e.psi(), p.exact) for e in (ea, eb)]
    m.ok(len(oa) > 0 and len(ob) > 0, "critical")
    for what, A, B in (("O", oa, ob), ("X", xa, xb)):
        # those which are well inside the domain, and near the plasma
        keep = [(r, z, v) for r, z, v in A if abs(v - ea.psi_axis) < 1.3 * abs(span) and 0.3 < r < 1.6 and abs(z) < 0.85]
        for r, z, v in keep[:2]:
            R, Z = p.point(r, z)
            near = min((np.hypot(q[0] - R, q[1] - Z) for q in B), default=np.inf)
            m.ok(near < loose * p.t["lam"] * 3, "critical", what=what, at=(r, z), nearest=float(near), **p.info)
        if what == "X" and keep and not ea.is_limited:
            R, Z = p.point(*xa[0][:2])
            second = abs(xa[1][2] - xa[0][2]) if len(xa) > 1 else np.inf
            if second > (1e-3 if p.exact else 5e-2) * abs(span):
                m.ok(np.hypot(xb[0][0] - R, xb[0][1] - Z) < loose * 3 * p.t["lam"], "xpoint", a=xa[0], b=xb[0], **p.info)


def diagnostics(p, m, rng, sg, exact):
    ea, eb = p.a[0], p.b[0]
    tol = 1e-4 if exact else 3e-2
    mu, lam = p.t["mu"], p.t["lam"]
    for name, a, b, k in (("poloidalBeta", 0, 0, 1.0), ("plasmaVolume", 3, 0, 1.0), ("pressure_ave", -2, 2, 1.0), ("w_th", 1, 2, 1.0), ("toroidalBeta", 0, 0, 1.0), ("internalInductance2", 0, 0, 1.0)):
        try:
            x = getattr(ea, name)()
        except Exception:
            m.skip("diagnostic %s not available" % name)
            continue
        rule = {"poloidalBeta": "beta", "toroidalBeta": "beta", "plasmaVolume": "volume"}.get(name, "integrals")
        p.same(x, getattr(eb, name)(), rule, a, b, k, tol=tol, what=name)
    pn = np.array([0.1, 0.35, 0.6, 0.85])
    # (not normalised to a common scale near the edge)
    p.same(ea.pressure(pn), eb.pressure(pn), "pressure", -2, 2, tol=10 * tol)
    p.same(np.abs(ea.fpol(pn)), np.abs(eb.fpol(pn)), "pressure", 0, 0, abs(mu), tol=10 * tol, what="f")
    if not ea.is_limited:
        try:
            qa = np.asarray(ea.q(pn))
        except Exception:
            qa = None
        if qa is not None and np.all(np.isfinite(qa)):
            p.same(np.abs(qa), np.abs(np.asarray(eb.q(pn))), "q", tol=10 * tol)
        try:
            A = np.asarray(ea.separatrix(90))
        except Exception:
            A = None
        if A is not None and len(A):
            B = np.asarray(eb.separatrix(90))
            p.same([A[:, 0].min(), A[:, 0].max(), np.ptp(A[:, 1])], [B[:, 0].min(), B[:, 0].max(), np.ptp(B[:, 1])], "separatrix", 1, tol=1e-2 if exact else 5e-2)
        for name, scaled in (("elongation", 0), ("minorRadius", 1), ("aspectRatio", 0), ("triangularity", 0)):
            x, y = getattr(ea, name)(), getattr(eb, name)()
            p.same(x, y, "shape", scaled, tol=2e-2 if exact else 0.1, scale=max(1.0, abs(x)) if name == "triangularity" else None, what=name)
        up, low = ("elongationUpper", "elongationLower") if p.t["mirror"] else ("elongationLower", "elongationUpper")
        p.same(ea.elongationLower(), getattr(eb, up)(), "shape", tol=3e-2 if exact else 0.1, what="lower")
        dl, du = ea.triangularityLower(), eb.triangularityUpper() if p.t["mirror"] else eb.triangularityLower()
        p.same(dl, du, "shape", tol=4e-2 if exact else 0.15, scale=1.0, what="triangularityLower")
    if p.exact:
        fa, fb = ea.getForces(), eb.getForces()
        for c in p.sb["coils"]:
            if c.get("old") is None or c["kind"] != "coil":
                continue
            x, y = np.asarray(fa[c["old"]], float), np.asarray(fb[c["label"]], float)
            p.same(x * [1, sg], y, "forces", tol=1e-4, scale=np.max(np.abs(x)) + 1.0, what=c["old"])
