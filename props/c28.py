"""C28: moving and changing coils"""
import copy

import numpy as np
import shapely
import matplotlib.pyplot as plt

from freegs import optimise
from freegs.coil import AreaCurrentLimit
from freegs.filament_coil import FilamentCoil
from freegs.machine import Circuit, Coil, Machine, Solenoid
from freegs.multi_coil import MultiCoil
from freegs.pre_calc_coil import PreCalcCoil
from freegs.shaped_coil import ShapedCoil
from rv import oracle, scen

TITLE = "Moving and changing coils"
RULE = (
    "Coils of every kind which can be moved, alone, in circuits and in machines, under random histories of changes of position, current, turns, control, polarity, mirroring and area, in part through the controls of "
    "the optimiser. After each change: against a coil built that way from the start, and against the filaments kept by the monitor: flux, field, response, position, outline drawn, area, fraction within a region, stored form. "
    "There and back, copies, and the lists given at construction. Distinct by (kind, context, history)."
)
KINDS = ("coil", "shaped", "filament", "filament-shape", "filament-populated", "multi", "multi-block", "solenoid")
REQUIRED_EVENTS = ("flux", "field", "response", "filaments", "position", "outline", "area", "region", "stored", "restored", "back", "copy", "given", "circuit", "machine", "seen-moved-twice", "seen-mirror", "seen-optimiser",
                   "refused", "seen-precalc") + tuple("seen-" + k for k in KINDS)


def cases(tier, seed):
    n = 700 if tier == "quick" else 6000
    return [dict(seed=seed, i=i) for i in range(n)] + [dict(kind="precalc", key="precalc", seed=seed, i=i) for i in range(n // 12)]


# ---- plain description of a coil

def describe(rng, kind):
    R, Z = float(rng.uniform(0.5, 1.8)), float(rng.uniform(-1.0, 1.0))
    d = dict(kind=kind, R=R, Z=Z, I=float(rng.normal() * 1e5), turns=int(rng.integers(1, 20)), control=bool(rng.random() < 0.5), area=None)
    if kind == "coil" and rng.random() < 0.5 or kind.startswith("multi") and rng.random() < 0.3:
        d["area"] = float(rng.uniform(0.001, 0.1))
    if kind in ("shaped", "filament-shape", "filament-populated"):
        n = int(rng.integers(3, 7))
        pts = scen.star_polygon(rng, n, R, Z, float(rng.uniform(0.03, 0.12)), concave=bool(rng.random() < 0.5))
        r, z = np.mean([p[0] for p in pts]), np.mean([p[1] for p in pts])
        d["off"] = [(float(a - r), float(b - z)) for a, b in pts]
        d["npoints"] = int(rng.choice([1, 3, 6]))
    if kind in ("filament", "filament-shape"):
        n = int(rng.integers(2, 9))
        r, z = rng.uniform(-0.06, 0.06, n), rng.uniform(-0.06, 0.06, n)
        if kind == "filament":
            r, z = r - 0.5 * (r.min() + r.max()), z - 0.5 * (z.min() + z.max())
        d["fil"] = [(float(a), float(b)) for a, b in zip(r, z)]
    if kind == "filament-populated":
        d["nfil"] = int(rng.integers(3, 12))
    if kind == "multi-block":
        n = int(rng.integers(2, 8))
        r, z = rng.uniform(-0.06, 0.06, n), rng.uniform(-0.06, 0.06, n)
        d["fil"] = [(float(a), float(b)) for a, b in zip(r - r.mean(), z - z.mean())]
        d["turns"] = n
    if kind.startswith("multi"):
        d["mirror"] = bool(rng.random() < 0.5)
        d["polarity"] = [float(rng.choice([1, -1])), float(rng.choice([1, -1]))]
    if kind == "solenoid":
        z = sorted(rng.uniform(-1.2, 1.2, 2))
        d.update(Z0=float(z[0]), Z1=float(z[1]), n=int(rng.integers(2, 30)))
    return d


def build(d, keep=None):
    kw = dict(current=d["I"], control=d["control"])
    k = d["kind"]
    R, Z = d["R"], d["Z"]
    keep = {} if keep is None else keep
    if k == "coil":
        return Coil(R, Z, turns=d["turns"], **kw, **({"area": d["area"]} if d["area"] else {}))
    if k == "shaped":
        keep["shape"] = [(R + a, Z + b) for a, b in d["off"]]
        return ShapedCoil(keep["shape"], turns=d["turns"], npoints=d["npoints"], **kw)
    if k.startswith("filament"):
        if "off" in d:
            keep["shape"] = [(R + a, Z + b) for a, b in d["off"]]
        if "fil" in d:
            keep["R"], keep["Z"] = [R + a for a, b in d["fil"]], [Z + b for a, b in d["fil"]]
            return FilamentCoil(keep["R"], keep["Z"], shape=keep.get("shape"), turns=d["turns"], **kw)
        return FilamentCoil(shape=keep["shape"], Nfils=d["nfil"], turns=d["turns"], **kw)
    if k.startswith("multi"):
        kw.update(mirror=d["mirror"], polarity=list(d["polarity"]))
        if d["area"]:
            kw["area"] = d["area"]
        if k == "multi":
            return MultiCoil(R, Z, turns=d["turns"], **kw)
        keep["R"], keep["Z"] = [R + a for a, b in d["fil"]], [Z + b for a, b in d["fil"]]
        return MultiCoil(keep["R"], keep["Z"], **kw)
    if k == "solenoid":
        return Solenoid(R, d["Z0"], d["Z1"], d["n"], **kw)


def filaments(d):
    """(R, Z, total current) which it must be equivalent to, or None if that is up to the code"""
    k, R, Z, I = d["kind"], d["R"], d["Z"], d["I"]
    if k == "coil":
        return [(R, Z, I * d["turns"])]
    if k in ("filament", "filament-shape"):
        return [(R + a, Z + b, I * d["turns"] / len(d["fil"])) for a, b in d["fil"]]
    if k.startswith("multi"):
        f = []
        for a, b in d.get("fil", [(0.0, 0.0)]):
            c = I * d["turns"] / len(d.get("fil", [0]))
            f.append((R + a, Z + b, c * d["polarity"][0]))
            if d["mirror"]:
                f.append((R + a, -Z - b, c * d["polarity"][1]))
        return f
    if k == "solenoid":
        return [(R, float(z), I) for z in np.linspace(d["Z0"], d["Z1"], d["n"])]
    return None


def where(d):
    """Centres, to stay away from"""
    if d["kind"] == "solenoid":
        return [(d["R"], z) for z in np.linspace(d["Z0"], d["Z1"], 12)]
    return [(d["R"], d["Z"]), (d["R"], -d["Z"])]


def far_points(rng, ds, n=5):
    c = [p for d in ds for p in where(d)]
    out = []
    while len(out) < n:
        p = float(rng.uniform(0.15, 3.0)), float(rng.uniform(-2.0, 2.0))
        if min(np.hypot(p[0] - a, p[1] - b) for a, b in c) > 0.35:
            out.append(p)
    return np.array([p[0] for p in out]), np.array([p[1] for p in out])


def drawn(coil):
    """Corners of what is drawn of the coil"""
    fig = plt.figure()
    ax = fig.add_subplot(111)
    try:
        coil.plot(axis=ax)
        out = [q.get_patch_transform().transform(q.get_path().vertices) for q in ax.patches] + [np.column_stack(l.get_data()) for l in ax.lines]
    finally:
        plt.close(fig)
    return out


def fingerprint(coil, d, r, z):
    out = {"psi": coil.psi(r, z), "Br": coil.Br(r, z), "Bz": coil.Bz(r, z), "cpsi": coil.controlPsi(r, z), "cBr": coil.controlBr(r, z), "cBz": coil.controlBz(r, z),
           "greens": coil.calcPsiFromGreens(coil.createPsiGreens(r, z))}
    return {k: np.asarray(v, float) * np.ones(len(r)) for k, v in out.items()}


def compare(m, coil, d, rng, info, kept=None):
    twin = build(d)
    r, z = far_points(rng, [d])
    # some of the points are those of the last time, if they are still away from the coil
    last = None if kept is None else kept.get("points")
    if last is not None and min(np.hypot(last[0] - a_, last[1] - b_).min() for a_, b_ in where(d)) > 0.35:
        r, z = last
    if kept is not None:
        kept["points"] = (r, z)
    a, b = fingerprint(coil, d, r, z), fingerprint(twin, d, r, z)
    tol = 1e-7
    for rule, keys in (("flux", ("psi", "greens")), ("field", ("Br", "Bz")), ("response", ("cpsi", "cBr", "cBz"))):
        for k in keys:
            scale = max(np.max(np.abs(b[k])), 1e-3 * np.max(np.abs(b["cpsi"])) if rule == "response" else 1e-9)
            m.close(a[k], b[k], tol, rule, scale=scale, what=k, **info)
    f = filaments(d)
    if f is not None:
        m.close(a["psi"], oracle.filaments_psi(f, r, z), 1e-8, "filaments", scale=max(np.max(np.abs(b["psi"])), 1e-9), **info)
    if d["kind"] != "solenoid":
        m.ok(abs(coil.R - d["R"]) < 1e-9 and abs(coil.Z - d["Z"]) < 1e-9 and coil.turns == d["turns"], "position", got=(coil.R, coil.Z, coil.turns), want=(d["R"], d["Z"], d["turns"]), **info)
    else:
        m.ok((coil.Rs, coil.Zsmin, coil.Zsmax, coil.Ns) == (d["R"], d["Z0"], d["Z1"], d["n"]), "position", **info)
    m.ok(coil.current == d["I"] and bool(coil.control) == d["control"], "position", what="current", got=(coil.current, coil.control), **info)
    if d["kind"] != "solenoid":
        if d["I"] != 0:
            m.close(coil.area, twin.area, 1e-9, "area", **info)
            want = d["area"] or (abs(oracle.shoelace([q[0] for q in d["off"]], [q[1] for q in d["off"]])) if "off" in d else abs(d["I"] * d["turns"]) / 3.5e9 if d["kind"] in ("coil", "multi", "multi-block") else None)
            if want is not None:
                m.close(coil.area, want, 1e-9, "area", what="own", **info)
    # what part of it is in a region through its middle
    s = float(rng.uniform(0.02, 0.08))
    box = shapely.box(d["R"] - s, d["Z"] - s * 0.7, d["R"] + 0.3, d["Z"] + 0.31)
    edge = box.exterior
    fil = f or []
    if d["kind"] == "shaped" or (f is not None and min(edge.distance(shapely.Point(q[0], q[1])) for q in fil) > 1e-6):
        m.close(coil.inShape(box), twin.inShape(box), 1e-6, "region", scale=1.0, **info)
        if d["kind"] == "shaped":
            poly = shapely.Polygon([(d["R"] + a_, d["Z"] + b_) for a_, b_ in d["off"]])
            m.close(coil.inShape(box), box.intersection(poly).area / poly.area, 1e-6, "region", scale=1.0, what="own", **info)
    pa, pb = drawn(coil), drawn(twin)
    if m.ok(len(pa) == len(pb) and all(x.shape == y.shape for x, y in zip(pa, pb)), "outline", what="number", **info) and pa:
        m.ok(all(np.allclose(x, y, atol=1e-8) for x, y in zip(pa, pb)), "outline", got=pa[0][:3].tolist(), want=pb[0][:3].tolist(), **info)
    if "off" in d:
        m.ok(np.allclose(np.asarray(coil.shape), [(d["R"] + a_, d["Z"] + b_) for a_, b_ in d["off"]], atol=1e-9), "outline", what="shape", **info)
    if d["kind"] in ("coil", "shaped", "multi", "multi-block", "solenoid"):
        x, y = coil.to_numpy_array(), twin.to_numpy_array()
        for name in x.dtype.names:
            m.ok(np.allclose(np.asarray(x[name], float), np.asarray(y[name], float), atol=1e-9), "stored", field=name, got=str(x[name])[:60], want=str(y[name])[:60], **info)
        if d["kind"] != "multi-block" or d["turns"] == len(d["fil"]):
            back = type(coil).from_numpy_array(x)
            c = fingerprint(back, d, r, z)
            m.ok(all(np.allclose(c[k], b[k], rtol=0, atol=1e-7 * (np.max(np.abs(b[k])) + 1e-30)) for k in ("cpsi", "psi", "Br")), "restored", **info)


def change(rng, coil, d, m, handle=None):
    """One change, applied to the coil and the description. Returns its name"""
    ops = ["R", "Z", "R", "Z", "current", "turns", "control"]
    if d["kind"] == "solenoid":
        ops = ["Rs", "Zs", "Ns", "current", "control"]
    if d["kind"].startswith("multi"):
        ops += ["mirror", "polarity"]
    if d["kind"] in ("multi-block", "filament-populated"):
        ops = [o for o in ops if o != "turns"]
    if d["kind"] in ("coil", "multi"):
        ops.append("area")
    op = str(rng.choice(ops))
    if op in "RZ":
        v = float(rng.uniform(0.4, 2.0)) if op == "R" else float(rng.uniform(-1.2, 1.2))
        if rng.random() < 0.2:
            v = d[op] + float(rng.choice([1e-3, -1e-3, 0.0]))
        if rng.random() < 0.1:
            v = float(round(v)) if op == "Z" else 1.0
            v = int(v) if rng.random() < 0.5 else v
        if handle is not None and rng.random() < 0.5:
            eq, label = handle
            c = (optimise.CoilRadius if op == "R" else optimise.CoilHeight)(label)
            c.set(eq, v)
            m.ok(abs(c.get(eq) - v) < 1e-12, "position", what="control")
            m.ev("seen-optimiser")
        else:
            setattr(coil, op, v)
        d[op] = v
    elif op == "Rs":
        coil.Rs = d["R"] = float(rng.uniform(0.1, 0.6))
    elif op == "Zs":
        z = sorted(rng.uniform(-1.2, 1.2, 2))
        coil.Zsmin, coil.Zsmax = d["Z0"], d["Z1"] = float(z[0]), float(z[1])
    elif op == "Ns":
        coil.Ns = d["n"] = int(rng.integers(1, 30))
    elif op == "current":
        coil.current = d["I"] = float(rng.normal() * 10 ** rng.uniform(2, 6)) if rng.random() < 0.9 else 0.0
    elif op == "turns":
        coil.turns = d["turns"] = int(rng.integers(1, 50))
    elif op == "control":
        coil.control = d["control"] = not d["control"]
    elif op == "mirror":
        coil.mirror = d["mirror"] = not d["mirror"]
    elif op == "polarity":
        d["polarity"] = [float(rng.choice([1, -1])), float(rng.choice([1, -1]))]
        coil.polarity = list(d["polarity"])
    elif op == "area":
        if rng.random() < 0.5:
            coil.area = d["area"] = float(rng.uniform(1e-3, 0.1))
        else:
            coil.area, d["area"] = AreaCurrentLimit(), None
    return op


def precalc(case, m):
    """Coils given as maps: R, Z and outline are absolute positions; the field moves along"""
    rng = scen.rng_of(case["seed"], case["i"], 28, 7)
    R, Z, I, turns = float(rng.uniform(1.0, 1.5)), float(rng.uniform(-0.5, 0.5)), float(rng.normal() * 1e4), int(rng.integers(1, 20))
    nv = int(rng.integers(3, 8))
    shape = scen.star_polygon(rng, nv, R, Z, 0.1)
    if rng.random() < 0.5:
        shape = shape[::-1]
    given = list(shape)
    c0 = (sum(p[0] for p in shape) / nv, sum(p[1] for p in shape) / nv)
    r1, z1 = np.linspace(0.2, 2.4, 111), np.linspace(-2.0, 2.0, 201)
    Rg, Zg = np.meshgrid(r1, z1)
    unit = [(c0[0], c0[1], 1.0)]
    br, bz = oracle.filaments_B(unit, Rg + 1e-7, Zg + 1e-7)
    ps = oracle.filaments_psi(unit, Rg + 1e-7, Zg + 1e-7)
    coil = PreCalcCoil(shape, Rg, Zg, np.clip(br, -1e-4, 1e-4), np.clip(bz, -1e-4, 1e-4), ps, current=I, turns=turns)
    in_machine = bool(rng.random() < 0.5)
    holder = Machine([("P", coil)]) if in_machine else None
    coil = holder["P"] if in_machine else coil
    dz, control = 0.0, True
    history = []

    def judge(rule="flux", dr=0.0):
        # away from the coil and inside of the map
        a = rng.uniform(0, 2 * np.pi, 12)
        rho = rng.uniform(0.35, 0.6, 12)
        r, z = c0[0] + rho * np.cos(a) * 0.9, c0[1] + dz + rho * np.sin(a)
        src = [(c0[0] + dr, c0[1] + dz, I * turns)]
        src1 = [(c0[0] + dr, c0[1] + dz, turns)]
        info = dict(history=history, machine=in_machine)
        for obj in ([coil, holder] if in_machine else [coil]):
            w = oracle.filaments_psi(src, r, z)
            m.close(obj.psi(r, z), w, 1e-4, rule, scale=np.max(np.abs(w)) + 1e-12, **info)
            wr, wz = oracle.filaments_B(src, r, z)
            sc = np.max(np.hypot(wr, wz)) + 1e-12
            m.close(obj.Br(r, z), wr, 1e-4, rule, scale=sc, what="Br", **info)
            m.close(obj.Bz(r, z), wz, 1e-4, rule, scale=sc, what="Bz", **info)
        w = oracle.filaments_psi(src1, r, z)
        m.close(coil.controlPsi(r, z), w, 1e-4, rule, scale=np.max(np.abs(w)), what="response", **info)
        m.close(coil.calcPsiFromGreens(coil.createPsiGreens(r, z)), w * I, 1e-4, rule, scale=np.max(np.abs(w * I)) + 1e-12, what="greens", **info)
        m.close([coil.R, coil.Z], [c0[0] + dr, c0[1] + dz], 1e-12, "position", scale=1.0, **info)
        m.close(np.array(coil.shape, float), np.array(shape) + [dr, dz], 1e-12, "outline", scale=1.0, **info)
        m.close(coil.area, abs(oracle.shoelace(*zip(*shape))), 1e-9, "area", **info)

    m.ev("seen-precalc")
    judge()
    for _ in range(int(rng.integers(1, 5))):
        op = str(rng.choice(["Z", "Z", "current", "turns"]))
        history.append(op)
        if op == "Z":
            dz = float(rng.uniform(-0.5, 0.5)) if rng.random() < 0.7 else dz + 1e-3
            coil.Z = c0[1] + dz
        elif op == "current":
            coil.current = I = float(rng.normal() * 1e4)
        else:
            coil.turns = turns = int(rng.integers(1, 20))
        judge()
    m.ok(given == shape, "given", what="precalc")
    before = coil.psi(0.8, c0[1] + dz)
    m.expect_raises(lambda: setattr(coil, "area", 0.1), ValueError, "refused")
    m.ok(coil.psi(0.8, c0[1] + dz) == before, "refused", what="precalc state")
    m.state("precalc", tuple(history), in_machine)
    if rng.random() < 0.3 and I * turns != 0:
        dr = float(rng.choice([-1, 1])) * float(rng.uniform(0.05, 0.15))
        try:
            coil.R = c0[0] + dr
        except (ValueError, AttributeError, NotImplementedError):
            m.ev("refused")
            return
        judge("precalc-moved-R", dr)


def run(case, m):
    if case.get("kind") == "precalc":
        return precalc(case, m)
    rng = scen.rng_of(case["seed"], case["i"], 28)
    kind = KINDS[case["i"] % len(KINDS)]
    m.ev("seen-" + kind)
    d = describe(rng, kind)
    given = {}
    coil = build(d, given)
    first = copy.deepcopy(given)
    context = str(rng.choice(["alone", "circuit", "machine"]))
    others = [describe(rng, str(rng.choice(KINDS))) for _ in range(2)]
    mult = [float(rng.choice([1.0, -1.0, 0.5, 2.0])) for _ in range(3)]
    handle = None
    holder = None
    if context == "circuit":
        built = [coil] + [build(o) for o in others]
        labels = ["a", "b", "c"]
        order = [int(k) for k in rng.permutation(3)]
        holder = Circuit([(labels[k], built[k], mult[k]) for k in order], current=float(rng.normal() * 1e4), control=True)
        for o, mu in zip([d] + others, mult):
            o["I"], o["control"] = holder.current * mu, True
        coil = holder["a"]
    elif context == "machine":
        built = [coil] + [build(o) for o in others]
        holder = Machine([(lab, c) for lab, c in zip("abc", built)])
        coil = holder["a"]

        class Eq:
            tokamak = holder

        handle = (Eq, "a")
    start, history = copy.deepcopy(d), []
    probe = far_points(rng, [d])
    f0 = fingerprint(coil, d, *probe)
    frozen = copy.deepcopy(coil)
    info = dict(kind=kind, context=context)
    kept = {}
    compare(m, coil, d, rng, dict(info, step=-1), kept)
    moved = 0
    for step in range(int(rng.integers(2, 6))):
        if d["kind"] in ("shaped", "filament", "filament-shape", "filament-populated") and rng.random() < 0.2:
            before = fingerprint(coil, d, *probe)
            m.expect_raises(lambda: setattr(coil, "area", 0.1), ValueError, "refused")
            after = fingerprint(coil, d, *probe)
            m.ok(all(np.array_equal(before[k], after[k]) for k in before), "refused", what="state", **info)
        if context == "circuit":
            # the circuit sets current and control
            op = None
            while op is None:
                keep_d, keep_rng = copy.deepcopy(d), rng
                if rng.random() < 0.25:
                    holder.current = float(rng.normal() * 1e4)
                    op = "circuit current"
                    for o, mu in zip([d] + others, mult):
                        o["I"] = holder.current * mu
                else:
                    op = change(rng, coil, d, m)
                    if op in ("current", "control"):
                        # (not through the circuit: put it back)
                        coil.current, coil.control = keep_d["I"], keep_d["control"]
                        d.update(I=keep_d["I"], control=keep_d["control"])
        else:
            op = change(rng, coil, d, m, handle)
        history.append(op)
        moved += op in ("R", "Z", "Rs", "Zs")
        info["history"] = list(history)
        compare(m, coil, d, rng, info, kept)
        if d.get("mirror"):
            m.ev("seen-mirror")
        if holder is not None:
            r, z = far_points(rng, [d] + others)
            fs = [fingerprint(build(o), o, r, z) for o in [d] + others]
            rule = context
            want = {k: sum(f[k] for f in fs) for k in ("psi", "Br", "Bz")}
            for k in want:
                scale = max(sum(np.max(np.abs(f[k])) for f in fs), 1e-9)
                m.close(np.asarray(getattr(holder, k)(r, z)), want[k], 1e-7, rule, scale=scale, what=k, **info)
            m.close(np.asarray(holder.calcPsiFromGreens(holder.createPsiGreens(r, z))), want["psi"], 1e-7, rule, scale=max(sum(np.max(np.abs(f["psi"])) for f in fs), 1e-9), what="greens", **info)
            if context == "circuit":
                for k in ("cpsi", "cBr", "cBz"):
                    w = sum(f[k] * mu for f, mu in zip(fs, mult))
                    m.close(np.asarray(getattr(holder, {"cpsi": "controlPsi", "cBr": "controlBr", "cBz": "controlBz"}[k])(r, z)), w, 1e-7, rule,
                            scale=max(sum(np.max(np.abs(f[k])) for f in fs), 1e-30), what=k, **info)
    if moved > 1:
        m.ev("seen-moved-twice")
    m.state(kind, context, tuple(history))
    # what was given has not been moved
    m.ok(given == first, "given", **info)
    # nor have copies
    f1 = fingerprint(frozen, start, *probe)
    m.ok(all(np.array_equal(f0[k], f1[k]) for k in f0), "copy", **info)
    # and back
    if kind == "solenoid":
        coil.Rs, coil.Zsmin, coil.Zsmax, coil.Ns = start["R"], start["Z0"], start["Z1"], start["n"]
    else:
        for op in ("R", "Z") if rng.random() < 0.5 else ("Z", "R"):
            setattr(coil, op, start[op])
        coil.turns = start["turns"]
    coil.current, coil.control = start["I"], start["control"]
    if kind.startswith("multi"):
        coil.mirror, coil.polarity = start["mirror"], list(start["polarity"])
    f2 = fingerprint(coil, start, *probe)
    for k in f0:
        m.close(f2[k], f0[k], 1e-8, "back", scale=max(np.max(np.abs(f0[k])), 1e-30), what=k, **info)
