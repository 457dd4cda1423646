"""C30: equality and printed form"""
import copy

import numpy as np

from freegs.coil import Coil
from freegs.filament_coil import FilamentCoil
from freegs.machine import Circuit, FluxLoopSensor, Machine, PoloidalFieldSensor, RogowskiSensor, Solenoid, Wall
from freegs.multi_coil import MultiCoil
from freegs.pre_calc_coil import PreCalcCoil
from freegs.shaped_coil import ShapedCoil
from rv import scen

TITLE = "Equality"
RULE = (
    "Coils of every kind, circuits, walls, sensors and machines are built from random plain descriptions; a second object is built from the same description, or from one in which a single "
    "parameter (position, current, turns, control, shape, filament, multiplier, label, order, wall point, presence) or the kind differs, or is changed to that through its interface. Oracle: equality of the descriptions. "
    "Comparisons with other kinds and foreign objects must answer. Printed forms are read back as Python. Distinct by (kind, what differs)."
)
KINDS = ("coil", "shaped", "filament", "filament-shape", "multi", "solenoid", "precalc", "circuit", "wall", "rogowski", "poloidal", "fluxloop", "machine")
REQUIRED_EVENTS = ("equal", "unequal", "opposite", "symmetric", "reflexive", "foreign", "printed", "changed", "changed-back", "copy", "unchanged", "order", "seen-wall-none", "seen-other-kind", "seen-longer") + tuple("seen-" + k for k in KINDS)


def cases(tier, seed):
    return [dict(seed=seed, i=i) for i in range(1300 if tier == "quick" else 13000)]


def num(rng, a, b):
    return round(float(rng.uniform(a, b)), 4)


def poly(rng, n):
    return [(round(r, 5), round(z, 5)) for r, z in scen.star_polygon(rng, n, num(rng, 0.6, 1.6), num(rng, -0.8, 0.8), 0.2)]


def describe(rng, kind):
    d = dict(kind=kind)
    if kind in ("coil", "shaped", "filament", "filament-shape", "multi", "precalc"):
        d.update(current=num(rng, -1e4, 1e4) if rng.random() < 0.8 else 0.0, turns=int(rng.integers(1, 20)), control=bool(rng.random() < 0.5))
    if kind == "coil":
        d.update(R=num(rng, 0.5, 2), Z=num(rng, -1, 1))
    elif kind == "shaped":
        d.update(shape=poly(rng, int(rng.integers(3, 7))), npoints=int(rng.choice([1, 3, 6])))
    elif kind in ("filament", "multi"):
        n = int(rng.integers(2, 6))
        d.update(Rf=[num(rng, 0.5, 1.5) for _ in range(n)], Zf=[num(rng, -1, 1) for _ in range(n)])
        if kind == "multi":
            d.update(mirror=bool(rng.random() < 0.5), polarity=[1.0, float(rng.choice([1, -1]))])
    elif kind == "filament-shape":
        d.update(shape=poly(rng, 4), nfils=int(rng.choice([4, 9])))
    elif kind == "precalc":
        d.update(shape=poly(rng, 4), amp=num(rng, 1, 2))
    elif kind == "solenoid":
        d.update(Rs=num(rng, 0.1, 0.5), Zsmin=num(rng, -1, -0.1), Zsmax=num(rng, 0.1, 1), Ns=int(rng.integers(2, 50)), current=num(rng, -1e4, 1e4) if rng.random() < 0.8 else 0.0, control=bool(rng.random() < 0.5))
    elif kind == "circuit":
        n = int(rng.integers(1, 4))
        d.update(coils=[(chr(97 + k), describe(rng, str(rng.choice(["coil", "coil", "shaped", "multi", "solenoid"]))), float(rng.choice([1.0, -1.0, 0.5, 2.0]))) for k in range(n)], current=num(rng, -1e4, 1e4) if rng.random() < 0.6 else 0.0, control=bool(rng.random() < 0.5))
        for _, c, mult in d["coils"]:
            c.update(current=d["current"] * mult, control=d["control"])
    elif kind in ("wall", "rogowski"):
        d.update(pts=poly(rng, int(rng.integers(4, 9))))
    elif kind in ("poloidal", "fluxloop"):
        d.update(R=num(rng, 0.5, 2), Z=num(rng, -1, 1))
        if kind == "poloidal":
            d.update(theta=num(rng, -3, 3))
    elif kind == "machine":
        n = int(rng.integers(1, 5))
        d.update(coils=[("P%d" % k, describe(rng, str(rng.choice(["coil", "shaped", "filament", "multi", "solenoid", "circuit"])))) for k in range(n)], wall=describe(rng, "wall") if rng.random() < 0.5 else None)
    return d


def maps(amp):
    r, z = np.linspace(0.1, 2, 8), np.linspace(-1, 1, 9)
    Rg, Zg = np.meshgrid(r, z)
    return Rg, Zg, amp * Zg, amp * Rg, amp * Rg * Zg


def build(d):
    k = d["kind"]
    kw = {q: d[q] for q in ("current", "turns", "control") if q in d}
    if k == "coil":
        return Coil(d["R"], d["Z"], **kw)
    if k == "shaped":
        return ShapedCoil(list(d["shape"]), npoints=d["npoints"], **kw)
    if k == "filament":
        return FilamentCoil(list(d["Rf"]), list(d["Zf"]), **kw)
    if k == "filament-shape":
        return FilamentCoil(shape=list(d["shape"]), Nfils=d["nfils"], **kw)
    if k == "multi":
        c = MultiCoil(list(d["Rf"]), list(d["Zf"]), mirror=d["mirror"], polarity=list(d["polarity"]), current=d["current"], control=d["control"])
        c.turns = d["turns"]  # (at construction: one for each filament)
        return c
    if k == "solenoid":
        return Solenoid(d["Rs"], d["Zsmin"], d["Zsmax"], d["Ns"], d["current"], d["control"])
    if k == "precalc":
        Rg, Zg, a, b, c = maps(d["amp"])
        return PreCalcCoil(list(d["shape"]), Rg, Zg, a, b, c, **kw)
    if k == "circuit":
        return Circuit([(lab, build(c), mult) for lab, c, mult in d["coils"]], current=d["current"], control=d["control"])
    if k == "wall":
        return Wall([p[0] for p in d["pts"]], [p[1] for p in d["pts"]])
    if k == "rogowski":
        return RogowskiSensor([p[0] for p in d["pts"]], [p[1] for p in d["pts"]])
    if k == "poloidal":
        return PoloidalFieldSensor(d["R"], d["Z"], d["theta"])
    if k == "fluxloop":
        return FluxLoopSensor(d["R"], d["Z"])
    return Machine([(lab, build(c)) for lab, c in d["coils"]], wall=None if d["wall"] is None else build(d["wall"]))


def altered(rng, d):
    """One difference. Returns the new description and what it was"""
    e = copy.deepcopy(d)
    keys = [q for q in e if q != "kind"]
    q = str(rng.choice(keys))
    v = e[q]
    if q == "coils":
        j = int(rng.integers(len(v)))
        what = str(rng.choice(["label", "coil", "missing", "kind"] + (["multiplier"] if d["kind"] == "circuit" else [])))
        row = list(v[j])
        if what == "label":
            row[0] += "x"
        elif what == "coil":
            for _ in range(20):
                row[1], w = altered(rng, v[j][1])
                if d["kind"] != "circuit" or w not in ("current", "control"):  # those are the circuit's
                    break
            else:
                row[0] += "x"
            what = "coil " + w
        elif what == "multiplier":
            row[2] = row[2] + 1.5
            row[1]["current"] = e["current"] * row[2]
        elif what == "kind":
            now = row[1]["kind"]
            new = str(rng.choice([k for k in ("coil", "shaped", "multi", "solenoid") if k != now]))
            row[1] = describe(rng, new)
            if d["kind"] == "circuit":
                row[1].update(current=e["current"] * row[2], control=e["control"])
        if what == "missing" and len(v) > 1:
            del v[j]
        elif what == "missing":
            v.append(("extra", describe(rng, "coil")) + ((1.0,) if d["kind"] == "circuit" else ()))
            if d["kind"] == "circuit":
                v[-1][1].update(current=e["current"], control=e["control"])
        else:
            v[j] = tuple(row)
        return e, "coils: " + what
    if q == "wall":
        if v is None:
            e["wall"] = describe(rng, "wall")
        elif rng.random() < 0.4:
            e["wall"] = None
        else:
            e["wall"], w = altered(rng, v)
        return e, "wall: none" if v is None or e["wall"] is None else "wall: " + w
    if q in ("shape", "pts"):
        j = int(rng.integers(len(v)))
        if rng.random() < 0.5 or len(v) < 4:
            v[j] = (v[j][0] + 0.01, v[j][1]) if rng.random() < 0.5 else (v[j][0], v[j][1] + 0.01)
            return e, q + ": moved"
        if rng.random() < 0.5 and d["kind"] != "rogowski":
            a, b = v[j], v[(j + 1) % len(v)]
            v.insert(j + 1, (0.5 * (a[0] + b[0]), 0.5 * (a[1] + b[1])))
        else:
            del v[j]
        return e, q + ": number"
    if q in ("Rf", "Zf"):
        if rng.random() < 0.6:
            v[int(rng.integers(len(v)))] += 0.01
            return e, q + ": moved"
        # another one in the middle: same box
        e["Rf"].append(round(0.5 * (min(e["Rf"]) + max(e["Rf"])), 4))
        e["Zf"].append(round(0.5 * (min(e["Zf"]) + max(e["Zf"])), 4))
        return e, q + ": number"
    if q == "polarity":
        j = 1 if d.get("mirror") else 0
        v[j] = -v[j]
    elif isinstance(v, bool):
        e[q] = not v
    elif q == "npoints":
        e[q] = {1: 3, 3: 6, 6: 1}[v]
    elif q == "nfils":
        e[q] = {4: 9, 9: 4}[v]
    elif isinstance(v, int):
        e[q] = v + int(rng.integers(1, 4))
    elif q == "current":
        e[q] = v + float(rng.choice([0.5, 1.0, -1000.0])) if rng.random() < 0.8 or v == 0 else -v
        if d["kind"] == "circuit":
            for _, c, mult in e["coils"]:
                c["current"] = e[q] * mult
    else:
        e[q] = v + float(rng.choice([0.01, -0.01, 0.1]))
    if q == "control" and d["kind"] == "circuit":
        for _, c, _m in e["coils"]:
            c["control"] = e[q]
    return e, q


def compare(m, a, b, same, **info):
    rule = "equal" if same else "unequal"
    got = a == b
    m.ok(bool(got) is same, rule, **info)
    m.ok(bool(a != b) is (not same), "opposite", equal=bool(got), **info)
    m.ok(bool(b == a) is bool(got), "symmetric", **info)


def change(obj, d, e, what):
    """The difference made through the interface, where there is one. True if so"""
    if what in ("current", "turns", "control") and d["kind"] not in ("filament-none",):
        setattr(obj, what, e[what])
        return True
    if what in ("R", "Z") and d["kind"] == "coil":
        setattr(obj, what, e[what])
        return True
    if what in ("Rs", "Zsmin", "Zsmax", "Ns") and d["kind"] == "solenoid":
        setattr(obj, what, e[what])
        return True
    if what == "mirror":
        obj.mirror = e["mirror"]
        return True
    return False


NAMES = dict(Coil=Coil, ShapedCoil=ShapedCoil, Circuit=Circuit, Solenoid=Solenoid, Wall=Wall, Machine=Machine, np=np)


def printed(m, obj, d):
    """What is printed describes the object"""
    text = repr(obj)
    k = d["kind"]
    if k == "wall" or k == "solenoid" or k == "coil" or k == "shaped" and d["npoints"] == 6:
        f = copy.deepcopy(d)
        if "current" in f and k != "solenoid":
            f["current"] = float("%.1f" % f["current"])
        try:
            back = eval(text, dict(NAMES))
        except Exception as err:
            m.fail("printed", text=text[:200], why=str(err))
            return
        m.ok(back == build(f) and type(back) is type(obj), "printed", text=text[:200], d=d)
    elif k in ("circuit", "machine"):
        m.ev("printed")
        for row in d["coils"]:
            m.ok(str(row[0]) in text, "printed", text=text[:200], missing=row[0])
        for part in obj.coils:
            m.ok(repr(part[1]) in text, "printed", text=text[:200], missing=repr(part[1])[:100])
    elif k in ("poloidal", "fluxloop"):
        m.ok(str(d["R"]) in text and str(d["Z"]) in text and str(d.get("theta", "")) in text, "printed", text=text[:200])
    elif "turns" in d:
        m.ok("%.1f" % d["current"] in text and str(d["turns"]) in text and str(d["control"]) in text, "printed", text=text[:200])


def run(case, m):
    rng = scen.rng_of(case["seed"], case["i"], 30)
    kind = KINDS[case["i"] % len(KINDS)]
    m.ev("seen-" + kind)
    d = describe(rng, kind)
    a, b = build(d), build(d)
    frozen = copy.deepcopy(a)
    info = dict(kind=kind)
    compare(m, a, b, True, what="same", **info)
    m.ok(bool(a == a) and not bool(a != a), "reflexive", **info)
    m.ok(bool(a == frozen), "copy", **info)
    whats = []
    for _ in range(3):
        e, what = altered(rng, d)
        whats.append(what)
        if "none" in what:
            m.ev("seen-wall-none")
        if "number" in what:
            m.ev("seen-longer")
        c = build(e)
        compare(m, a, c, False, what=what, d=d, e=e, **info)
        if change(b, d, e, what):
            compare(m, a, b, False, what=what, how="changed", **info)
            compare(m, c, b, True, what=what, how="changed", **info)
            m.ev("changed")
            change(b, e, d, what)
            compare(m, a, b, True, what=what, how="changed back", **info)
            m.ev("changed-back")
    # another kind, with as much in common as can be
    other = str(rng.choice([k for k in KINDS if k != kind and {k, kind} != {"filament", "filament-shape"}]))
    o = describe(rng, other)
    for q in d:
        if q in o and q not in ("kind", "coils", "wall") and not (q == "pts" and "rogowski" in (kind, other) and len(d[q]) < 3):
            o[q] = copy.deepcopy(d[q])
    if other == "circuit":
        for _, c, mult in o["coils"]:
            c.update(current=o["current"] * mult, control=o["control"])
    compare(m, a, build(o), False, what="other kind", other=other, **info)
    m.ev("seen-other-kind")
    for f in (None, 1, "coil", [], (1.0, 2.0)):
        m.ok(not bool(a == f) and bool(a != f) and not bool(f == a), "foreign", foreign=repr(f), **info)
    if kind == "machine":
        order = [int(v) for v in rng.permutation(len(d["coils"]))]
        e = dict(d, coils=[d["coils"][k] for k in order])
        compare(m, a, build(e), True, what="order", **info)
        m.ev("order")
    printed(m, a, d)
    # comparing changes nothing
    m.ok(bool(a == frozen) and repr(a) == repr(frozen), "unchanged", **info)
    m.state(kind, tuple(whats), other)
