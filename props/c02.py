"""C02: superposition of coils and circuits, and the control interface"""
import numpy as np

from freegs import machine
from rv.core import quiet
from rv import memory, oracle, scen

TITLE = "Machine superposition and control interface"
RULE = (
    "Random machines (all coil types, circuits with random multipliers, solenoids, random control flags and "
    "label order) go through random histories of current changes (by label, through circuits, by the control "
    "interface: set, adjust), control flags switched on and off, while flux, field, precomputed response and "
    "control lists are compared after every step with a shadow model holding the filaments of each coil. "
    "A state is non-trivial if at least two coils carry current; distinct by (coil types, flags, step kinds)."
)
REQUIRED_EVENTS = ("remembered", "psi", "Br", "Bz", "control-currents", "control-psi", "adjusted", "set", "circuit-members")


def cases(tier, seed):
    n = 160 if tier == "quick" else 500
    out = [dict(kind="history", seed=seed, i=i) for i in range(n)]
    names = ["TestTokamak", "TestTokamakLimited", "DIIID", "MAST", "MAST_sym", "TCV", "MASTU_simple"]
    out += [dict(kind="device", name=k, seed=seed) for k in names]
    out += [dict(kind="memory", seed=seed, i=i) for i in range(24 if tier == "quick" else 360)]
    return out


def unit(fils, I):
    return [(r, z, c / I) for r, z, c in fils]


def judge(m, mach, units, model, flags, order, R, Z, green, what):
    """Compare the machine with the shadow model"""
    fils = [(r, z, c * model[k]) for k in order for r, z, c in units[k]]
    want = oracle.filaments_psi(fils, R, Z)
    sc = oracle.filaments_psi([(r, z, abs(I)) for r, z, I in fils], R, Z) + 1e-12
    m.close(mach.psi(R, Z), want, 1e-8, "psi", scale=sc, after=what)
    m.close(mach.calcPsiFromGreens(green), want, 1e-8, "precomputed", scale=sc, after=what)
    br, bz = oracle.filaments_B(fils, R, Z)
    tol = 2 * oracle.filaments_Bscale(fils, R, Z) + 1e-14
    m.close(mach.Br(R, Z), br, 1.0, "Br", scale=tol, after=what)
    m.close(mach.Bz(R, Z), bz, 1.0, "Bz", scale=tol, after=what)
    on = [k for k in order if flags[k]]
    m.close(mach.controlCurrents(), [model[k] for k in on], 1e-12, "control-currents", after=what,
            scale=max([1.0] + [abs(model[k]) for k in on]))
    got = mach.getCurrents()
    m.ok(sorted(got) == sorted(order) and all(abs(got[k] - model[k]) <= 1e-9 * (1 + abs(model[k])) for k in order),
         "currents-by-label", got=got, want=model, after=what)


def control_lists(m, mach, units, flags, order, R, Z):
    on = [k for k in order if flags[k]]
    lp, lr, lz = mach.controlPsi(R, Z), mach.controlBr(R, Z), mach.controlBz(R, Z)
    if not m.ok(len(lp) == len(lr) == len(lz) == len(on), "control-length", got=[len(lp), len(lr), len(lz)], want=len(on)):
        return
    for k, p, b, c in zip(on, lp, lr, lz):
        f = units[k]
        br, bz = oracle.filaments_B(f, R, Z)
        tol = 2 * oracle.filaments_Bscale(f, R, Z) + 1e-14
        sc = oracle.filaments_psi([(r, z, abs(I)) for r, z, I in f], R, Z) + 1e-13
        m.close(p, oracle.filaments_psi(f, R, Z), 1e-8, "control-psi", scale=sc, coil=k)
        m.close(b, br, 1.0, "control-Br", scale=tol, coil=k)
        m.close(c, bz, 1.0, "control-Bz", scale=tol, coil=k)


def members(m, mach, model, flags):
    for label, c in mach.coils:
        if isinstance(c, machine.Circuit):
            for name, member, mult in c.coils:
                m.close(member.current, mult * model[label], 1e-12, "circuit-members",
                        scale=abs(mult * model[label]) + 1e-9, circuit=label, member=name)
                m.ok(c[name] is member, "circuit-lookup")
        m.ok(mach[label] is c, "lookup")


def run(case, m):
    if case.get("kind") == "memory":
        with quiet():
            return memory_case(case, m)
    if case["kind"] == "device":
        return device(case, m)
    rng = scen.rng_of(case["seed"], case["i"], 2)
    mach, fils = scen.random_machine(rng, ncoils=int(rng.integers(2, 6)))
    order = [k for k, c in mach.coils]
    units, model, flags, types = {}, {}, {}, {}
    for k, c in mach.coils:
        I = c.current
        units[k] = unit(fils[k], I)
        model[k] = I
        flags[k] = bool(c.control)
        types[k] = type(c).__name__
    allf = [f for k in order for f in fils[k]]
    fr, fz = np.array([f[0] for f in allf]), np.array([f[1] for f in allf])
    R, Z = [], []
    while len(R) < 8:
        r, z = float(rng.uniform(0.05, 3)), float(rng.uniform(-2, 2))
        if np.min(np.hypot(fr - r, fz - z)) > 0.04:
            R.append(r)
            Z.append(z)
    R, Z = np.array(R).reshape(4, 2), np.array(Z).reshape(4, 2)
    green = mach.createPsiGreens(R, Z)
    judge(m, mach, units, model, flags, order, R, Z, green, "start")
    control_lists(m, mach, units, flags, order, R, Z)
    members(m, mach, model, flags)
    steps = []
    for _ in range(8):
        op = str(rng.choice(["current", "set", "adjust", "flag", "query", "zero", "adjust"]))
        on = [k for k in order if flags[k]]
        k = str(rng.choice(order))
        if op == "current":
            model[k] = float(rng.normal() * 1e5)
            mach[k].current = model[k]
        elif op == "zero":
            model[k] = 0.0
            mach[k].current = 0.0
        elif op == "set":
            new = rng.normal(size=len(on)) * 1e5
            if rng.random() < 0.5:
                new[rng.random(len(on)) < 0.4] = 0.0  # switched off
            mach.setControlCurrents(new.tolist() if rng.random() < 0.5 else new)
            for a, b in zip(on, new):
                model[a] = float(b)
            m.ev("set")
        elif op == "adjust":
            dI = rng.normal(size=len(on)) * float(rng.choice([1e4, 1e4, 1.0, 1e-3]))
            if rng.random() < 0.3:
                dI[rng.random(len(on)) < 0.4] = 0.0
            mach.controlAdjust(dI.reshape(-1, 1) if rng.random() < 0.5 else dI)
            for a, b in zip(on, dI):
                model[a] += float(b)
            m.ev("adjusted")
        elif op == "flag":
            flags[k] = not flags[k]
            mach[k].control = flags[k]
        else:
            mach.psi(1.1, 0.123)
            mach.controlBr(1.1, 0.123)
            control_lists(m, mach, units, flags, order, R, Z)
        judge(m, mach, units, model, flags, order, R, Z, green, op)
        members(m, mach, model, flags)
        steps.append(op)
    with m.expect_raises("unknown-label", KeyError):
        mach["no such coil"]
    m.state(sorted(types.values()), [flags[k] for k in order], steps)
    m.sample(coils=types, steps=steps, final_currents=model)


def device(case, m):
    """The predefined machines: the total field is the sum of the fields of the
    parts, each label is found, precomputed responses agree"""
    rng = scen.rng_of(case["seed"], sum(map(ord, case["name"])))
    mach = getattr(machine, case["name"])()
    labels = [k for k, c in mach.coils]
    m.ok(len(set(labels)) == len(labels), "unique-labels", labels=labels)
    for k, c in mach.coils:
        c.current = float(rng.normal() * 1e4)
    R, Z = rng.uniform(0.4, 2.0, (3, 4)), rng.uniform(-1, 1, (3, 4))
    for total, part in ((mach.psi, "psi"), (mach.Br, "Br"), (mach.Bz, "Bz")):
        terms = [np.asarray(getattr(c, part)(R, Z)) for k, c in mach.coils]
        m.close(total(R, Z), sum(terms), 1e-9, "sum-" + part, scale=sum(np.abs(t) for t in terms))
    green = mach.createPsiGreens(R, Z)
    m.close(mach.calcPsiFromGreens(green), mach.psi(R, Z), 1e-9, "precomputed")
    m.close(sum(np.asarray(a) * I for a, I in zip(mach.controlPsi(R, Z), mach.controlCurrents())),
            sum(c.psi(R, Z) for k, c in mach.coils if c.control), 1e-9, "control-psi",
            scale=np.max(np.abs(mach.psi(R, Z))))
    if case["name"] == "MAST_sym":
        for k, c in mach.coils:
            sym = np.asarray(c.psi(R, Z)), np.asarray(c.psi(R, -Z))
            s = np.max(np.abs(sym[0])) + 1e-30
            up = np.max(np.abs(sym[0] - sym[1])) < 1e-9 * s
            dn = np.max(np.abs(sym[0] + sym[1])) < 1e-9 * s
            m.ok(up or dn or k in ("P6",), "mirror-symmetric", coil=k)
    m.state("device", case["name"])


def memory_case(case, m):
    """Asked before and after a change: the answers are those of an equilibrium never asked before"""
    def ask(eq, prof, con, rng, held):
        tok = eq.tokamak
        r, z = held.setdefault("at", (rng.uniform(0.5, 1.5, 5), rng.uniform(-0.6, 0.6, 5)))
        q = {"currents": lambda: [float(c) for c in tok.controlCurrents()], "all": lambda: {k: float(v) for k, v in tok.getCurrents().items()}, "greens": lambda: np.array(tok.calcPsiFromGreens(tok.createPsiGreens(r, z)))}
        for name in ("psi", "Br", "Bz", "controlPsi", "controlBr", "controlBz"):
            q[name] = lambda name=name: np.array(getattr(tok, name)(r, z))
            q[name + " on the grid"] = lambda name=name: np.array(getattr(tok, name)(eq.R, eq.Z))
        return q

    memory.later(case, m, 2, ask)
