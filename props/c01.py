"""C01: the field of every kind of coil"""
import numpy as np

from freegs.gradshafranov import Greens, GreensBr, GreensBz
from freegs.machine import Circuit, Coil, MirroredCoil
from freegs.shaped_coil import ShapedCoil
from freegs.filament_coil import FilamentCoil
from freegs.pre_calc_coil import PreCalcCoil
from rv import oracle, scen

TITLE = "Coil fields"
RULE = (
    "Random coils of every type (position, shape, turns, current, mirroring, polarity) are evaluated "
    "at random points (scalar, 1-D and 2-D input) and compared with a sum of exact circular-loop fields, "
    "and with Ampere's law on rectangles around the coil. A state is non-trivial if the coil carries "
    "current; states are distinct by (type, turns, number of filaments, shape, point layout)."
)
REQUIRED_EVENTS = ("psi", "Br", "Bz", "ampere", "reciprocity", "linear-in-current", "greens-psi")

KINDS = ["coil", "solenoid", "multi1", "multi", "filament", "shaped", "filshape", "precalc", "circuit", "mirrored"]


def cases(tier, seed):
    n = 64 if tier == "quick" else 200
    out = [dict(kind="greens", seed=seed, i=i) for i in range(n)]
    for k in KINDS:
        out += [dict(kind=k, seed=seed, i=i) for i in range(n)]
    return out


def far_points(rng, fils, mind, n=24):
    """Random points at least mind from every filament"""
    fr = np.array([f[0] for f in fils])
    fz = np.array([f[1] for f in fils])
    R, Z = [], []
    while len(R) < n:
        r = float(rng.uniform(0.02, 3.0))
        z = float(rng.uniform(-2.0, 2.0))
        if np.min(np.hypot(fr - r, fz - z)) > mind:
            R.append(r)
            Z.append(z)
    return np.array(R), np.array(Z)


def layouts(m, f, R, Z, a, k, s, label):
    """Other ways to ask for the same points"""
    m.close(np.asarray(f(np.array(R[k]), np.array(Z[k]))).reshape(()), a[k], 1e-9, "layout-0d", scale=s, coil=label)
    m.close(np.asarray(f(R[k], Z[k])).reshape(()), a[k], 1e-9, "layout-scalar", scale=s, coil=label)
    m.close(f(R[k : k + 1], Z[k : k + 1]), a[k : k + 1], 1e-9, "layout-one", scale=s, coil=label)
    m.close(f(R[::-2], Z[::-2]), a[::-2], 1e-9, "layout-strided", scale=s, coil=label)
    zz = Z[:5] * 0 + Z[k]
    zz[0] += 0.001
    rr = np.full(5, R[k])
    want = np.asarray(f(rr, zz))
    m.close(f(float(R[k]), zz), want, 1e-9, "layout-broadcast", scale=s, coil=label)
    m.close(f(rr, float(Z[k])), f(rr, zz * 0 + Z[k]), 1e-9, "layout-broadcast", scale=s, coil=label)
    w2 = np.asarray(f(np.repeat(rr[:2, None], 3, 1), np.repeat(zz[None, :3], 2, 0)))
    m.close(f(rr[:2, None], zz[None, :3]), w2, 1e-9, "layout-broadcast", scale=s, coil=label)


def integers(m, coil, fils, label):
    """Whole numbers are numbers too"""
    fr = np.array([f[0] for f in fils])
    fz = np.array([f[1] for f in fils])
    for r, z in ((1, 2), (2, 0), (1, 0), (3, -2)):
        if np.min(np.hypot(fr - r, fz - z)) < 0.1:
            continue
        for f in (coil.psi, coil.Br, coil.Bz):
            w = np.asarray(f(float(r), float(z))).reshape(())
            s = abs(w) + 1e-7 * sum(abs(x[2]) for x in fils)
            m.close(np.asarray(f(r, z)).reshape(()), w, 1e-9, "layout-integer", scale=s, coil=label)
            m.close(f(np.array([r, r]), np.array([z, z])), [w, w], 1e-9, "layout-integer", scale=s, coil=label)


def judge(m, coil, fils, rng, mind, reltol, total, label, current):
    """coil against the reference filaments; reltol is the relative error of
    the coil's own representation at distance mind"""
    R, Z = far_points(rng, fils, mind)
    want = oracle.filaments_psi(fils, R, Z)
    scale = oracle.filaments_psi([(r, z, abs(I)) for r, z, I in fils], R, Z)
    scale = np.abs(scale) + 1e-3 * np.max(np.abs(scale))
    m.close(coil.psi(R, Z), want, 1e-8 + reltol, "psi", scale=scale, coil=label)
    br, bz = oracle.filaments_B(fils, R, Z)
    bb = oracle.filaments_Bscale(fils, R, Z)
    babs = sum(abs(I) * np.hypot(*oracle.loop_B(r, z, R, Z)) for r, z, I in fils)
    btol = 2 * bb + (1e-7 + 4 * reltol) * babs
    m.close(coil.Br(R, Z), br, 1.0, "Br", scale=btol, coil=label)
    m.close(coil.Bz(R, Z), bz, 1.0, "Bz", scale=btol, coil=label)
    # B is the curl of psi, by differences of psi alone
    e = 1e-3
    dz = -(coil.psi(R, Z + e) - coil.psi(R, Z - e)) / (2 * e * R)
    dr = (coil.psi(R + e, Z) - coil.psi(R - e, Z)) / (2 * e * R)
    dtol = 4 * bb + (1e-7 + 8 * reltol) * babs + 1e-9 * np.max(babs)
    m.close(coil.Br(R, Z), dz, 1.0, "B-is-curl-psi", scale=dtol, coil=label)
    m.close(coil.Bz(R, Z), dr, 1.0, "B-is-curl-psi", scale=dtol, coil=label)
    # layout of the points does not matter
    p = coil.psi(R, Z)
    sc = np.max(np.abs(p)) + 1e-300
    for f in (coil.psi, coil.Br, coil.Bz, coil.controlPsi, coil.controlBr, coil.controlBz):
        a = np.asarray(f(R, Z))
        s = np.max(np.abs(a)) + 1e-300
        m.close(f(R.reshape(4, 6), Z.reshape(4, 6)), a.reshape(4, 6), 1e-9, "layout-2d", scale=s, coil=label)
        k = int(rng.integers(0, len(R)))
        m.close(np.asarray(f(float(R[k]), float(Z[k]))).reshape(()), a[k], 1e-9, "layout-scalar", scale=s, coil=label)
        layouts(m, f, R, Z, a, k, s, label)
    # response per unit current, and linearity
    m.close(np.asarray(coil.controlPsi(R, Z)) * current, p, 1e-9, "control-response", scale=sc, coil=label)
    m.close(np.asarray(coil.controlBr(R, Z)) * current, coil.Br(R, Z), 1e-9, "control-response", coil=label)
    m.close(np.asarray(coil.controlBz(R, Z)) * current, coil.Bz(R, Z), 1e-9, "control-response", coil=label)
    green = coil.createPsiGreens(R, Z)
    m.close(coil.calcPsiFromGreens(green), p, 1e-9, "precomputed-response", scale=sc, coil=label)
    fac = float(rng.choice([-1.0, 2.5, 0.0, 1e-3]))
    br0 = coil.Br(R, Z)
    coil.current = current * fac
    m.close(coil.psi(R, Z), fac * p, 1e-9, "linear-in-current", scale=sc, coil=label)
    m.close(coil.Br(R, Z), fac * br0, 1e-9, "linear-in-current", scale=np.max(np.abs(br0)) + 1e-300, coil=label)
    m.close(coil.calcPsiFromGreens(green), fac * p, 1e-9, "linear-in-current", scale=sc, coil=label)
    coil.current = current
    m.close(coil.psi(R, Z), p, 1e-12, "linear-in-current", scale=sc, coil=label)
    # Ampere's law on a rectangle around everything
    fr = np.array([f[0] for f in fils])
    fz = np.array([f[1] for f in fils])
    r0 = max(0.03, fr.min() - 0.3)
    if fr.min() - r0 > 0.1:
        args = (r0, fr.max() + 0.35, fz.min() - 0.3, fz.max() + 0.4)
        circ = oracle.rect_circulation(coil.Br, coil.Bz, *args)
        absI = sum(abs(f[2]) for f in fils)
        m.close(circ, oracle.MU0 * total, 2e-3, "ampere", scale=oracle.MU0 * absI, coil=label)
        # and on one which encloses nothing
        z0 = fz.max() + 0.3
        circ = oracle.rect_circulation(coil.Br, coil.Bz, 0.3, 1.5, z0, z0 + 0.8)
        m.close(circ, 0.0, 2e-3, "ampere", scale=oracle.MU0 * absI, coil=label)
    integers(m, coil, fils, label)
    # current turns of the axis: psi -> 0 on the axis
    near = coil.psi(1e-3, float(fz.max() + 0.5))
    m.ok(abs(near) < 1e-4 * np.max(scale) * 10, "psi-vanishes-on-axis", coil=label, got=near)
    m.sample(coil=label, total_current=total, psi=float(p[0]), reference=float(want[0]))


def reciprocity(m, rng, coil_fils, label):
    """Mutual inductance is symmetric"""
    coil, fils = coil_fils
    other = Coil(float(rng.uniform(0.3, 2.5)), float(rng.uniform(1.6, 2.0)), current=1.0, turns=int(rng.integers(1, 9)))
    a = coil.controlPsi(other.R, other.Z) * other.turns
    I = sum(abs(f[2]) for f in fils)
    b = sum(f[2] * other.controlPsi(f[0], f[1]) for f in fils) / coil.current
    m.close(a, b, 1e-8 + 3e-3 * (label in ("shaped", "filshape", "precalc")), "reciprocity", coil=label)


def run(case, m):
    kind = case["kind"]
    rng = scen.rng_of(case["seed"], case["i"], sum(map(ord, kind)))
    if kind == "greens":
        n = 400
        Rc, R = rng.uniform(0.05, 8.0, n), rng.uniform(0.02, 8.0, n)
        Zc, Z = rng.uniform(-5, 5, n), rng.uniform(-5, 5, n)
        near = rng.random(n) < 0.3  # close to the filament
        R = np.where(near, Rc + rng.choice([-1, 1], n) * 10 ** rng.uniform(-1.9, -0.7, n) * np.minimum(1, Rc), R)
        Z = np.where(near, Zc + rng.choice([-1, 1], n) * 10 ** rng.uniform(-1.9, -0.7, n), Z)
        want = oracle.loop_psi(Rc, Zc, R, Z)
        m.close(Greens(Rc, Zc, R, Z), want, 1e-7, "greens-psi", scale=np.abs(want) + 1e-11)
        m.close(Greens(R, Z, Rc, Zc), want, 1e-7, "greens-symmetric", scale=np.abs(want) + 1e-11)
        br, bz = oracle.loop_B(Rc, Zc, R, Z)
        d = np.hypot(R - Rc, Z - Zc)
        b = np.hypot(br, bz) + oracle.MU0 / (2 * np.pi) / d * 0.2
        tol = 3 * b * ((1e-3 / d) ** 2 + (1e-3 / R) ** 2) + 1e-6 * b
        m.close(GreensBr(Rc, Zc, R, Z), br, 1.0, "greens-Br", scale=tol)
        m.close(GreensBz(Rc, Zc, R, Z), bz, 1.0, "greens-Bz", scale=tol)
        k = int(rng.integers(0, n))
        q = oracle.loop_psi_quadrature(Rc[k], Zc[k], R[k], Z[k], 20000)
        m.close(Greens(Rc[k], Zc[k], R[k], Z[k]), q, 1e-5, "greens-neumann")
        # a long way away, or near the axis: the field of a dipole
        far = 10 ** rng.uniform(1.0, 2.2, n)
        Rf, Zf = np.where(rng.random(n) < 0.5, far, rng.uniform(0.05, 5, n)), Zc + rng.choice([-1, 1], n) * far
        Rs = Rc * 10 ** rng.uniform(-3.5, -2, n)
        Zs = Zc + rng.uniform(-1, 1, n)
        for a, b in ((Rf, Zf), (Rs, Zs)):
            wf = oracle.loop_psi_far(Rc, Zc, a, b)
            k2 = 4 * Rc * a / ((Rc + a) ** 2 + (Zc - b) ** 2)
            m.close(Greens(Rc, Zc, a, b), wf, 1.0, "greens-far", scale=np.abs(wf) * (1e-6 + 3e-14 / k2**2))
        i = np.argmin(np.abs(R - 1))
        m.close(Greens(float(Rc[i]), float(Zc[i]), float(R[i]), float(Z[i])), want[i], 1e-7, "greens-psi")
        m.state("greens", case["seed"], case["i"])
        m.sample(Rc=Rc[0], R=R[0], got=float(Greens(Rc[0], Zc[0], R[0], Z[0])), want=float(want[0]))
        return
    label = kind
    if kind in scen.SIMPLE_KINDS:
        coil, fils, _ = scen.random_coil(rng, kind)
        total = sum(f[2] for f in fils)
        I = coil.current
        judge(m, coil, fils, rng, 0.05, 0.0, total, label, I)
        reciprocity(m, rng, (coil, fils), label)
        m.state(kind, getattr(coil, "turns", 0), len(fils), case["i"])
        return
    if kind == "mirrored":
        R, Z = float(rng.uniform(0.4, 2)), float(rng.uniform(0.2, 1.2))
        I, turns, sym = float(rng.normal() * 1e5), int(rng.integers(1, 20)), bool(rng.random() < 0.5)
        coil = MirroredCoil(R, Z, current=I, turns=turns, symmetric=sym)
        fils = [(R, Z, I * turns), (R, -Z, I * turns * (1 if sym else -1))]
        judge(m, coil, fils, rng, 0.05, 0.0, sum(f[2] for f in fils), label, I)
        reciprocity(m, rng, (coil, fils), label)
        m.state(kind, turns, sym)
        return
    if kind == "circuit":
        coil, fils = scen.random_circuit(rng)
        judge(m, coil, fils, rng, 0.05, 0.0, sum(f[2] for f in fils), label, coil.current)
        reciprocity(m, rng, (coil, fils), label)
        m.state(kind, len(fils), len(coil.coils))
        return
    R, Z = float(rng.uniform(0.7, 2)), float(rng.uniform(-1, 1))
    I, turns = float(rng.normal() * 1e5), int(rng.integers(1, 30))
    if kind == "shaped":
        size = float(rng.uniform(0.02, 0.12))
        npts = int(rng.choice([1, 3, 6]))
        style = int(rng.integers(0, 3))
        if style == 0:
            shape = scen.star_polygon(rng, int(rng.integers(3, 9)), R, Z, size)
        elif style == 1:  # L shape
            a, b = rng.uniform(0.2, 0.8, 2) * size
            shape = [(0, 0), (size, 0), (size, a), (b, a), (b, size), (0, size)]
            shape = [(R + float(x), Z + float(y)) for x, y in shape]
        else:  # U shape
            a, b, c = 0.3 * size, 0.6 * size, float(rng.uniform(0.2, 0.8)) * size
            shape = [(0, 0), (size, 0), (size, size), (b, size), (b, c), (a, c), (a, size), (0, size)]
            shape = [(R + float(x), Z + float(y)) for x, y in shape]
            if rng.random() < 0.5:
                shape.reverse()
        coil = ShapedCoil(shape, current=I, turns=turns, npoints=npts)
        fils = oracle.polygon_filaments(shape, I * turns)
        x = 1 / 6.0
        tol = {1: 0.5 * x**2, 3: 0.5 * x**3, 6: 0.5 * x**4}[npts]
        judge(m, coil, fils, rng, 6 * 2 * size, tol, I * turns, label, I)
        reciprocity(m, rng, (coil, fils), label)
        m.state(kind, style, npts, turns, len(shape))
        m.close(coil.area, abs(oracle.shoelace(*zip(*shape))), 1e-9, "area")
    elif kind == "filshape":
        size = float(rng.uniform(0.05, 0.12))
        shape = scen.star_polygon(rng, int(rng.integers(3, 7)), R, Z, size, concave=False)
        nf = int(rng.choice([20, 50, 90]))
        coil = FilamentCoil(shape=shape, current=I, turns=turns, Nfils=nf)
        fils = oracle.polygon_filaments(shape, I * turns)
        judge(m, coil, fils, rng, 6 * 2 * size, 0.05, I * turns, label, I)
        m.ok(0.8 * nf <= len(coil.points) <= 1.4 * nf, "number-of-filaments", got=len(coil.points), asked=nf, coil=label)
        m.state(kind, nf, turns, len(shape))
        m.close(coil.area, abs(oracle.shoelace(*zip(*shape))), 1e-9, "area")
    elif kind == "precalc":
        w = 0.05
        shape = [(R - w, Z - w), (R + w, Z - w), (R + w, Z + w), (R - w, Z + w)]
        r1 = np.linspace(0.01, 3.05, 90)
        z1 = np.linspace(-2.05, 2.05, 100)
        Rg, Zg = np.meshgrid(r1, z1)
        # far outside the grid, so that splines are accurate
        src = [(3.6, float(rng.uniform(-1, 1)), 0.5), (3.8, float(rng.uniform(-1, 1)), 0.5)]
        br, bz = oracle.filaments_B(src, Rg, Zg)
        coil = PreCalcCoil(shape, Rg, Zg, br, bz, oracle.filaments_psi(src, Rg, Zg), current=I, turns=turns)
        Rp, Zp = rng.uniform(0.1, 2.9, 24), rng.uniform(-1.9, 1.9, 24)
        f = [(r, z, c * I * turns) for r, z, c in src]
        m.close(coil.psi(Rp, Zp), oracle.filaments_psi(f, Rp, Zp), 1e-4, "psi", coil=label)
        wr, wz = oracle.filaments_B(f, Rp, Zp)
        sc = np.max(np.hypot(wr, wz))
        m.close(coil.Br(Rp, Zp), wr, 1e-4, "Br", scale=sc, coil=label)
        m.close(coil.Bz(Rp, Zp), wz, 1e-4, "Bz", scale=sc, coil=label)
        for fn in (coil.psi, coil.Br, coil.Bz):
            a = fn(Rp, Zp)
            m.close(fn(Rp.reshape(4, 6), Zp.reshape(4, 6)), a.reshape(4, 6), 1e-9, "layout-2d")
            m.close(fn(float(Rp[3]), float(Zp[3])), a[3], 1e-9, "layout-scalar", scale=np.max(np.abs(a)))
            layouts(m, fn, Rp, Zp, a, 5, np.max(np.abs(a)), label)
        integers(m, coil, [(r, z, 1) for r, z in shape], label)
        m.close(coil.controlPsi(Rp, Zp) * I, coil.psi(Rp, Zp), 1e-9, "control-response")
        p = coil.psi(Rp, Zp)
        coil.current = -2 * I
        m.close(coil.psi(Rp, Zp), -2 * p, 1e-9, "linear-in-current")
        m.state(kind, turns, case["i"])
