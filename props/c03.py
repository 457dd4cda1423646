"""C03: the linear Grad-Shafranov solve"""
import numpy as np

import freegs
from freegs import boundary, machine
from freegs.gradshafranov import GSElliptic, GSsparse, GSsparse4thOrder
from rv import oracle, scen

TITLE = "Linear Grad-Shafranov solve"
RULE = (
    "Random domains, rectangular grids (nx != ny, also not powers of two), both orders; manufactured solutions "
    "(polynomials for which the scheme must be exact, vacuum fields of current loops outside the domain, smooth "
    "random fields) are recovered by the solver from their source and boundary values; observed: solution, "
    "independent residual, edges, dependence on the guess, linearity, order of convergence, and the "
    "current bookkeeping of a full linear solve. Distinct by (grid, domain, order, solution)."
)
REQUIRED_EVENTS = ("recovered", "edges-kept", "guess-irrelevant", "residual", "order", "source-sign", "operator")


class NoProfiles:
    """Profiles for solves where Jtor is given"""

    def pprime(self, x):
        return 0.0 * x

    ffprime = pressure = pprime

    def fpol(self, x):
        return 1.0 + 0.0 * x

    def fvac(self):
        return 1.0


def cases(tier, seed):
    n = 120 if tier == "quick" else 250
    out = [dict(kind="recover", seed=seed, i=i) for i in range(n)]
    out += [dict(kind="convergence", seed=seed, i=i, order=o) for i in range(n // 6) for o in (2, 4)]
    out += [dict(kind="solve", seed=seed, i=i) for i in range(n // 2)]
    out += [dict(kind="operator", seed=seed, i=i) for i in range(n // 2)]
    return out


def poly_pair(a, b):
    """R^a Z^b and its Delta*"""

    def f(R, Z):
        return R**a * Z**b

    def d(R, Z):
        out = np.zeros_like(R)
        if a:
            out = out + a * (a - 1) * R ** (a - 2) * Z**b - a * R ** (a - 2) * Z**b
        if b > 1:
            out = out + b * (b - 1) * R**a * Z ** (b - 2)
        return out

    return f, d


def smooth_pair(rng, dom):
    """Gaussian bump with analytic Delta*"""
    Rmin, Rmax, Zmin, Zmax = dom
    r0, z0 = rng.uniform(Rmin, Rmax), rng.uniform(Zmin, Zmax)
    s, t = 0.45 * (Rmax - Rmin), 0.45 * (Zmax - Zmin)

    def f(R, Z):
        return np.exp(-(((R - r0) / s) ** 2) - ((Z - z0) / t) ** 2)

    def d(R, Z):
        g = f(R, Z)
        x, y = 2 * (R - r0) / s**2, 2 * (Z - z0) / t**2
        return g * (x**2 - 2 / s**2 + y**2 - 2 / t**2 + x / R)

    return f, d


def loop_pair(rng, dom):
    Rmin, Rmax, Zmin, Zmax = dom
    rc, zc = Rmax + rng.uniform(0.5, 1.0) * (Rmax - Rmin), rng.uniform(Zmin, Zmax)
    return (lambda R, Z: 1e6 * oracle.loop_psi(rc, zc, R, Z)), (lambda R, Z: 0.0 * R)


def with_edges(src, sol):
    rhs = np.array(src, float)
    rhs[0], rhs[-1], rhs[:, 0], rhs[:, -1] = sol[0], sol[-1], sol[:, 0], sol[:, -1]
    return rhs


def domain(rng):
    Rmin = float(rng.choice([0.1, rng.uniform(0.05, 3)]))
    return Rmin, Rmin + float(rng.uniform(0.3, 3)), -float(rng.uniform(0.2, 2)), float(rng.uniform(0.2, 2))


def make(dom, nx, ny, order, bd=boundary.fixedBoundary, **kw):
    # one in a like domain before, and one of the other order
    rng = scen.rng_of(int(dom[0] * 1e6), int(dom[1] * 1e6), nx, ny)
    near = scen.neighbour(rng, dom)
    if order in (2, 4):
        for d, o in ((near, order), (dom, 6 - order)):
            e = freegs.Equilibrium(tokamak=machine.EmptyTokamak(), Rmin=d[0], Rmax=d[1], Zmin=d[2], Zmax=d[3], nx=nx, ny=ny, order=o, boundary=boundary.fixedBoundary)
            e.callSolver(np.zeros((nx, ny)), np.ones((nx, ny)))
    return freegs.Equilibrium(tokamak=machine.EmptyTokamak(), Rmin=dom[0], Rmax=dom[1], Zmin=dom[2], Zmax=dom[3],
                              nx=nx, ny=ny, order=order, boundary=bd, **kw)


def edges(a):
    return np.concatenate([a[0], a[-1], a[:, 0], a[:, -1]])


def run(case, m):
    rng = scen.rng_of(case["seed"], case["i"], sum(map(ord, case["kind"])))
    dom = domain(rng)
    if case["kind"] == "convergence":
        order = case["order"]
        dom = (1.0, 1.0 + float(rng.uniform(0.8, 1.5)), dom[2], dom[3])
        st = rng.bit_generator.state
        errs = []
        for n in (17, 33, 65):
            rng.bit_generator.state = st
            f, d = smooth_pair(rng, dom)
            eq = make(dom, n, n, order)
            sol = f(eq.R, eq.Z)
            got = eq.callSolver(np.zeros_like(sol), with_edges(d(eq.R, eq.Z), sol))
            errs.append(np.max(np.abs(got - sol)))
        p = np.log2(errs[1] / errs[2])
        m.ok(p > order - 0.6 or errs[2] < 1e-11, "order", errors=errs, wanted=order, observed=p)
        m.state("convergence", order, dom)
        m.sample(order=order, errors=errs, observed_order=p)
        return
    nx = int(rng.choice([9, 17, 33, 65, int(rng.integers(8, 50))]))
    ny = int(rng.choice([9, 17, 33, 65, int(rng.integers(8, 50))]))
    order = int(rng.choice([2, 4]))
    if case["kind"] == "recover":
        eq = make(dom, nx, ny, order)
        R, Z = eq.R, eq.Z
        m.close(R, np.linspace(dom[0], dom[1], nx)[:, None] + 0 * Z, 1e-12, "grid")
        m.close(Z, np.linspace(dom[2], dom[3], ny)[None, :] + 0 * R, 1e-12, "grid")
        if rng.random() < 0.25 and order == 2:
            eq.setSolverVcycle(nlevels=1, direct=True)
        maxdeg = order
        sols = []
        for _ in range(3):
            a, b = int(rng.integers(0, maxdeg + 1)), int(rng.integers(0, maxdeg + 1))
            sols.append(("R^%d Z^%d" % (a, b), poly_pair(a, b), 1e-9))
        h = max(eq.dR / (dom[1] - dom[0]), eq.dZ / (dom[3] - dom[2]))
        xR = eq.dR / dom[0]
        sols.append(("bump", smooth_pair(rng, dom), None))
        if rng.random() < 0.5:
            sols.append(("loop", loop_pair(rng, dom), None))
        total_rhs = 0.0
        total = 0.0
        for name, (f, d), tol in sols:
            sol = f(R, Z)
            sc = np.max(np.abs(sol))
            rhs = with_edges(d(R, Z), sol)
            keep = rhs.copy()
            guess = rng.normal(size=sol.shape)
            got = np.asarray(eq.callSolver(guess.copy(), rhs))
            m.close(edges(got), edges(sol), 1e-8, "edges-kept", scale=sc, solution=name)
            m.ok(np.array_equal(rhs, keep), "source-unchanged", solution=name)
            if tol is not None:
                m.close(got, sol, tol, "recovered", scale=sc, solution=name, order=order)
            elif min(nx, ny) >= 17 and xR < 1.0:
                m.close(got, sol, {2: 4.0 * h**2, 4: 400 * h**4}[order] + 1e-9, "recovered-approx", scale=sc,
                        solution=name, order=order)
            got2 = np.asarray(eq.callSolver(np.zeros_like(sol), rhs))
            m.close(got2, got, 1e-9, "guess-irrelevant", scale=sc + np.max(np.abs(got)), solution=name)
            ds = (oracle.delta_star_2nd if order == 2 else oracle.delta_star_4th)(got, R, Z)
            big = np.max(np.abs(got)) * (4 / eq.dR**2 + 4 / eq.dZ**2)
            m.close(ds, d(R, Z)[1:-1, 1:-1], 1e-10, "residual", scale=big, solution=name)
            w = float(rng.normal())
            total_rhs = total_rhs + w * rhs
            total = total + w * got
        m.close(eq.callSolver(np.zeros_like(total), total_rhs), total, 1e-8, "linear", scale=np.max(np.abs(total)) + 1e-12)
        m.state(nx, ny, order, [s[0] for s in sols], round(dom[0], 2))
        m.sample(nx=nx, ny=ny, order=order, domain=dom, solutions=[s[0] for s in sols])
    elif case["kind"] == "operator":
        R1, Z1 = np.linspace(dom[0], dom[1], nx), np.linspace(dom[2], dom[3], ny)
        R, Z = np.meshgrid(R1, Z1, indexing="ij")
        dR, dZ = R1[1] - R1[0], Z1[1] - Z1[0]
        psi = rng.normal(size=(nx, ny))
        ref = oracle.delta_star_2nd(psi, R, Z)
        big = np.max(np.abs(psi)) * (4 / dR**2 + 4 / dZ**2)
        op = GSElliptic(dom[0])
        got = np.asarray(op(psi, dR, dZ))
        m.close(got[1:-1, 1:-1], ref, 1e-10, "operator", scale=big)
        A = GSsparse(*dom)(nx, ny)
        m.close((A @ psi.ravel()).reshape(nx, ny)[1:-1, 1:-1], ref, 1e-10, "operator-sparse", scale=big)
        m.close(edges((A @ psi.ravel()).reshape(nx, ny)), edges(psi), 1e-12, "operator-sparse-edges")
        A4 = GSsparse4thOrder(*dom)(nx, ny)
        got = (A4 @ psi.ravel()).reshape(nx, ny)
        m.close(got[1:-1, 1:-1], oracle.delta_star_4th(psi, R, Z), 1e-10, "operator-sparse4", scale=big)
        m.close(edges(got), edges(psi), 1e-12, "operator-sparse-edges")
        m.close(np.diag(A.toarray())[ny + 1] if nx * ny < 2500 else op.diag(dR, dZ), op.diag(dR, dZ), 1e-12, "operator-diagonal")
        with m.expect_raises("invalid-order", ValueError):
            make(dom, 9, 9, int(rng.choice([1, 3, 5])))
        m.state("operator", nx, ny)
    else:
        # a complete linear solve with a given current density
        nx, ny = int(rng.choice([17, 33, 65])), int(rng.choice([17, 33, 65]))
        psi0 = None
        if rng.random() < 0.5:
            psi0 = np.exp(-((np.linspace(-1, 1, nx)[:, None]) ** 2 + (np.linspace(-1, 1, ny)[None, :]) ** 2) / 0.3)
        eq = make(dom, nx, ny, order, psi=psi0)
        R, Z = eq.R, eq.Z
        x = (R - dom[0]) / (dom[1] - dom[0])
        y = (Z - dom[2]) / (dom[3] - dom[2])
        sgn = float(rng.choice([1, -1]))
        J = sgn * 1e6 * np.exp(-((x - rng.uniform(0.4, 0.6)) ** 2 + (y - rng.uniform(0.4, 0.6)) ** 2) / 0.15**2)
        keep = J.copy()
        eq.solve(NoProfiles(), Jtor=J)
        psi = eq.plasma_psi
        ds = (oracle.delta_star_2nd if order == 2 else oracle.delta_star_4th)(psi, R, Z)
        big = np.max(np.abs(psi)) * (4 / eq.dR**2 + 4 / eq.dZ**2)
        m.close(ds, (-oracle.MU0 * R * keep)[1:-1, 1:-1], 1e-9, "residual", scale=big)
        m.ok(np.sign(psi[nx // 2, ny // 2]) == sgn, "source-sign")
        m.close(edges(psi), 0 * edges(psi), 1e-8, "edges-kept", scale=np.max(np.abs(psi)))
        Ip = oracle.integrate2d(keep, eq.dR, eq.dZ)
        m.close(eq.plasmaCurrent(), Ip, 1e-9, "plasma-current")
        m.close(eq.Jtor, keep, 1e-12, "current-density-kept")
        m.ok(np.array_equal(J, keep), "current-density-kept")
        m.close(eq.psi(), psi, 1e-12, "psi-is-sum")
        m.state("solve", nx, ny, order, sgn)
