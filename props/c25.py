"""C25: multigrid"""
import numpy as np
from scipy.sparse.linalg import spsolve

from freegs import multigrid
from freegs.gradshafranov import GSsparse
from rv import scen
from rv.core import Skip, quiet

TITLE = "Multigrid"
RULE = (
    "Random grids (square, rectangular, anisotropic, not divisible), domains, numbers of levels, cycles and smoothing steps, direct or iterative coarsest level, smooth and rough right hand sides and starts, for the "
    "Grad-Shafranov and Laplace operators and inside equilibria. Oracle: own sparse direct solution; residual and error watched after every cycle. Distinct by (operator, grid, levels, cycles, steps)."
)
REQUIRED_EVENTS = ("fixed-point", "error-falls", "residual-falls", "converges", "edges", "rhs-kept", "cycles-compose", "direct", "indivisible", "override", "restrict-shape", "restrict-linear", "interpolate",
                   "equilibrium", "equilibrium-solve", "python-cycle", "python-operator", "beats-smoothing", "seen-rectangle", "seen-anisotropic", "seen-deep", "seen-iterative-bottom")


def cases(tier, seed):
    n = 400 if tier == "quick" else 1500
    out = [dict(kind="cycle", seed=seed, i=i) for i in range(n)]
    out += [dict(kind="equil", seed=seed, i=i) for i in range(n // 6)]
    out += [dict(kind="transfer", seed=seed, i=i) for i in range(n // 4)]
    out += [dict(kind="python", seed=seed, i=i) for i in range(n // 8)]
    return out


def run(case, m):
    rng = scen.rng_of(case["seed"], case["i"], 25, len(case["kind"]), ord(case["kind"][0]))
    globals()[case["kind"] + "_case"](case, m, rng)


def operator(rng):
    if rng.random() < 0.75:
        a = float(rng.uniform(0.05, 1.0))
        b = a + float(rng.uniform(0.5, 2.5))
        h = float(rng.uniform(0.4, 2.0))
        return "GS", GSsparse(a, b, -h, h), (a, b, -h, h)
    L = [float(v) for v in rng.uniform(0.5, 3, 2)]
    return "Laplace", multigrid.LaplaceSparse(*L), (0, L[0], 0, L[1])


def rhs(rng, shape, rough):
    x, y = np.meshgrid(np.linspace(0, 1, shape[0]), np.linspace(0, 1, shape[1]), indexing="ij")
    if rough:
        b = rng.normal(size=shape) * 10
    else:
        b = sum(rng.normal() * np.exp(-((x - rng.uniform(0.2, 0.8)) ** 2 + (y - rng.uniform(0.2, 0.8)) ** 2) / 0.05) for _ in range(3)) * 10
    edge = float(rng.choice([0.0, 1.0])) * (np.sin(3 * x) + y**2)
    for s in (np.s_[0, :], np.s_[-1, :], np.s_[:, 0], np.s_[:, -1]):
        b[s] = edge[s]
    return b


def exact(A, b):
    return spsolve(A.tocsc(), b.ravel()).reshape(b.shape)


def residual(A, x, b):
    r = (b.ravel() - A.dot(x.ravel())).reshape(b.shape)[1:-1, 1:-1]
    return float(np.sqrt(np.mean(r**2)))


def cycle_case(case, m, rng):
    name, gen, dom = operator(rng)
    nx, ny = [(9, 9), (17, 17), (33, 33), (33, 17), (17, 65), (65, 17), (25, 33), (13, 21), (65, 65)][int(rng.integers(9))]
    levels, niter, direct = int(rng.integers(1, 6)), int(rng.choice([1, 2, 3, 5, 10])), bool(rng.random() < 0.7)
    rough = bool(rng.random() < 0.5)
    b = rhs(rng, (nx, ny), rough)
    A = gen(nx, ny)
    ex = exact(A, b)
    scale = float(np.max(np.abs(ex))) + 1e-30
    info = dict(operator=name, nx=nx, ny=ny, levels=levels, niter=niter, bottom=direct, domain=[round(v, 3) for v in dom])
    keep = b.copy()
    if nx != ny:
        m.ev("seen-rectangle")
    # ratio of the spacings
    ratio = ((dom[1] - dom[0]) / (nx - 1)) / ((dom[3] - dom[2]) / (ny - 1))
    if ratio > 3 or ratio < 1 / 3:
        m.ev("seen-anisotropic")
    if name == "GS":
        # used in a like domain before
        near = multigrid.createVcycle(nx, ny, GSsparse(*scen.neighbour(rng, dom)), nlevels=levels, ncycle=1, niter=niter, direct=direct)
        near(np.zeros((nx, ny)), b)
    s = multigrid.createVcycle(nx, ny, gen, nlevels=levels, ncycle=1, niter=niter, direct=direct)
    if levels == 1 and direct:
        m.close(s(np.zeros((nx, ny)), b), ex, 1e-9, "direct", scale=scale, **info)
        m.ok(np.array_equal(b, keep), "rhs-kept", **info)
        m.state("direct", name, nx, ny)
        return
    if levels >= 4:
        m.ev("seen-deep")
    if not direct:
        m.ev("seen-iterative-bottom")
    m.close(s(ex.copy(), b), ex, 1e-8, "fixed-point", scale=scale, **info)
    x = rng.normal(size=(nx, ny)) * scale * 0.3 if rng.random() < 0.3 else np.zeros((nx, ny))
    e0 = err = float(np.sqrt(np.mean((x - ex) ** 2)))
    res = None
    K = 10
    for k in range(K):
        x = np.array(s(x.copy(), b))
        m.ok(np.allclose(x[0], b[0]) and np.allclose(x[-1], b[-1]) and np.allclose(x[:, 0], b[:, 0]) and np.allclose(x[:, -1], b[:, -1]), "edges", cycle=k, **info)
        e, r = float(np.sqrt(np.mean((x - ex) ** 2))), residual(A, x, b)
        if k >= 1 and e > 1e-8 * scale:
            m.ok(e < err, "error-falls", cycle=k, before=err, now=e, **info)
            if 0.25 < ratio < 4:
                m.ok(r < res, "residual-falls", cycle=k, before=res, now=r, **info)
        first = r if k == 0 else first
        err, res = e, r
    m.ok(res < first or err < 1e-8 * scale, "residual-falls", what="all cycles", first=first, last=res, **info)
    if levels > 1:
        m.ok(err < (0.7 if direct else 1.0) * e0 + 1e-8 * scale, "converges", start=e0, end=err, **info)
        # the coarse grids help: plain smoothing with the same number of steps
        # is worse for smooth problems
        if not rough and min(nx, ny) >= 33 and direct and e0 > 0.1 * scale:
            y = np.zeros((nx, ny))
            J = multigrid.MGJacobi(A, ncycle=K, niter=niter)
            y = J(y, b)
            m.ok(err < float(np.sqrt(np.mean((y - ex) ** 2))), "beats-smoothing", **info)
    m.ok(np.array_equal(b, keep), "rhs-kept", **info)
    # Several cycles at once are the same as one after the other
    k = int(rng.integers(2, 5))
    many = multigrid.createVcycle(nx, ny, gen, nlevels=levels, ncycle=k, niter=niter, direct=direct)(np.zeros((nx, ny)), b)
    y = np.zeros((nx, ny))
    for _ in range(k):
        y = np.array(s(y, b))
    if levels > 1 and all((v - 1) % 2 == 0 for v in (nx, ny)):
        m.close(many, y, 1e-9, "cycles-compose", scale=scale, cycles=k, **info)
        z = s(np.zeros((nx, ny)), b, ncycle=k)
        m.close(z, y, 1e-9, "override", scale=scale, cycles=k, **info)
    m.state(name, nx, ny, levels, niter, direct, rough)
    m.sample(start=e0, after=err, cycles=K, **info)
    if rng.random() < 0.2:
        # can't be divided: solved directly
        a, c = (10, 17) if rng.random() < 0.5 else (17, 12)
        b2 = rhs(rng, (a, c), rough)
        y = multigrid.createVcycle(a, c, gen, nlevels=4, niter=3)(np.zeros((a, c)), b2)
        m.close(y, exact(gen(a, c), b2), 1e-9, "indivisible", grid=(a, c), **info)


def transfer_case(case, m, rng):
    nx, ny = [2 ** int(rng.integers(2, 6)) + 1 for _ in range(2)]
    i, j = np.meshgrid(np.arange(nx), np.arange(ny), indexing="ij")
    c = rng.normal(size=4)
    f = c[0] + c[1] * i + c[2] * j + c[3] * i * j / 10
    keep = f.copy()
    r = multigrid.restrict(f, avg=True)
    ok = m.ok(r.shape == ((nx + 1) // 2, (ny + 1) // 2) and np.array_equal(f, keep), "restrict-shape", got=list(r.shape), of=[nx, ny])
    if ok:
        m.close(r[1:-1, 1:-1], f[2:-2:2, 2:-2:2], 1e-12, "restrict-linear", scale=np.max(np.abs(f)), grid=(nx, ny))
    # into a given array; a grid which can't be divided stays as it is
    o = np.full(r.shape, 7.0)
    multigrid.restrict(f, o, avg=True)
    m.close(o[1:-1, 1:-1], f[2:-2:2, 2:-2:2], 1e-12, "restrict-linear", scale=np.max(np.abs(f)), what="into a given array")
    h = f[:-1, :] if rng.random() < 0.5 else f[:, :-1]
    o = np.full(h.shape, 7.0)
    multigrid.restrict(h, o, avg=True)
    m.ok(np.array_equal(multigrid.restrict(h, avg=True), h) and np.array_equal(o, h), "restrict-shape", what="can't be divided", of=list(h.shape))
    g = rng.normal(size=(nx, ny))
    g[0] = g[-1] = 0
    g[:, 0] = g[:, -1] = 0
    up = multigrid.interpolate(g)
    want = np.zeros((2 * nx - 1, 2 * ny - 1))
    want[::2, ::2] = g
    want[1::2, ::2] = 0.5 * (g[1:] + g[:-1])
    want[:, 1::2] = 0.5 * (want[:, 2::2] + want[:, :-2:2])
    m.ok(up.shape == want.shape, "interpolate", got=list(up.shape))
    m.close(up, want, 1e-12, "interpolate", scale=1.0, grid=(nx, ny))
    # into a given array
    o = np.full(want.shape, 7.0)
    multigrid.interpolate(g, o)
    m.close(o, want, 1e-12, "interpolate", scale=1.0, what="into a given array")
    m.state("transfer", nx, ny, round(float(c[0]), 4))


def python_case(case, m, rng):
    nx, ny = [(9, 17), (17, 17), (33, 17), (17, 33)][int(rng.integers(4))]
    Lx, Ly = [float(v) for v in rng.uniform(0.7, 1.5, 2)]
    dx, dy = Lx / (nx - 1), Ly / (ny - 1)
    A = multigrid.LaplacianOp()
    S = multigrid.LaplaceSparse(Lx, Ly)(nx, ny)
    f = rng.normal(size=(nx, ny))
    m.close(A(f, dx, dy)[1:-1, 1:-1], S.dot(f.ravel()).reshape(nx, ny)[1:-1, 1:-1], 1e-9, "python-operator", scale=np.max(np.abs(f)) / min(dx, dy) ** 2, grid=(nx, ny))
    b = rng.normal(size=(nx, ny))
    b[0] = b[-1] = 0
    b[:, 0] = b[:, -1] = 0
    ex = exact(S, b)
    x = np.zeros((nx, ny))
    e = np.sqrt(np.mean(ex**2))
    sub, niter = int(rng.integers(0, 3)), int(rng.integers(2, 8))
    for k in range(8):
        with quiet():
            x = multigrid.smoothVcycle(A, x, b, dx, dy, niter=niter, sublevels=sub) if k else multigrid.smoothMG(A, x, b, dx, dy, niter=niter, sublevels=sub, ncycle=1)
        now = np.sqrt(np.mean((x - ex) ** 2))
        m.ok(now < e, "python-cycle", cycle=k, before=e, now=now, sub=sub, niter=niter, grid=(nx, ny))
        e = now
    m.state("python", nx, ny, sub, niter)


def equil_case(case, m, rng):
    nx, ny = [(17, 17), (33, 33), (33, 17), (17, 33)][int(rng.integers(4))]
    dom = (0.1, 2.0, -1.0, 1.0)
    near = scen.neighbour(rng, dom)
    other = scen.build_eq(nx=nx, ny=ny, order=2, Rmin=near[0], Rmax=near[1], Zmin=near[2], Zmax=near[3])
    other.setSolverVcycle(nlevels=4, ncycle=2, niter=6, direct=True)
    eq = scen.build_eq(nx=nx, ny=ny, order=2)
    b = rhs(rng, (nx, ny), False)
    A = GSsparse(eq.Rmin, eq.Rmax, eq.Zmin, eq.Zmax)(nx, ny)
    ex = exact(A, b)
    scale = np.max(np.abs(ex))
    levels, niter = int(rng.integers(2, 5)), int(rng.choice([6, 10]))
    info = dict(nx=nx, ny=ny, levels=levels, niter=niter)
    eq.setSolverVcycle(nlevels=levels, ncycle=60, niter=niter, direct=True)
    x = eq.callSolver(np.zeros((nx, ny)), b)
    m.close(x, ex, 0.01, "equilibrium", scale=scale, **info)
    eq.setSolverVcycle(nlevels=1, direct=True)
    m.close(eq.callSolver(np.zeros((nx, ny)), b), ex, 1e-9, "equilibrium", scale=scale, what="direct", **info)
    # a whole solve, against the default direct solver
    out = []
    seed = int(rng.integers(2**31))
    for mg in (False, True):
        e = scen.build_eq(nx=33, ny=33, order=2)
        prof = scen.make_profiles(e, "paxis", Ip=2e5, paxis=1e3)
        con = scen.d_constraint()
        if mg:
            e.setSolverVcycle(nlevels=levels, ncycle=80, niter=niter, direct=True)
        try:
            for _ in range(2):
                con(e)
                e.solve(prof)
        except (ValueError, RuntimeError) as err:
            raise Skip(str(err))
        out.append(np.array(e.plasma_psi))
    m.close(out[1], out[0], 0.01, "equilibrium-solve", scale=np.ptp(out[0]), **info)
    m.state("equil", nx, ny, levels, niter)
