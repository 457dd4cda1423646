"""C05: Picard iteration"""
import inspect

import numpy as np

import freegs
from freegs import picard
from rv import oracle, scen
from rv.core import Skip, Stop

TITLE = "Picard iteration"
RULE = (
    "Free- and fixed-boundary equilibria with random machine, profiles, constraints, sign of current, grid, blend, "
    "tolerances, iteration limits and limiter options are solved while every linear solve and every coil adjustment "
    "is traced; the trace and the final state are judged. Non-trivial: at least three iterations were observed. "
    "Distinct by (machine, profile, grid, options, number of iterations, outcome)."
)
REQUIRED_EVENTS = ("solved-again", "returned-converged", "must-raise", "consistent-state", "convergence-info", "blend", "alternation",
                   "given-boundary", "zero-beyond", "waiting", "no-boundary", "seen-limited-then-diverted")


def cases(tier, seed):
    n = 36 if tier == "quick" else 150
    out = [dict(kind="converge", seed=seed, i=i) for i in range(n)]
    out += [dict(kind="limit", seed=seed, i=i) for i in range(max(6, n // 3))]
    out += [dict(kind="info", seed=seed, i=i) for i in range(max(4, n // 4))]
    out += [dict(kind="fixed", seed=seed, i=i) for i in range(max(3, n // 5))]
    out += [dict(kind="limited", seed=seed, i=i) for i in range(max(10, n // 3))]
    out += [dict(kind="boundary", seed=seed, i=i) for i in range(max(4, n // 5))]
    out += [dict(kind="transient", seed=seed, i=i) for i in range(max(6, n // 5))]
    out += [dict(kind="open", seed=seed, i=i) for i in range(max(6, n // 5))]
    return out


class Tracer:
    """Records what the iteration does to the equilibrium"""

    def __init__(self, eq, constrain=None):
        self.eq, self.log = eq, []
        real = eq.solve
        sig = inspect.signature(real)

        def solve(*a, **k):
            b = sig.bind(*a, **k).arguments
            psi_in = b.get("psi")
            before = np.array(eq.psi())
            r = real(*a, **k)
            self.log.append(("S", None if psi_in is None else np.array(psi_in), before, np.array(eq.psi()), eq.psi_bndry,
                             bool(eq.is_limited)))
            return r

        eq.solve = solve
        self.constrain = None
        if constrain is not None:

            def con(e):
                r = constrain(e)
                self.log.append(("C", e is eq, None, np.array(eq.psi()), None, None))
                return r

            self.constrain = con

    def solves(self):
        return [x for x in self.log if x[0] == "S"]

    def stop(self):
        del self.eq.solve


def setup(rng, **kw):
    # a starting point with the right sign of current
    return scen.quick_eq(rng, steps=0, tame=True, **kw)


def judge_state(m, eq, prof, rtol, desc):
    """The final state satisfies the Grad-Shafranov equation with the current
    of its own profiles"""
    R, Z = eq.R, eq.Z
    J = np.array(eq.Jtor)
    psi = np.array(eq.psi())
    ds = (oracle.delta_star_2nd if eq.order == 2 else oracle.delta_star_4th)(eq.plasma_psi, R, Z)
    big = np.max(np.abs(eq.plasma_psi)) * (4 / eq.dR**2 + 4 / eq.dZ**2)
    m.close(ds, (-oracle.MU0 * R * J)[1:-1, 1:-1], 1e-9, "grad-shafranov", scale=big, **desc)
    pn = np.clip((psi - eq.psi_axis) / (eq.psi_bndry - eq.psi_axis), 0, 1)
    want = R * np.asarray(prof.pprime(pn)) + np.asarray(prof.ffprime(pn)) / (oracle.MU0 * R)
    if eq.mask is not None:
        want = want * eq.mask
    err = np.sum(np.abs(J - want)) / np.sum(np.abs(want))
    m.ok(err < 20 * rtol + 1.5e-3, "consistent-state", relative_L1=err, rtol=rtol, **desc)
    m.margins["consistent-state"] = max(m.margins.get("consistent-state", 0), err / (20 * rtol + 1.5e-3))
    Ip = oracle.integrate2d(J, eq.dR, eq.dZ)
    m.close(eq.plasmaCurrent(), Ip, 1e-9, "plasma-current")
    if hasattr(prof, "Ip"):
        m.close(eq.plasmaCurrent(), prof.Ip, 1e-8, "requested-current")


def judge_trace(m, tr, rtol, atol, blend, returned, has_con, desc):
    S = tr.solves()
    if not S:
        m.skip("no linear solve observed")
        return
    kinds = "".join(x[0] for x in tr.log)
    if has_con:
        # coil currents are adjusted before every linear solve
        m.ok("SS" not in kinds and kinds.startswith("C"), "alternation", trace=kinds, **desc)
        m.ok(all(x[1] for x in tr.log if x[0] == "C"), "constraint-gets-equilibrium")
    for n, (_, psi_in, before, after, bndry, lim) in enumerate(S):
        if psi_in is None:
            psi_in = before
        if n > 0:
            want = (1 - blend) * before + blend * prev_in
            sc = np.ptp(before)
            m.close(psi_in, want, 1e-9, "blend", scale=sc, iteration=n, blend=blend, **desc)
        prev_in = psi_in
    last_in = S[-1][1] if S[-1][1] is not None else S[-1][2]
    ch = np.max(np.abs(last_in - S[-1][3]))
    rel = ch / np.ptp(S[-1][3])
    if returned:
        m.ok(ch < atol or rel < rtol, "returned-converged", change=ch, relative=rel, rtol=rtol, atol=atol, **desc)
        if len(S) > 1:
            b1, b0 = S[-1][4], S[-2][4]
            m.ok(b1 is not None and (abs(b1 - b0) < max(atol, rtol * abs(b1)) * 1.0000001), "boundary-converged",
                 last=b1, previous=b0, rtol=rtol, **desc)


def solve_again(m, eq, prof, con, rtol, blend, desc, rng):
    """Something else is asked of the same equilibrium: the answer is to the new question"""
    ask = str(rng.choice(["current", "constraint", "profiles"]))
    if ask == "current" and hasattr(prof, "Ip"):
        prof.Ip = prof.Ip * float(rng.choice([0.8, 1.25]))
        if hasattr(prof, "paxis"):
            prof.paxis = prof.paxis * float(rng.choice([0.8, 1.2]))
    elif ask == "profiles":
        prof = scen.make_profiles(eq, str(rng.choice(["paxis", "betap"])), Ip=float(eq.plasmaCurrent()) * 0.9, fvac=1.3, an=1.5)
    else:
        # the points move up or down, in the same list
        con.xpoints[:] = [(r + 0.02, z * 0.97) for r, z in con.xpoints]
        (r0, z0), (r1, z1) = con.xpoints[0], con.xpoints[1]
        con.isoflux[:] = [(r0, z0, r0, -z0)]
    tr = Tracer(eq, con)
    before = np.array(eq.psi())
    try:
        freegs.solve(eq, prof, tr.constrain, rtol=rtol, maxits=80, blend=blend)
    except (RuntimeError, ValueError, TypeError, IndexError):
        return
    finally:
        tr.stop()
    if eq.psi_bndry is None or not tr.solves():
        return m.ok(bool(tr.solves()), "solved-again", what="no linear solve", asked=ask, **desc)
    info = dict(desc, asked=ask)
    judge_trace(m, tr, rtol, 1e-10, blend, True, True, info)
    judge_state(m, eq, prof, rtol, info)
    m.ok(np.max(np.abs(eq.psi() - before)) > 1e-7 * np.ptp(before), "solved-again", what="nothing changed", **info)
    if rtol <= 1e-3:
        sc = np.max(eq.Bpol(eq.R[4:-4, 4:-4], eq.Z[4:-4, 4:-4]))
        for xr, xz in con.xpoints:
            b = eq.Bpol(xr, xz)
            m.ok(b < (0.02 + 100 * rtol) * sc, "x-points-as-requested", at=[xr, xz], B=b, largest=sc, **info)


def run(case, m):
    rng = scen.rng_of(case["seed"], case["i"], sum(map(ord, case["kind"])))
    kind = case["kind"]
    n33 = dict(nx=33, ny=33)
    if kind in ("converge", "info", "limit"):
        bd = str(rng.choice(["free", "hagenow"]))
        order = int(rng.choice([2, 4]))
        grid = n33 if kind != "converge" or rng.random() < 0.8 else dict(nx=33, ny=65)
        eq, prof, con, desc = setup(rng, bd=bd, order=order, **grid)
        desc.update(bd=bd, order=order)
        blend = float(rng.choice([0.0, 0.0, 0.3, 0.5]))
        rtol = float(rng.choice([1e-2, 1e-3, 1e-4]))
        atol = float(rng.choice([1e-10, 1e-5]))
        tr = Tracer(eq, con)
        if kind == "limit":
            maxits = int(rng.choice([1, 2, 3, 5]))
            rt, at = 1e-15, 0.0
            raised = False
            try:
                freegs.solve(eq, prof, tr.constrain, rtol=rt, atol=at, maxits=maxits, blend=blend)
            except RuntimeError:
                raised = True
            except (ValueError, TypeError, IndexError) as e:
                raise Skip("no plasma: %s" % e)
            S = tr.solves()
            m.ok(raised, "must-raise", maxits=maxits, solves=len(S), **desc)
            m.ok(len(S) <= maxits + 1, "iteration-limit", maxits=maxits, solves=len(S), **desc)
            m.ok(len(S) >= maxits, "iterations-used", maxits=maxits, solves=len(S), **desc)
            judge_trace(m, tr, rt, at, blend, False, True, desc)
            m.state("limit", maxits, blend, desc)
            return
        info = kind == "info"
        maxits = None if rng.random() < 0.1 else 80
        try:
            res = picard.solve(eq, prof, tr.constrain, rtol=rtol, atol=atol, maxits=maxits, blend=blend,
                               convergenceInfo=info)
        except RuntimeError:
            m.state("gave-up", desc)
            m.ok(len(tr.solves()) >= 80, "gave-up-early", solves=len(tr.solves()), **desc)
            return
        except (ValueError, TypeError, IndexError) as e:
            raise Skip("no plasma: %s" % e)
        S = tr.solves()
        judge_trace(m, tr, rtol, atol, blend, True, True, desc)
        if info:
            mx, rl = res
            ins = [s[1] if s[1] is not None else s[2] for s in S]
            want = np.array([np.max(np.abs(i - s[3])) for i, s in zip(ins, S)])
            wrel = np.array([w / np.ptp(s[3]) for w, s in zip(want, S)])
            m.close(mx, want, 1e-9, "convergence-info", **desc)
            m.close(rl, wrel, 1e-9, "convergence-info", **desc)
        else:
            m.ok(res is None, "no-info-unless-asked")
        tr.stop()
        if eq.psi_bndry is None:
            raise Skip("no boundary")
        judge_state(m, eq, prof, rtol, desc)
        # The constraints hold in the state which is returned
        if rtol <= 1e-3:
            sc = np.max(eq.Bpol(eq.R[4:-4, 4:-4], eq.Z[4:-4, 4:-4]))
            for xr, xz in con.xpoints:
                b = eq.Bpol(xr, xz)
                m.ok(b < (0.02 + 100 * rtol * (1 - 0)) * sc, "x-points-as-requested", at=[xr, xz], B=b, largest=sc, **desc)
        if kind == "converge" and case["i"] % 2:
            solve_again(m, eq, prof, con, rtol, blend, desc, rng)
        if len(S) >= 3:
            m.state(kind, blend, rtol, len(S), desc)
        m.sample(iterations=len(S), blend=blend, rtol=rtol, **desc)
    elif kind == "fixed":
        Ip = float(rng.uniform(1e5, 4e5))
        eq = scen.build_eq(freegs.machine.EmptyTokamak(), bd="fixed", Rmin=0.5, Rmax=float(rng.uniform(1.2, 2)),
                           nx=int(rng.choice([17, 33])), ny=int(rng.choice([17, 33])))
        prof = scen.make_profiles(eq, str(rng.choice(["paxis", "pf"])), Ip=Ip)
        tr = Tracer(eq)
        rtol = float(rng.choice([1e-3, 1e-5]))
        res = freegs.solve(eq, prof, rtol=rtol, maxits=80)
        desc = dict(kind="fixed", nx=eq.nx, ny=eq.ny)
        judge_trace(m, tr, rtol, 1e-10, 0.0, True, False, desc)
        tr.stop()
        judge_state(m, eq, prof, rtol, desc)
        m.state("fixed", eq.nx, eq.ny, rtol, len(tr.solves()))
    elif kind == "limited":
        # a wall, which touches the plasma or not
        rin = float(rng.choice([0.6, 0.75, 0.9, 1.0]))
        wall = freegs.machine.Wall([rin, rin, 1.5, 1.8, 1.8, 1.5, rin], [-0.95, 0.95, 0.95, 0.25, -0.25, -0.95, -0.95])
        eq, prof, con, desc = setup(rng, wall=wall, style="coils", **n33)
        wait = bool(rng.random() < 0.4)
        limit_it = int(rng.choice([0, 0, 2, 4]))
        chk = bool(rng.random() < 0.8)
        tr = Tracer(eq, con)
        try:
            freegs.solve(eq, prof, tr.constrain, check_limited=chk, wait_for_limited=wait and chk, limit_it=limit_it,
                         maxits=60, blend=0.3)
        except RuntimeError:
            S = tr.solves()
            m.ok(len(S) >= 60, "gave-up-early", solves=len(S))
            m.state("limited gave up", desc, wait, limit_it)
            return
        except (ValueError, TypeError, IndexError) as e:
            raise Skip("no plasma: %s" % e)
        tr.stop()
        S = tr.solves()
        desc.update(rin=rin, check=chk, wait=wait, limit_it=limit_it, limited=bool(eq.is_limited))
        judge_trace(m, tr, 1e-3, 1e-10, 0.3, True, True, desc)
        if wait and chk:
            m.ok(eq.is_limited, "waited-for-limiter", **desc)
        if not chk:
            m.ok(not eq.is_limited, "not-asked-for-limiter", **desc)
        if chk:
            m.ok(not any(s[5] for s in S[:limit_it]), "limiter-delayed", seen=[s[5] for s in S], **desc)
            m.ok(eq.is_limited == (abs(eq.psi_bndry - eq.psi_limit) < 1e-14), "limited-flag", **desc)
        judge_state(m, eq, prof, 1e-3, desc)
        m.state("limited", desc, len(S))
    elif kind == "boundary":
        # the flux of the plasma boundary is given by the user
        eq, prof, con, desc = setup(rng, profile="pf", **n33)
        try:
            freegs.solve(eq, prof, con, rtol=1e-3, maxits=60)
        except (RuntimeError, ValueError, TypeError, IndexError) as e:
            raise Skip("no start: %s" % e)
        if eq.psi_bndry is None:
            raise Skip("no boundary")
        s = np.sign(eq.psi_bndry - eq.psi_axis)
        given = float(eq.psi_axis + rng.uniform(0.6, 0.85) * (eq.psi_bndry - eq.psi_axis))
        seen = []
        real = prof.Jtor
        sig = inspect.signature(real)

        def jtor(*a, **k):
            b = sig.bind(*a, **k).arguments
            J = real(*a, **k)
            seen.append((b.get("psi_bndry"), np.array(b["psi"]), np.array(J)))
            return J

        prof.Jtor = jtor
        tr = Tracer(eq, con)
        blend = float(rng.choice([0.0, 0.3]))
        ended = "returned"
        try:
            picard.solve(eq, prof, tr.constrain, rtol=1e-3, maxits=15, blend=blend, psi_bndry=given)
        except (RuntimeError, ValueError, TypeError, IndexError) as e:
            ended = type(e).__name__
        tr.stop()
        del prof.Jtor
        desc.update(ended=ended, fraction=round((given - eq.psi_axis) / (eq.psi_bndry - eq.psi_axis), 3))
        if not seen:
            raise Skip("profile not asked for its current")
        for n, (pb, psi, J) in enumerate(seen):
            m.ok(pb is not None and abs(pb - given) <= 1e-12 * abs(given), "given-boundary", iteration=n, got=pb, want=given, **desc)
            if n > 0:
                continue  # (the plasma may shrink to nothing later)
            far = s * (psi - given) > 1e-9 * np.ptp(psi)  # beyond the boundary
            m.ok(not np.any(J[far]), "zero-beyond", iteration=n, points=int(np.count_nonzero(J[far])), **desc)
        judge_trace(m, tr, 1e-3, 1e-10, blend, ended == "returned", True, desc) if ended == "returned" else None
        m.state("boundary", desc, blend)
    elif kind == "transient":
        # Limited at first, diverted later: waiting for a limited plasma must go on
        wall = freegs.machine.Wall([0.5, 0.5, 1.6, 1.6, 0.5], [-0.72, 0.72, 0.72, -0.72, -0.72])
        eq, prof, _, desc = setup(rng, wall=wall, style="coils", **n33)
        z = float(rng.uniform(0.85, 0.9))
        wide, narrow = scen.d_constraint((1.1, -z), (1.1, z)), scen.d_constraint((1.1, -0.55), (1.1, 0.55))
        switch = int(rng.integers(3, 9))
        calls = [0]

        def con(e):
            calls[0] += 1
            return (wide if calls[0] <= switch else narrow)(e)

        tr = Tracer(eq, con)
        wait = bool(rng.random() < 0.8)
        ended = "returned"
        try:
            freegs.solve(eq, prof, tr.constrain, check_limited=True, wait_for_limited=wait, maxits=30, rtol=1e-2)
        except RuntimeError:
            ended = "gave up"
        except (ValueError, TypeError, IndexError) as e:
            raise Skip("no plasma: %s" % e)
        tr.stop()
        S = tr.solves()
        lim = [s[5] for s in S]
        desc.update(wait=wait, ended=ended, solves=len(S), switch=switch)
        if any(lim) and not lim[-1]:
            m.ev("seen-limited-then-diverted")
        if ended == "returned":
            judge_trace(m, tr, 1e-2, 1e-10, 0.0, True, True, desc)
            if wait:
                m.ok(bool(eq.is_limited), "waited-for-limiter", trace=lim, **desc)
        else:
            m.ok(len(S) >= 30, "gave-up-early", **desc)
        if wait:
            m.ev("waiting")
        m.state("transient", desc, lim)
    elif kind == "open":
        # No X-point and no wall: there is no plasma boundary that could have converged
        a, b, h = float(rng.uniform(0.4, 0.7)), float(rng.uniform(1.4, 1.6)), float(rng.uniform(0.35, 0.5))
        tok = freegs.machine.TestTokamak()
        tok.wall = None
        I = float(rng.uniform(-1e5, 2e4))
        tok["P2L"].current = tok["P2U"].current = I
        eq = freegs.Equilibrium(tokamak=tok, Rmin=a, Rmax=b, Zmin=-h, Zmax=h, nx=33, ny=33, boundary=freegs.boundary.freeBoundaryHagenow)
        prof = scen.make_profiles(eq, str(rng.choice(["paxis", "betap"])), Ip=float(rng.choice([1, -1])) * 2e5)
        tr = Tracer(eq)
        maxits = int(rng.integers(8, 25))
        desc = dict(kind=kind, current=I, maxits=maxits, domain=[a, b, -h, h], limited=bool(rng.random() < 0.3))
        ended = "returned"
        try:
            freegs.solve(eq, prof, None, maxits=maxits, rtol=float(rng.choice([1e-2, 1e-3])), check_limited=desc["limited"])
        except RuntimeError:
            ended = "gave up"
        except (ValueError, TypeError, IndexError) as e:
            raise Skip("no plasma: %s" % e)
        tr.stop()
        S = tr.solves()
        if all(x[4] is None for x in S[-2:]):
            m.ok(ended == "gave up", "no-boundary", solves=len(S), **desc)
            if ended == "gave up":
                m.ok(len(S) >= maxits, "gave-up-early", solves=len(S), **desc)
        m.state(kind, maxits, round(I), ended)
    else:
        raise ValueError(kind)
