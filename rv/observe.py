"""What a user can see of an equilibrium and its machine, as plain arrays.
Nothing private is looked at, so that caches may come and go."""
import numpy as np


def machine(tok):
    out = {"labels": tuple(lab for lab, _ in tok.coils)}
    R, Z = np.linspace(0.31, 1.93, 9), np.linspace(-0.91, 0.87, 9)
    for lab, c in tok.coils:
        for a in ("current", "control", "turns", "R", "Z", "Rs", "Zsmin", "Zsmax", "Ns", "area"):
            try:
                v = getattr(c, a)
            except Exception:
                continue
            if v is not None:
                out["coil", lab, a] = np.asarray(v)
        if hasattr(c, "coils"):
            for sub, d, mult in c.coils:
                out["coil", lab, sub] = np.array([float(d.current), float(mult), float(bool(d.control))])
        out["coil", lab, "psi"] = np.asarray(c.psi(R, Z)) * np.ones(9)
    if tok.wall is not None:
        out["wall"] = np.array([list(tok.wall.R), list(tok.wall.Z)], float)
    if tok.sensors:
        out["sensors"] = repr([(type(s).__name__, s.name, s.status, s.measurement) for s in tok.sensors])
    return out


def equilibrium(eq, profiles=True):
    out = {("m",) + (k if isinstance(k, tuple) else (k,)): v for k, v in machine(eq.tokamak).items()}
    out["grid"] = np.array([eq.Rmin, eq.Rmax, eq.Zmin, eq.Zmax, eq.dR, eq.dZ, eq.R.shape[0], eq.R.shape[1]])
    out["R"], out["Z"] = np.array(eq.R), np.array(eq.Z)
    out["plasma_psi"] = np.array(eq.plasma_psi)
    out["psi"] = np.array(eq.psi())
    out["current"] = np.array(float(eq.plasmaCurrent()))
    out["order"] = np.array(eq.order)
    out["check_limited"] = np.array(bool(eq.check_limited))
    for a in ("psi_axis", "psi_bndry", "is_limited", "Jtor", "mask", "Rlim", "Zlim"):
        v = getattr(eq, a, None)
        if v is not None:
            out[a] = np.array(v)
    r, z = np.array([0.9, 1.13, 1.31]), np.array([0.11, -0.07, 0.23])
    out["fields"] = np.array([eq.Br(r, z), eq.Bz(r, z), eq.psiRZ(r, z)])
    if profiles and hasattr(eq, "_profiles"):
        p = np.linspace(0.05, 0.95, 7)
        try:
            out["profiles"] = np.array([np.vectorize(f)(p) for f in (eq.pprime, eq.ffprime, eq.pressure, eq.fpol)])
        except Exception:
            pass
        for a in ("Ip", "_Ip"):
            pass
    return out


def differences(a, b, tol=0.0):
    """Names of the things which differ"""
    bad = []
    for k in list(a) + [k for k in b if k not in a]:
        if k not in a or k not in b:
            bad.append(str(k))
            continue
        x, y = a[k], b[k]
        if isinstance(x, np.ndarray) and isinstance(y, np.ndarray):
            if x.shape != y.shape:
                bad.append(str(k))
            elif x.dtype.kind in "fc" and tol:
                s = np.max(np.abs(x)) if x.size else 0.0
                if not np.allclose(x, y, rtol=0, atol=tol * s, equal_nan=True):
                    bad.append(str(k))
            elif not np.array_equal(x, y, equal_nan=x.dtype.kind == "f"):
                bad.append(str(k))
        elif not np.all(x == y):
            bad.append(str(k))
    return bad
