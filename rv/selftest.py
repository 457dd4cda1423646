"""The oracles checked against each other, and the monitor against known
violations, before any check is believed. Does not judge freegs."""
import importlib
import os

import numpy as np

from . import core, fields, oracle, scen


def main():
    rng = np.random.default_rng(1)
    # closed form and quadrature of the loop field agree
    for _ in range(5):
        rc, zc, r, z = rng.uniform(0.5, 2), rng.normal(), rng.uniform(0.3, 3), rng.normal() + 2
        h = 1e-5
        psi = lambda a, b: float(oracle.loop_psi(rc, zc, a, b))
        br, bz = oracle.loop_B(rc, zc, r, z)
        assert abs(float(bz) - (psi(r + h, z) - psi(r - h, z)) / (2 * h * r)) < 1e-5 * abs(psi(r, z))
        assert abs(float(br) + (psi(r, z + h) - psi(r, z - h)) / (2 * h * r)) < 1e-5 * abs(psi(r, z))
    # critical points of analytic fluxes
    fl = fields.random_flux(rng, (1.0, 2.0, -1.0, 1.0))
    for t in fl.critical((1.0, 2.0, -1.0, 1.0)):
        assert np.hypot(*fl.grad(t[0], t[1])) < 1e-9
    # the monitor reports what it must
    m = core.Monitor("T00", {})
    m.close([1.0, 2.0], [1.0, 2.1], 1e-3, "a")
    m.close([np.nan], [1.0], 1e-3, "b")
    m.close([1.0], [[1.0]], 1e-3, "c")
    m.ok(False, "d")
    assert [v["rule"] for v in m.violations] == ["a", "b", "c", "d"]
    m = core.Monitor("T00", {})
    m.close([1.0], [1.0 + 1e-9], 1e-6, "a")
    assert not m.violations
    n = 0
    for f in sorted(os.listdir(os.path.join(core.VERIF, "props"))):
        if f.startswith("c") and f.endswith(".py"):
            mod = importlib.import_module("props." + f[:-3])
            for tier in ("quick", "thorough"):
                assert len(mod.cases(tier, 1)) > 0
            n += 1
    print("selftest: oracles consistent, %d property modules" % n)
    return 0
