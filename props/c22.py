"""C22: polygons and quadrature"""
from fractions import Fraction as Q

import numpy as np

from freegs import polygons, quadrature
from freegs.filament_coil import FilamentCoil
from freegs.shaped_coil import ShapedCoil
from rv import scen
from rv.core import Skip

TITLE = "Polygons and quadrature"
RULE = (
    "Random simple polygons (convex, star shaped and spiral concave, combs, collinear vertices, small integer grids, very small and large, both orientations, lists, tuples and arrays) and "
    "random pairs of open and closed lines. Oracle: exact rational arithmetic (orientation tests, shoelace, segment crossings, moments by Green's "
    "theorem). Distinct by (polygon kind, vertices, orientation, scale)."
)
REQUIRED_EVENTS = ("area", "clockwise", "count", "corners", "tile", "orientation", "no-overlap", "inside", "input-kept", "intersect-yes", "intersect-no", "vertex-cross", "symmetric",
                   "weights", "moment1", "moment2", "moment4", "points-inside", "average", "coil-area", "concave", "collinear", "comb", "open-gap")


def cases(tier, seed):
    n = 1000 if tier == "quick" else 6000
    out = [dict(kind="polygon", seed=seed, i=i) for i in range(n)]
    out += [dict(kind="lines", seed=seed, i=i) for i in range(n)]
    out += [dict(kind="vertex", seed=seed, i=i) for i in range(n // 3)]
    return out


def run(case, m):
    rng = scen.rng_of(case["seed"], case["i"], 22, len(case["kind"]))
    globals()[case["kind"] + "_case"](case, m, rng)


# ------------------------------------------------------------- exact geometry


def ex(p):
    return [(Q(float(r)), Q(float(z))) for r, z in p]


def orient(a, b, c):
    v = (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
    return (v > 0) - (v < 0)


def shoelace2(p):
    """Twice the signed area, positive anticlockwise"""
    return sum(p[k][0] * p[(k + 1) % len(p)][1] - p[(k + 1) % len(p)][0] * p[k][1] for k in range(len(p)))


def on(a, b, p):
    return orient(a, b, p) == 0 and min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= p[1] <= max(a[1], b[1])


def meets(a, b, c, d):
    """"cross" if they cross properly, "touch" if they only share some boundary point, "no" otherwise"""
    o1, o2, o3, o4 = orient(a, b, c), orient(a, b, d), orient(c, d, a), orient(c, d, b)
    if o1 * o2 < 0 and o3 * o4 < 0:
        return "cross"
    if on(a, b, c) or on(a, b, d) or on(c, d, a) or on(c, d, b):
        return "touch"
    return "no"


def simple(p):
    n = len(p)
    for i in range(n):
        for j in range(i + 1, n):
            r = meets(p[i], p[(i + 1) % n], p[j], p[(j + 1) % n])
            if j == i + 1 or (i == 0 and j == n - 1):
                # neighbours: no folding back
                k = p[(i + 1) % n] if j == i + 1 else p[0]
                x, y = (p[i], p[(j + 1) % n]) if j == i + 1 else (p[1], p[j])
                if orient(x, k, y) == 0 and (x[0] - k[0]) * (y[0] - k[0]) + (x[1] - k[1]) * (y[1] - k[1]) > 0:
                    return False
                if r == "cross":
                    return False
            elif r != "no":
                return False
    return True


def contains(p, q):
    """1 inside, 0 on the edge, -1 outside"""
    n = len(p)
    c = False
    for k in range(n):
        a, b = p[k], p[(k + 1) % n]
        if on(a, b, q):
            return 0
        if (a[1] > q[1]) != (b[1] > q[1]):
            x = a[0] + (q[1] - a[1]) * (b[0] - a[0]) / (b[1] - a[1])
            if q[0] < x:
                c = not c
    return 1 if c else -1


def moment(p, i, j):
    """Exact integral of x^i y^j over the polygon (positive orientation), by triangles from the first vertex with sign"""
    # integral of x^i y^j dA = 1/(i+1) * contour integral of x^(i+1) y^j dy
    tot = Q(0)
    for k in range(len(p)):
        (x0, y0), (x1, y1) = p[k], p[(k + 1) % len(p)]
        dx, dy = x1 - x0, y1 - y0
        # expand (x0 + t dx)^(i+1) (y0 + t dy)^j as polynomial in t
        poly = [Q(1)]
        for base, d, e in ((x0, dx, i + 1), (y0, dy, j)):
            for _ in range(e):
                new = [Q(0)] * (len(poly) + 1)
                for a, c in enumerate(poly):
                    new[a] += c * base
                    new[a + 1] += c * d
                poly = new
        tot += dy * sum(c / (a + 1) for a, c in enumerate(poly))
    return tot / (i + 1)


# ------------------------------------------------------------- polygons


def random_polygon(rng):
    kind = str(rng.choice(["convex", "star", "star", "comb", "spiral", "grid", "collinear", "box"]))
    if kind == "convex":
        n = int(rng.integers(3, 11))
        t = np.sort(rng.uniform(0, 2 * np.pi, n))
        p = [(float(np.cos(a)), float(0.7 * np.sin(a))) for a in t]
    elif kind == "star":
        n = int(rng.integers(4, 13))
        t = np.linspace(0, 2 * np.pi, n, endpoint=False) + rng.uniform(0, 0.3, n) * 2 * np.pi / n
        r = rng.uniform(0.15, 1.0, n)
        p = [(float(a * np.cos(b)), float(a * np.sin(b))) for a, b in zip(r, t)]
    elif kind == "comb":
        k = int(rng.integers(2, 5))
        p = [(0.0, -0.5), (float(k), -0.5)]
        for j in range(k, 0, -1):
            h = float(rng.uniform(0.3, 2.0))
            p += [(j - 0.2, h), (j - 0.5 - float(rng.uniform(0, 0.2)), float(rng.uniform(-0.3, 0.2)))]
        p.append((0.0, float(rng.uniform(0, 1))))
    elif kind == "spiral":
        k = int(rng.integers(4, 9))
        t = np.linspace(0, float(rng.uniform(3, 7)), k)
        outer = [((1 + 0.3 * a) * np.cos(a), (1 + 0.3 * a) * np.sin(a)) for a in t]
        inner = [((0.8 + 0.3 * a) * np.cos(a), (0.8 + 0.3 * a) * np.sin(a)) for a in t[::-1]]
        p = [(float(a), float(b)) for a, b in outer + inner]
    elif kind == "grid":
        n = int(rng.integers(4, 8))
        pts = {(int(a), int(b)) for a, b in rng.integers(0, 5, (n, 2))}
        pts = list(pts)
        c = np.mean(pts, axis=0) + [0.013, 0.027]
        pts.sort(key=lambda q: np.arctan2(q[1] - c[1], q[0] - c[0]))
        p = [(float(a), float(b)) for a, b in pts]
    elif kind == "collinear":
        w, h = int(rng.integers(1, 4)), int(rng.integers(1, 4))
        p = [(float(a), 0.0) for a in range(w)] + [(float(w), float(b)) for b in range(h)] + [(float(a), float(h)) for a in range(w, 0, -1)] + [(0.0, float(b)) for b in range(h, 0, -1)]
        if rng.random() < 0.5:
            # L-shape with a notch at a grid corner
            p = [(0.0, 0.0), (2.0, 0.0), (4.0, 0.0), (4.0, 2.0), (2.0, 2.0), (2.0, 4.0), (0.0, 4.0), (0.0, 2.0)]
    else:
        r, z, w, h = rng.uniform(0.1, 2, 4)
        p = [(float(r), float(z)), (float(r + w), float(z)), (float(r + w), float(z + h)), (float(r), float(z + h))]
    scale = float(2.0 ** int(rng.choice([0, 0, 0, -10, -4, 6])))
    r0, z0 = (0.0, 0.0) if rng.random() < 0.5 else (float(rng.integers(-3, 4)), float(rng.integers(-3, 4)))
    p = [(a * scale + r0, b * scale + z0) for a, b in p]
    k = int(rng.integers(len(p)))
    p = p[k:] + p[:k]
    if rng.random() < 0.5:
        p = p[::-1]
    return kind, p


def polygon_case(case, m, rng):
    kind, p = random_polygon(rng)
    e = ex(p)
    if len(set(e)) != len(e) or len(e) < 3 or not simple(e) or shoelace2(e) == 0:
        raise Skip("not a simple polygon")
    A2 = shoelace2(e)
    A = abs(float(A2) / 2)
    size = max(max(abs(a), abs(b)) for a, b in p)
    ext = max(max(a for a, _ in p) - min(a for a, _ in p), max(b for _, b in p) - min(b for _, b in p))
    if A < 1e-4 * ext * ext:
        raise Skip("sliver")
    given = [list(p), [list(q) for q in p], np.array(p)][int(rng.integers(3))]
    keep = np.array(given, float).copy()
    m.close(float(polygons.area(given)), -float(A2) / 2, 1e-12, "area", scale=size * ext, kind=kind, polygon=p)
    m.ok(bool(polygons.clockwise(given)) == (A2 < 0), "clockwise", polygon=p)
    n = len(p)
    turns = [orient(e[k - 1], e[k], e[(k + 1) % n]) for k in range(n)]
    if any(t * (1 if A2 > 0 else -1) < 0 for t in turns):
        m.ev("concave")
    if kind == "comb":
        m.ev("comb")
    if any(t == 0 for t in turns):
        m.ev("collinear")
    tri = polygons.triangulate(given)
    m.ok(np.array_equal(np.array(given, float), keep) and len(given) == n, "input-kept")
    m.ok(len(tri) == n - 2 and all(len(t) == 3 for t in tri), "count", got=len(tri), vertices=n, polygon=p)
    et = [ex(t) for t in tri]
    m.ok(all(v in e for t in et for v in t), "corners", polygon=p)
    m.ok(sum(abs(shoelace2(t)) for t in et) == abs(A2), "tile", polygon=p, got=float(sum(abs(shoelace2(t)) for t in et)) / 2, want=A, kind=kind)
    m.ok(all(shoelace2(t) <= 0 for t in et), "orientation", what="clockwise", polygon=p)
    # inside: centroid and edge midpoints of each triangle belong to the polygon
    for t in et:
        if shoelace2(t) == 0:
            continue
        c = (sum(v[0] for v in t) / 3, sum(v[1] for v in t) / 3)
        m.ok(contains(e, c) == 1, "inside", what="centroid", triangle=[(float(a), float(b)) for a, b in t], polygon=p)
        for k in range(3):
            q = ((t[k][0] + t[k - 1][0]) / 2, (t[k][1] + t[k - 1][1]) / 2)
            m.ok(contains(e, q) >= 0, "inside", what="edge", triangle=[(float(a), float(b)) for a, b in t], polygon=p)
    # no overlap: a centroid belongs to one triangle only
    for i, t in enumerate(et):
        if shoelace2(t) == 0:
            continue
        c = (sum(v[0] for v in t) / 3, sum(v[1] for v in t) / 3)
        m.ok(sum(contains(s, c) == 1 for s in et if shoelace2(s) != 0) == 1, "no-overlap", polygon=p)
    # Quadrature
    s = [(a - min(x for x, _ in e)) / Q(float(ext)) for a, _ in e], [(b - min(x for _, x in e)) / Q(float(ext)) for _, b in e]
    es = list(zip(*s))
    r0, z0 = float(min(x for x, _ in e)), float(min(x for _, x in e))
    sgn = 1 if A2 > 0 else -1
    A0 = float(moment(es, 0, 0)) * sgn
    for npts, deg in ((1, 1), (3, 2), (6, 4)):
        quad = quadrature.polygon_quad(given, n=npts)
        m.close(sum(w for _, _, w in quad), 1.0, 1e-11, "weights", n=npts, polygon=p)
        m.ok(all(w >= 0 for _, _, w in quad), "weights", what="positive", n=npts)
        m.ok(np.array_equal(np.array(given, float), keep), "input-kept")
        for i in range(deg + 1):
            for j in range(deg + 1 - i):
                if i + j == 0:
                    continue
                want = float(moment(es, i, j)) * sgn / A0
                got = sum(((r - r0) / ext) ** i * ((z - z0) / ext) ** j * w for r, z, w in quad)
                m.close(float(got), want, 1e-9, "moment%d" % deg, n=npts, power=(i, j), polygon=p, scale=1.0)
        for r, z, w in quad:
            if w > 1e-9:
                m.ok(contains(e, (Q(float(r)), Q(float(z)))) >= 0, "points-inside", n=npts, at=(float(r), float(z)), polygon=p)
        f = lambda r, z: 2.0 + r - 0.5 * z
        m.close(float(quadrature.average(f, quad)), 2.0 + float(moment(es, 1, 0)) * sgn / A0 * ext + r0 - 0.5 * (float(moment(es, 0, 1)) * sgn / A0 * ext + z0), 1e-9, "average", scale=1 + size, n=npts)
    if min(a for a, _ in p) > 0:
        m.close(float(ShapedCoil(p).area), A, 1e-9, "coil-area", scale=size * ext, polygon=p)
        m.close(float(FilamentCoil([p[0][0]], [p[0][1]], shape=p).area), A, 1e-9, "coil-area", scale=size * ext, polygon=p)
    m.state(kind, n, sgn, round(size, 6), round(A, 8))
    m.sample(kind=kind, vertices=n, area=A, triangles=len(tri))


# ------------------------------------------------------------- crossing lines


def relation(a, b, closed1, closed2):
    """exact: (any proper crossing, any contact, smallest relative sine and distance from the ends of crossings)"""
    n1, n2 = len(a) - (not closed1), len(b) - (not closed2)
    cross = touch = False
    for i in range(n1):
        for j in range(n2):
            r = meets(a[i], a[(i + 1) % len(a)], b[j], b[(j + 1) % len(b)])
            cross |= r == "cross"
            touch |= r == "touch"
    return cross, touch


def nearly(a, b, closed1, closed2):
    """Is there a crossing at a very small angle only? Those are documented to be ignored"""
    for i in range(len(a) - (not closed1)):
        for j in range(len(b) - (not closed2)):
            p, q, r, s = a[i], a[(i + 1) % len(a)], b[j], b[(j + 1) % len(b)]
            if meets(p, q, r, s) == "cross":
                u, v = np.array([float(q[0] - p[0]), float(q[1] - p[1])]), np.array([float(s[0] - r[0]), float(s[1] - r[1])])
                if abs(u[0] * v[1] - u[1] * v[0]) > 1e-4 * np.hypot(*u) * np.hypot(*v):
                    return False
    return True


def gap(a, b, closed1, closed2):
    """smallest distance between the lines"""
    import shapely

    f = lambda p, c: shapely.LineString([(float(x), float(y)) for x, y in (list(p) + [p[0]] if c else p)])
    return shapely.distance(f(a, closed1), f(b, closed2))


def lines_case(case, m, rng):
    scale = float(10.0 ** rng.choice([0, 0, 0, -5, -3, 3]))
    style = str(rng.choice(["polygons", "lines", "contour", "open-gap"]))
    c1, c2 = bool(rng.random() < 0.5), bool(rng.random() < 0.5)
    if style == "polygons":
        p = scen.star_polygon(rng, int(rng.integers(3, 9)), 1.0, 0.0, 1.0)
        q = scen.star_polygon(rng, int(rng.integers(3, 9)), 1.0 + float(rng.uniform(-2, 2)), float(rng.uniform(-2, 2)), float(rng.uniform(0.2, 1.5)))
    elif style == "lines":
        p = rng.uniform(-1, 1, (int(rng.integers(2, 5)), 2)).tolist()
        q = rng.uniform(-1, 1, (int(rng.integers(2, 5)), 2)).tolist()
        c1 = c1 and len(p) > 2
        c2 = c2 and len(q) > 2
    elif style == "contour":
        # a finely sampled closed contour and a wall, like a separatrix
        t = np.linspace(0, 2 * np.pi, int(rng.integers(40, 200)), endpoint=False)
        a = float(rng.uniform(0.5, 1.3))
        p = [(float(1.0 + a * 0.5 * np.cos(x + 0.3 * np.sin(x))), float(a * np.sin(x))) for x in t]
        q = [(0.3, -1.1), (0.3, 1.1), (1.2, 1.1), (1.7, 0.0), (1.2, -1.1)]
        c1 = c2 = True
    else:
        # open line whose closing segment would cross, but which itself does not
        p = [(0.0, 0.0), (0.0, 1.0), (1.0, 1.0), (1.0, 0.0)]
        x = float(rng.uniform(0.1, 0.9))
        q = [(x, -0.5), (x, float(rng.uniform(0.1, 0.9)))]
        c1, c2 = bool(rng.random() < 0.4), False
        k = int(rng.integers(4))
        if c1:
            p = p[k:] + p[:k]
        m.ev("open-gap")
    p = [(float(a) * scale, float(b) * scale) for a, b in p]
    q = [(float(a) * scale, float(b) * scale) for a, b in q]
    if rng.random() < 0.5:
        p = p[::-1]
    cross, touch = relation(ex(p), ex(q), c1, c2)
    args = ([a for a, _ in p], [b for _, b in p], [a for a, _ in q], [b for _, b in q])
    if rng.random() < 0.3:
        args = tuple(np.array(v) for v in args)
    got = bool(polygons.intersect(*args, closed1=c1, closed2=c2))
    back = bool(polygons.intersect(*args[2:], *args[:2], closed1=c2, closed2=c1))
    if cross and not nearly(ex(p), ex(q), c1, c2):
        m.ok(got, "intersect-yes", first=p[:8], second=q[:8], closed=(c1, c2))
        m.ok(back, "symmetric", first=p[:8], second=q[:8], closed=(c1, c2))
        if c1 and c2:
            m.ok(bool(polygons.intersect(*args)), "intersect-yes", what="closed by default", first=p[:8], second=q[:8])
    elif not cross and not touch and gap(p, q, c1, c2) > 1e-9 * scale:
        m.ok(not got, "intersect-no", first=p[:8], second=q[:8], closed=(c1, c2))
        m.ok(not back, "symmetric", first=p[:8], second=q[:8], closed=(c1, c2))
    else:
        raise Skip("degenerate")
    m.state("lines", style, c1, c2, cross, scale, len(p), len(q), round(p[0][0] / scale, 4))


def vertex_case(case, m, rng):
    """A line which crosses from outside to inside exactly at a vertex"""
    s = int(rng.integers(1, 4))
    diamond = [(0, s), (s, 0), (0, -s), (-s, 0)]
    box = [(-s, -s), (s, -s), (s, s), (-s, s)]
    which = int(rng.integers(3))
    if which == 0:
        poly, line = box, [(-2 * s, -2 * s), (0, 0)]
    elif which == 1:
        poly, line = diamond, [(-3 * s, 0), (int(rng.choice([0, 3 * s])), 0)]
    else:
        poly, line = diamond, [(0, 4 * s), (0, s), (0, 0)]
        if rng.random() < 0.5:
            line = [(0, 4 * s), (0, 0)]
    k = int(rng.integers(4))
    poly = poly[k:] + poly[:k]
    if rng.random() < 0.5:
        line = line[::-1]
    dr = int(rng.integers(-3, 4))
    poly, line = [(a + dr, b) for a, b in poly], [(a + dr, b) for a, b in line]
    args = ([a for a, _ in line], [b for _, b in line], [a for a, _ in poly], [b for _, b in poly])
    m.ok(bool(polygons.intersect(*args, closed1=False)), "vertex-cross", line=line, polygon=poly)
    m.ok(bool(polygons.intersect(*args[2:], *args[:2], closed2=False)), "vertex-cross", what="other order", line=line, polygon=poly)
    m.state("vertex", which, k, s, dr, len(line))
