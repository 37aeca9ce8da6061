"""C17: point generators place the requested points on the specified shape."""
import numpy as np
from hypothesis import strategies as st

import aspsim.room.generatepoints as gp
from vlib.harness import Test, Violation
from vlib.simh import assert_close, finite, rng_of

RULE = ("A case is one call of a generator (or a set of coordinates for the conversions). Non-trivial: at least three points are requested, "
        "or for conversions at least one point off the axes.")
ASSUMPTIONS = ["which corner is the first and in which direction the rectangle is followed is left open",
               "points in a corner may be displaced along either side",
               "concentrical_circles is asked for at least one point per circle; equidistant_rectangle_old and equidistant_rectangle_for_fewer are legacy and left out",
               "uniform_disc is only required to be a regular, complete grid in the disc that is at least as wide as the requested distance and has less than one step more than a grid of that distance"]

length = st.one_of(st.sampled_from([1, 2, 0.5, 3]), st.floats(0.05, 20).map(lambda v: round(v, 3)))
zst = st.one_of(st.none(), st.just(0), st.floats(-5, 5).map(lambda v: round(v, 3)))


def check_z(p, z, what):
    d = 2 if z is None else 3
    if p.ndim != 2 or p.shape[1] != d:
        raise Violation(f"{what} with z={z}: shape {p.shape}")
    finite(p, what)
    if z is not None and not np.array_equal(p[:, 2], np.full(len(p), float(z))):
        raise Violation(f"{what}: the height is not {z} for all points: {np.unique(p[:, 2])[:5]}")


def ang_close(a, b, what, tol=1e-7):
    d = np.abs((np.asarray(a) - np.asarray(b) + np.pi) % (2 * np.pi) - np.pi)
    if d.size and not d.max() <= tol:
        i = int(np.argmax(d))
        raise Violation(f"{what}: angle of point {i} is {np.ravel(a)[i]}, expected {np.ravel(b)[i]}")


# ---------------------------------------------------------------- circles
@st.composite
def circle_st(draw):
    r = draw(st.one_of(length, st.tuples(length, length).map(sorted).map(list)))
    return {"n": draw(st.integers(1, 40)), "radius": r, "start": draw(st.one_of(st.none(), st.floats(-10, 10))), "z": draw(zst),
            "seed": draw(st.integers(0, 9999))}


def check_circle(p, n, radius, start, what):
    if len(p) != n:
        raise Violation(f"{what}: {n} points requested, {len(p)} returned")
    rr = np.hypot(p[:, 0], p[:, 1])
    lo, hi = (radius, radius) if not isinstance(radius, (list, tuple)) else radius
    if (rr < lo * (1 - 1e-9)).any() or (rr > hi * (1 + 1e-9)).any():
        raise Violation(f"{what}: radii {rr.min()} to {rr.max()} are not within {lo} and {hi}")
    if start is not None:
        ang_close(np.arctan2(p[:, 1], p[:, 0]), start + 2 * np.pi * np.arange(n) / n, what)
    else:
        a = np.arctan2(p[:, 1], p[:, 0])
        ang_close(a, a[0] + 2 * np.pi * np.arange(n) / n, what)
    return rr


def circle(case, ctx):
    kw = {"rng": np.random.default_rng(case["seed"])}
    if case["start"] is not None:
        kw["start_angle"] = case["start"]
    if case["z"] is not None:
        kw["z"] = case["z"]
    rad = tuple(case["radius"]) if isinstance(case["radius"], list) else case["radius"]
    p = np.asarray(gp.equiangular_circle(case["n"], rad, **kw))
    check_z(p, case["z"], "equiangular_circle")
    rr = check_circle(p, case["n"], case["radius"], case["start"] or 0, "equiangular_circle")
    if isinstance(case["radius"], list) and case["n"] > 3 and case["radius"][1] > case["radius"][0] * 1.05:
        if np.ptp(rr) < 1e-6 * case["radius"][1]:
            raise Violation("equiangular_circle: all random radii are equal")
        kw["rng"] = np.random.default_rng(case["seed"])
        if not np.array_equal(p, gp.equiangular_circle(case["n"], rad, **kw)):
            raise Violation("equiangular_circle: equally seeded generators give different points")
        big = np.hypot(*np.asarray(gp.equiangular_circle(2000, rad, rng=kw["rng"]))[:, :2].T)
        u = (big - case["radius"][0]) / (case["radius"][1] - case["radius"][0])
        c = np.histogram(np.clip(u, 0, 1 - 1e-12), bins=5, range=(0, 1))[0]
        if np.sum((c - 400.0) ** 2) / 400 > 60:   # chi-square, 4 dof: 1e-12
            raise Violation(f"equiangular_circle: radii are not uniform between the limits: {c}")
    ctx.nt(case["n"] >= 3)


@st.composite
def conc_st(draw):
    k = draw(st.integers(1, 6))
    return {"n": draw(st.integers(k, 40)), "k": k, "radius": draw(st.one_of(length, st.tuples(length, length).map(sorted).map(list))),
            "dz": draw(st.one_of(st.none(), length)), "mode": draw(st.sampled_from(["default", "random", "same", "almostSame", "distribute"]))}


def split(n, k):
    return [n // k + (1 if i < n % k else 0) for i in range(k)]


def concentric(case, ctx):
    n, k = case["n"], case["k"]
    rad = tuple(case["radius"]) if isinstance(case["radius"], list) else case["radius"]
    kw = {} if case["mode"] == "default" else {"angle_offset": case["mode"]}
    if case["dz"] is not None:
        kw["z_distance"] = case["dz"]
    p = np.asarray(gp.concentrical_circles(n, k, rad, **kw))
    if p.shape != (n, 2 if case["dz"] is None else 3):
        raise Violation(f"concentrical_circles: {n} points requested, shape {p.shape}")
    i0 = 0
    per = split(n, k)
    starts = []
    for i, m in enumerate(per):
        q = p[i0:i0 + m]
        i0 += m
        start = None
        sec = 2 * np.pi / per[0]
        if case["mode"] == "same":
            start = 0.0
        elif case["mode"] in ("default", "distribute"):
            start = i * sec / k
        check_circle(q, m, case["radius"], start, f"concentrical_circles, circle {i}")
        a0 = np.arctan2(q[0, 1], q[0, 0]) % (2 * np.pi)
        starts.append(a0)
        if case["mode"] == "almostSame" and not (a0 <= sec / 10 + 1e-9 or a0 > 2 * np.pi - 1e-9):
            raise Violation(f"concentrical_circles: start angle {a0} of circle {i} is not almost the same as the others")
        if case["dz"] is not None:
            want = (i - (k - 1) / 2) * case["dz"]
            assert_close(q[:, 2], np.full(m, want), f"concentrical_circles: height of circle {i} of {k}", 1e-12)
    if case["mode"] == "random" and k > 1 and len(set(np.round(starts, 9))) == 1:
        raise Violation("concentrical_circles: random start angles are all equal")
    ctx.label("conc:" + case["mode"])
    ctx.nt(n >= 3 and k >= 2)


# ---------------------------------------------------------------- rectangles
@st.composite
def rect_st(draw):
    extra = draw(st.one_of(st.just(0), length, st.tuples(st.one_of(st.just(0), length), length).map(list)))
    sides = draw(st.one_of(st.tuples(length, length).map(list), length.map(lambda v: [v, v])))
    return {"n": draw(st.one_of(st.integers(1, 13), st.sampled_from([4, 8, 12, 16, 20]), st.integers(1, 60))), "sides": sides,
            "as": draw(st.sampled_from(["list", "tuple", "array"])), "extra": extra,
            "offset": draw(st.one_of(st.none(), st.sampled_from([0, 1, 0.5, 0.25]), st.floats(0, 1))), "z": draw(zst)}


CORNERS = [(-1, -1), (-1, 1), (1, 1), (1, -1)]


def walk(s, sides, start, cw):
    """perimeter distance -> (points, list of sets of outward axes per point)"""
    ring = CORNERS[start:] + CORNERS[:start]
    if not cw:
        ring = [ring[0]] + ring[:0:-1]
    pts = np.array(ring, dtype=float) * np.array(sides) / 2
    seg = [float(np.abs(pts[(i + 1) % 4] - pts[i]).sum()) for i in range(4)]
    per = sum(seg)
    bp = np.concatenate(([0], np.cumsum(seg)))
    s = np.mod(s, per)
    out = np.zeros((len(s), 2))
    for j, v in enumerate(s):
        i = min(int(np.searchsorted(bp, v, side="right")) - 1, 3)
        d = (pts[(i + 1) % 4] - pts[i]) / seg[i]
        out[j] = pts[i] + d * (v - bp[i])
    return out


def check_rectangle(p2, n, sides, extra, offset, what, starts=range(4), dirs=(True, False)):
    """Every other point is displaced outwards by extra/2 along the normal of its side."""
    if p2.shape[0] != n:
        raise Violation(f"{what}: {n} points requested, {p2.shape[0]} returned")
    ex = extra if isinstance(extra, (list, tuple)) else [extra, extra]
    per = 2 * (sides[0] + sides[1])
    s = (np.arange(n) + offset) * per / n
    tol = 1e-9 * max(per, 1)
    ok_any, worst = False, None
    for start in starts:
        for cw in dirs:
            base = walk(s, sides, start, cw)
            bad = None
            for i in range(n):
                on = [ax for ax in (0, 1) if abs(abs(base[i, ax]) - sides[ax] / 2) <= 1e-7 * per]
                cand = []
                if i % 2 == 0:
                    cand.append(base[i])
                else:
                    for ax in on:
                        c = base[i].copy()
                        c[ax] += np.sign(base[i, ax]) * ex[ax] / 2
                        cand.append(c)
                if not any(np.max(np.abs(c - p2[i])) <= tol for c in cand):
                    bad = (i, base[i].tolist(), [c.tolist() for c in cand])
                    break
            if bad is None:
                ok_any = True
            elif worst is None or bad[0] > worst[0]:
                worst = bad
    if not ok_any:
        raise Violation(f"{what}: points are not equally spaced along the edge: first mismatch of the best match at point {worst[0]}: "
                        f"{p2[worst[0]].tolist()}, expected {worst[2]}")


def rectangle(case, ctx):
    w = {"list": list, "tuple": tuple, "array": np.array}[case["as"]]
    ex = tuple(case["extra"]) if isinstance(case["extra"], list) else case["extra"]
    kw = {}
    if case["offset"] is not None:
        kw["offset"] = case["offset"]
    if case["z"] is not None:
        kw["z"] = case["z"]
    if case["extra"] != 0:
        kw["extra_side_lengths"] = ex
    p = np.asarray(gp.equidistant_rectangle(case["n"], w(case["sides"]), **kw))
    check_z(p, case["z"], "equidistant_rectangle")
    off = 0.5 if case["offset"] is None else case["offset"]
    check_rectangle(p[:, :2], case["n"], case["sides"], case["extra"], off, f"equidistant_rectangle({case['n']}, {case['sides']}, offset={off})")
    ctx.label("extra" if case["extra"] != 0 else "plain")
    ctx.nt(case["n"] >= 3)


@st.composite
def stack_st(draw):
    k = draw(st.integers(1, 5))
    return {"n": draw(st.integers(k, 40)), "k": k, "sides": draw(st.tuples(length, length).map(list)), "dz": draw(length)}


def stacked(case, ctx):
    n, k = case["n"], case["k"]
    p = np.asarray(gp.stacked_equidistant_rectangles(n, k, tuple(case["sides"]), case["dz"]))
    if p.shape != (n, 3):
        raise Violation(f"stacked_equidistant_rectangles: {n} points requested, shape {p.shape}")
    i0 = 0
    for i, m in enumerate(split(n, k)):
        q = p[i0:i0 + m]
        i0 += m
        assert_close(q[:, 2], np.full(m, (i - (k - 1) / 2) * case["dz"]), f"stacked rectangles: height of rectangle {i} of {k}", 1e-12)
        check_rectangle(q[:, :2], m, case["sides"], 0, (i + 0.5) / k, f"stacked_equidistant_rectangles, rectangle {i} of {k}")
    ctx.nt(n >= 3 and k >= 2)


four_st = st.fixed_dictionaries({"n": st.integers(1, 40), "side": length, "off": st.one_of(st.just(0), length), "zl": st.floats(-3, 3), "zh": st.floats(-3, 3)})


def four(case, ctx):
    n = case["n"]
    p = np.asarray(gp.four_equidistant_rectangles(n, case["side"], case["off"], case["zl"], case["zh"]))
    if p.shape != (n, 3):
        raise Violation(f"four_equidistant_rectangles: {n} points requested, shape {p.shape}")
    check_rectangle(p[:, :2], n, [case["side"]] * 2, 2 * case["off"], 0.5, "four_equidistant_rectangles")
    z = np.where(np.arange(n) % 4 >= 2, case["zh"], case["zl"])
    assert_close(p[:, 2], z, "four_equidistant_rectangles: heights", 1e-12)
    ctx.nt(n >= 3)


# ---------------------------------------------------------------- filled shapes
@st.composite
def filled_st(draw):
    k = draw(st.sampled_from(["rect", "cuboid", "disc", "cylinder", "sunflower"]))
    c = {"kind": k, "z": draw(zst)}
    if k == "rect":
        c["m"] = draw(st.integers(1, 9))
        a = draw(st.lists(st.floats(-5, 5).map(lambda v: round(v, 3)), min_size=4, max_size=4))
        lo, d = a[:2], [draw(length), draw(length)]
        c["lim"] = draw(st.sampled_from([None, [lo[0], lo[0] + d[0]], [lo[0], lo[1], lo[0] + d[0], lo[1] + d[1]]]))
    elif k == "cuboid":
        c["m"], c["mz"] = draw(st.integers(1, 6)), draw(st.one_of(st.none(), st.integers(1, 6)))
        c["dims"] = [draw(length), draw(length), draw(length)]
    elif k == "disc":
        c["radius"] = draw(length)
        c["dist"] = c["radius"] * draw(st.floats(0.05, 0.66))
    else:
        c["n"] = draw(st.integers(1, 60))
        c["radius"], c["height"], c["angle"] = draw(length), draw(length), draw(st.floats(-7, 7))
    return c


def same_set(got, want, what):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        raise Violation(f"{what}: shape {got.shape}, expected {want.shape}")
    key = lambda a: a[np.lexsort(np.round(a, 7).T)]
    assert_close(key(got), key(want), what, 1e-7)


def check_sunflower(xy, radius, what):
    n = len(xy)
    r = np.hypot(xy[:, 0], xy[:, 1])
    k = np.arange(1, n + 1)
    assert_close(r / radius, np.sqrt((k - 0.5) / (n - 0.5)), f"{what}: radii (equal area per point, outermost on the edge)", 1e-9)
    a = np.arctan2(xy[:, 1], xy[:, 0])
    golden = 2 * np.pi / ((np.sqrt(5) + 1) / 2) ** 2
    ang_close(a, a[0] + golden * (k - 1), f"{what}: golden angle")
    return (a[0] - golden) % (2 * np.pi) if n else 0.0


def filled(case, ctx):
    k = case["kind"]
    if k == "rect":
        m, lim = case["m"], case["lim"]
        kw = {} if lim is None else {"lim": tuple(lim)}
        if case["z"] is not None:
            kw["z_axis"] = case["z"]
        p = np.asarray(gp.uniform_filled_rectangle(m * m, **kw))
        check_z(p, case["z"], "uniform_filled_rectangle")
        lim = lim or [-2.4, 2.4]
        x = np.linspace(lim[0], lim[1] if len(lim) == 2 else lim[2], m)
        y = x if len(lim) == 2 else np.linspace(lim[1], lim[3], m)
        same_set(p[:, :2], [(a, b) for a in x for b in y], f"uniform_filled_rectangle({m * m}, {lim})")
        n = m * m
    elif k == "cuboid":
        m, mz = case["m"], case["mz"]
        kw = {} if mz is None else {"z_num_points": mz}
        mz = mz or 4
        n = m * m * mz
        p = np.asarray(gp.uniform_filled_cuboid(n, tuple(case["dims"]), **kw))
        ax = [(np.arange(c) + 0.5) / c * d - d / 2 for c, d in zip((m, m, mz), case["dims"])]
        same_set(p, [(a, b, c) for a in ax[0] for b in ax[1] for c in ax[2]], f"uniform_filled_cuboid({n}, {case['dims']}, {mz})")
    elif k == "disc":
        R, d = case["radius"], case["dist"]
        kw = {} if case["z"] is None else {"z_axis": case["z"]}
        p = np.asarray(gp.uniform_disc(d, R, **kw))
        check_z(p, case["z"], "uniform_disc")
        p = p[:, :2]
        n = len(p)
        r = np.hypot(p[:, 0], p[:, 1])
        if (r > R * (1 + 1e-9)).any():
            raise Violation(f"uniform_disc({d}, {R}): point at distance {r.max()}")
        if n == 0:
            raise Violation(f"uniform_disc({d}, {R}): no points")
        vals = np.unique(np.round(p / R, 9)) * R
        step = np.min(np.diff(vals)) if len(vals) > 1 else None
        if step is not None:
            if step < d * (1 - 1e-6) or 2 * R / step < 2 * R / d - 2 - 1e-6:
                raise Violation(f"uniform_disc({d}, {R}): distance between points {step}")
            g = p / step
            off = g[0, 0] - np.round(g[0, 0])
            kk = g - off
            if np.max(np.abs(kk - np.round(kk))) > 1e-5:
                raise Violation("uniform_disc: not a regular grid")
            have = {tuple(v) for v in np.round(kk).astype(int).tolist()}
            if len(have) != n:
                raise Violation("uniform_disc: repeated points")
            mm = int(R / step) + 2
            for a in range(-mm, mm + 1):
                for b in range(-mm, mm + 1):
                    if np.hypot(a + off, b + off) * step < R * (1 - 1e-6) and (a, b) not in have:
                        raise Violation(f"uniform_disc({d}, {R}): grid point {(a + off) * step, (b + off) * step} is missing")
    elif k == "cylinder":
        n, R, H = case["n"], case["radius"], case["height"]
        p = np.asarray(gp.uniform_cylinder(n, R, H))
        if p.shape != (n, 3):
            raise Violation(f"uniform_cylinder: {n} points requested, shape {p.shape}")
        zs = (np.arange(1, 5) / 5 - 0.5) * H
        per = split(n, 4)
        i0 = 0
        offs = []
        for i, m in enumerate(per):
            q = p[i0:i0 + m]
            i0 += m
            assert_close(q[:, 2], np.full(m, zs[i]), f"uniform_cylinder: height of plane {i}", 1e-9)
            if m:
                offs.append(round(float(check_sunflower(q[:, :2], R, f"uniform_cylinder, plane {i}")), 9))
        if len(offs) == 4 and len(set(offs)) == 1:
            raise Violation("uniform_cylinder: planes are not rotated against each other")
    else:
        n, R = case["n"], case["radius"]
        p = np.asarray(gp.sunflower_pattern(n, R, case["angle"]))
        if p.shape != (n, 2):
            raise Violation(f"sunflower_pattern: {n} points requested, shape {p.shape}")
        off = check_sunflower(p, R, "sunflower_pattern")
        ang_close([off], [case["angle"]], "sunflower_pattern: offset angle")
    ctx.label("filled:" + k)
    ctx.nt(n >= 3)


# ---------------------------------------------------------------- conversions
conv_st = st.fixed_dictionaries({"n": st.integers(0, 30), "near": st.integers(0, 6), "seed": st.integers(0, 99999), "scale": st.sampled_from([1e-3, 1, 50]),
                                 "special": st.lists(st.tuples(*[st.sampled_from([-1.0, 0.0, 1.0])] * 3), max_size=6), "rshape": st.booleans()})


def conversions(case, ctx):
    r = rng_of(case["seed"], 170)
    c = np.concatenate((r.normal(size=(case["n"], 3)) * case["scale"], np.array([list(s) for s in case["special"]]).reshape(-1, 3)))
    # points close to the axes: one or two coordinates are very small
    near = r.normal(size=(case["near"], 3)) * case["scale"] * 10.0 ** (-r.integers(3, 11, size=(case["near"], 3)) * r.integers(0, 2, size=(case["near"], 3)))
    c = np.concatenate((c, near))
    if len(c) == 0:
        return
    keep = c.copy()
    rad, ang = gp.cart2spherical(c)
    rad, ang = np.asarray(rad), np.asarray(ang)
    if ang.shape != (len(c), 2) or rad.size != len(c):
        raise Violation(f"cart2spherical: shapes {rad.shape}, {ang.shape}")
    finite(rad, "cart2spherical: radius")
    finite(ang, "cart2spherical: angles")
    n2 = np.sqrt(np.sum(c ** 2, axis=1))
    assert_close(rad.reshape(-1), n2, "cart2spherical: radius", 1e-12)
    nz = n2 > 0
    assert_close(ang[nz, 1], np.arctan2(np.hypot(c[nz, 0], c[nz, 1]), c[nz, 2]), "cart2spherical: zenith angle", 1e-7)
    if (ang[:, 1] < -1e-12).any() or (ang[:, 1] > np.pi + 1e-12).any():
        raise Violation("cart2spherical: zenith angle outside [0, pi]")
    rho = np.hypot(c[:, 0], c[:, 1])
    off = rho > 0
    assert_close(np.stack((np.cos(ang[off, 0]), np.sin(ang[off, 0]))), c[off, :2].T / rho[off], "cart2spherical: angle in the xy plane", 1e-9)
    rr = rad.reshape(-1, 1) if case["rshape"] else rad.reshape(-1)
    back = np.asarray(gp.spherical2cart(rr, ang))
    if back.shape != c.shape or not np.max(np.abs(back - c)) <= 1e-7 * max(1e-3, float(np.max(n2))):
        raise Violation(f"spherical2cart(cart2spherical(x)) differs from x (radius of shape {rr.shape})")
    # free spherical coordinates
    R = r.uniform(0.1, 3, size=len(c))
    A = np.stack((r.uniform(-np.pi, np.pi, len(c)), r.uniform(0, np.pi, len(c))), axis=1)
    x = np.asarray(gp.spherical2cart(R[:, None] if case["rshape"] else R, A))
    want = R[:, None] * np.stack((np.sin(A[:, 1]) * np.cos(A[:, 0]), np.sin(A[:, 1]) * np.sin(A[:, 0]), np.cos(A[:, 1])), axis=1)
    assert_close(x, want, "spherical2cart", 1e-12)
    r2, a2 = gp.cart2spherical(x)
    assert_close(np.asarray(r2).reshape(-1), R, "cart2spherical(spherical2cart): radius", 1e-9)
    ang_close(np.asarray(a2)[:, 1], A[:, 1], "cart2spherical(spherical2cart): zenith")
    s = np.sin(A[:, 1]) > 1e-4
    ang_close(np.asarray(a2)[s, 0], A[s, 0], "cart2spherical(spherical2cart): azimuth", 1e-6)
    # polar
    pr, pa = gp.cart2pol(c[:, 0], c[:, 1])
    assert_close(pr, rho, "cart2pol: radius", 1e-12)
    bx, by = gp.pol2cart(pr, pa)
    if not np.max(np.abs(np.stack((bx - c[:, 0], by - c[:, 1])))) <= 1e-9 * max(1e-3, float(rho.max())):
        raise Violation("pol2cart(cart2pol(x, y)) differs from (x, y)")
    px, py = gp.pol2cart(R, A[:, 0])
    assert_close(np.stack((px, py)), R * np.stack((np.cos(A[:, 0]), np.sin(A[:, 0]))), "pol2cart", 1e-12)
    qr, qa = gp.cart2pol(px, py)
    assert_close(qr, R, "cart2pol(pol2cart): radius", 1e-9)
    ang_close(qa, A[:, 0], "cart2pol(pol2cart): angle")
    if not np.array_equal(keep, c):
        raise Violation("the coordinates given were modified")
    ctx.nt(case["n"] > 0)


TESTS = [
    Test("circle", circle_st(), circle, quick=4500, thorough=40000),
    Test("concentric", conc_st(), concentric, quick=3000, thorough=30000),
    Test("rectangle", rect_st(), rectangle, quick=7500, thorough=60000),
    Test("stacked", stack_st(), stacked, quick=1800, thorough=15000),
    Test("four", four_st, four, quick=1800, thorough=15000),
    Test("filled", filled_st(), filled, quick=4500, thorough=40000),
    Test("conversions", conv_st, conversions, quick=3000, thorough=30000),
]
