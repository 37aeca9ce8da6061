"""C15: regions: membership, grid points and random points agree."""
import itertools

import numpy as np
import scipy.stats as sst
from hypothesis import strategies as st

import aspsim.room.region as region
from vlib.harness import Test, Violation
from vlib.simh import assert_close, finite, rng_of

RULE = ("A case is one region and a set of query points, a grid, or a random sample. Non-trivial: queries both inside and outside, a grid "
        "of at least two points, or a sample of at least 500 points.")
ASSUMPTIONS = ["coordinates are (N, 3) arrays, (N, 2) for regions of spatial_dim 2; spacings are given per axis",
               "query points within 1e-7 of the boundary (relative to the size) are left out; planar regions in 3-D contain points within 1e-8 + 1e-5 |z| of their plane",
               "grid spacing is at most the side length, or 4/3 of the radius; the grid may end up to one spacing before a flat side, half a spacing for discs and cylinders"]
EPS = 1e-7


@st.composite
def reg_st(draw, kinds=("cuboid", "rect2", "rect3", "disc2", "disc3", "ball", "cyl")):
    k = draw(st.sampled_from(list(kinds)))
    d = 2 if k in ("rect2", "disc2") else 3
    size = st.one_of(st.sampled_from([0.5, 1, 2, 3]), st.floats(0.2, 5).map(lambda v: round(v, 3)))
    c = {"kind": k, "center": draw(st.lists(st.one_of(st.just(0), st.floats(-5, 5).map(lambda v: round(v, 3))), min_size=d, max_size=d)),
         "as": draw(st.sampled_from(["list", "tuple", "array"]))}
    if k in ("cuboid", "rect2", "rect3"):
        n = 3 if k == "cuboid" else 2
        c["size"] = draw(st.lists(size, min_size=n, max_size=n))
        lims = c["size"]
    else:
        c["radius"] = draw(size)
        n = {"disc2": 2, "disc3": 2, "ball": 3, "cyl": 3}[k]
        lims = [c["radius"]] * n
        if k == "cyl":
            c["height"] = draw(size)
            lims[2] = c["height"]
    c["spacing"] = []
    for i, L in enumerate(lims):
        hi = L * (1.33 if "radius" in c and not (k == "cyl" and i == 2) else 1.0)
        c["spacing"].append(draw(st.one_of(
            st.floats(max(L / 9, 0.02), hi).map(lambda v: round(v, 3) if round(v, 3) <= hi and round(v, 3) > 0 else v),
            st.sampled_from([L, L / 2, L / 3, L / 4, L / 5]))))
    c["seed"] = draw(st.integers(0, 99999))
    return c


def dim(c):
    return 2 if c["kind"] in ("rect2", "disc2") else 3


def make(c, shift=None, rng=None):
    w = {"list": list, "tuple": tuple, "array": np.array}[c["as"]]
    cen = np.array(c["center"], dtype=float) if shift is not None else c["center"]
    if shift is not None:
        cen = (cen + np.array(shift)).tolist()
    rng = rng if rng is not None else np.random.default_rng(c["seed"])
    kw = {"point_spacing": w(c["spacing"]), "rng": rng}
    k = c["kind"]
    if k == "cuboid":
        return region.Cuboid(w(c["size"]), w(cen), **kw)
    if k in ("rect2", "rect3"):
        return region.Rectangle(w(c["size"]), w(cen), spatial_dim=int(k[-1]), **kw)
    if k in ("disc2", "disc3"):
        return region.Disc(c["radius"], w(cen), spatial_dim=int(k[-1]), **kw)
    if k == "ball":
        return region.Ball(c["radius"], w(cen), **kw)
    return region.Cylinder(c["radius"], c["height"], w(cen), **kw)


def signed(c, pts, pad=None):
    """>0 inside, <0 outside: distance-like value, per point; second output: off-plane amount (planar regions in 3-D)."""
    p = np.asarray(pts, dtype=float) - np.array(c["center"], dtype=float)[None, :]
    k = c["kind"]
    off = np.zeros(len(p))
    if k in ("cuboid", "rect2", "rect3"):
        n = len(c["size"])
        half = np.array(c["size"], dtype=float) / 2 + (0 if pad is None else np.array(pad))
        s = np.min(half[None, :] - np.abs(p[:, :n]), axis=1)
    elif k == "ball":
        s = c["radius"] - np.sqrt(np.sum(p ** 2, axis=1))
    else:
        s = c["radius"] - np.hypot(p[:, 0], p[:, 1])
        if k == "cyl":
            s = np.minimum(s, c["height"] / 2 - np.abs(p[:, 2]))
    if k in ("rect3", "disc3"):
        off = np.abs(p[:, 2])
    return s, off


def expected(c, pts, pad=None):
    """(+1 inside, -1 outside, 0 too close to call)"""
    s, off = signed(c, pts, pad)
    out = np.where(s > EPS, 1, np.where(s < -EPS, -1, 0))
    z = abs(float(c["center"][-1])) if dim(c) == 3 else 0.0
    plane_tol = 1e-8 + 1e-5 * z
    out = np.where(off > 2 * plane_tol, -1, np.where((off > 0.5 * plane_tol) & (out == 1), 0, out))
    return out


def volume(c):
    k = c["kind"]
    if k in ("cuboid", "rect2", "rect3"):
        return float(np.prod(c["size"]))
    r = c["radius"]
    return {"disc2": np.pi * r * r, "disc3": np.pi * r * r, "ball": 4 / 3 * np.pi * r ** 3,
            "cyl": np.pi * r * r * c.get("height", 0)}[k]


# ---------------------------------------------------------------- membership
@st.composite
def member_st(draw):
    c = draw(reg_st())
    return {"reg": c, "n": draw(st.integers(1, 40)), "qseed": draw(st.integers(0, 99999)), "inplane": draw(st.floats(0, 1)),
            "shift": draw(st.lists(st.floats(-3, 3), min_size=dim(c), max_size=dim(c))),
            "pad": draw(st.one_of(st.none(), st.lists(st.floats(0, 1), min_size=3, max_size=3)))}


def queries(c, seed, n, inplane, spread=0.7):
    r = rng_of(seed, 151)
    d = dim(c)
    cen = np.array(c["center"], dtype=float)
    ext = np.array((c["size"] if "size" in c else [2 * c["radius"]] * 3) + [1.0])[:d].astype(float)
    if c["kind"] == "cyl":
        ext[2] = c["height"]
    q = cen + r.uniform(-spread, spread, size=(n, d)) * ext
    if c["kind"] in ("rect3", "disc3"):
        mask = r.uniform(size=n) < inplane
        q[mask, 2] = cen[2]
    # points along one axis only reach every face and the top of round shapes
    m = r.uniform(size=n) < 0.3
    for i in np.flatnonzero(m):
        ax = r.integers(0, d)
        keep = q[i, ax]
        q[i] = cen
        q[i, ax] = keep
    return q


def member(case, ctx):
    c = case["reg"]
    reg = make(c)
    q = queries(c, case["qseed"], case["n"], case["inplane"])
    keep = q.copy()
    want = expected(c, q)
    got = np.asarray(reg.is_in_region(q))
    if got.shape != (len(q),):
        raise Violation(f"{c['kind']}: membership of {len(q)} points has shape {got.shape}")
    bad = (want != 0) & (got.astype(int) != (want > 0))
    if bad.any():
        i = int(np.flatnonzero(bad)[0])
        raise Violation(f"{c['kind']} at {c['center']}: point {q[i]} reported {'inside' if got[i] else 'outside'} (queried with {len(q) - 1} others)")
    # independent of the other points
    for i in range(min(len(q), 6)):
        one = np.asarray(reg.is_in_region(q[i:i + 1])).reshape(-1)
        if one.shape != (1,) or bool(one[0]) != bool(got[i]):
            raise Violation(f"{c['kind']}: membership of point {i} depends on the other points queried")
    if c["kind"] == "cyl":
        if bool(np.asarray(reg.is_in_region(q[0])).reshape(-1)[0]) != bool(got[0]):
            raise Violation("cylinder: single coordinate of shape (3,)")
    if not np.array_equal(q, keep):
        raise Violation("the queried coordinates were modified")
    assert_close(reg.volume, volume(c), f"{c['kind']}: volume", 1e-12)
    moved = make(c, shift=case["shift"])
    c2 = dict(c, center=(np.array(c["center"], dtype=float) + np.array(case["shift"])).tolist())
    q2 = q + np.array(case["shift"])
    w2 = expected(c2, q2)
    g2 = np.asarray(moved.is_in_region(q2)).astype(int)
    if ((w2 != 0) & (want != 0) & (g2 != got)).any():
        raise Violation(f"{c['kind']}: membership changes when region and points are translated by {case['shift']}")
    if case["pad"] and "size" in c:
        pad = case["pad"][:len(c["size"])]
        wp = expected(c, q, pad)
        gp = np.asarray(reg.is_in_region(q, padding=[pad])).astype(int)
        if ((wp != 0) & (gp != (wp > 0))).any():
            raise Violation(f"{c['kind']}: membership with padding {pad}")
    ctx.label("member:" + c["kind"])
    ctx.nt((want > 0).any() and (want < 0).any())


# ---------------------------------------------------------------- grids
@st.composite
def grid_st(draw):
    c = draw(reg_st())
    return {"reg": c, "shift": draw(st.lists(st.floats(-3, 3), min_size=dim(c), max_size=dim(c)))}


def half_extent(c):
    if "size" in c:
        return [s / 2 for s in c["size"]]
    h = [c["radius"]] * (3 if c["kind"] in ("ball", "cyl") else 2)
    if c["kind"] == "cyl":
        h[2] = c["height"] / 2
    return h


def grid(case, ctx):
    c = case["reg"]
    reg = make(c)
    g = np.asarray(reg.equally_spaced_points())
    d = dim(c)
    if g.ndim != 2 or g.shape[1] != d or g.shape[0] == 0:
        raise Violation(f"{c['kind']}: grid of shape {g.shape}")
    finite(g, f"{c['kind']}: grid")
    cen = np.array(c["center"], dtype=float)
    rel = g - cen
    half = half_extent(c)
    ext = expected(c, g)
    if (ext < 0).any():
        raise Violation(f"{c['kind']}: grid point {g[np.flatnonzero(ext < 0)[0]]} lies outside the region")
    inside = np.asarray(reg.is_in_region(g))
    if (~inside & (ext > 0)).any():
        raise Violation(f"{c['kind']}: grid point {g[np.flatnonzero(~inside & (ext > 0))[0]]} is reported to be outside")
    lat = []
    for ax, (h, s) in enumerate(zip(half, c["spacing"])):
        k = rel[:, ax] / s
        off = np.round(2 * k[0]) / 2 % 1.0       # 0: odd number of points, 0.5: even number
        n_k = k - off
        if np.max(np.abs(n_k - np.round(n_k))) > 1e-6 or np.min(np.abs(off - np.array([0, 0.5]))) > 1e-6:
            raise Violation(f"{c['kind']}: axis {ax} is not a grid of spacing {s} centred in the region: offsets {np.unique(np.round(rel[:, ax], 6))[:8]}")
        m = int(np.ceil(h / s)) + 2
        vals = (np.arange(-m, m + 1) + off) * s
        lat.append(vals[np.abs(vals) <= h * (1 + 1e-9) + 1e-9])
        gap = h - np.max(lat[-1], initial=-np.inf)
        if gap > s * (0.5 if c["kind"] in ("disc2", "disc3", "cyl") else 1.0) * (1 + 1e-6) + 1e-9:
            raise Violation(f"{c['kind']}: axis {ax} of half length {h} with spacing {s} ends {gap} beyond the last grid position")
    mesh = np.array(list(itertools.product(*lat)))
    if d == 3 and len(lat) == 2:
        if np.max(np.abs(rel[:, 2])) > 1e-9:
            raise Violation(f"{c['kind']}: grid points leave the plane of the region")
        mesh = np.concatenate((mesh, np.zeros((len(mesh), 1))), axis=1)
    e = expected(c, mesh + cen)
    key = lambda a: {tuple(np.round(r / np.array(c["spacing"])[:len(r)] * 2).astype(int)) for r in a[:, :len(lat)]}
    have = key(rel)
    if len(have) != len(g):
        raise Violation(f"{c['kind']}: the grid holds the same point more than once")
    missing = key(mesh[e > 0]) - have
    if missing:
        raise Violation(f"{c['kind']} spacing {c['spacing']}: {len(missing)} grid positions inside the region are missing, e.g. {sorted(missing)[0]} half spacings from the centre")
    moved = make(c, shift=case["shift"])
    gm = np.asarray(moved.equally_spaced_points())
    edge = (expected(c, g) == 0).any() or (e == 0).any()
    if not edge:
        if gm.shape != g.shape or np.max(np.abs(gm - (g + np.array(case["shift"])))) > 1e-9:
            raise Violation(f"{c['kind']}: grid of the translated region is not the translated grid")
    if not np.array_equal(g, np.asarray(reg.equally_spaced_points())):
        raise Violation(f"{c['kind']}: two requests for the grid differ")
    if c["kind"] == "cuboid":
        alt = region.Cuboid(c["size"], c["center"], point_spacing=(1e-3, 1e-3, 1e-3))
        assert_close(alt.equally_spaced_points(list(c["spacing"])), g, "cuboid grid with explicit spacing", 1e-12)
        s = min(c["spacing"])
        if s <= min(c["size"]) and np.prod([L / s for L in c["size"]]) < 3e4:
            assert_close(alt.equally_spaced_points(float(s)), region.Cuboid(c["size"], c["center"], (s, s, s)).equally_spaced_points(),
                         "cuboid grid with scalar spacing", 1e-12)
    ctx.label("grid:" + c["kind"])
    ctx.nt(len(g) > 1)


# ---------------------------------------------------------------- random points
@st.composite
def sample_st(draw):
    return {"reg": draw(reg_st()), "n": draw(st.one_of(st.integers(0, 40), st.integers(500, 3000))), "seed2": draw(st.integers(100000, 200000))}


def to_uniform(c, p):
    """map region-uniform points to independent U(0,1) coordinates"""
    rel = p - np.array(c["center"], dtype=float)
    if "size" in c:
        return rel[:, :len(c["size"])] / np.array(c["size"], dtype=float) + 0.5
    ang = (np.arctan2(rel[:, 1], rel[:, 0]) / (2 * np.pi)) % 1.0
    r = c["radius"]
    if c["kind"] == "ball":
        rho = np.sqrt(np.sum(rel ** 2, axis=1))
        return np.stack(((rho / r) ** 3, (rel[:, 2] / np.maximum(rho, 1e-12) + 1) / 2, ang), axis=1)
    u = [(np.hypot(rel[:, 0], rel[:, 1]) / r) ** 2, ang]
    if c["kind"] == "cyl":
        u.append(rel[:, 2] / c["height"] + 0.5)
    return np.stack(u, axis=1)


def chi(counts, what, q=1e-11):
    n = counts.sum()
    e = n / counts.size
    x = np.sum((counts - e) ** 2) / e
    if x > sst.chi2.isf(q, counts.size - 1):
        raise Violation(f"{what}: random points are not uniform (chi-square {x:.1f} with {counts.size - 1} degrees of freedom, counts {counts.ravel()[:16]})")


def sample(case, ctx):
    c, n = case["reg"], case["n"]
    p = np.asarray(make(c).sample_points(n))
    if p.shape != (n, dim(c)):
        raise Violation(f"{c['kind']}: {n} points requested, got shape {p.shape}")
    finite(p, f"{c['kind']}: random points")
    if not np.array_equal(p, np.asarray(make(c).sample_points(n))):
        raise Violation(f"{c['kind']}: equally seeded generators give different points")
    g = np.random.default_rng(c["seed"])
    r1 = make(c, rng=g)
    a, b = np.asarray(r1.sample_points(n)), np.asarray(r1.sample_points(n))
    if not np.array_equal(a, p):
        raise Violation(f"{c['kind']}: points do not come from the supplied generator")
    if n == 0:
        return
    if np.array_equal(a, b) or np.array_equal(p, np.asarray(make(c, rng=np.random.default_rng(case["seed2"])).sample_points(n))):
        raise Violation(f"{c['kind']}: the same points are returned again")
    e = expected(c, p)
    if (e < 0).any():
        raise Violation(f"{c['kind']}: random point {p[np.flatnonzero(e < 0)[0]]} lies outside the region")
    ins = np.asarray(make(c).is_in_region(p))
    if (~ins & (e > 0)).any():
        raise Violation(f"{c['kind']}: random point {p[np.flatnonzero(~ins & (e > 0))[0]]} is reported to be outside")
    if len(np.unique(p, axis=0)) != n:
        raise Violation(f"{c['kind']}: repeated random points")
    if n >= 500:
        u = np.clip(to_uniform(c, p), 0, 1 - 1e-12)
        for i in range(u.shape[1]):
            chi(np.histogram(u[:, i], bins=10, range=(0, 1))[0], f"{c['kind']} coordinate {i}")
            for j in range(i):
                chi(np.histogram2d(u[:, i], u[:, j], bins=5, range=[[0, 1], [0, 1]])[0], f"{c['kind']} coordinates {i},{j}")
        # successive points are independent
        chi(np.histogram2d(u[:-1:2, 0], u[1::2, 0], bins=4, range=[[0, 1], [0, 1]])[0], f"{c['kind']} successive points")
        ctx.nt(True)
    ctx.label("sample:" + c["kind"])


TESTS = [
    Test("member", member_st(), member, quick=6250, thorough=60000),
    Test("grid", grid_st(), grid, quick=3750, thorough=40000),
    Test("sample", sample_st(), sample, quick=2000, thorough=20000),
]
