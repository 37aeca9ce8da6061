"""C16: combined regions are the disjoint union of their parts; region arrays have one group per region."""
import numpy as np
import scipy.stats as sst
from hypothesis import strategies as st

import aspsim.array as ar
import aspsim.room.region as region
from checks.c15 import chi, dim, expected, half_extent, make, queries, reg_st, to_uniform, volume
from vlib.harness import Test, Violation
from vlib.simh import assert_close, finite, rng_of

RULE = ("A case is a list of 1 to 4 regions that do not touch (or, for the rejection test, at least two that share at least half of the smaller "
        "one's size) with a set of query points or a random sample. Non-trivial: queries inside at least two different parts and outside all, "
        "a sample of at least 500 points over at least two parts, a grid or an array over at least two parts.")
ASSUMPTIONS = ["parts of one combined region have the same number of coordinates", "parts are given as regions (possibly combined regions themselves)",
               "overlaps are large enough to be seen by 100 random points of each part"]

KINDS3 = ("cuboid", "rect3", "disc3", "ball", "cyl")
KINDS2 = ("rect2", "disc2")


@st.composite
def parts_st(draw, min_n=1):
    kinds = draw(st.sampled_from([KINDS3, KINDS3, KINDS2, ("cuboid",), ("ball", "cyl", "cuboid")]))
    n = draw(st.integers(9, 14)) if draw(st.integers(0, 11)) == 0 else draw(st.integers(min_n, 4))
    parts = []
    ax = draw(st.integers(0, 1))
    edge = draw(st.floats(-5, 5))
    for _ in range(n):
        c = draw(reg_st(kinds))
        h = half_extent(c)
        c["center"][ax] = edge + h[ax]
        edge = c["center"][ax] + h[ax] + draw(st.floats(0.01, 3))
        c["center"] = [float(v) for v in c["center"]]
        c["as"] = "list" if c["as"] == "tuple" else c["as"]
        parts.append(c)
    perm = draw(st.permutations(list(range(n))))
    return [parts[i] for i in perm]


@st.composite
def comb_st(draw, min_n=1):
    parts = draw(parts_st(min_n))
    nest = draw(st.integers(0, 3)) == 0 and len(parts) >= 3
    return {"parts": parts, "nest": nest, "as": draw(st.sampled_from(["list", "tuple"])), "seed": draw(st.integers(0, 99999)),
            "n": draw(st.one_of(st.integers(1, 30), st.integers(500, 3000))), "mixseed": draw(st.integers(0, 999))}


def combine(case, parts=None, rng=True):
    regs = [make(c) for c in (parts or case["parts"])]
    g = np.random.default_rng(case["seed"]) if rng else None
    w = tuple if case["as"] == "tuple" else list
    if case["nest"]:
        inner = region.CombinedRegion(w(regs[:2]), rng=np.random.default_rng(case["seed"] + 1))
        return region.CombinedRegion(w([inner] + regs[2:]), rng=g), regs
    return region.CombinedRegion(w(regs), rng=g), regs


def all_queries(case):
    q = [queries(c, case["seed"] + i, 12, 0.5, spread=0.6) for i, c in enumerate(case["parts"])]
    # points that mix coordinates of different parts
    q = np.concatenate(q)
    r = rng_of(case["mixseed"], 16)
    m = np.stack([r.permutation(q[:, k]) for k in range(q.shape[1])], axis=1)
    q = np.concatenate((q, m))
    return q[r.permutation(len(q))]


def member(case, ctx):
    cr, regs = combine(case)
    q = all_queries(case)
    e = np.stack([expected(c, q) for c in case["parts"]])
    want = np.where((e > 0).any(axis=0), 1, np.where((e < 0).all(axis=0), -1, 0))
    got = np.asarray(cr.is_in_region(q))
    if got.shape != (len(q),):
        raise Violation(f"membership of {len(q)} points has shape {got.shape}")
    bad = (want != 0) & (got.astype(int) != (want > 0))
    if bad.any():
        i = int(np.flatnonzero(bad)[0])
        raise Violation(f"{[c['kind'] for c in case['parts']]}: point {q[i]} reported {'inside' if got[i] else 'outside'} the union")
    for i in range(3):
        if bool(np.asarray(cr.is_in_region(q[i:i + 1]))[0]) != bool(got[i]):
            raise Violation("membership depends on the other points queried")
    assert_close(cr.volume, sum(volume(c) for c in case["parts"]), "volume of the union", 1e-12)
    g = np.asarray(cr.equally_spaced_points())
    parts_g = [np.asarray(make(c).equally_spaced_points()) for c in case["parts"]]
    want_g = np.concatenate(parts_g)
    if g.shape != want_g.shape or not np.array_equal(g, want_g):
        raise Violation("the grid is not the concatenation of the grids of the parts")
    if not np.array_equal(np.asarray(cr.equally_spaced_points()), g):
        raise Violation("two requests for the grid differ")
    inside = np.asarray(cr.is_in_region(g))
    eg = np.stack([expected(c, g) for c in case["parts"]])
    if (~inside & (eg > 0).any(axis=0)).any():
        raise Violation("a grid point is reported to be outside the union")
    ctx.label(f"parts:{len(case['parts'])}")
    if case["nest"]:
        ctx.label("nested")
    ctx.nt(((e > 0).any(axis=1).sum() >= 2) and (want < 0).any() and (want > 0).any())


def sample(case, ctx):
    cr, _ = combine(case)
    n, parts = case["n"], case["parts"]
    p = np.asarray(cr.sample_points(n))
    if p.shape != (n, dim(parts[0])):
        raise Violation(f"{n} points requested, got shape {p.shape}")
    finite(p, "random points")
    if not np.array_equal(p, np.asarray(combine(case)[0].sample_points(n))):
        raise Violation("equally seeded generators give different points")
    p2 = np.asarray(cr.sample_points(n))
    if np.array_equal(p, p2):
        raise Violation("the same points are returned again")
    e = np.stack([expected(c, p) for c in parts])
    if (e < 0).all(axis=0).any():
        raise Violation(f"random point {p[np.flatnonzero((e < 0).all(axis=0))[0]]} lies outside every part")
    if len(np.unique(p, axis=0)) != n:
        raise Violation("repeated random points")
    vols = np.array([volume(c) for c in parts])
    frac = vols / vols.sum()
    m = np.argmax(e, axis=0)
    for i, f in enumerate(frac):
        k = int(np.sum(m == i))
        lo, hi = sst.binom.cdf(k, n, f), sst.binom.sf(k - 1, n, f)
        if min(lo, hi) < 1e-12 and len(parts) > 1:
            raise Violation(f"part {i} has {100 * f:.1f} % of the volume but received {k} of {n} random points")
        if k >= 400:
            u = np.clip(to_uniform(parts[i], p[m == i]), 0, 1 - 1e-12)
            for j in range(u.shape[1]):
                chi(np.histogram(u[:, j], bins=8, range=(0, 1))[0], f"part {i} ({parts[i]['kind']}), coordinate {j}")
    ctx.nt(n >= 500 and len(parts) > 1)
    ctx.label("sample:nested" if case["nest"] else "sample")


# ---------------------------------------------------------------- overlaps are rejected
@st.composite
def overlap_st(draw):
    case = draw(comb_st())
    i = draw(st.integers(0, len(case["parts"]) - 1))
    c = dict(case["parts"][i])
    h = half_extent(c)
    how = draw(st.sampled_from(["shift", "inside", "same", "object", "tiny", "tiny", "coarse", "coarse"]))
    c["center"] = list(c["center"])
    if how == "shift":
        for k in range(len(h)):
            c["center"][k] += draw(st.floats(-0.3, 0.3)) * h[k]
    elif how == "coarse":     # neither contains a point of the grid of the other
        k = draw(st.integers(0, len(h) - 1))
        if h[k] == 0:
            k = 0
        c["center"][k] += draw(st.sampled_from([-1, 1])) * draw(st.floats(1.1, 1.3)) * h[k]
        c["spacing"] = list(c["size"]) if "size" in c else [1.33 * c["radius"]] * len(c["spacing"])
        if "height" in c:
            c["spacing"][2] = c["height"]
        case["parts"][i] = dict(case["parts"][i], spacing=list(c["spacing"]))
    elif how in ("inside", "tiny"):
        f = draw(st.floats(0.3, 0.9)) if how == "inside" else draw(st.floats(0.01, 0.1))
        if how == "tiny":     # a small part anywhere in a large one, usually between the points of its grid
            for k in range(len(h)):
                c["center"][k] += draw(st.floats(-0.4, 0.4)) * h[k]
        c["size"] = [s * f for s in c["size"]] if "size" in c else None
        if c["size"] is None:
            del c["size"]
            c["radius"] *= f
            if "height" in c:
                c["height"] *= f
        c["spacing"] = [s * f for s in c["spacing"]]
    c["seed"] += 1
    case["extra"], case["at"], case["how"] = c, draw(st.integers(0, len(case["parts"]))), how
    return case


def overlap(case, ctx):
    parts = list(case["parts"])
    parts.insert(case["at"], case["extra"])
    regs = [make(c) for c in parts]
    if case["how"] == "object":          # the very same region is given twice
        regs[case["at"]] = regs[[k for k, c in enumerate(parts) if k != case["at"] and c["center"] == case["extra"]["center"]][0]]
    try:
        region.CombinedRegion(regs)
    except (AssertionError, ValueError, NotImplementedError):
        ctx.label("overlap:" + case["how"])
        ctx.nt(True)
        return
    raise Violation(f"overlapping parts accepted: {case['extra']['kind']} ({case['how']}) with {[c['kind'] for c in case['parts']]}")


# ---------------------------------------------------------------- region arrays
@st.composite
def array_st(draw):
    case = draw(comb_st())
    case["form"] = draw(st.sampled_from(["list", "tuple", "combined", "single"]))
    case["pos"] = draw(st.sampled_from(["none", "none", "array", "groups"]))
    return case


def region_array(case, ctx):
    parts = case["parts"][:1] if case["form"] == "single" else case["parts"]
    regs = [make(c) for c in parts]
    grids = [np.asarray(make(c).equally_spaced_points()) for c in parts]
    r = rng_of(case["seed"], 3)
    kw = {}
    if case["pos"] == "array":
        kw["pos"] = r.normal(size=(5, dim(parts[0])))
    elif case["pos"] == "groups":
        kw["pos"] = [r.normal(size=(2, dim(parts[0]))), r.normal(size=(3, dim(parts[0])))]
    arg = {"list": list(regs), "tuple": tuple(regs), "single": regs[0]}.get(case["form"])
    if arg is None:
        arg = region.CombinedRegion(regs)
    a = ar.RegionArray("reg", arg, **kw)
    groups = grids if case["pos"] == "none" else [kw["pos"]] if case["pos"] == "array" else kw["pos"]
    if not a.is_mic or a.is_source:
        raise Violation("a region array is not a microphone array")
    if a.num != sum(len(g) for g in groups) or a.num_groups != len(groups):
        raise Violation(f"{case['form']} of {len(parts)} regions, pos={case['pos']}: {a.num} positions in {a.num_groups} groups, expected {[len(g) for g in groups]}")
    assert_close(a.pos, np.concatenate(groups), "positions of the region array", 1e-12)
    if len(a.pos_segments) != len(groups):
        raise Violation(f"{len(a.pos_segments)} position segments for {len(groups)} groups")
    for i, (s, g) in enumerate(zip(a.pos_segments, groups)):
        assert_close(s, g, f"position segment {i}", 1e-12)
    if a.group_idxs is not None:
        if len(a.group_idxs) != len(groups):
            raise Violation(f"{len(a.group_idxs)} groups of indices for {len(groups)} groups")
        for i, (ix, g) in enumerate(zip(a.group_idxs, groups)):
            assert_close(a.pos[np.asarray(ix, dtype=int)], g, f"positions of group {i}", 1e-12)
    elif len(groups) > 1:
        raise Violation("no group indices for several groups")
    if len(a.region_segments) != len(parts) or any(x is not y for x, y in zip(a.region_segments, regs)):
        raise Violation("region_segments are not the regions given, in order")
    if (a.metadata["number"], a.metadata["number of groups"], a.metadata["type"]) != (a.num, len(groups), "RegionArray"):
        raise Violation(f"metadata {a.metadata}")
    name = "CombinedRegion" if len(parts) > 1 or case["form"] == "combined" else type(regs[0]).__name__
    if a.metadata["region shape"] != name:
        raise Violation(f"metadata says region shape {a.metadata['region shape']}, it is {name}")
    # the region the array stands for is the union of the parts
    q = all_queries(dict(case, parts=parts))
    e = np.stack([expected(c, q) for c in parts])
    want = np.where((e > 0).any(axis=0), 1, np.where((e < 0).all(axis=0), -1, 0))
    got = np.asarray(a.region.is_in_region(q)).astype(int)
    if ((want != 0) & (got != (want > 0))).any():
        raise Violation("the region of the array is not the union of the regions given")
    ctx.label("array:" + case["form"] + ":" + case["pos"])
    ctx.nt(len(parts) > 1)


TESTS = [
    Test("member", comb_st(), member, quick=3000, thorough=40000),
    Test("sample", comb_st(), sample, quick=1600, thorough=20000),
    Test("overlap", overlap_st(), overlap, quick=1600, thorough=20000),
    Test("region_array", array_st(), region_array, quick=2000, thorough=25000),
]
