"""C09: trajectories follow their specification."""
import numpy as np
from hypothesis import strategies as st

import aspsim.room.trajectory as tr
from vlib.harness import Test, Violation
from vlib.simh import assert_close

RULE = ("A case is one trajectory and a list of times. Non-trivial: at least two segments (or different radii) and a time that is "
        "not at an anchor point.")
ASSUMPTIONS = ["anchor points are finite, consecutive ones differ (constant speed requires it), the last differs clearly from the first or is identical to it",
               "a circular trajectory turns counterclockwise (angle grows), as the polar conversion of the library defines it"]

coord = st.floats(-10, 10, allow_nan=False).map(lambda v: round(v, 3))


def ref_linear(pts, total, mode, n):
    """position after n samples; total = samples per period (float)"""
    seg = np.linalg.norm(np.diff(pts, axis=0), axis=1)
    w = seg / seg.sum() if mode == "constant_speed" else np.full(len(seg), 1 / len(seg))
    cum = np.concatenate(([0], np.cumsum(w)))
    frac = (n / total) % 1.0
    k = min(int(np.searchsorted(cum, frac, side="right")) - 1, len(seg) - 1)
    a = (frac - cum[k]) / w[k]
    return pts[k] + a * (pts[k + 1] - pts[k])


def closed(pts):
    return pts if np.allclose(pts[0], pts[-1]) else np.concatenate((pts, pts[:1]))


def t_linear(case, ctx):
    pts = np.array(case["points"], dtype=float)
    given = pts.copy()
    arg = given if case["as"] == "array" else [list(p) for p in case["points"]] if case["as"] == "list" else tuple(tuple(p) for p in case["points"])
    traj = tr.LinearTrajectory(arg, case["period"], case["sr"], mode=case["mode"])
    loop = closed(pts)
    total = case["period"] * case["sr"]
    scale = 1 + np.max(np.abs(pts))
    ratio = np.max(np.linalg.norm(np.diff(loop, axis=0), axis=1)) / max(np.min(np.linalg.norm(np.diff(loop, axis=0), axis=1)), 1e-9)
    tol = 1e-8 * scale * max(1.0, max(case["times"]) / total)
    seen_mid = False
    for n in case["times"]:
        p = traj.current_pos(n)
        if not isinstance(p, np.ndarray) or p.shape != (1, pts.shape[1]):
            raise Violation(f"current_pos({n}) has shape {np.shape(p)} instead of (1, {pts.shape[1]})")
        w = ref_linear(loop, total, case["mode"], n)
        slope = np.max(np.linalg.norm(np.diff(loop, axis=0), axis=1)) * len(loop)
        if not np.max(np.abs(p[0] - w)) <= tol + 1e-9 * slope * (1 + n / total):
            raise Violation(f"{case['mode']} trajectory through {pts.tolist()} period {total} samples: position at {n} is {p[0]}, expected {w}")
        seen_mid = seen_mid or np.min(np.linalg.norm(loop - w, axis=1)) > 1e-3 * np.max(np.abs(pts))
    # all anchors are visited in order, equal time / equal speed
    start = traj.current_pos(0)[0]
    if not np.max(np.abs(start - pts[0])) <= 1e-9 * scale:
        raise Violation(f"trajectory starts at {start}, expected the first point {pts[0]}")
    for k in case["laps"]:
        if not np.max(np.abs(traj.current_pos(total * k)[0] - pts[0])) <= 1e-6 * scale * ratio * len(loop):
            raise Violation(f"trajectory is at {traj.current_pos(total * k)[0]} after {k} periods, expected {pts[0]}")
    if not np.array_equal(given, np.array(case["points"], dtype=float)):
        raise Violation("the given anchor points were modified")
    ctx.label(case["mode"])
    ctx.nt(len(loop) > 2 and seen_mid)


def times_st(total):
    frac = st.floats(0, 3.5, allow_nan=False)
    return st.lists(st.one_of(st.integers(0, int(4 * total) + 5), st.integers(0, 10 ** 6).map(lambda v: v % (int(4 * total) + 3)),
                              frac.map(lambda f: f * total)), min_size=2, max_size=12)


@st.composite
def st_linear(draw):
    d = draw(st.sampled_from([2, 3, 3]))
    n = draw(st.integers(2, 7))
    pts = draw(st.lists(st.lists(coord, min_size=d, max_size=d), min_size=n, max_size=n))
    mode = draw(st.sampled_from(["constant_speed", "constant_time"]))
    ok = [pts[0]]
    for p in pts[1:]:
        if np.max(np.abs(np.array(p) - np.array(ok[-1]))) < 0.05:
            p = [p[0] + 1.0] + p[1:]
        ok.append(p)
    if draw(st.integers(0, 4)) == 0 and len(ok) > 2 and np.max(np.abs(np.array(ok[-1]) - np.array(ok[0]))) > 0.05:
        ok.append(list(ok[0]))         # already closed by the user
    elif np.max(np.abs(np.array(ok[-1]) - np.array(ok[0]))) < 0.05:
        ok.append([ok[0][0] + 2.0] + ok[0][1:])
    if draw(st.integers(0, 3)) == 0:
        ok = [[int(round(v)) + (7 * i if j == 0 else 0) for j, v in enumerate(p)] for i, p in enumerate(ok)]
    out = [ok[0]]
    for p in ok[1:]:
        if np.max(np.abs(np.array(p) - np.array(out[-1]))) >= 0.05:
            out.append(p)
    while len(out) > 2 and out[-1] != out[0] and np.max(np.abs(np.array(out[-1]) - np.array(out[0]))) < 0.05:
        out.pop()
    ok = out if len(out) > 1 else [ok[0], [ok[0][0] + 1] + list(ok[0][1:])]
    shrink = draw(st.sampled_from([1, 1, 1, 1e-2, 1e-3]))        # loops of a few millimetres
    if shrink != 1:
        ok = [[v * shrink for v in p] for p in ok]
    sr = draw(st.sampled_from([1, 16, 1000, 8000, 44100]))
    period = draw(st.one_of(st.floats(0.01, 20), st.integers(1, 20), st.sampled_from([0.1, 1 / 3, 2.7])))
    if period * sr < 2:
        period = period + 5
    return {"points": ok, "mode": mode, "sr": sr, "period": period, "times": draw(times_st(sr * period)),
            "laps": draw(st.lists(st.integers(1, 9), max_size=2)), "as": draw(st.sampled_from(["array", "list", "tuple"]))}


def ref_circle(c, t):
    r0, r1 = c["radius"]
    pr = (t / (c["rperiod"] * c["sr"])) % 1.0
    ang = c["start"] + 2 * np.pi * ((t / (c["aperiod"] * c["sr"])) % 1.0)
    rad = r1 - (r1 - r0) * (2 * pr if pr < 0.5 else 2 - 2 * pr)
    return np.array(c["center"]) + np.array([rad * np.cos(ang), rad * np.sin(ang), 0])


def t_circle(case, ctx):
    center = case["center"]
    arg = tuple(center) if case["as"] == "tuple" else list(center) if case["as"] == "list" else np.array(center)
    traj = tr.CircularTrajectory(tuple(case["radius"]), arg, case["rperiod"], case["aperiod"], case["sr"], **({"start_angle": case["start"]} if case["start"] or case["kw"] else {}))
    scale = 1 + case["radius"][1] + max(abs(v) for v in center)
    for t in case["times"]:
        p = traj.current_pos(t)
        if p.shape != (1, 3):
            raise Violation(f"current_pos({t}) has shape {p.shape}")
        turns = max(t / (case["rperiod"] * case["sr"]), t / (case["aperiod"] * case["sr"]), 1)
        w = ref_circle(case, t)
        if not np.max(np.abs(p[0] - w)) <= 1e-9 * scale * turns:
            raise Violation(f"circle radius {case['radius']} centre {center} start angle {case['start']}: at {t} is {p[0]}, expected {w}")
        d = np.linalg.norm(p[0][:2] - np.array(center)[:2])
        if not (case["radius"][0] - 1e-9 * scale * turns <= d <= case["radius"][1] + 1e-9 * scale * turns):
            raise Violation(f"distance {d} from the centre at {t} is outside {case['radius']}")
    ctx.nt(case["radius"][0] != case["radius"][1] and len(set(case["times"])) > 2)


@st.composite
def st_circle(draw):
    r = sorted([draw(st.floats(0, 5)), draw(st.floats(0, 5))])
    sr = draw(st.sampled_from([1, 16, 1000, 44100]))
    per = st.one_of(st.floats(0.05, 30), st.integers(1, 30))
    rp, ap = draw(per), draw(per)
    if sr == 1:
        rp, ap = rp + 4, ap + 4
    return {"radius": r, "center": [draw(coord) for _ in range(3)], "rperiod": rp, "aperiod": ap, "sr": sr,
            "start": draw(st.one_of(st.just(0), st.floats(-7, 7))), "kw": draw(st.booleans()),
            "times": draw(times_st(sr * max(rp, ap))), "as": draw(st.sampled_from(["tuple", "list", "array"]))}


def t_collection(case, ctx):
    members = []
    for m in case["members"]:
        if m["k"] == "linear":
            members.append(tr.LinearTrajectory(np.array(m["points"], float), m["period"], m["sr"], mode=m["mode"]))
        elif m["k"] == "circle":
            members.append(tr.CircularTrajectory(tuple(m["radius"]), tuple(m["center"]), m["rperiod"], m["aperiod"], m["sr"], start_angle=m["start"]))
        else:
            a = np.array(m["a"])
            members.append(tr.Trajectory(lambda t, a=a: a[None, :] * (1 + t)))
    if case["nest"] and len(members) > 2:
        coll = tr.TrajectoryCollection([tr.TrajectoryCollection(members[:2])] + members[2:])
    else:
        coll = tr.TrajectoryCollection(members)
    for t in case["times"]:
        p = coll.current_pos(t)
        want = np.concatenate([m.current_pos(t) for m in members], axis=0)
        assert_close(p, want, f"collection of {len(members)} trajectories at {t}", tol=1e-12)
        for i, m in enumerate(case["members"]):
            if m["k"] == "func":
                assert_close(p[i], np.array(m["a"]) * (1 + t), f"user-defined member {i} at {t}", tol=1e-12)
    ctx.nt(len(members) > 1)


@st.composite
def st_collection(draw):
    ms = []
    for _ in range(draw(st.integers(1, 4))):
        k = draw(st.sampled_from(["linear", "circle", "func"]))
        if k == "linear":
            m = draw(st_linear())
            m["points"] = [(p + [1.0])[:3] for p in m["points"]]
            while len(m["points"]) > 2 and np.allclose(m["points"][0], m["points"][-1]):
                m["points"] = m["points"][:-1]
        elif k == "circle":
            m = draw(st_circle())
        else:
            m = {"a": [draw(coord) for _ in range(3)]}
        ms.append({"k": k, **m})
    return {"members": ms, "nest": draw(st.booleans()), "times": draw(st.lists(st.integers(0, 10 ** 5), min_size=1, max_size=5))}


TESTS = [Test("linear", st_linear(), t_linear, quick=6000, thorough=37500), Test("circle", st_circle(), t_circle, quick=4000, thorough=25000),
         Test("collection", st_collection(), t_collection, quick=1600, thorough=10000)]
