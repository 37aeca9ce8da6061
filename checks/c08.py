"""C08: moving arrays are simulated with the response of the current position."""
import numpy as np
from hypothesis import strategies as st

import aspsim.array as ar
import aspsim.room.trajectory as tr
from aspsim.simulator import SimulatorSetup
from vlib import simh
from vlib.harness import Test, Violation

WARM = "dynamic"
RULE = ("A case is one simulation with at least one moving array (generated trajectory, update interval, room, other static or "
        "moving arrays, path types). Non-trivial: the update interval is reached at least twice at different positions.")
ASSUMPTIONS = ["responses at a given position are those the library computes for static arrays at that position (their physics is C10)",
               "whether sample n uses the positions of the update at n or at n-1 is accepted either way, but has to be constant over the run",
               "moving arrays have no user-set paths (the library asserts this) and no random responses",
               "room constants are set before creation and no other simulator is created in between (C21 covers that)"]

HALF = np.array([2.0, 1.5, 1.25])


class Table(tr.Trajectory):
    """user-defined trajectory: table of waypoints with (T, n, 3), index time // hold, held at the end"""

    def __init__(self, pts, hold, reuse=False):
        self.pts, self.hold, self.calls = pts, hold, []
        self.out = np.array(pts[0], dtype=float) if reuse else None

    def current_pos(self, n):
        p = self.pts[min(int(n) // self.hold, len(self.pts) - 1)]
        if self.out is None:
            return p
        self.out[...] = p            # one array, updated in place and returned every time
        return self.out

    def plot(self, ax, symbol, name, tot):
        pass


def rand_pos(seed, n, center):
    return center + simh.rng_of(seed, 31).uniform(-0.8, 0.8, size=(n, 3)) * HALF


def make_traj(a, cfg, center):
    k, reach = a["traj"], a.get("reach", 1.0)      # small reach: slow movement

    def near(p, base):
        return p if reach == 1.0 else base + reach * (p - base)
    if k == "table":
        base = rand_pos(a["seed"] * 100 + 77, a["n"], center)
        pts = np.stack([near(rand_pos(a["seed"] * 100 + i, a["n"], center), base) for i in range(a["wp"])])
        return Table(pts, a["hold"], a.get("reuse", False))
    members = []
    for j in range(a["n"]):
        if k == "linear":
            members.append(tr.LinearTrajectory(near(rand_pos(a["seed"] * 100 + j, max(2, a["wp"]), center), rand_pos(a["seed"] * 100 + 77 + j, 1, center)), a["period"] / cfg["samplerate"],
                                               cfg["samplerate"], mode=a["mode"]))
        else:
            r = simh.rng_of(a["seed"], 32, j).uniform(0.1, 0.9, size=2) * reach
            members.append(tr.CircularTrajectory((min(r), max(r)), center + np.array([0, 0, 0.1 * j]), a["period"] / cfg["samplerate"],
                                                 (a["period"] + 3) / cfg["samplerate"], cfg["samplerate"], start_angle=0.3 * j))
    return members[0] if a["n"] == 1 and not a["collect"] else tr.TrajectoryCollection(members)


def new_setup(cfg):
    su = SimulatorSetup()
    simh.apply_cfg(su.sim_info, cfg)
    return su


def add(su, a, pos, tables=None):
    if a["kind"] == "mic":
        su.add_mics(a["name"], pos)
    elif a["kind"] == "src":
        su.add_free_source(a["name"], pos, simh.TableSource(tables[a["name"]]))
    else:
        su.add_controllable_source(a["name"], pos)


def t_moving(case, ctx):
    default = case.get("default", "ism")
    cfg = {**case["cfg"], "reverb": default, "array_update_freq": case["freq"], "room_size": list(2 * HALF)}
    center = np.array(case["cfg"]["room_center"])
    tot, f, buf = cfg["tot_samples"], case["freq"], cfg["sim_buffer"]
    arrs = case["arrays"]
    tables = {a["name"]: simh.table(a["seed"], a["n"], tot + 600) for a in arrs if a["kind"] == "src"}
    n_end = tot + (case["block"] if case["block"] else buf // 4)
    ups = list(range(0, n_end, f))
    # positions the library has to use
    pos = {}
    for a in arrs:
        if a["moving"]:
            t = make_traj(a, cfg, center)
            pos[a["name"]] = [np.array(t.current_pos(u)) for u in ups]
        else:
            pos[a["name"]] = [rand_pos(a["seed"], a["n"], center)] * len(ups)
    su = new_setup(cfg)
    trajs = {}
    for a in arrs:
        trajs[a["name"]] = make_traj(a, cfg, center) if a["moving"] else pos[a["name"]][0]
        add(su, a, trajs[a["name"]], tables)
    srcs = [a for a in arrs if a["kind"] != "mic"]
    mics = [a for a in arrs if a["kind"] == "mic"]
    ptype = {}
    user = {}
    for i, s in enumerate(srcs):
        for j, m in enumerate(mics):
            t = case["types"][(i * 3 + j) % len(case["types"])]
            if t == "direct" and s["n"] != m["n"]:
                t = "ism"
            if t == "user":
                if s["moving"] or m["moving"]:
                    t = "ism"
                else:
                    user[(s["name"], m["name"])] = simh.ir_of(s["seed"], s["n"], m["n"], 5)
                    su.set_path(s["name"], m["name"], user[(s["name"], m["name"])].copy())
            if t != "user" and (t in ("direct", "none") or default != "ism"):
                su.arrays.set_path_types({s["name"]: {m["name"]: t}})
            ptype[(s["name"], m["name"])] = t
    sim = su.create_simulator()
    for a in arrs:
        simh.record(sim, a["name"], a["n"])
    if case["block"]:
        script = simh.rng_of(case["seed"], 9).normal(size=(4, n_end + 200))

        def act(p, bs):
            for a in arrs:
                if a["kind"] == "ctrl":
                    p.sig[a["name"]][:, p.sig.idx:p.sig.idx + bs] = script[:a["n"], p.count:p.count + bs]
        sim.add_processor(simh.Rec(sim.sim_info, sim.arrays, case["block"], act))
    sim_arrays = sim.arrays
    simh.run(sim)
    rec = {a["name"]: sim.diag[a["name"]].get_output() for a in arrs}

    # positions logged by the arrays
    for a in arrs:
        obj = sim_arrays[a["name"]]
        if a["moving"]:
            if [int(x) for x in obj.time_all] != ups:
                raise Violation(f"array {a['name']}: positions logged at {list(obj.time_all)[:8]}, update interval {f}, expected {ups[:8]}")
            for u, p, w in zip(ups, obj.pos_all, pos[a["name"]]):
                simh.assert_close(p, w, f"array {a['name']}: logged position at {u}", tol=1e-12)
        elif obj.dynamic:
            raise Violation(f"static array {a['name']} is marked as moving")
    # responses at every update, from static arrays placed at all positions
    irs = {}
    for s in srcs:
        for m in mics:
            key = (s["name"], m["name"])
            t = ptype[key]
            if t == "user":
                irs[key] = [user[key]] * len(ups)
            elif t == "none":
                irs[key] = [np.zeros((s["n"], m["n"], 1))] * len(ups)
            elif t == "direct":
                r = new_setup({**cfg, "reverb": "direct"})      # includes the highpass, see C11
                r.add_controllable_source("s", pos[s["name"]][0])
                r.add_mics("m", pos[m["name"]][0])
                irs[key] = [r.create_simulator().arrays.paths["s"]["m"]] * len(ups)
            else:
                out, cache = [], {}
                for k in range(len(ups)):
                    h = (pos[s["name"]][k].tobytes(), pos[m["name"]][k].tobytes())
                    if h not in cache:
                        r = new_setup({**cfg, "reverb": "ism"})
                        r.add_controllable_source("s", pos[s["name"]][k])
                        r.add_mics("m", pos[m["name"]][k])
                        cache[h] = r.create_simulator().arrays.paths["s"]["m"]
                    out.append(cache[h])
                irs[key] = out
    # reference signals
    off = buf - 1
    src_sig = {}
    for a in srcs:
        if a["kind"] == "src":
            src_sig[a["name"]] = simh.source_timeline(tables[a["name"]], cfg, tot)
        else:
            z = np.zeros((a["n"], tot + off))
            if case["block"]:
                b = case["block"]
                g0 = off + b          # first call writes samples b.. (see C04)
                z[:, g0:] = script[:a["n"], :max(0, tot + off - g0)]
            src_sig[a["name"]] = z
        simh.assert_close(rec[a["name"]], src_sig[a["name"]][:, off:], f"source {a['name']}")
    want = {}
    for lag in (0, 1):
        for m in mics:
            y = np.zeros((m["n"], tot))
            for g in range(tot):
                k = max(g - lag, 0) // f
                for s in srcs:
                    h = irs[(s["name"], m["name"])][k]
                    K = h.shape[2]
                    x = src_sig[s["name"]][:, max(0, g + off - K + 1):g + off + 1][:, ::-1]
                    y[:, g] += np.einsum("sk,smk->m", x, h[:, :, :x.shape[1]])
            want[(lag, m["name"])] = y
    errs = []
    for lag in (1, 0):
        try:
            for m in mics:
                simh.assert_close(rec[m["name"]], want[(lag, m["name"])], f"microphones {m['name']} (updates every {f} samples)")
            break
        except Violation as e:
            errs.append(e)
    else:
        raise errs[0]
    moved = sum(1 for a in arrs if a["moving"] for k in range(1, len(ups)) if not np.array_equal(pos[a["name"]][k], pos[a["name"]][k - 1]))
    for a in arrs:
        if a["moving"]:
            ctx.label(f"moving_{a['kind']}_{a['traj']}")
            ctx.label("slow movement", a.get("reach", 1.0) < 1)
    ctx.label(f"moving_arrays_{sum(a['moving'] for a in arrs)}")
    ctx.label("rt60>0" if cfg["rt60"] > 0 else "direct_only")
    ctx.nt(moved >= 2)


@st.composite
def room_cfg(draw, block, max_tot):
    cfg = draw(simh.cfg_st(max(block, 1), max_tot=max_tot, max_buf=30, max_chunk=30))
    cfg["samplerate"] = draw(st.sampled_from([500, 1000, 1600]))
    cfg["c"] = draw(st.sampled_from([343.0, 300.0, 350.5]))
    cfg["rt60"] = draw(st.sampled_from([0.0, 0.0, 0.0, 0.0, 0.1]))
    cfg["max_room_ir_length"] = draw(st.integers(12, 40))
    cfg["extra_delay"] = draw(st.integers(1, 8))
    cfg["room_center"] = [draw(st.floats(-2, 2)) for _ in range(3)]
    cfg["highpass_cutoff"] = draw(st.sampled_from([0.0, 0.0, 0.0, 40.0]))
    return cfg


@st.composite
def arr_st(draw, name, kind, moving, slow):
    a = {"name": name, "kind": kind, "n": draw(st.integers(1, 2)), "seed": draw(st.integers(0, 99)), "moving": moving}
    if moving:
        a["traj"] = draw(st.sampled_from(["table", "table", "linear", "circular"]))
        a["wp"] = draw(st.integers(1, 5))
        a["reach"] = draw(st.sampled_from([1.0, 1.0, 1.0, 1.0, 1e-3, 1e-5]))
        a["reuse"] = draw(st.booleans())
        a["hold"] = draw(st.integers(4 if slow else 1, 12))
        a["period"] = draw(st.integers(7, 80))
        a["mode"] = draw(st.sampled_from(["constant_speed", "constant_time"]))
        a["collect"] = draw(st.booleans())
    return a


@st.composite
def st_moving(draw):
    block = draw(st.sampled_from([0, 0, 1, 3, 8]))
    cfg = draw(room_cfg(block, 45))
    freq = draw(st.one_of(st.integers(1, 12), st.integers(1, 50)))
    if cfg["rt60"] > 0:
        freq = max(freq, 10)
    nsrc, nmic = draw(st.integers(1, 2)), draw(st.integers(1, 2))
    kinds = [draw(st.sampled_from(["src", "src", "ctrl"])) if block else "src" for _ in range(nsrc)] + ["mic"] * nmic
    mov = [draw(st.booleans()) for _ in kinds]
    if not any(mov):
        mov[draw(st.integers(0, len(kinds) - 1))] = True
    names = draw(st.permutations(simh.NAMES))[:len(kinds)]
    arrays = [draw(arr_st(n, k, m, freq < 4)) for n, k, m in zip(names, kinds, mov)]
    arrays = list(draw(st.permutations(arrays)))
    return {"cfg": cfg, "block": block, "freq": freq, "arrays": arrays, "seed": draw(st.integers(0, 99)),
            "default": draw(st.sampled_from(["ism", "ism", "none", "random"])),
            "types": draw(st.lists(st.sampled_from(["ism", "ism", "ism", "direct", "none", "user"]), min_size=6, max_size=6))}


def t_relations(case, ctx):
    """constant trajectory == static array; moving the source == moving the microphone"""
    cfg = {**case["cfg"], "reverb": "ism", "array_update_freq": case["freq"], "room_size": list(2 * HALF)}
    center = np.array(case["cfg"]["room_center"])
    tot = cfg["tot_samples"]
    table = simh.table(case["seed"], 1, tot + 600)

    def sim_with(src_pos, mic_pos, n_src=1):
        su = new_setup(cfg)
        su.add_free_source("src", src_pos, simh.TableSource(np.repeat(table, n_src, axis=0)))
        su.add_mics("mic", mic_pos)
        sim = su.create_simulator()
        nm = sim.arrays["mic"].num
        simh.record(sim, "mic", nm)
        simh.run(sim)
        return sim.diag["mic"].get_output()
    fixed = rand_pos(case["seed"] + 500, 1, center)
    if case["rel"] == "static":
        n = case["n"]
        p = rand_pos(case["seed"], n, center)

        def still():
            if case["traj"] == "func":
                return tr.Trajectory(lambda t: p)
            if case["traj"] == "table":
                return Table(p[None], 1)
            return tr.TrajectoryCollection([tr.CircularTrajectory((0.0, 0.0), p[i], 1.0, 1.0, cfg["samplerate"]) for i in range(n)])
        for which in ("mic", "src"):
            a = sim_with(fixed, still()) if which == "mic" else sim_with(still(), fixed, n)
            b = sim_with(fixed, p) if which == "mic" else sim_with(p, fixed, n)
            simh.assert_close(a, b, f"{which} array with a trajectory that never moves compared with a static array")
    else:
        a = case["a"]
        x = sim_with(make_traj(a, cfg, center), fixed)
        y = sim_with(fixed, make_traj(a, cfg, center))
        simh.assert_close(x, y, "moving the source past the microphone compared with moving the microphone past the source", tol=2e-5)
    ctx.label("relation_" + case["rel"])
    ctx.nt(True)


@st.composite
def st_rel(draw):
    cfg = draw(room_cfg(0, 60))
    freq = draw(st.integers(1, 20))
    if cfg["rt60"] > 0:
        freq = max(freq, 10)
    a = draw(arr_st("x", "mic", True, freq < 4))
    a["n"] = 1
    return {"cfg": cfg, "freq": freq, "rel": draw(st.sampled_from(["static", "reciprocal"])), "n": draw(st.integers(1, 3)),
            "traj": draw(st.sampled_from(["func", "table", "circle"])), "a": a, "seed": draw(st.integers(0, 99))}


TESTS = [Test("moving", st_moving(), t_moving, quick=240),
         Test("relations", st_rel(), t_relations, quick=120)]
