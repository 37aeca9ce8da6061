"""C21: simulators are reproducible and isolated from each other."""
import copy
import dataclasses
import json
import pathlib

import numpy as np
import yaml
from hypothesis import strategies as st

import aspsim.array as ar
import aspsim.configutil as cu
import aspsim.room.trajectory as tr
import aspsim.signal.sources as sources
from aspsim.simulator import SimulatorSetup
from vlib.harness import Test, Violation
from vlib.simh import Rec, TableSource, apply_cfg, assert_close, ir_of, record, rng_of, run, scratch_dir, table

RULE = ("A case is an interleaving of creating simulators from one to three set-ups, changing the set-ups and running the simulators (also in the middle of "
        "the run of another one). Non-trivial: at least two simulators with different expected results are created and run, with a change or another creation or run in between.")
ASSUMPTIONS = ["sources are seeded; numpy's global random state is set before each creation and run if randomly drawn paths are used",
               "each simulator is run once", "objects handed to a set-up (arrays, positions, paths, sources) are not changed by the user while the set-up is still used to create simulators; "
               "trajectories (functions) are not changed by the user after they are handed over",
               "results agree up to rounding of single precision room responses (1e-9)"]
WARM = "dynamic"
SRC = ["white", "sine", "band", "autocorr", "sequence", "pulse", "mls", "table", "white"]


# ---------------------------------------------------------------- generation
@st.composite
def spec_st(draw):
    size = [draw(st.sampled_from([2.0, 2.5, 3.0])) for _ in range(3)]
    sab = 0.161 * np.prod(size) / (2 * (size[0] * size[1] + size[0] * size[2] + size[1] * size[2]))
    cfg = {"tot_samples": draw(st.integers(15, 40)), "sim_buffer": draw(st.integers(8, 16)), "sim_chunk_size": draw(st.integers(8, 20)),
           "samplerate": draw(st.sampled_from([500, 800])), "c": draw(st.sampled_from([343.0, 343.0, 300.0])), "reverb": draw(st.sampled_from(["ism", "ism", "random", "none"])),
           "room_size": size, "room_center": [draw(st.sampled_from([0.0, 0.5])) for _ in range(3)], "rt60": draw(st.sampled_from([0.0, 0.0, round(1.4 * sab, 3)])),
           "max_room_ir_length": draw(st.integers(12, 40)), "extra_delay": draw(st.integers(1, 8)), "highpass_cutoff": draw(st.sampled_from([0.0, 0.0, 25.0])),
           "array_update_freq": draw(st.integers(4, 10)), "start_sources_before_0": draw(st.booleans()), "save_source_contributions": draw(st.booleans())}
    arrays = [{"name": "S0", "kind": "free", "n": draw(st.integers(1, 2)), "src": draw(st.sampled_from(SRC)), "rng": draw(st.sampled_from(["own", "shared"])),
               "seed": draw(st.integers(0, 99))}]
    if draw(st.booleans()):
        arrays.append({"name": "S1", "kind": "free", "n": 1, "src": draw(st.sampled_from(SRC)), "rng": draw(st.sampled_from(["own", "shared"])), "seed": draw(st.integers(0, 99))})
    if draw(st.booleans()):
        arrays.append({"name": "L", "kind": "ctrl", "n": draw(st.integers(1, 2))})
    arrays.append({"name": "M0", "kind": "mic", "n": draw(st.integers(1, 2)), "moving": draw(st.sampled_from(["", "", "linear", "circular"]))})
    if draw(st.booleans()):
        arrays.append({"name": "M1", "kind": "mic", "n": 1, "moving": ""})
    user = {}
    for s in arrays:
        for m in arrays:
            if s["kind"] != "mic" and m["kind"] == "mic" and not m["moving"] and draw(st.integers(0, 2)) == 0:
                user[s["name"] + ">" + m["name"]] = [draw(st.integers(1, 8)), draw(st.integers(0, 99))]
    return {"cfg": cfg, "arrays": arrays, "user": user, "types": {}}


op_st = st.one_of(
    st.fixed_dictionaries({"op": st.just("create"), "u": st.integers(0, 2), "proc": st.integers(0, 4)}),
    st.fixed_dictionaries({"op": st.just("create"), "u": st.integers(0, 2), "proc": st.integers(0, 4)}),
    st.fixed_dictionaries({"op": st.just("run"), "j": st.integers(0, 9), "nest": st.lists(st.integers(0, 9), max_size=2), "at": st.integers(1, 6)}),
    st.fixed_dictionaries({"op": st.just("change"), "u": st.integers(0, 2), "i": st.integers(0, 9),
                           "what": st.sampled_from(["c", "c", "rt60", "room_size", "room inplace", "center inplace", "tot_samples", "buffer", "chunk", "samplerate", "length",
                                                    "extra", "reverb", "highpass", "before0", "contrib", "update", "source", "path", "type", "mic", "info"])}),
    st.fixed_dictionaries({"op": st.just("scribble"), "u": st.integers(0, 2), "what": st.sampled_from(["pos", "path", "source", "all"])}))
case_st = st.fixed_dictionaries({"specs": st.lists(spec_st(), min_size=1, max_size=3), "same": st.booleans(), "ops": st.lists(op_st, min_size=3, max_size=9)})


# ---------------------------------------------------------------- building
def make_source(a, shared, owned):
    rng = shared if a["rng"] == "shared" else np.random.default_rng(a["seed"])
    n, k = a["n"], a["src"]
    if k == "white":
        p = np.full(n, 1.0 + a["seed"] % 3)
        owned.append(p)
        return sources.WhiteNoiseSource(n, p, rng)
    if k == "sine":
        return sources.SineSource(n, 1.0, 37.0 + a["seed"], 500, rng)
    if k == "band":
        return sources.BandlimitedNoiseSource(n, 1.0, (50, 150), 500, rng)
    if k == "autocorr":
        ac = np.array([[2.0, 1.0, 0.3]] * n)
        owned.append(ac)
        return sources.AutocorrSource(n, ac, rng)
    if k == "sequence":
        x = rng_of(a["seed"], 2).normal(size=(n, 9 + a["seed"] % 7))
        owned.append(x)
        return sources.Sequence(x)
    if k == "pulse":
        return sources.PulseTrain(n, 1.5, 3 + a["seed"] % 4, a["seed"] % 3)
    if k == "mls" and n == 1:
        return sources.MLS(1, 5, [2])
    t = table(a["seed"], n, 500)
    owned.append(t)
    return TableSource(t)


def ppos(a, i, cfg):
    return np.array(cfg.get("pos_center", cfg["room_center"])) + rng_of(i, 21).uniform(-0.2, 0.2, size=(a["n"], 3)) + np.array(
        [0.15 * i - 0.2, 0.4 if a["kind"] == "mic" else -0.4, 0.1])


def build(spec):
    """spec -> (set-up, dict of user owned objects)"""
    su = SimulatorSetup(None)
    cfg = {k: v for k, v in spec["cfg"].items() if k != "pos_center"}
    apply_cfg(su.sim_info, copy.deepcopy(cfg))
    shared = np.random.default_rng(4321)
    own = {"pos": [], "path": [], "source": {}, "arrays": [], "data": [], "traj": [], "rng": shared}
    for i, a in enumerate(spec["arrays"]):
        add(su, spec, i, a, shared, own)
    for k, (L, seed) in spec["user"].items():
        set_user(su, spec, k, L, seed, own)
    for k, t in spec["types"].items():
        s, m = k.split(">")
        su.arrays.set_path_types({s: {m: t}})
    return su, own


def add(su, spec, i, a, shared, own):
    p = ppos(a, i, spec["cfg"])
    if a["kind"] == "free":
        src = make_source(a, shared, own["data"])
        own["source"][a["name"]] = src
        arr = ar.FreeSourceArray(a["name"], p, src)
    elif a["kind"] == "ctrl":
        arr = ar.ControllableSourceArray(a["name"], p)
    elif a["moving"]:
        ts = [tr.LinearTrajectory(np.stack((q, q + [0.1, 0.1, 0.0], q + [0.1, 0.2, 0.1])), 0.07, 500) if a["moving"] == "linear"
              else tr.CircularTrajectory((0.05, 0.15), q.copy(), 0.13, 0.09, 500) for q in p]
        t = ts[0] if len(ts) == 1 else tr.TrajectoryCollection(ts)
        own["traj"].append(t)
        arr = ar.MicArray(a["name"], t)
    else:
        arr = ar.MicArray(a["name"], p)
    own["pos"].append(p)
    own["arrays"].append(arr)
    su.add_array(arr)


def set_user(su, spec, k, L, seed, own):
    s, m = k.split(">")
    n = {a["name"]: a["n"] for a in spec["arrays"]}
    p = ir_of(seed, n[s], n[m], L)
    own["path"].append(p)
    su.set_path(s, m, p)


def change(su, spec, own, what, i):
    """apply one change to the live set-up and to its specification; False if not applicable"""
    cfg, si = spec["cfg"], su.sim_info
    num = {"c": ("c", [343.0, 300.0, 360.0]), "tot_samples": ("tot_samples", [17, 25, 44]), "buffer": ("sim_buffer", [9, 14, 20]), "chunk": ("sim_chunk_size", [9, 15, 21]),
           "samplerate": ("samplerate", [500, 600, 800]), "length": ("max_room_ir_length", [10, 25, 45]), "extra": ("extra_delay", [1, 4, 9]),
           "highpass": ("highpass_cutoff", [0.0, 20.0, 40.0]), "update": ("array_update_freq", [3, 5, 11]), "reverb": ("reverb", ["ism", "random", "none"]),
           "before0": ("start_sources_before_0", [True, False]), "contrib": ("save_source_contributions", [True, False])}
    if what in num:
        k, vals = num[what]
        v = vals[i % len(vals)]
        cfg[k] = v
        setattr(si, k, v)
        return True
    if what == "rt60":
        sz = cfg["room_size"]
        v = [0.0, round(1.7 * 0.161 * sz[0] * sz[1] * sz[2] / (2 * (sz[0] * sz[1] + sz[0] * sz[2] + sz[1] * sz[2])), 3)][i % 2]
        cfg["rt60"] = v
        si.rt60 = v
        return True
    if what in ("room_size", "room inplace", "center inplace"):
        # keep the arrays where they are
        cfg.setdefault("pos_center", list(cfg["room_center"]))
        key = "room_center" if "center" in what else "room_size"
        if cfg["rt60"] > 0 and key == "room_size":
            return False
        v = [2.2, 2.7, 3.2][i % 3] if key == "room_size" else cfg["pos_center"][i % 3] + [0.05, -0.05, 0.0][i % 3]
        cfg[key] = list(cfg[key])
        cfg[key][i % 3] = v
        if "inplace" in what:
            getattr(si, key)[i % 3] = v
        else:
            setattr(si, key, list(cfg[key]))
        return True
    if what == "info":   # a whole new configuration object
        su.sim_info = copy.deepcopy(si)
        return True
    free = [a for a in spec["arrays"] if a["kind"] == "free"]
    if what == "source":
        a = free[i % len(free)]
        a["src"], a["seed"], a["rng"] = SRC[i % len(SRC)], a["seed"] + 1, "own"
        src = make_source(a, own["rng"], own["data"])
        own["source"][a["name"]] = src
        su.set_source(a["name"], src)
        return True
    pairs = [(s["name"] + ">" + m["name"], m) for s in spec["arrays"] if s["kind"] != "mic" for m in spec["arrays"] if m["kind"] == "mic"]
    k, m = pairs[i % len(pairs)]
    if what == "path":
        if m["moving"]:
            return False
        spec["user"][k] = [1 + i % 5, i + 7]
        set_user(su, spec, k, *spec["user"][k], own)
        return True
    if what == "type":
        if k in spec["user"]:
            return False
        spec["types"][k] = ["ism", "random", "none"][i % 3]
        s, mm = k.split(">")
        su.arrays.set_path_types({s: {mm: spec["types"][k]}})
        return True
    a = {"name": f"X{len(spec['arrays'])}", "kind": "mic", "n": 1 + i % 2, "moving": ""}
    spec["arrays"].append(a)
    add(su, spec, len(spec["arrays"]) - 1, a, own["rng"], own)
    return True


def rebuild_source_order(spec):
    return spec


# ---------------------------------------------------------------- running
def prepare(sim, spec, proc):
    names = [(a["name"], a["n"]) for a in spec["arrays"]]
    if spec["cfg"]["save_source_contributions"]:
        names += [(f"{s['name']}~{m['name']}", m["n"]) for s in spec["arrays"] if s["kind"] != "mic" for m in spec["arrays"] if m["kind"] == "mic"]
    for k, n in names:
        record(sim, k, n)
    p = None
    if proc:
        bs = min(proc, spec["cfg"]["sim_buffer"] - 1, spec["cfg"]["sim_chunk_size"])
        hook = {}

        def on(self, n):
            if any(a["name"] == "L" for a in spec["arrays"]):
                i = self.sig.idx
                self.sig["L"][:, i:i + n] = 0.2 * self.sig["M0"][:1, i - n:i]
            if "f" in hook:
                hook["f"](len(self.calls))
        p = Rec(sim.sim_info, sim.arrays, bs, on)
        p.hook = hook
        sim.add_processor(p)
    return [k for k, _ in names], p


def finish(sim, names, spec, seed):
    np.random.seed(seed)
    run(sim)
    T = spec["cfg"]["tot_samples"]
    return {k: sim.diag.diagnostics[k].get_output()[:, :T] for k in names}


def alone(spec, proc, seed):
    np.random.seed(seed)
    su, _ = build(spec)
    sim = su.create_simulator()
    names, _ = prepare(sim, spec, proc)
    out = finish(sim, names, spec, seed + 1)
    return out, paths_of(sim)


def paths_of(sim):
    return {f"{s}>{m}": np.array(p) for s, d in sim.arrays.paths.items() for m, p in d.items()}


def copy_paths(sim):
    return {f"{s}>{m}": np.array(p, copy=True) for s, d in sim.arrays.paths.items() for m, p in d.items()}


def own_state(su, own):
    """everything the user handed over, as values"""
    out = {"pos": [p.copy() for p in own["pos"]], "path": [p.copy() for p in own["path"]], "data": [x.copy() for x in own["data"]],
           "traj": [[np.array(t.current_pos(k)) for k in (0, 3, 17)] for t in own["traj"]], "arrpos": [np.array(a.pos) for a in own["arrays"]],
           "info": copy.deepcopy(dataclasses.asdict(su.sim_info)), "ptypes": copy.deepcopy(su.arrays.path_type),
           "pkeys": sorted((s, m) for s, d in su.arrays.paths.items() for m in d), "names": list(su.arrays.arrays),
           "meta": json.dumps([a.metadata for a in own["arrays"]], default=str), "rng": repr(own["rng"].bit_generator.state)}
    # the source's future, heard through a copy
    srcs = copy.deepcopy(own["source"])
    out["src"] = [np.array(s.get_samples(7)) for s in srcs.values()]
    return out


def same_state(a, b, what):
    for k in a:
        x, y = a[k], b[k]
        if k in ("pos", "path", "data", "arrpos", "src"):
            ok = len(x) == len(y) and all(np.array_equal(p, q) for p, q in zip(x, y))
        elif k == "traj":
            ok = all(np.array_equal(p, q) for t, u in zip(x, y) for p, q in zip(t, u))
        else:
            ok = x == y
        if not ok:
            names = {"pos": "a position array", "path": "a path", "data": "data of a source", "traj": "a trajectory", "arrpos": "the position of an array", "info": "the configuration",
                     "ptypes": "the path types of the set-up", "pkeys": "the paths of the set-up", "names": "the arrays of the set-up", "meta": "metadata of an array",
                     "rng": "the shared random generator", "src": "the state of a source"}
            raise Violation(f"{what} changed {names[k]} that belongs to the user: {str(x)[:200]} -> {str(y)[:200]}")


def interleave(case, ctx):
    specs = copy.deepcopy(case["specs"])
    if case["same"]:
        specs = [specs[0]] + [copy.deepcopy(specs[0]) for _ in specs[1:]]
    live = [build(s) for s in specs]
    dead = set()
    sims = []     # dicts: sim, spec, names, proc, seed, ran, paths
    log = []
    seeds = iter(range(100, 10000, 10))

    def create(u, proc):
        su, own = live[u]
        seed = next(seeds)
        before = own_state(su, own)
        np.random.seed(seed)
        sim = su.create_simulator()
        same_state(before, own_state(su, own), "creating a simulator")
        spec = copy.deepcopy(specs[u])
        names, p = prepare(sim, spec, proc)
        sims.append({"sim": sim, "spec": spec, "names": names, "p": p, "proc": proc, "seed": seed, "ran": None, "paths": copy_paths(sim), "u": u, "n": len(sims)})
        log.append("create")

    def do_run(e, nest, at):
        e["ran"] = False
        su, own = live[e["u"]]
        before = {u: own_state(*live[u]) for u in range(len(live)) if u not in dead}
        if nest and e["p"] is not None:
            def hook(call):
                if call == at or (call == 1 and at == 6):
                    state = np.random.get_state()
                    for j in nest:
                        if j % 3 == 0 and len(sims) < 8:
                            alive = [u for u in range(len(live)) if u not in dead]
                            if alive:
                                create(alive[j % len(alive)], j % 4)
                        else:
                            todo = [x for x in sims if x["ran"] is None]
                            if todo:
                                do_run(todo[j % len(todo)], [], 0)
                                log.append("nested")
                    np.random.set_state(state)
            e["p"].hook["f"] = hook
        out = finish(e["sim"], e["names"], e["spec"], e["seed"] + 1)
        e["ran"] = out
        for u, b in before.items():
            same_state(b, own_state(*live[u]), "running a simulator")
        log.append("run")

    for o in case["ops"]:
        if o["op"] == "create":
            u = o["u"] % len(live)
            if u not in dead and len(sims) < 6:
                create(u, o["proc"])
        elif o["op"] == "change":
            u = o["u"] % len(live)
            if u not in dead and change(live[u][0], specs[u], live[u][1], o["what"], o["i"]):
                log.append("change")
                ctx.label("change:" + o["what"])
        elif o["op"] == "scribble":
            u = o["u"] % len(live)
            own = live[u][1]
            if u in dead or not any(x["u"] == u for x in sims):
                continue
            dead.add(u)
            log.append("scribble")
            if o["what"] in ("pos", "all"):
                for p in own["pos"]:
                    p += 0.3
                for a in own["arrays"]:
                    a.pos = a.pos + 0.1
            if o["what"] in ("path", "all"):
                for p in own["path"]:
                    p *= -2
            if o["what"] in ("source", "all"):
                for x in own["data"]:
                    x *= 3
                for s in own["source"].values():
                    s.get_samples(5)
        else:
            todo = [x for x in sims if x["ran"] is None]
            if todo:
                do_run(todo[o["j"] % len(todo)], o["nest"], o["at"])
    while any(x["ran"] is None for x in sims):
        do_run(next(x for x in sims if x["ran"] is None), [], 0)
    ref = {}
    for e in sims:
        out, paths = alone(e["spec"], e["proc"], e["seed"])
        ref[e["n"]] = out
        moving = {a["name"] for a in e["spec"]["arrays"] if a.get("moving")}
        for k in paths:
            if k.split(">")[1] not in moving:
                assert_close(e["paths"][k], paths[k], f"path {k} of simulator {e['n']} compared with the same set-up alone")
                assert_close(paths_of(e["sim"])[k], paths[k], f"path {k} of simulator {e['n']} after all compared with the same set-up alone")
        for k in e["names"]:
            if sorted(out) != sorted(e["ran"]):
                raise Violation(f"simulator {e['n']} has signals {sorted(e['ran'])}, alone {sorted(out)}")
            assert_close(e["ran"][k], out[k], f"{k} of simulator {e['n']} compared with the same set-up alone (history: {' '.join(log)})")
    if "nested" in log:
        ctx.label("nested run")
    if "scribble" in log:
        ctx.label("scribble")
    ctx.label(f"simulators:{len(sims)}")
    differ = len({json.dumps([x["spec"], x["proc"]], sort_keys=True) for x in sims}) > 1
    ctx.nt(len(sims) >= 2 and differ and len(log) > 4)


# ---------------------------------------------------------------- repetition in one set-up
@st.composite
def rep_st(draw):
    sp = draw(spec_st())
    return {"spec": sp, "times": draw(st.integers(2, 4)), "proc": draw(st.integers(0, 4)), "first": draw(st.booleans())}


def repeat(case, ctx):
    """same set-up, several simulators: bitwise the same"""
    su, own = build(case["spec"])
    outs, sims = [], []
    before = own_state(su, own)

    def one():
        np.random.seed(11)
        sim = su.create_simulator()
        sims.append((sim, prepare(sim, case["spec"], case["proc"])[0]))
    if case["first"]:
        for _ in range(case["times"]):
            one()
        outs = [finish(s, n, case["spec"], 12) for s, n in sims]
    else:
        for _ in range(case["times"]):
            one()
            outs.append(finish(*sims[-1], case["spec"], 12))
    same_state(before, own_state(su, own), "creating and running simulators")
    for i, o in enumerate(outs[1:]):
        for k in o:
            if not np.array_equal(o[k], outs[0][k]):
                d = np.argwhere(o[k] != outs[0][k])[0]
                raise Violation(f"{k} of simulator {i + 1} differs from the first one created from the same set-up at {d.tolist()}: {o[k][tuple(d)]} and {outs[0][k][tuple(d)]}")
    for a in range(len(sims)):
        for b in range(a):
            for x, y in ((sims[a][0].sim_info, sims[b][0].sim_info), (sims[a][0].arrays, sims[b][0].arrays)):
                if x is y:
                    raise Violation("two simulators share their configuration or arrays")
    ctx.nt(any(np.any(v != 0) for k, v in outs[0].items() if k.startswith("M")))


# ---------------------------------------------------------------- the generator of the set-up
rng_st = st.fixed_dictionaries({"seed": st.one_of(st.none(), st.integers(0, 99)), "before": st.integers(0, 9), "n": st.integers(1, 20), "times": st.integers(1, 3)})


def generator(case, ctx):
    """simulators offer the generator their set-up was given; without one they do not touch numpy's global state and are not all seeded alike"""
    def setup(rng):
        su = SimulatorSetup(None, rng=rng)
        apply_cfg(su.sim_info, {"tot_samples": 10, "sim_buffer": 8, "sim_chunk_size": 8, "reverb": "none"})
        su.add_controllable_source("S", np.zeros((1, 3)))
        su.add_mics("M", np.ones((1, 3)))
        return su
    n = case["n"]
    if case["seed"] is None:
        np.random.seed(5)
        state = np.random.get_state()[1].copy()
        a = [setup(None).create_simulator().rng.random(n + 3) for _ in range(case["times"] + 1)]
        if any(np.array_equal(a[0], x) for x in a[1:]):
            raise Violation("simulators of set-ups without generator draw the same numbers")
        if not np.array_equal(state, np.random.get_state()[1]):
            raise Violation("creating a simulator drew from numpy's global generator")
        ctx.nt(True)
        return
    rng, ref = np.random.default_rng(case["seed"]), np.random.default_rng(case["seed"])
    rng.random(case["before"])
    ref.random(case["before"])
    su = setup(rng)
    sims = [su.create_simulator() for _ in range(case["times"])]
    run(sims[0])
    if not np.array_equal(sims[-1].rng.random(n), ref.random(n)):
        raise Violation("the generator of the simulator does not continue the one given to the set-up")
    ctx.nt(case["before"] > 0)


# ---------------------------------------------------------------- sources without a generator
nogen_st = st.lists(st.fixed_dictionaries({"kind": st.sampled_from(["white", "sine", "band", "autocorr", "multisine"]), "ask": st.lists(st.integers(1, 30), max_size=4),
                                           "ch": st.integers(1, 2)}), min_size=2, max_size=6)


def no_generator(case, ctx):
    """sources that were not given a generator: what one delivers does not depend on the others"""
    def one(c):
        n = c["ch"]
        return {"white": lambda: sources.WhiteNoiseSource(n, 1.0), "sine": lambda: sources.SineSource(n, 1.0, 31.0, 500), "band": lambda: sources.BandlimitedNoiseSource(n, 1.0, (50, 150), 500),
                "autocorr": lambda: sources.AutocorrSource(n, np.array([[2.0, 1.0, 0.3]] * n)), "multisine": lambda: sources.MultiSineSource(1, 1.0, [20.0, 61.5], 500)}[c["kind"]]()
    live, got = [one(c) for c in case], [[] for _ in case]
    for r in range(4):                  # interleaved
        for c, s, g in zip(case, live, got):
            if r < len(c["ask"]):
                g.append(np.array(s.get_samples(c["ask"][r])))
    for c, g in zip(case, got):         # one after the other
        s = one(c)
        for k, n in enumerate(c["ask"]):
            w = np.array(s.get_samples(n))
            assert_close(g[k], w, f"{c['kind']} source without a generator, used next to others, request {k}", 0)
    ctx.nt(sum(bool(c["ask"]) for c in case) > 1)
    ctx.label("no_generator")


# ---------------------------------------------------------------- things used for several set-ups
sop_st = st.one_of(
    st.fixed_dictionaries({"op": st.sampled_from(["new", "scalar", "element", "sim element", "list"]), "u": st.integers(0, 5), "i": st.integers(0, 2),
                           "key": st.sampled_from(["room_size", "room_center"]), "v": st.integers(1, 90).map(lambda v: v / 7)}),
    st.fixed_dictionaries({"op": st.sampled_from(["types", "types", "edit", "edit", "type", "collection type", "path", "reverb", "check"]), "u": st.integers(0, 5),
                           "s": st.integers(0, 1), "m": st.integers(0, 1), "t": st.sampled_from(["none", "direct", "random"])}))
shared_st = st.fixed_dictionaries({"file": st.booleans(), "collection": st.booleans(), "ctypes": st.dictionaries(st.sampled_from(["A>M", "A>N", "B>M", "B>N"]), st.sampled_from(["none", "direct", "random"])),
                                   "types": st.dictionaries(st.sampled_from(["A", "B"]), st.dictionaries(st.sampled_from(["M", "N"]), st.sampled_from(["none", "direct", "random"]))),
                                   "ops": st.lists(sop_st, min_size=2, max_size=14)})
BASE = {"tot_samples": 10, "sim_buffer": 8, "sim_chunk_size": 8, "max_room_ir_length": 6, "highpass_cutoff": 0.0, "rt60": 0.0}


def shared(case, ctx):
    """default (or file) configurations, dictionaries of path types and array collections that are used for several set-ups"""
    with scratch_dir() as d:
        path = None
        if case["file"]:
            su = SimulatorSetup(None)
            apply_cfg(su.sim_info, {"room_size": [5, 4.5, 3.0], "room_center": [0.25, 0, 1]})
            su.sim_info.save_to_file(d)
            path = [d, d / "config.yaml", str(d)][len(case["ops"]) % 3]
            content = (d / "config.yaml").read_bytes()
        src = path and d / "config.yaml" or pathlib.Path(cu.__file__).parent / "config.yaml"
        fresh = yaml.safe_load(src.read_text())
        coll = None
        if case["collection"]:
            coll = ar.ArrayCollection()
            for n, p in (("A", 0.0), ("B", 0.1)):
                coll.add_array(ar.ControllableSourceArray(n, np.full((1, 3), p)))
            for n, p in (("M", 0.2), ("N", 0.3)):
                coll.add_array(ar.MicArray(n, np.full((1, 3), p)))
            for k, t in case["ctypes"].items():
                coll.set_path_types({k[0]: {k[2]: t}})
        ctypes = {(k[0], k[2]): t for k, t in case["ctypes"].items()} if coll is not None else {}
        types = copy.deepcopy(case["types"])
        ups = []     # (set-up, values, types)

        def new():
            su = SimulatorSetup(None, config_path=path)
            v = copy.deepcopy(fresh)
            if coll is not None:
                su.add_arrays(coll)
            else:
                for n, p in (("A", 0.0), ("B", 0.1)):
                    su.add_controllable_source(n, np.full((1, 3), p))
                for n, p in (("M", 0.2), ("N", 0.3)):
                    su.add_mics(n, np.full((1, 3), p))
            for k, x in dict(BASE, reverb="none").items():
                setattr(su.sim_info, k, x)
                v[k] = x
            ups.append((su, v, dict(ctypes)))

        def look(where):
            for i, (su, v, ty) in enumerate(ups):
                for k, x in v.items():
                    if getattr(su.sim_info, k) != x:
                        raise Violation(f"after {where}: {k} of set-up {i} is {getattr(su.sim_info, k)}, expected {x}")
            if path is not None and (d / "config.yaml").read_bytes() != content:
                raise Violation(f"after {where}: the configuration file was changed")

        def paths(where):
            for i, (su, v, ty) in enumerate(ups):
                np.random.seed(3)
                p = su.create_simulator().arrays.paths
                for s in "AB":
                    for m in "MN":
                        t, got = ty.get((s, m), v["reverb"]), np.asarray(p[s][m])
                        if isinstance(t, np.ndarray):
                            ok = np.array_equal(got, t)
                        elif t == "random":
                            ok = got.shape == (1, 1, BASE["max_room_ir_length"]) and np.count_nonzero(got) == got.size
                        else:
                            ok = np.count_nonzero(got) == (t == "direct") and got.sum() == (t == "direct")
                        if not ok:
                            raise Violation(f"after {where}: path {s}->{m} of set-up {i} is {got.ravel()[:6]}, expected one of type {t}")
        new()
        new()
        log = []
        for o in case["ops"]:
            su, v, ty = ups[o["u"] % len(ups)]
            op = o["op"]
            if op == "new":
                if len(ups) < 5:
                    new()
            elif op == "scalar":
                su.sim_info.c = v["c"] = 300 + o["v"]
            elif op == "element":
                getattr(su.sim_info, o["key"])[o["i"]] = v[o["key"]][o["i"]] = o["v"]
            elif op == "list":
                setattr(su.sim_info, o["key"], [o["v"]] * 3)
                v[o["key"]] = [o["v"]] * 3
            elif op == "sim element":
                sim = su.create_simulator()
                getattr(sim.sim_info, o["key"])[o["i"]] = o["v"]
                sim.sim_info.c = 123.0
                for s in sim.arrays.path_type:
                    for m in sim.arrays.path_type[s]:
                        sim.arrays.path_type[s][m] = "random"
            elif op == "reverb":
                su.sim_info.reverb = v["reverb"] = o["t"]
            elif op == "types":
                su.arrays.set_path_types(types)
                ty.update({(s, m): t for s, x in types.items() for m, t in x.items() if not isinstance(ty.get((s, m)), np.ndarray)})
            elif op == "edit":
                types.setdefault("AB"[o["s"]], {})["MN"[o["m"]]] = o["t"]
            elif op in ("type", "collection type"):
                k = ("AB"[o["s"]], "MN"[o["m"]])
                if op == "type" or coll is None:
                    su.arrays.set_path_types({k[0]: {k[1]: o["t"]}})
                    if not isinstance(ty.get(k), np.ndarray):
                        ty[k] = o["t"]
                else:
                    coll.set_path_types({k[0]: {k[1]: o["t"]}})
                    ctypes[k] = o["t"]
            elif op == "path":
                k = ("AB"[o["s"]], "MN"[o["m"]])
                ty[k] = rng_of(o["u"], 5).normal(size=(1, 1, 3))
                su.set_path(*k, ty[k].copy())
            elif op == "check":
                paths(" ".join(log) or "nothing")
            mine = copy.deepcopy(types)
            log.append(op)
            look(" ".join(log))
            if types != mine:
                raise Violation("the dictionary of path types was changed")
        keep = copy.deepcopy(types)
        new()
        look(" ".join(log))
        paths(" ".join(log))
        if types != keep:
            raise Violation("creating simulators changed the user's dictionary of path types")
        ctx.nt(len(ups) > 2 and len(set(log)) > 2)
        for o in set(log):
            ctx.label("shared:" + o)


TESTS = [
    Test("generator", rng_st, generator, quick=60, thorough=1000),
    Test("interleave", case_st, interleave, quick=450, thorough=16000),
    Test("no_generator", nogen_st, no_generator, quick=300, thorough=4000),
    Test("shared", shared_st, shared, quick=400, thorough=6000),
    Test("repeat", rep_st(), repeat, quick=150, thorough=5000),
]
