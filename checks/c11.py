"""C11: every path has the type, shape and filtering the user asked for."""
import numpy as np
from hypothesis import strategies as st

import aspsim.array as ar
from aspsim.simulator import SimulatorSetup
from vlib.harness import Test, Violation
from vlib.simh import TableSource, apply_cfg, assert_close, conv_sum, ir_of, record, rng_of, run, source_timeline, table

RULE = ("A case is a set-up of source and microphone arrays with path types and user paths given in some order, or one wrongly shaped path. "
        "Non-trivial: at least two different path types are used, or a highpass cutoff is set and a generated path is not all zeros, or a rejection.")
ASSUMPTIONS = ["type direct is only asked for between arrays of equal numbers of elements",
               "highpass cutoff is at least 5 Hz and at most 0.4 of the sample rate (below, the filter's 1 s padding is too short to call it exact)",
               "random paths are reproducible through numpy's global random state",
               "room responses are compared with those of the pair simulated alone (their physics is C10)"]
WARM = "static"
TYPES = ["none", "direct", "random", "ism"]


@st.composite
def scene_st(draw, single=False):
    ns, nm = (1, 1) if single else (draw(st.integers(1, 3)), draw(st.integers(1, 3)))
    src = [{"name": n, "n": draw(st.sampled_from([1, 2, 2, 3, 0] if i else [1, 2, 3])), "kind": draw(st.sampled_from(["free", "ctrl"]))}
           for i, n in enumerate(["src", "s", "src mic"][:ns])]
    mics = [{"name": n, "n": draw(st.sampled_from([1, 2, 2, 3, 0] if i else [1, 2, 3]))} for i, n in enumerate(["mic", "m~", "err"][:nm])]
    size = [draw(st.floats(2, 6).map(lambda v: round(v, 2))) for _ in range(3)]
    sr = draw(st.sampled_from([500, 800, 1000]))
    cut = draw(st.one_of(st.just(0), st.just(0.0), st.floats(5, 0.4 * sr).map(lambda v: round(v, 1))))
    cfg = {"reverb": draw(st.sampled_from(TYPES)), "samplerate": sr, "highpass_cutoff": cut,
           "max_room_ir_length": draw(st.one_of(st.integers(1, 60), st.integers(60, 300))), "room_size": size,
           "room_center": [draw(st.floats(-3, 3).map(lambda v: round(v, 2))) for _ in range(3)],
           "rt60": draw(st.one_of(st.just(0), st.floats(1.2, 3).map(lambda f: round(float(f * 0.161 * np.prod(size) / (2 * (size[0] * size[1] + size[0] * size[2] + size[1] * size[2]))), 3)))), "extra_delay": draw(st.integers(1, 20)),
           "tot_samples": 30, "sim_buffer": 12, "sim_chunk_size": 16, "start_sources_before_0": draw(st.booleans()),
           "save_source_contributions": draw(st.booleans())}
    default = cfg["reverb"]
    ops = []
    for s in src:
        for m in mics:
            forced = default == "direct" and s["n"] != m["n"]
            what = draw(st.sampled_from(["default", "default", "type", "path", "path+type", "path path"]))
            if forced and what == "default":
                what = "type"
            types = [t for t in TYPES if t != "direct" or s["n"] == m["n"]]
            if "type" in what:
                ops.append({"op": "type", "src": s["name"], "mic": m["name"], "type": draw(st.sampled_from(types))})
            for _ in range(what.count("path")):
                ops.append({"op": "path", "src": s["name"], "mic": m["name"], "len": draw(st.integers(1, 30)), "seed": draw(st.integers(0, 9999)),
                            "dtype": draw(st.sampled_from(["float", "float", "float", "float", "float", "int", "f32"]))})
    order = draw(st.permutations(list(range(len(src) + len(mics)))))
    early = draw(st.booleans())
    return {"cfg": cfg, "src": src, "mics": mics, "ops": ops, "opperm": draw(st.permutations(list(range(len(ops))))), "order": order,
            "early": early, "via": draw(st.sampled_from(["setup", "setup", "collection"])), "seed": draw(st.integers(0, 9999)),
            "reverb2": draw(st.sampled_from([None, None, "none", "random", "ism"]))}


def user_path(o, ns, nm):
    p = ir_of(o["seed"], ns, nm, o["len"])
    return (10 * p).astype(int) if o["dtype"] == "int" else p.astype(np.float32) if o["dtype"] == "f32" else p


def positions(case, i, n):
    cfg = case["cfg"]
    r = rng_of(case["seed"], i, 11)
    return np.array(cfg["room_center"]) + r.uniform(-0.4, 0.4, size=(n, 3)) * np.array(cfg["room_size"])


def build(case):
    cfg = case["cfg"]
    su = SimulatorSetup(None)
    apply_cfg(su.sim_info, cfg)
    target = ar.ArrayCollection() if case["via"] == "collection" else su.arrays
    tables, paths, n_of = {}, {}, {}
    items = [("src", s) for s in case["src"]] + [("mic", m) for m in case["mics"]]
    pending = [case["ops"][i] for i in case["opperm"]]
    added = set()

    def do_op(o):
        if o["op"] == "type":
            target.set_path_types({o["src"]: {o["mic"]: o["type"]}})
        elif case["via"] == "setup":
            paths[(o["src"], o["mic"])] = user_path(o, n_of[o["src"]], n_of[o["mic"]])
            su.set_path(o["src"], o["mic"], paths[(o["src"], o["mic"])].copy())

    for i in case["order"]:
        kind, a = items[i]
        pos = positions(case, i, a["n"])
        if kind == "mic":
            target.add_array(ar.MicArray(a["name"], pos))
        elif a["kind"] == "free":
            tables[a["name"]] = table(case["seed"] + i, a["n"], 400)
            target.add_array(ar.FreeSourceArray(a["name"], pos, TableSource(tables[a["name"]])))
        else:
            target.add_array(ar.ControllableSourceArray(a["name"], pos))
        n_of[a["name"]] = a["n"]
        added.add(a["name"])
        if case["early"]:
            for o in [o for o in pending if o["src"] in added and o["mic"] in added]:
                do_op(o)
                pending.remove(o)
    for o in pending:
        do_op(o)
    if case["via"] == "collection":
        su.add_arrays(target)
        for o in [case["ops"][i] for i in case["opperm"]]:
            if o["op"] == "path":
                paths[(o["src"], o["mic"])] = user_path(o, n_of[o["src"]], n_of[o["mic"]])
                su.set_path(o["src"], o["mic"], paths[(o["src"], o["mic"])].copy())
    return su, tables, paths


def last_type(case, s, m):
    t = None
    for i in case["opperm"]:
        o = case["ops"][i]
        if o["op"] == "type" and (o["src"], o["mic"]) == (s, m):
            t = o["type"]
    return t


def kernel(sr, cutoff, half):
    """zero-phase impulse response of a squared-magnitude 2nd order Butterworth highpass, lags 0..half-1"""
    n = 1 << int(np.ceil(np.log2(8 * half + 16 * sr)))
    f = np.arange(n // 2 + 1) / n
    x = np.tan(np.pi * np.minimum(f, 0.5 - 1e-12)) / np.tan(np.pi * cutoff / sr)
    r4 = x ** 4
    return np.fft.irfft(r4 / (1 + r4), n)[:half]


def zero_phase(path, sr, cutoff):
    L = path.shape[-1]
    g = kernel(sr, cutoff, L)
    T = g[np.abs(np.arange(L)[:, None] - np.arange(L)[None, :])]
    return path @ T


def alone(case, s, m, cutoff):
    """the pair by itself in the same room"""
    su = SimulatorSetup(None)
    apply_cfg(su.sim_info, dict(case["cfg"], reverb="ism", highpass_cutoff=cutoff))
    items = case["src"] + case["mics"]
    for i, a in enumerate(items):
        if a is s:
            su.add_controllable_source("x", positions(case, i, a["n"]))
        elif a is m:
            su.add_mics("y", positions(case, i, a["n"]))
    return su.create_simulator().arrays.paths["x"]["y"]


def check_paths(case, sim, paths, default, ctx, prop_types):
    cfg = case["cfg"]
    cut = cfg["highpass_cutoff"]
    for s in case["src"]:
        for m in case["mics"]:
            key = (s["name"], m["name"])
            got = sim.arrays.paths[s["name"]][m["name"]]
            info = sim.arrays.path_info[f"{s['name']}->{m['name']}"]["type"]
            what = f"path {s['name']}->{m['name']}"
            if s["n"] == 0 or m["n"] == 0:
                if got.shape[:2] != (s["n"], m["n"]):
                    raise Violation(f"{what}: shape {got.shape} for {s['n']} sources and {m['n']} microphones")
                ctx.label("empty")
                continue
            t = "modified" if key in paths else (last_type(case, *key) or default)
            ctx.label("type:" + t)
            prop_types.add(t)
            if sim.arrays.path_type[s["name"]][m["name"]] != t:
                raise Violation(f"{what}: has type {sim.arrays.path_type[s['name']][m['name']]} instead of {t}")
            if info != t:
                raise Violation(f"{what}: metadata names type {info}, the type is {t}")
            if t == "modified":
                want = paths[key]
                if got.shape != want.shape or got.dtype != want.dtype or not np.array_equal(got, want):
                    raise Violation(f"{what}: not the response set by the user")
                continue
            if not np.all(np.isfinite(got)):
                raise Violation(f"{what} of type {t} is not finite")
            if t == "none":
                if got.ndim != 3 or got.shape[:2] != (s["n"], m["n"]) or got.any():
                    raise Violation(f"{what} of type none is not zero (shape {got.shape})")
            elif t == "direct":
                want = np.eye(s["n"])[..., None]
                if cut > 0:
                    want = zero_phase(want, cfg["samplerate"], cut)
                assert_close(got, want, f"{what} of type direct (cutoff {cut})", 1e-6)
                ctx.nt(cut > 0)
            elif t == "random":
                if got.shape != (s["n"], m["n"], cfg["max_room_ir_length"]):
                    raise Violation(f"{what} of type random has shape {got.shape}, maximum length is {cfg['max_room_ir_length']}")
                v = got.ravel()
                if len(np.unique(v)) != v.size:
                    raise Violation(f"{what} of type random has repeated values")
            else:
                want = alone(case, s, m, 0)
                if want.shape[-1] != cfg["max_room_ir_length"]:
                    raise Violation(f"{what} of type ism has length {want.shape[-1]}")
                if cut > 0:
                    want = zero_phase(want, cfg["samplerate"], cut)
                assert_close(got, want, f"{what} of type ism (cutoff {cut}, sample rate {cfg['samplerate']})", 1e-6)
                ctx.nt(cut > 0)


def types(case, ctx):
    cfg = case["cfg"]
    su, tables, paths = build(case)
    np.random.seed(case["seed"])
    sim = su.create_simulator()
    seen = set()
    check_paths(case, sim, paths, cfg["reverb"], ctx, seen)
    rand = [(s["name"], m["name"]) for s in case["src"] for m in case["mics"]
            if s["n"] and m["n"] and sim.arrays.path_type[s["name"]][m["name"]] == "random"]
    if rand:
        vals = np.concatenate([sim.arrays.paths[a][b].ravel() for a, b in rand])
        if len(np.unique(vals)) != vals.size:
            raise Violation("different random paths share values")
        if cfg["highpass_cutoff"] > 0:
            # same random state without the filter
            su2, _, _ = build(dict(case, cfg=dict(cfg, highpass_cutoff=0)))
            np.random.seed(case["seed"])
            ref = su2.create_simulator()
            for a, b in rand:
                want = zero_phase(ref.arrays.paths[a][b], cfg["samplerate"], cfg["highpass_cutoff"])
                assert_close(sim.arrays.paths[a][b], want, f"path {a}->{b} of type random with cutoff {cfg['highpass_cutoff']}", 1e-6)
                ctx.nt(True)
    # the default type only concerns the simulators created with it
    if case["reverb2"]:
        su.sim_info.reverb = case["reverb2"]
        ok = case["reverb2"] != "direct"
        if ok:
            sim2 = su.create_simulator()
            check_paths(case, sim2, paths, case["reverb2"], ctx, set())
            su.sim_info.reverb = cfg["reverb"]
    # and these are the responses that are simulated
    if tables and all(p.dtype == np.float64 for p in paths.values()):   # the filters of aspcore need doubles
        for m in case["mics"]:
            record(sim, m["name"], m["n"])
        pth = {(s["name"], m["name"]): sim.arrays.paths[s["name"]][m["name"]].copy() for s in case["src"] for m in case["mics"]}
        run(sim)
        buf, tot = cfg["sim_buffer"], cfg["tot_samples"]
        lines = {k: source_timeline(v, cfg, tot) for k, v in tables.items() if v.shape[0]}
        for m in case["mics"]:
            want = np.zeros((m["n"], tot + buf - 1))
            for k, x in lines.items():
                want += conv_sum(x, pth[(k, m["name"])])
            if m["n"]:
                assert_close(sim.diag.diagnostics[m["name"]].get_output()[:, :tot], want[:, buf - 1:buf - 1 + tot], f"recording of {m['name']}", 1e-6)
    ctx.label("cutoff" if cfg["highpass_cutoff"] > 0 else "no cutoff")
    ctx.nt(len(seen) > 1)


# ---------------------------------------------------------------- long responses: gain in the two bands
band_st = st.fixed_dictionaries({"sr": st.sampled_from([500, 1000, 2000]), "cut": st.floats(0.02, 0.2), "seed": st.integers(0, 9999),
                                 "n": st.integers(1500, 3000)})


def bands(case, ctx):
    sr, cut = case["sr"], round(case["cut"] * case["sr"], 1)
    out = []
    for c in (0, cut):
        su = SimulatorSetup(None)
        apply_cfg(su.sim_info, {"reverb": "random", "samplerate": sr, "max_room_ir_length": case["n"], "highpass_cutoff": c})
        su.add_controllable_source("s", np.zeros((1, 3)))
        su.add_mics("m", np.ones((2, 3)))
        np.random.seed(case["seed"])
        out.append(su.create_simulator().arrays.paths["s"]["m"][0])
    w = np.hanning(case["n"])
    U, Y = np.fft.rfft(out[0] * w), np.fft.rfft(out[1] * w)
    f = np.fft.rfftfreq(case["n"], 1 / sr)
    lo, hi = f < cut / 4, f > min(cut * 2.2, 0.45 * sr)
    g = np.real(np.sum(Y[:, hi] * np.conj(U[:, hi]), axis=1)) / np.sum(np.abs(U[:, hi]) ** 2, axis=1)
    err = np.sum(np.abs(Y[:, hi] - U[:, hi]) ** 2, axis=1) / np.sum(np.abs(U[:, hi]) ** 2, axis=1)
    if not ((g >= 0.9).all() and (g <= 1.1).all() and (err <= 0.01).all()):
        raise Violation(f"highpass at {cut} Hz (sample rate {sr}): content above 2.2 times the cutoff changed: gain {g}, relative error {err}")
    p = np.sum(np.abs(Y[:, lo]) ** 2, axis=1) / np.sum(np.abs(U[:, lo]) ** 2, axis=1)
    if (p > 0.05).any():
        raise Violation(f"highpass at {cut} Hz (sample rate {sr}): content below a quarter of the cutoff keeps {p} of its power")
    ctx.nt(True)


# ---------------------------------------------------------------- rejections
@st.composite
def bad_st(draw):
    ns, nm = draw(st.integers(1, 3)), draw(st.integers(1, 3))
    return {"ns": ns, "nm": nm, "len": draw(st.integers(1, 9)), "sort": draw(st.sampled_from(["src+", "src-", "mic+", "mic-", "2d", "4d", "1d", "list",
            "swapped", "src name", "mic name", "names swapped", "type none str", "unknown type", "unknown default", "direct"])), "before": draw(st.booleans())}


def bad(case, ctx):
    ns, nm, n, sort = case["ns"], case["nm"], case["len"], case["sort"]
    su = SimulatorSetup(None)
    apply_cfg(su.sim_info, {"reverb": "none"})
    su.add_controllable_source("s", np.zeros((ns, 3)))
    su.add_mics("m", np.ones((nm, 3)))
    good = ir_of(1, ns, nm, 4)
    if case["before"]:
        su.set_path("s", "m", good.copy())
    try:
        if sort in ("unknown type", "type none str"):
            if case["before"]:
                return
            su.arrays.set_path_types({"s": {"m": "anechoic" if sort == "unknown type" else None}})
            su.create_simulator()
        elif sort == "unknown default":
            if case["before"]:
                return
            su.sim_info.reverb = "anechoic"
            su.create_simulator()
        elif sort == "direct":
            if case["before"] or ns == nm:
                return
            su.sim_info.reverb = "direct"
            su.create_simulator()
        else:
            d = {"src+": (ns + 1, nm, n), "src-": (ns - 1, nm, n), "mic+": (ns, nm + 1, n), "mic-": (ns, nm - 1, n), "2d": (ns, nm), "1d": (ns,),
                 "4d": (ns, nm, n, 1), "swapped": (nm, ns, n)}.get(sort, (ns, nm, n))
            if sort == "swapped" and ns == nm:
                return
            p = np.ones(d)
            if sort == "list":
                p = p.tolist()
            names = {"src name": ("S", "m"), "mic name": ("s", "M"), "names swapped": ("m", "s")}.get(sort, ("s", "m"))
            su.set_path(names[0], names[1], p)
    except Exception as e:
        if sort not in ("unknown type", "unknown default", "direct", "type none str"):
            sim = su.create_simulator()
            got = sim.arrays.paths["s"]["m"]
            want = good if case["before"] else np.zeros((ns, nm, 1))
            if not np.array_equal(got, want):
                raise Violation(f"the rejected path ({sort}) changed the set-up")
        ctx.label("rejected:" + sort)
        ctx.nt(True)
        return
    raise Violation(f"accepted: {sort} for {ns} sources and {nm} microphones")


TESTS = [
    Test("types", scene_st(), types, quick=900, thorough=15000),
    Test("bands", band_st, bands, quick=150, thorough=3000),
    Test("bad", bad_st(), bad, quick=400, thorough=6000),
]
