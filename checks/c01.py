"""C01: microphone signals are the sum of convolutions of the source signals with the paths."""
import copy

import numpy as np
from hypothesis import strategies as st

import aspsim.signal.sources as sources
from vlib import simh
from vlib.harness import Test, Violation

WARM = "static"
RULE = ("A case is one generated scene (arrays, channel counts, impulse responses, source tables, buffer "
        "geometry, optional processor). Non-trivial: at least one microphone receives a non-zero signal "
        "through a response longer than one sample or from more than one source channel.")
ASSUMPTIONS = ["buffer >= block size + 1, chunk >= block size, buffer >= 4 without processor"]


def nontrivial(scene):
    return any(p["len"] > 1 for p in scene["paths"]) and scene["cfg"]["tot_samples"] > 5


def expected(scene, info):
    cfg = scene["cfg"]
    L = cfg["tot_samples"] + 200
    tl = {n: simh.source_timeline(t, cfg, L) for n, t in info["tables"].items()}
    return tl, simh.ref_mics(scene, info, tl)


def add_passive(sim, block, history=None):
    proc = simh.Rec(sim.sim_info, sim.arrays, block, on_process=history)
    sim.add_processor(proc)
    return proc


def t_convolution(case, ctx):
    scene = case["scene"]
    su, info = simh.build(scene)
    sim = su.create_simulator()
    names = {**info["nsrc"], **info["nmic"]}
    for n, ch in names.items():
        simh.record(sim, n, ch)
    if case["block"]:
        add_passive(sim, case["block"])
    simh.run(sim)
    tl, mics = expected(scene, info)
    o, tot = scene["cfg"]["sim_buffer"] - 1, scene["cfg"]["tot_samples"]
    for n in info["nsrc"]:
        simh.assert_close(sim.diag[n].get_output(), tl[n][:, o:o + tot], f"recorded source {n}", 1e-12)
    for n in info["nmic"]:
        simh.assert_close(sim.diag[n].get_output(), mics[n][:, o:o + tot], f"microphone {n}")
    ctx.label("start_before_0" if scene["cfg"]["start_sources_before_0"] else "start_at_0")
    ctx.label("multi_chunk" if tot > scene["cfg"]["sim_chunk_size"] else "one_chunk")
    ctx.nt(nontrivial(scene))


def t_buffers(case, ctx):
    """Everything visible to a processor (also before time 0) equals the convolution."""
    scene, block = case["scene"], case["block"]
    su, info = simh.build(scene)
    sim = su.create_simulator()
    tl, mics = expected(scene, info)
    ref = {**tl, **mics}
    o = scene["cfg"]["sim_buffer"] - 1
    seen = {"n": 0, "pre": 0}

    def look(proc, bs):
        done = proc.count + bs            # samples g < done are available
        idx = proc.sig.idx
        for n, r in ref.items():
            buf = proc.sig[n]
            for j in range(max(0, idx - scene["cfg"]["sim_buffer"]), idx):
                g = done - (idx - j)
                want = r[:, o + g] if o + g >= 0 else np.zeros(r.shape[0])
                if not simh.close(buf[:, j], want):
                    raise Violation(f"buffer of {n} at time {g} seen at call {len(proc.calls)}: {buf[:, j]} expected {want}")
                seen["n"] += 1
                seen["pre"] += g < 0

    add_passive(sim, block, look)
    simh.run(sim)
    ctx.label("pre_history_samples_checked", seen["pre"])
    ctx.nt(nontrivial(scene) and seen["n"] > 0)


KINDS = ["white", "sine", "multisine", "band", "pulse", "gold", "seq", "counter", "mls"]


def make_source(s):
    r = simh.rng_of(s["seed"], 3)
    k, n = s["kind"], s["n"]
    if k == "white":
        return sources.WhiteNoiseSource(n, 1.5, np.random.default_rng(s["seed"]))
    if k == "sine":
        return sources.SineSource(n, 0.7, 37.0 + s["seed"] % 50, 500, np.random.default_rng(s["seed"]))
    if k == "multisine":
        return sources.MultiSineSource(1, 1.0, [20.0, 61.5, 90.0], 500, np.random.default_rng(s["seed"]))
    if k == "band":
        return sources.BandlimitedNoiseSource(1, 1.0, (50, 150), 500, np.random.default_rng(s["seed"]))
    if k == "pulse":
        return sources.PulseTrain(n, 2.0, 3 + s["seed"] % 7, s["seed"] % 5)
    if k == "gold":
        return sources.GoldSequenceSource(n, 1.0, 5 + s["seed"] % 3)
    if k == "seq":
        return sources.Sequence(r.normal(size=(n, 7 + s["seed"] % 40)), amp_factor=0.5)
    if k == "counter":
        return sources.Counter(1, s["seed"])
    return sources.MLS(1, 5, None)


def t_library_sources(case, ctx):
    """The recorded source signal is what an identical source object delivers, from the stated start."""
    scene = copy.deepcopy(case["scene"])
    for s, k in zip(scene["free"], case["kinds"]):
        s["kind"] = k
        if k in ("multisine", "band", "counter", "mls"):
            s["n"] = 1
    late = case["set_late"]
    first = (lambda s: sources.WhiteNoiseSource(s["n"], 9.0, np.random.default_rng(0))) if late else make_source
    su, info = simh.build(scene, source_factory=first)
    if late:
        for s in scene["free"]:
            su.set_source(s["name"], make_source(s))
    sim = su.create_simulator()
    for n, ch in {**info["nsrc"], **info["nmic"]}.items():
        simh.record(sim, n, ch)
    simh.run(sim)
    cfg = scene["cfg"]
    L, o, tot = cfg["tot_samples"] + 50, cfg["sim_buffer"] - 1, cfg["tot_samples"]
    tl = {}
    for s in scene["free"]:
        twin = make_source(s)
        sig = np.atleast_2d(np.concatenate([np.atleast_2d(twin.get_samples(1)) for _ in range(L + o + 1)], axis=1))
        tl[s["name"]] = simh.source_timeline(sig, cfg, L)
        simh.assert_close(sim.diag[s["name"]].get_output(), tl[s["name"]][:, o:o + tot], f"recorded {s['kind']} source {s['name']}", 1e-7)
        ctx.label("kind_" + s["kind"])
    mics = simh.ref_mics(scene, info, tl)
    for n in info["nmic"]:
        simh.assert_close(sim.diag[n].get_output(), mics[n][:, o:o + tot], f"microphone {n}", 1e-7)
    ctx.nt(nontrivial(scene))


def t_any_path_kind(case, ctx):
    """Also for generated (random / direct / room) responses the signals obey the simulator's own paths."""
    scene = copy.deepcopy(case["scene"])
    cfg = scene["cfg"]
    cfg["reverb"] = case["reverb"]
    cfg["max_room_ir_length"] = case["irlen"]
    if case["reverb"] == "direct":
        n = scene["mics"][0]["n"]
        for a in scene["free"] + scene["mics"]:
            a["n"] = n
    scene["paths"] = [p for i, p in enumerate(scene["paths"]) if case["keep"] >> i & 1]
    np.random.seed(case["np_seed"])
    su, info = simh.build(scene)
    sim = su.create_simulator()
    for n, ch in {**info["nsrc"], **info["nmic"]}.items():
        simh.record(sim, n, ch)
    simh.run(sim)
    tl, _ = expected(scene, info)
    o, tot = cfg["sim_buffer"] - 1, cfg["tot_samples"]
    all_paths = {(s, m["name"]): np.array(sim.arrays.paths[s][m["name"]]) for s in tl for m in scene["mics"]}
    for k, p in all_paths.items():
        if not np.isfinite(p).all():
            raise Violation(f"path {k} is not finite")
        if k in info["paths"]:
            simh.assert_close(p, info["paths"][k], f"user path {k}", 0)
    mics = simh.ref_mics(scene, {"paths": all_paths}, tl)
    for n in info["nmic"]:
        simh.assert_close(sim.diag[n].get_output(), mics[n][:, o:o + tot], f"microphone {n}")
    ctx.label("reverb_" + case["reverb"])
    ctx.nt(case["reverb"] != "none")


@st.composite
def st_conv(draw):
    block = draw(st.one_of(st.just(0), st.integers(1, 12)))
    return {"scene": draw(simh.scene_st(min_block=max(block, 1))), "block": block}


@st.composite
def st_buf(draw):
    block = draw(st.integers(1, 12))
    return {"scene": draw(simh.scene_st(min_block=block, max_tot=70, max_mics=2, max_free=2)), "block": block}


@st.composite
def st_large(draw):
    """Few but large cases: many channels, responses longer than the buffer, several hundred samples."""
    sort = draw(st.sampled_from(["channels", "long", "both"]))
    n = lambda: draw(st.integers(9, 24)) if sort != "long" else draw(st.integers(1, 3))
    k = lambda: draw(st.integers(40, 200)) if sort != "channels" else draw(st.integers(1, 12))
    block = draw(st.one_of(st.just(0), st.integers(1, 40)))
    cfg = draw(simh.cfg_st(min_block=max(block, 1), max_tot=400, max_buf=90, max_chunk=120))
    free = [{"name": f"s{i}", "n": n(), "seed": draw(st.integers(0, 999))} for i in range(draw(st.integers(1, 2)))]
    mics = [{"name": f"m{i}", "n": n()} for i in range(draw(st.integers(1, 2)))]
    paths = [{"src": a["name"], "mic": b["name"], "len": k(), "seed": draw(st.integers(0, 999)), "sparse": draw(st.booleans())}
             for a in free for b in mics if draw(st.integers(0, 9)) > 0]
    return {"scene": {"cfg": cfg, "free": free, "ctrl": [], "mics": mics, "paths": paths}, "block": block}


@st.composite
def st_lib(draw):
    scene = draw(simh.scene_st(max_n=2))
    return {"scene": scene, "kinds": [draw(st.sampled_from(KINDS)) for _ in scene["free"]], "set_late": draw(st.booleans())}


@st.composite
def st_kind(draw):
    return {"scene": draw(simh.scene_st(max_mics=2, max_tot=60)), "reverb": draw(st.sampled_from(["random", "direct", "ism", "none"])),
            "irlen": draw(st.integers(1, 40)), "keep": draw(st.integers(0, 511)), "np_seed": draw(st.integers(0, 9999))}


TESTS = [
    Test("convolution", st_conv(), t_convolution, quick=3000, thorough=30000),
    Test("large", st_large(), t_convolution, quick=120, thorough=2500),
    Test("visible_buffers", st_buf(), t_buffers, quick=1250, thorough=12500),
    Test("library_sources", st_lib(), t_library_sources, quick=1250, thorough=12500),
    Test("any_path_kind", st_kind(), t_any_path_kind, quick=750, thorough=7500),
]
