"""C03: recorded source contributions add up to the microphone signal."""
import copy

import numpy as np
from hypothesis import strategies as st

from vlib import simh
from vlib.harness import Test, Violation

WARM = "static"
RULE = ("A case is one scene with contribution logging, a processor block size and a script for the controllable "
        "sources. Non-trivial: at least two source arrays have a path to the same microphone array.")


def script_writer(scene, seed):
    def write(proc, bs):
        i = proc.sig.idx
        for k, c in enumerate(scene["ctrl"]):
            proc.sig[c["name"]][:, i:i + bs] = simh.rng_of(seed, k, len(proc.calls)).normal(size=(c["n"], bs))
    return write


def timelines(scene, info, block, seed, L):
    tl = {n: simh.source_timeline(t, scene["cfg"], L) for n, t in info["tables"].items()}
    o = scene["cfg"]["sim_buffer"] - 1
    for k, c in enumerate(scene["ctrl"]):
        x = np.zeros((c["n"], L + o))
        call = 1
        while call * block + block <= L:
            x[:, o + call * block:o + call * block + block] = simh.rng_of(seed, k, call).normal(size=(c["n"], block))
            call += 1
        tl[c["name"]] = x
    return tl


def go(scene, block, seed, contrib, look=None):
    sc = copy.deepcopy(scene)
    sc["cfg"]["save_source_contributions"] = contrib
    su, info = simh.build(sc)
    sim = su.create_simulator()
    for n, ch in {**info["nsrc"], **info["nmic"]}.items():
        simh.record(sim, n, ch)
    if contrib:
        for s in info["nsrc"]:
            for m in info["nmic"]:
                simh.record(sim, f"{s}~{m}", info["nmic"][m])
    writer = script_writer(scene, seed)

    def proc_fn(proc, bs):
        if look:
            look(proc, bs)
        writer(proc, bs)
    if block:
        sim.add_processor(simh.Rec(sim.sim_info, sim.arrays, block, proc_fn))
    simh.run(sim)
    return sim, info


def t_contrib(case, ctx):
    scene, block, seed = case["scene"], case["block"], case["seed"]
    cfg = scene["cfg"]
    o, tot = cfg["sim_buffer"] - 1, cfg["tot_samples"]
    seen = {"pre": 0, "n": 0}

    def look(proc, bs):
        done, idx = proc.count + bs, proc.sig.idx
        lo = max(0, idx - cfg["sim_buffer"])
        for m in scene["mics"]:
            total = 0
            for s in scene["free"] + scene["ctrl"]:
                total = total + proc.sig[f"{s['name']}~{m['name']}"][:, lo:idx]
            if not simh.close(total, proc.sig[m["name"]][:, lo:idx]):
                bad = np.argwhere(~np.isclose(total, proc.sig[m["name"]][:, lo:idx], atol=1e-9))[0]
                raise Violation(f"contributions to {m['name']} do not add up at time {done - (idx - lo) + int(bad[1])} "
                                f"(processing call {len(proc.calls)})")
        seen["pre"] += max(0, (idx - lo) - done)
        seen["n"] += idx - lo

    sim, info = go(scene, block, seed, True, look)
    L = tot + 40
    tl = timelines(scene, info, block, seed, L) if block else {n: simh.source_timeline(t, cfg, L) for n, t in info["tables"].items()}
    if not block:
        for c in scene["ctrl"]:
            tl[c["name"]] = np.zeros((c["n"], L + o))
    for m in info["nmic"]:
        total = np.zeros((info["nmic"][m], tot))
        for s in info["nsrc"]:
            got = sim.diag[f"{s}~{m}"].get_output()
            one = simh.ref_mics(scene, {"paths": {k: v for k, v in info["paths"].items() if k[0] == s}}, tl)[m]
            simh.assert_close(got, one[:, o:o + tot], f"contribution {s}~{m}")
            total += got
        simh.assert_close(total, sim.diag[m].get_output(), f"sum of contributions to {m}")
    sim2, _ = go(scene, block, seed, False)
    for n in {**info["nsrc"], **info["nmic"]}:
        simh.assert_close(sim.diag[n].get_output(), sim2.diag[n].get_output(), f"{n} with and without contribution logging", 1e-12)
    for s in info["nsrc"]:
        for m in info["nmic"]:
            if f"{s}~{m}" in sim2.sig:
                raise Violation("contribution signals exist although logging is disabled")
    if seen["pre"]:
        ctx.label("pre_history_samples_checked", seen["pre"])
    ctx.label("with_processor" if block else "no_processor")
    ctx.label("start_before_0" if cfg["start_sources_before_0"] else "start_at_0")
    per_mic = [sum(1 for p in scene["paths"] if p["mic"] == m) for m in info["nmic"]]
    ctx.nt(max(per_mic, default=0) >= 2)


@st.composite
def st_contrib(draw):
    block = draw(st.one_of(st.just(0), st.integers(1, 10)))
    return {"scene": draw(simh.scene_st(min_block=max(block, 1), max_free=3, max_ctrl=2, max_mics=2, max_tot=80)),
            "block": block, "seed": draw(st.integers(0, 999))}


TESTS = [Test("contributions", st_contrib(), t_contrib, quick=2250, thorough=22500)]
