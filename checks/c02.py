"""C02: recorded signals do not depend on buffer, chunk, block, export or logging settings."""
import copy

import numpy as np
from hypothesis import strategies as st

import aspsim.diagnostics.diagnostics as dg
import aspsim.room.trajectory as tr
from vlib import simh
from vlib.harness import Test

WARM = "dynamic"
RULE = ("A case is one scene and two technical settings (total length, buffer, chunk, export frequency, contribution "
        "logging, extra diagnostics, figure folder, processor block size or none). Non-trivial: the two settings "
        "differ in chunk or buffer and at least one run crosses an internal buffer boundary.")


def run_variant(scene, var, moving):
    sc = copy.deepcopy(scene)
    cfg = sc["cfg"]
    cfg.update({k: var[k] for k in ("sim_buffer", "sim_chunk_size", "tot_samples", "export_frequency", "output_smoothing")})
    cfg["save_source_contributions"] = var["contrib"]
    cfg["auto_save_load"] = var["asl"]
    if moving:
        cfg.update(reverb="ism", rt60=0.0, max_room_ir_length=20, array_update_freq=moving["upd"], extra_delay=4)
        sc["paths"] = []
    with simh.scratch_dir() as d:
        if var["folder"]:
            cfg["plot_output"] = "pdf"
        su, info = simh.build(sc, base_fig_path=d if var["folder"] else None)
        if moving:
            pts = simh.rng_of(moving["seed"], 8).uniform(-0.9, 0.9, size=(3, 3))
            su.add_mics("mover", tr.LinearTrajectory(pts, moving["period"], cfg.get("samplerate", 500)))
            info["nmic"]["mover"] = 1
        sim = su.create_simulator()
        for n, ch in {**info["nsrc"], **info["nmic"]}.items():
            simh.record(sim, n, ch)
        first = next(iter(info["nmic"]))
        if "power" in var["extra"]:
            sim.diag.add_diagnostic("pw", dg.SignalPower(first, sim.sim_info, export_func="npz"))
        if "interval" in var["extra"]:
            import aspsim.diagnostics.core as dc
            t = var["tot_samples"]
            iv = ((0, t // 3), (t // 3 + 1, t)) if t > 5 else ((0, t),)
            sim.diag.add_diagnostic("iv", dg.RecordSignal(first, sim.sim_info, num_channels=info["nmic"][first],
                                                          save_at=dc.IntervalCounter(iv), export_func="npz"))
        if var["block"]:
            sim.add_processor(simh.Rec(sim.sim_info, sim.arrays, var["block"]))
        simh.run(sim)
        return {n: np.array(sim.diag[n].get_output()) for n in {**info["nsrc"], **info["nmic"]}}


def t_settings(case, ctx):
    scene, moving = case["scene"], case["moving"]
    a, b = case["a"], case["b"]
    if case["scene"]["cfg"]["start_sources_before_0"]:
        b = dict(b, sim_buffer=a["sim_buffer"])     # the buffer length then defines when sources start
    ra, rb = run_variant(scene, a, moving), run_variant(scene, b, moving)
    common = min(a["tot_samples"], b["tot_samples"])
    for n in ra:
        simh.assert_close(rb[n][:, :common], ra[n][:, :common], f"signal {n} under other technical settings", 1e-9)
    crossed = a["tot_samples"] > a["sim_chunk_size"] or b["tot_samples"] > b["sim_chunk_size"]
    ctx.label("moving" if moving else "static")
    ctx.label("crossed" if crossed else "not_crossed")
    ctx.label("blocks_%s" % ("none" if not a["block"] and not b["block"] else "mixed" if not (a["block"] and b["block"]) else "both"))
    ctx.nt(crossed and (a["sim_chunk_size"] != b["sim_chunk_size"] or a["sim_buffer"] != b["sim_buffer"]))


def variant(draw, buf_min):
    block = draw(st.one_of(st.just(0), st.integers(1, 14)))
    lo = max(4, block + 1, buf_min)
    tot = draw(st.integers(6, 120))
    return {"block": block, "sim_buffer": draw(st.integers(lo, 45)),
            "sim_chunk_size": draw(st.one_of(st.integers(max(block, 1), 50), st.just(500))),
            "tot_samples": tot, "export_frequency": draw(st.integers(1, 60)),
            "output_smoothing": draw(st.integers(1, 5)), "contrib": draw(st.booleans()), "asl": draw(st.booleans()),
            "folder": draw(st.integers(0, 5)) == 0, "extra": draw(st.lists(st.sampled_from(["power", "interval"]), unique=True))}


@st.composite
def st_settings(draw):
    scene = draw(simh.scene_st(max_mics=2, max_free=2))
    a, b = variant(draw, 16), variant(draw, 16)
    return {"scene": scene, "a": a, "b": b, "moving": None}


@st.composite
def st_moving(draw):
    c = draw(st_settings())
    c["scene"]["free"] = c["scene"]["free"][:1]
    c["scene"]["free"][0]["n"] = 1
    c["scene"]["mics"] = c["scene"]["mics"][:1]
    c["scene"]["order"] = ["F0", "M0"]
    c["moving"] = {"upd": draw(st.sampled_from([1, 2, 5, 7])), "seed": draw(st.integers(0, 99)), "period": draw(st.sampled_from([0.05, 0.11, 0.3]))}
    return c


simh.stub_savefig()
TESTS = [
    Test("settings", st_settings(), t_settings, quick=1350, thorough=22500),
    Test("settings_moving", st_moving(), t_settings, quick=100, thorough=1500),
]
