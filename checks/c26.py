"""C26: audio files are read and written faithfully."""
import numpy as np
import soundfile as sf
from hypothesis import strategies as st

import aspsim.diagnostics.core as dc
import aspsim.diagnostics.diagnostics as dg
import aspsim.signal.sources as sources
from aspsim.simulator import SimulatorSetup
from vlib.harness import Test, Violation
from vlib.simh import TableSource, apply_cfg, finite, rng_of, run, scratch_dir, stub_savefig

RULE = ("A case is one written audio file that is loaded, or one simulation with recordings exported as wav. Non-trivial: more than one channel or mono, with a channel limit, "
        "resampling, or an export that is neither silent nor constant over all of at least 20 samples.")
ASSUMPTIONS = ["the file's sample rate is at least the requested one (the function asserts this)",
               "resampling is judged by sines below 0.35 and above 0.65 times the requested rate, away from the first and last 25 output samples, to 2 % of the amplitude",
               "exports are 16 bit wav files: values agree to 2/32768", "the fade is any gain that is common to the channels and rises from 0 to 1 within at most 10 % of the file (and falls back)"]
WARM = "static"
NAMES = {"WAV": ".wav", "FLAC": ".flac", "AIFF": ".aiff"}


@st.composite
def load_st(draw):
    fmt = draw(st.sampled_from(["WAV", "WAV", "FLAC", "AIFF"]))
    sub = draw(st.sampled_from({"WAV": ["PCM_16", "PCM_24", "FLOAT", "DOUBLE"], "FLAC": ["PCM_16", "PCM_24"], "AIFF": ["PCM_16", "FLOAT"]}[fmt]))
    ch = draw(st.integers(1, 5))
    return {"fmt": fmt, "sub": sub, "ch": ch, "N": draw(st.one_of(st.integers(1, 300), st.integers(300, 5000))), "sr": draw(st.sampled_from([500, 8000, 11025, 16000, 44100, 48000])),
            "limit": draw(st.one_of(st.none(), st.integers(1, 6))), "ask": draw(st.sampled_from(["none", "same", "default"])), "seed": draw(st.integers(0, 9999)),
            "as": draw(st.sampled_from(["str", "path"])), "verbose": draw(st.booleans())}


def load(case, ctx):
    bits = {"PCM_16": 15, "PCM_24": 23}.get(case["sub"])
    r = rng_of(case["seed"], 26)
    if bits:
        x = r.integers(-2 ** bits, 2 ** bits, size=(case["ch"], case["N"])) / 2.0 ** bits
    else:
        x = r.uniform(-1, 1, size=(case["ch"], case["N"]))
        if case["sub"] == "FLOAT":
            x = x.astype(np.float32).astype(float)
    with scratch_dir() as d:
        p = d / ("file" + NAMES[case["fmt"]])
        sf.write(str(p), x.T, case["sr"], format=case["fmt"], subtype=case["sub"])
        before = p.read_bytes()
        kw = {} if case["ask"] == "default" else {"desired_sr": None if case["ask"] == "none" else case["sr"]}
        if case["limit"] is not None:
            kw["num_channels"] = case["limit"]
        if case["verbose"]:
            kw["verbose"] = True
        got = sources.load_audio_file(str(p) if case["as"] == "str" else p, **kw)
        if p.read_bytes() != before:
            raise Violation("loading changed the file")
    want = x[:case["limit"]]
    if not isinstance(got, np.ndarray) or got.shape != want.shape:
        raise Violation(f"loaded shape {getattr(got, 'shape', None)}, the file has {case['ch']} channels of {case['N']} samples (limit {case['limit']}): {want.shape}")
    if not np.array_equal(got, want):
        i = tuple(int(k) for k in np.argwhere(got != want)[0])
        raise Violation(f"loaded sample {i} is {got[i]}, the file has {want[i]}")
    # it can be played
    seq = sources.Sequence(got)
    if not np.array_equal(seq.get_samples(min(case["N"], 50)), want[:, :min(case["N"], 50)]):
        raise Violation("the loaded signal is not played as it is")
    ctx.label(case["fmt"] + " " + case["sub"])
    ctx.nt(case["limit"] is not None or case["ch"] != 2)


@st.composite
def res_st(draw):
    sr, out = draw(st.sampled_from([(48000, 16000), (44100, 16000), (44100, 8000), (48000, 44100), (16000, 8000), (8000, 1000), (11025, 8000), (44100, 22050), (9000, 6000),
                                    (1000, 999), (500, 400), (12000, 5000)]))
    ch = draw(st.integers(1, 4))
    band = [draw(st.sampled_from(["in", "in", "in", "out"])) for _ in range(ch)]
    f = [draw(st.floats(0.02, 0.35)) * out if b == "in" else draw(st.floats(0.65, max(0.66, 0.49 * sr / out))) * out for b in band]
    f = [min(x, 0.499 * sr) if b == "out" else x for x, b in zip(f, band)]
    return {"sr": sr, "out": out, "ch": ch, "f": f, "amp": [draw(st.sampled_from([0.1, 0.5, 0.9])) for _ in range(ch)], "ph": [draw(st.floats(0, 6.28)) for _ in range(ch)],
            "N": draw(st.integers(1200, 6000)), "limit": draw(st.one_of(st.none(), st.integers(1, 5))), "np": draw(st.booleans())}


def resample(case, ctx):
    sr, out, N = case["sr"], case["out"], case["N"]
    a, f, ph = (np.array(case[k])[:, None] for k in ("amp", "f", "ph"))
    x = a * np.sin(2 * np.pi * f * np.arange(N)[None] / sr + ph)
    with scratch_dir() as d:
        p = d / "sines.wav"
        sf.write(str(p), x.T, sr, subtype="DOUBLE")
        kw = {} if case["limit"] is None else {"num_channels": case["limit"]}
        got = sources.load_audio_file(str(p), out, **kw)
    ch = case["ch"] if case["limit"] is None else min(case["ch"], case["limit"])
    if got.ndim != 2 or got.shape[0] != ch:
        raise Violation(f"shape {got.shape} for {case['ch']} channels, limit {case['limit']}")
    if abs(got.shape[1] - N * out / sr) > 1.01:
        raise Violation(f"{N} samples at {sr} Hz became {got.shape[1]} samples at {out} Hz, the duration is {N * out / sr:.2f} samples")
    if not np.all(np.isfinite(got)):
        raise Violation("not finite")
    n = np.arange(got.shape[1])[None]
    want = a * np.sin(2 * np.pi * f * n / out + ph)
    e = 25
    for c in range(ch):
        if case["f"][c] < 0.36 * out:
            w = want[c]
        elif case["f"][c] > 0.649 * out:
            w = np.zeros(got.shape[1])
        else:
            continue
        err = np.abs(got[c] - w)[e:-e] / case["amp"][c]
        if err.size and err.max() > 0.02:
            i = int(err.argmax()) + e
            raise Violation(f"channel {c} ({case['f'][c]:.1f} Hz, {sr} -> {out} Hz): sample {i} is {got[c, i]:.5f} instead of {w[i]:.5f}")
    ctx.label(f"{sr}->{out}")
    ctx.nt(True)


# ---------------------------------------------------------------- export
@st.composite
def exp_st(draw):
    tot = draw(st.one_of(st.integers(2, 60), st.integers(60, 400)))
    recs = []
    for name in draw(st.permutations(["snd", "loud speaker", "a_1"]))[:draw(st.integers(1, 2))]:
        n = draw(st.integers(1, 3))
        lo = draw(st.sampled_from([0, 0, draw(st.integers(0, tot - 1))]))
        hi = draw(st.sampled_from([tot, tot, draw(st.integers(lo + 1, tot))]))
        recs.append({"name": name, "ch": draw(st.lists(st.integers(0, 3), min_size=n, max_size=n, unique=True)), "range": [lo, hi],
                     "at": draw(st.one_of(st.none(), st.lists(st.integers(1, tot), min_size=1, max_size=3, unique=True).map(sorted)))})
    return {"tot": tot, "sr": draw(st.sampled_from([50, 100, 500, 8000, 44100])), "freq": draw(st.integers(max(1, tot // 4), tot)), "recs": recs, "seed": draw(st.integers(0, 9999)),
            "scale": draw(st.sampled_from([1.0, 1e-6, 1e4, 1.0])), "kind": draw(st.sampled_from(["noise", "noise", "noise", "silent", "late", "onechannel", "negative"])),
            "buf": draw(st.integers(4, 30)), "chunk": draw(st.integers(2, 60))}


def export(case, ctx):
    stub_savefig()
    tot = case["tot"]
    x = rng_of(case["seed"], 27).normal(size=(4, tot + 600))
    if case["kind"] == "silent":
        x[:] = 0
    elif case["kind"] == "late":
        x[:, :tot // 2] = 0
    elif case["kind"] == "onechannel":
        x[1:] = 0
    elif case["kind"] == "negative":
        x = -np.abs(x) - 0.1
    x *= case["scale"]
    nontrivial = False
    with scratch_dir() as d:
        su = SimulatorSetup(d)
        apply_cfg(su.sim_info, {"tot_samples": tot, "samplerate": case["sr"], "export_frequency": case["freq"], "plot_output": "pdf", "sim_buffer": case["buf"],
                                "sim_chunk_size": case["chunk"]})
        su.add_free_source("src", np.zeros((4, 3)), TableSource(x))
        su.add_mics("mic", np.ones((1, 3)))
        sim = su.create_simulator()
        had = set(sim.folder_path.iterdir())
        for r in case["recs"]:
            kw = {} if r["at"] is None else {"export_at": r["at"]}
            sim.diag.add_diagnostic(r["name"], dg.RecordSignal("src", sim.sim_info, num_channels=len(r["ch"]), channel_idx=None if r["ch"] == list(range(len(r["ch"]))) and False else r["ch"],
                                                               save_at=dc.IntervalCounter([r["range"]]), export_func="wav", **kw))
        run(sim)
        new = sorted(set(sim.folder_path.iterdir()) - had)
        wanted = {}
        for r in case["recs"]:
            for t in (r["at"] if r["at"] is not None else list(range(case["freq"], tot + 1, case["freq"]))):
                wanted[(r["name"], t)] = r
        found = {}
        for p in new:
            k = [(n, t) for n, t in wanted if p.name.startswith(n + "_") and p.name.endswith(f"_{t}.wav")]
            if len(k) != 1 or k[0] in found:
                raise Violation(f"unexpected file {p.name}, exports are {sorted(wanted)}")
            found[k[0]] = p
        if set(found) != set(wanted):
            raise Violation(f"no audio file for {sorted(set(wanted) - set(found))}, files: {[p.name for p in new]}")
        for (name, t), p in found.items():
            r = wanted[(name, t)]
            lo, hi = r["range"][0], min(r["range"][1], t)
            sig = x[r["ch"], lo:max(hi, lo)]
            got, sr = sf.read(str(p), always_2d=True)
            got = got.T
            if sr != case["sr"]:
                raise Violation(f"{p.name} has sample rate {sr}, the simulation {case['sr']}")
            if sig.shape[1] == 0:
                if got.shape[1] != 0:
                    raise Violation(f"{p.name} has {got.shape[1]} samples, nothing was recorded")
                continue
            if got.shape != sig.shape:
                raise Violation(f"{p.name} has shape {got.shape}, the recording {sig.shape}")
            check_audio(got, sig, case["sr"], p.name)
            back = sources.load_audio_file(p)
            if back.shape != got.shape or not np.array_equal(back, got):
                raise Violation(f"{p.name} is not loaded as it was written")
            nontrivial |= sig.shape[1] >= 20 and bool(np.any(sig))
    ctx.label(case["kind"])
    ctx.nt(nontrivial)


def check_audio(got, sig, sr, name):
    N = sig.shape[1]
    m = np.max(np.abs(sig))
    q = 2 / 32768
    if m == 0:
        if np.any(np.abs(got) > q):
            raise Violation(f"{name}: silence was written as {got[np.abs(got) > q][0]}")
        return
    finite(got, name)
    y = sig / m
    ramp = min(int(0.1 * N) + 1, int(0.2 * sr) + 1)
    full = np.abs(got - y) <= q
    mid = full[:, ramp:N - ramp]
    if not mid.all():
        c, i = (int(v) for v in np.argwhere(~mid)[0])
        raise Violation(f"{name}: channel {c} sample {i + ramp} is {got[c, i + ramp]}, recorded (full scale) {y[c, i + ramp]}")
    # fades: common gain in [0, 1], monotone, from and to silence
    for end in (False, True):
        g_lo, g_hi = np.zeros(ramp), np.ones(ramp)
        for k in range(min(ramp, N)):
            i = N - 1 - k if end else k
            for c in range(sig.shape[0]):
                if abs(y[c, i]) < 0.02:
                    if abs(got[c, i]) > abs(y[c, i]) + q:
                        raise Violation(f"{name}: sample {i} of channel {c} is {got[c, i]} but recorded {y[c, i]}")
                    continue
                a, tol = got[c, i] / y[c, i], q / abs(y[c, i])
                g_lo[k], g_hi[k] = max(g_lo[k], a - tol), min(g_hi[k], a + tol)
            if g_lo[k] > g_hi[k] + 1e-9:
                raise Violation(f"{name}: sample {i} is {got[:, i].tolist()}, recorded {y[:, i].tolist()}: not a common gain between 0 and 1")
            if k and g_hi[k] < np.max(g_lo[:k]) - 1e-9:
                raise Violation(f"{name}: the fade is not monotone at sample {i}")
        if int(0.1 * N) >= 1 and int(0.2 * sr) >= 1 and g_lo[0] > 0.01:
            raise Violation(f"{name}: not faded to silence at the {'end' if end else 'start'}, gain is {g_lo[0]:.3f}")


TESTS = [
    Test("load", load_st(), load, quick=1200, thorough=20000),
    Test("resample", res_st(), resample, quick=600, thorough=10000),
    Test("export", exp_st(), export, quick=800, thorough=15000),
]
