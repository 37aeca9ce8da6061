"""C14: Sequence sources play the given audio exactly, with the chosen ending."""
import numpy as np
from hypothesis import strategies as st

import aspsim.signal.sources as sources
from vlib.harness import Test, Violation
from vlib.simh import assert_close, rng_of, build, record, run, source_timeline

RULE = ("a case is non-trivial if the requests pass the end of the sequence at least once (repeat/zeros) or "
        "play the last sample / ask beyond it (raise), with at least two requests, or the simulation is longer than the sequence")
ASSUMPTIONS = ["audio arrays are 1-D or (channels, samples), as documented"]
WARM = "static"


def audio_of(case):
    r = rng_of(case["seed"], 14)
    a = r.normal(size=(case["ch"], case["len"]))
    if case["int"]:
        a = np.round(a * 100).astype(int)
    k = case.get("dtype", "")
    if k == "float32":
        a = a.astype(np.float32)
    elif k == "bool":
        a = a > 0
    elif k:    # samples up to full scale, as read from a file
        i = np.iinfo(k)
        a = np.clip(np.round((a / 2.5 + (0.5 if i.min == 0 else 0)) * i.max), i.min, i.max).astype(k)
    lay = case.get("layout", "")
    if lay == "fortran":
        a = np.asfortranarray(a)
    elif lay == "strided":
        a = np.repeat(a, 2, axis=1)[:, ::2]
    elif lay == "reversed":
        a = np.ascontiguousarray(a[:, ::-1])[:, ::-1]
    elif lay == "readonly":
        a = a.copy()
        a.flags.writeable = False
    return a[0] if case["flat"] and case["ch"] == 1 else a


@st.composite
def base(draw):
    return {"seed": draw(st.integers(0, 999)), "ch": draw(st.integers(1, 4)),
            "len": draw(st.one_of(st.integers(1, 6), st.integers(1, 60))),
            "flat": draw(st.booleans()), "int": draw(st.integers(0, 4)) == 0,
            "dtype": draw(st.sampled_from(["", "", "", "", "int16", "int8", "uint8", "int32", "float32", "bool"])),
            "layout": draw(st.sampled_from(["", "", "", "fortran", "strided", "reversed", "readonly"])),
            "amp": draw(st.sampled_from([1, 1.0, 0.5, 2, -3.25, 0.0, 1e-3])),
            "mode": draw(st.sampled_from(["repeat", "zeros", "raise"]))}


@st.composite
def play_st(draw):
    c = draw(base())
    c["req"] = draw(st.lists(st.one_of(st.integers(1, 5), st.integers(1, 2 * c["len"] + 3)), min_size=1, max_size=8))
    c["fill"] = draw(st.booleans())
    c["default_args"] = draw(st.integers(0, 5)) == 0
    return c


def make(case):
    audio = audio_of(case)
    if case.get("default_args"):
        return sources.Sequence(audio), audio, 1, "repeat"
    return sources.Sequence(audio, amp_factor=case["amp"], end_mode=case["mode"]), audio, case["amp"], case["mode"]


def play(case, ctx):
    src, audio, amp, mode = make(case)
    a2 = np.atleast_2d(audio).astype(float)
    keep = audio.copy()
    L = a2.shape[1]
    reqs = list(case["req"])
    if case["fill"] and mode == "raise":
        # end exactly at the last sample
        out, tot = [], 0
        for r in reqs:
            r = min(r, L - tot)
            if r > 0:
                out.append(r)
                tot += r
        if tot < L:
            out.append(L - tot)
        reqs = out + [1]
    t = 0
    delivered = []
    hit_end = False
    for r in reqs:
        if mode == "raise" and t + r > L:
            hit_end = True
            for _ in range(2):
                try:
                    src.get_samples(r)
                except Exception:
                    continue
                raise Violation(f"request of {r} samples after {t} of {L} did not raise with end mode 'raise'")
            continue
        try:
            got = src.get_samples(r)
        except StopIteration as e:
            raise Violation(f"end mode {mode}: request of {r} samples after {t} of {L} raised {e!r}")
        idx = np.arange(t, t + r)
        if mode == "zeros":
            want = np.where(idx < L, a2[:, np.minimum(idx, L - 1)], 0.0) * amp
        else:
            want = a2[:, idx % L] * amp
        assert_close(got, want, f"Sequence({mode}, amp {amp}) samples {t}..{t + r - 1} of a sequence of {L}", 1e-12 if audio.dtype != np.float32 else 1e-6)
        t += r
        hit_end |= t >= L
        delivered.append((got, np.array(got)))
    for got, cp in delivered:
        if not np.array_equal(got, cp):
            raise Violation("a delivered block was changed by a later request")
    if not np.array_equal(audio, keep):
        raise Violation("the supplied audio was modified")
    ctx.label("mode:" + mode)
    ctx.nt(hit_end and len(reqs) > 1)


@st.composite
def insim_st(draw):
    c = draw(base())
    c["mode"] = draw(st.sampled_from(["repeat", "zeros"]))
    bs = draw(st.integers(1, 8))
    c["cfg"] = {"tot_samples": draw(st.integers(5, 90)), "sim_buffer": draw(st.integers(bs + 4, 30)),
                "sim_chunk_size": draw(st.integers(bs, 40)), "start_sources_before_0": draw(st.booleans())}
    return c


def insim(case, ctx):
    """The same law seen through a simulation (source, chunk and buffer rollover together)."""
    cfg = case["cfg"]
    scene = {"cfg": cfg, "free": [{"name": "src", "n": case["ch"], "seed": 1}], "mics": [{"name": "mic", "n": 1}],
             "paths": []}
    su, info = build(scene, source_factory=lambda s: make(case)[0])
    sim = su.create_simulator()
    record(sim, "src", case["ch"])
    run(sim)
    got = sim.diag.diagnostics["src"].get_output()
    a2 = np.atleast_2d(audio_of(case)).astype(float)
    L = a2.shape[1]
    T = cfg["tot_samples"]
    idx = np.arange(T + cfg["sim_buffer"])
    tbl = (np.where(idx < L, a2[:, np.minimum(idx, L - 1)], 0.0) if case["mode"] == "zeros" else a2[:, idx % L]) * case["amp"]
    want = source_timeline(tbl, cfg, T)[:, cfg["sim_buffer"] - 1:]
    got = np.asarray(got)
    assert_close(got[:, :T], want[:, :T], "recorded sequence source", 1e-9 if case.get("dtype") != "float32" else 1e-6)
    ctx.label("simulation")
    ctx.nt(T > L)


TESTS = [
    Test("play", play_st(), play, quick=6000, thorough=80000),
    Test("insim", insim_st(), insim, quick=300, thorough=3000),
]
