"""C12: source signals do not depend on how they are split into blocks."""
import numpy as np
from hypothesis import strategies as st

import aspsim.signal.sources as sources
from vlib.harness import Test, Violation
from vlib.simh import assert_close, rng_of, build, record, run

RULE = ("A case is a source (type, parameters, seed) and a partition of N samples into blocks. Non-trivial: at least two blocks of "
        "different lengths and a signal that is not identically zero.")
ASSUMPTIONS = ["block lengths are at least 1",
               "powers per channel are given in the array shape each source type accepts: (channels,) for WhiteNoiseSource and "
               "GoldSequenceSource, (channels, 1) for the others",
               "MultiSineSource, Counter and MLS only support one channel (as they state)"]
WARM = "static"

TAPS = {2: [[1]], 3: [[2], [1]], 4: [[3], [1]], 5: [[2], [3], [1, 2, 3]], 6: [[5], [1]], 7: [[4], [3], [6]], 8: [[1, 2, 7]], 9: [[5], [4]], 10: [[7], [3]]}
pw = st.sampled_from([1, 1.0, 0.25, 2.5, 10, 1e-3])


@st.composite
def src_st(draw, kinds=("sequence", "white", "sine", "counter", "multisine", "bandlimited", "pulse", "autocorr", "mls", "gold")):
    k = draw(st.sampled_from(list(kinds)))
    c = {"kind": k, "seed": draw(st.integers(0, 9999)), "rng": draw(st.integers(0, 5)) > 0, "ch": draw(st.integers(1, 4)),
         "sr": draw(st.sampled_from([100, 500, 1000, 8000, 11025]))}
    vec = draw(st.booleans())
    c["power"] = draw(st.lists(pw, min_size=c["ch"], max_size=c["ch"])) if vec else draw(pw)
    if k == "sequence":
        c.update(len=draw(st.integers(1, 50)), amp=draw(st.sampled_from([1, 0.5, -2])),
                 mode=draw(st.sampled_from(["repeat", "zeros", "raise"])))
        if c["mode"] == "raise":        # longer than any request of these tests (C14: what happens at the end)
            c["len"] += 2000
    elif k == "sine":
        c["freq"] = draw(st.one_of(st.floats(0.001, 0.49), st.floats(0.5, 1.7))) * c["sr"]
    elif k in ("counter", "multisine", "mls"):
        c["ch"] = 1
        c["power"] = draw(pw)
        if k == "counter":
            c["start"] = draw(st.sampled_from([None, 0, 3, -7, 1000]))
        elif k == "multisine":
            c["freqs"] = [f * c["sr"] for f in draw(st.lists(st.floats(0.001, 1.2), min_size=1, max_size=5))]
            c["freq_as"] = draw(st.sampled_from(["list", "array", "tuple"]))
        else:
            c["order"] = draw(st.integers(2, 10))
            c["taps"] = draw(st.sampled_from([None] + TAPS[c["order"]]))
            c["state"] = draw(st.booleans())
    elif k == "bandlimited":
        lo = draw(st.floats(0.05, 0.6))
        c["lim"] = [lo * c["sr"] / 2, draw(st.floats(lo + 0.15, 0.95)) * c["sr"] / 2]
    elif k == "pulse":
        for key, s in (("amp", st.sampled_from([1, 2.5, -1])), ("period", st.integers(1, 12)), ("delay", st.integers(0, 15))):
            c[key] = draw(st.lists(s, min_size=c["ch"], max_size=c["ch"])) if draw(st.booleans()) else draw(s)
        c["as"] = draw(st.sampled_from(["list", "array", "tuple"]))
    elif k == "autocorr":
        c["alen"] = draw(st.integers(2, 8))
    elif k == "gold":
        c["order"] = draw(st.integers(5, 9))
    return c


def autocorr_of(c):
    r = rng_of(c["seed"], 15)
    out = np.zeros((c["ch"], c["alen"]))
    for i in range(c["ch"]):
        b = r.normal(size=c["alen"])
        full = np.correlate(b, b, "full")[c["alen"] - 1:]
        full[0] *= 1.5
        out[i] = full / full[0] * 10 ** r.uniform(-2, 2)
    return out


def make(c):
    """-> (source, list of caller-owned arrays)"""
    k = c["kind"]
    rng = np.random.default_rng(c["seed"]) if c["rng"] else None
    p = c["power"]
    if isinstance(p, list):
        p = np.array(p, dtype=float) if k in ("white", "gold") else np.array(p, dtype=float)[:, None]
    own = [p] if isinstance(p, np.ndarray) else []
    if k == "sequence":
        a = rng_of(c["seed"], 16).normal(size=(c["ch"], c["len"]))
        own.append(a)
        return sources.Sequence(a, c["amp"], c["mode"]), own
    if k == "white":
        return sources.WhiteNoiseSource(c["ch"], p, rng), own
    if k == "sine":
        return sources.SineSource(c["ch"], p, c["freq"], c["sr"], rng), own
    if k == "counter":
        return (sources.Counter(1) if c["start"] is None else sources.Counter(1, c["start"])), own
    if k == "multisine":
        f = c["freqs"]
        f = np.array(f) if c["freq_as"] == "array" else tuple(f) if c["freq_as"] == "tuple" else list(f)
        if isinstance(f, np.ndarray):
            own.append(f)
        return sources.MultiSineSource(1, p, f, c["sr"], rng), own
    if k == "bandlimited":
        return sources.BandlimitedNoiseSource(c["ch"], p, tuple(c["lim"]), c["sr"], rng), own
    if k == "pulse":
        def w(v):
            if not isinstance(v, list):
                return v
            if c["as"] == "array":
                v = np.array(v)
                own.append(v)
                return v
            return tuple(v) if c["as"] == "tuple" else list(v)
        return sources.PulseTrain(c["ch"], w(c["amp"]), w(c["period"]), w(c["delay"])), own
    if k == "autocorr":
        a = autocorr_of(c)
        own.append(a)
        return sources.AutocorrSource(c["ch"], a, rng), own
    if k == "mls":
        s = None
        if c["state"]:
            s = (rng_of(c["seed"], 17).uniform(size=c["order"]) < 0.5).astype(int)
            s[c["seed"] % c["order"]] = 1
            own.append(s)
        return sources.MLS(1, c["order"], c["taps"], s), own
    if k == "gold":
        return sources.GoldSequenceSource(c["ch"], p, c["order"]), own
    raise KeyError(k)


HAS_POWER = ("white", "bandlimited", "gold")


@st.composite
def part_st(draw):
    c = draw(src_st())
    blocks = draw(st.one_of(
        st.lists(st.integers(1, 40), min_size=1, max_size=12),
        st.lists(st.sampled_from([1, 2, 3, 64, 127]), min_size=2, max_size=12),
        st.tuples(st.integers(1, 9), st.integers(2, 40)).map(lambda t: [t[0]] * t[1])))
    c["blocks"] = blocks
    c["overwrite"] = draw(st.booleans())
    c["change_at"] = draw(st.integers(0, len(blocks))) if c["kind"] in HAS_POWER and draw(st.booleans()) else None
    c["new_power"] = draw(pw)
    return c


def partition(case, ctx):
    c, blocks = case, case["blocks"]
    ca = c["change_at"]
    one, own1 = make(c)
    n = sum(blocks)
    keep = [o.copy() for o in own1]
    if ca is None:
        want = np.array(one.get_samples(n), dtype=float)
    else:
        n1 = sum(blocks[:ca])
        parts = [np.array(one.get_samples(n1), dtype=float)] if n1 else []
        one.set_power(c["new_power"])
        if n - n1:
            parts.append(np.array(one.get_samples(n - n1), dtype=float))
        want = np.concatenate(parts, axis=-1)
    if want.shape != (c["ch"], n):
        raise Violation(f"{c['kind']}: request for {n} samples of {c['ch']} channel(s) gave shape {want.shape}")
    two, own2 = make(c)
    got, live = [], []
    for i, b in enumerate(blocks):
        if ca == i:
            two.set_power(c["new_power"])
        x = two.get_samples(b)
        if np.shape(x) != (c["ch"], b):
            raise Violation(f"{c['kind']}: request for {b} samples of {c['ch']} channel(s) gave shape {np.shape(x)}")
        got.append(np.array(x, dtype=float))
        live.append(x)
        if c["overwrite"]:
            x *= 0
    assert_close(np.concatenate(got, axis=-1), want, f"{c['kind']} source in blocks {blocks[:12]} against one request of {n}")
    for x, g in zip(live, got):
        if not np.array_equal(np.asarray(x, dtype=float), g * (0 if c["overwrite"] else 1)):
            raise Violation(f"{c['kind']}: a delivered block was changed by a later request")
    for own in (own1, own2):
        for o, k in zip(own, keep):
            if not np.array_equal(o, k):
                raise Violation(f"{c['kind']}: the array supplied by the caller was modified")
    ctx.label("kind:" + c["kind"])
    if c["ch"] > 1:
        ctx.label("multichannel:" + c["kind"])
    ctx.nt(len(set(blocks)) > 1 and np.any(want != 0))


@st.composite
def insim_st(draw):
    c = draw(src_st())
    cfgs = []
    for _ in range(2):
        cfgs.append({"sim_buffer": draw(st.integers(5, 30)), "sim_chunk_size": draw(st.integers(2, 50))})
    return {"src": c, "cfgs": cfgs, "tot": draw(st.integers(10, 120))}


def insim(case, ctx):
    """A simulation requests blocks given by its chunk and buffer sizes: the recorded signal starts with what the source delivers."""
    c = case["src"]
    outs = []
    for g in case["cfgs"]:
        cfg = dict(g, tot_samples=case["tot"], start_sources_before_0=False)
        su, _ = build({"cfg": cfg, "free": [{"name": "src", "n": c["ch"], "seed": 1}], "mics": [{"name": "mic", "n": 1}], "paths": []},
                      source_factory=lambda s: make(c)[0])
        sim = su.create_simulator()
        record(sim, "src", c["ch"])
        run(sim)
        outs.append(np.asarray(sim.diag.diagnostics["src"].get_output())[:, :case["tot"]])
    ref = np.array(make(c)[0].get_samples(case["tot"]), dtype=float)
    for o, g in zip(outs, case["cfgs"]):
        assert_close(o, ref.reshape(c["ch"], -1), f"{c['kind']} source recorded with {g}")
    ctx.label("simulation:" + c["kind"])
    ctx.nt(case["tot"] > min(g["sim_chunk_size"] for g in case["cfgs"]) and np.any(ref != 0))


TESTS = [
    Test("partition", part_st(), partition, quick=7500, thorough=60000),
    Test("insim", insim_st(), insim, quick=750, thorough=6000),
]
