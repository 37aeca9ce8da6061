"""C13: sources produce the signal their parameters describe."""
import numpy as np
import scipy.signal as spsig
import scipy.stats as sst
from hypothesis import strategies as st

import aspsim.signal.sources as sources
from checks.c12 import TAPS, autocorr_of, make, pw, src_st
from vlib.harness import Test, Violation
from vlib.simh import assert_close, finite, rng_of

RULE = ("A case is one source with generated parameters and seed. Non-trivial: the source has at least two channels, an array-valued "
        "parameter, or a power different from 1 (deterministic waveforms: at least one full period was examined).")
ASSUMPTIONS = ["statistical bounds are chosen for a false alarm probability below about 1e-9 per case",
               "Gold sequences: three-valued correlation is required for orders that have preferred pairs (not divisible by 4)",
               "a pulse train is periodic: pulses are at all times congruent to the delay modulo the period"]


def sizes(draw, mx=4):
    return draw(st.integers(1, mx))


def tolist(p, ch):
    return np.array(p, dtype=float) * np.ones(ch) if not isinstance(p, list) else np.array(p, dtype=float)


# ------------------------------------------------------------------ deterministic waveforms
@st.composite
def sine_st(draw):
    c = draw(src_st(kinds=("sine",)))
    c["freq"] = draw(st.floats(0.004, 0.49)) * c["sr"]
    c["n"] = draw(st.integers(3, 400))
    c["skip"] = draw(st.integers(0, 300))
    return c


def sine(case, ctx):
    src, _ = make(case)
    if case["skip"]:
        first = np.asarray(src.get_samples(case["skip"]))
        x = np.concatenate((first, np.asarray(src.get_samples(case["n"]))), axis=-1)
    else:
        x = np.asarray(src.get_samples(case["n"]))
    w = 2 * np.pi * case["freq"] / case["sr"]
    A = np.sqrt(2 * tolist(case["power"], case["ch"]))[:, None]
    # recurrence of a sinusoid of exactly this frequency
    assert_close(x[:, 2:] / A, (2 * np.cos(w) * x[:, 1:-1] - x[:, :-2]) / A, "sine recurrence (frequency, continuous phase)", 1e-8)
    quad = (x[:, 1:] - np.cos(w) * x[:, :-1]) / np.sin(w)
    amp = np.sqrt(x[:, :-1] ** 2 + quad ** 2)
    assert_close(amp / A, np.ones_like(amp), "sine amplitude sqrt(2 power)", 1e-6)
    ctx.label("sine")
    ctx.nt(case["n"] * w > 2 * np.pi)


@st.composite
def multisine_st(draw):
    sr = draw(st.sampled_from([100, 1000, 8000]))
    n = draw(st.integers(60, 400))
    bins = draw(st.lists(st.integers(1, (n - 1) // 2 - 1), min_size=1, max_size=6, unique=True))
    return {"kind": "multisine", "seed": draw(st.integers(0, 9999)), "rng": True, "ch": 1, "sr": sr, "n": n, "bins": bins,
            "freqs": [b * sr / n for b in bins], "power": draw(pw), "freq_as": draw(st.sampled_from(["list", "array", "tuple"])),
            "blocks": draw(st.integers(1, 50))}


def multisine(case, ctx):
    src, _ = make(case)
    n = case["n"]
    x, got = [], 0
    while got < 2 * n:
        b = min(case["blocks"], 2 * n - got)
        x.append(np.asarray(src.get_samples(b)))
        got += b
    x = np.concatenate(x, axis=-1)[0]
    finite(x, "multi-sine")
    for part in (x[:n], x[n:]):
        X = np.abs(np.fft.rfft(part)) * 2 / n
        A = X[case["bins"]]
        rest = np.delete(X, case["bins"])
        s = np.sqrt(case["power"])
        if np.max(rest) > 1e-8 * s:
            raise Violation(f"multi-sine has content at other frequencies than {case['freqs']} (bin amplitude {np.max(rest)})")
        if abs(np.sum(A ** 2) / 2 - case["power"]) > 1e-7 * case["power"]:
            raise Violation(f"multi-sine total power {np.sum(A ** 2) / 2} instead of {case['power']}")
        if np.min(A) < 1e-3 * s:
            raise Violation("a requested frequency is missing from the multi-sine")
    ctx.label("multisine")
    ctx.nt(len(case["bins"]) > 1)


@st.composite
def pulse_st(draw):
    c = draw(src_st(kinds=("pulse",)))
    c["n"] = draw(st.integers(1, 60))
    return c


def pulse(case, ctx):
    src, _ = make(case)
    x = np.asarray(src.get_samples(case["n"]))
    amp, per, dly = (tolist(case[k], case["ch"]) for k in ("amp", "period", "delay"))
    t = np.arange(case["n"])
    want = np.stack([np.where((t - dly[c]) % per[c] == 0, amp[c], 0.0) for c in range(case["ch"])])
    assert_close(x, want, "pulse train", 1e-12)
    ctx.label("pulse")
    ctx.nt(case["n"] > np.max(per) + np.max(dly))


counter_st = st.fixed_dictionaries({"start": st.one_of(st.none(), st.integers(-1000, 1000)),
                                    "blocks": st.lists(st.integers(1, 30), min_size=1, max_size=6)})


def counter(case, ctx):
    src = sources.Counter(1) if case["start"] is None else sources.Counter(1, case["start"])
    x = np.concatenate([np.asarray(src.get_samples(b)).reshape(-1) for b in case["blocks"]])
    assert_close(x, np.arange(x.size) + (case["start"] or 0), "counter", 0)
    ctx.label("counter")
    ctx.nt(len(case["blocks"]) > 1)


def lfsr_reference(order, state, n, taps):
    """Fibonacci shift register as documented for scipy.signal.max_len_seq, written independently."""
    s = list(state)
    out = []
    for _ in range(n):
        out.append(s[0])
        fb = s[0]
        for t in taps:
            fb ^= s[t]
        s = s[1:] + [fb]
    return np.array(out)


DEFAULT_TAPS = {2: [1], 3: [2], 4: [3], 5: [3], 6: [5], 7: [6], 8: [7, 6, 1], 9: [5], 10: [7]}


@st.composite
def mls_st(draw):
    c = draw(src_st(kinds=("mls",)))
    c["blocks"] = draw(st.lists(st.integers(1, 700), min_size=1, max_size=4))
    return c


def mls(case, ctx):
    src, own = make(case)
    L = 2 ** case["order"] - 1
    blocks = case["blocks"]
    blocks = blocks + [max(1, 2 * L - sum(blocks))]
    x = np.concatenate([np.asarray(src.get_samples(b), dtype=float).reshape(-1) for b in blocks])
    if not np.all(np.abs(x) == 1):
        raise Violation(f"MLS values are not +-1: {np.unique(x)[:5]}")
    assert_close(x[L:], x[:-L], f"MLS of order {case['order']} repeats after {L} samples", 0)
    p = x[:L]
    corr = np.round(np.fft.ifft(np.abs(np.fft.fft(p)) ** 2).real, 6)
    if corr[0] != L or (L > 1 and not np.all(corr[1:] == -1)):
        raise Violation(f"MLS of order {case['order']} taps {case['taps']}: circular autocorrelation is not -1 off peak: {corr[:6]}")
    if abs(np.sum(p)) != 1:
        raise Violation("MLS is not balanced")
    state = own[0] if case["state"] else np.ones(case["order"], dtype=int)
    taps = case["taps"] if case["taps"] is not None else DEFAULT_TAPS[case["order"]]
    want = lfsr_reference(case["order"], [int(v) for v in state], L, taps) * 2 - 1
    assert_close(p, want, f"MLS of order {case['order']} taps {case['taps']} started from state {list(map(int, state))}", 0)
    ctx.label("mls")
    ctx.nt(case["order"] > 2)


@st.composite
def gold_st(draw):
    o = draw(st.sampled_from([5, 5, 6, 6, 7, 7, 8, 9, 10, 11, 13]))
    ch = draw(st.integers(1, 5))
    vec = draw(st.booleans())
    return {"kind": "gold", "seed": 0, "rng": False, "ch": ch, "order": o, "sr": 1,
            "power": draw(st.lists(pw, min_size=ch, max_size=ch)) if vec else draw(pw),
            "skip": draw(st.integers(0, 50)), "new_power": draw(st.one_of(st.none(), pw))}


def gold(case, ctx):
    src, _ = make(case)
    o, ch = case["order"], case["ch"]
    L = 2 ** o - 1
    p = tolist(case["power"], ch)
    parts = []
    if case["skip"]:
        x = np.asarray(src.get_samples(case["skip"]))
        parts.append(x / np.sqrt(p)[:, None])
    if case["new_power"] is not None:
        src.set_power(case["new_power"])
        p = tolist(case["new_power"], ch)
    parts.append(np.asarray(src.get_samples(2 * L)) / np.sqrt(p)[:, None])
    x = np.concatenate(parts, axis=-1)
    if not np.max(np.abs(np.abs(x) - 1)) <= 1e-9:
        raise Violation("Gold sequence values are not +-sqrt(power)")
    x = np.round(x)
    assert_close(x[:, L:], x[:, :-L], f"Gold sequence of order {o} repeats after {L} samples", 0)
    x = x[:, :L]
    F = np.fft.fft(x)
    t = 2 ** ((o + 2) // 2)
    for i in range(ch):
        for j in range(i, ch):
            c = np.round(np.fft.ifft(F[i] * F[j].conj()).real).astype(int)
            vals = set(int(v) for v in (c[1:] if i == j else c))
            if i == j and c[0] != L:
                raise Violation("Gold autocorrelation peak")
            bad = vals - {-1, -t - 1, t - 1} if o % 4 else {v for v in vals if abs(v) > t + 1}
            if bad:
                raise Violation(f"Gold sequences of order {o}: correlation of channels {i},{j} takes values {sorted(vals)[:8]}, "
                                f"allowed -1, {-t - 1}, {t - 1}")
    ctx.label(f"gold:{o}")
    ctx.nt(ch > 1)


# ------------------------------------------------------------------ noise
def chi2_ok(x, p, what, q=1e-11):
    n = x.size
    s = np.sum(x ** 2) / p
    if not sst.chi2.ppf(q, n) <= s <= sst.chi2.isf(q, n):
        raise Violation(f"{what}: mean power {np.mean(x ** 2)} instead of {p} over {n} samples")


@st.composite
def white_st(draw):
    c = draw(src_st(kinds=("white",)))
    c["rng"] = True
    c["n"] = draw(st.integers(1, 60)) * 50
    ch = c["ch"]
    c["new_power"] = draw(st.one_of(st.none(), pw, st.lists(pw, min_size=ch, max_size=ch)))
    c["blocks"] = draw(st.sampled_from([1, 7, 64, 100000]))
    return c


def draw_all(src, n, block):
    out, got = [], 0
    while got < n:
        b = min(block, n - got)
        out.append(np.array(src.get_samples(b), dtype=float))
        got += b
    finite(out[-1], type(src).__name__)
    return np.concatenate(out, axis=-1)


def check_white(x, p, what):
    n = x.shape[1]
    z = x / np.sqrt(p)[:, None]
    for i in range(x.shape[0]):
        chi2_ok(x[i], p[i], f"{what} channel {i}")
        if abs(np.sum(z[i])) > 7 * np.sqrt(n):
            raise Violation(f"{what} channel {i}: mean is not zero")
        if np.max(np.abs(z[i])) > 8.5:
            raise Violation(f"{what} channel {i}: value {np.max(np.abs(z[i]))} standard deviations from zero")
        for lag in (1, 2, 5):
            if n > 200 and abs(np.sum(z[i, lag:] * z[i, :-lag])) > 8 * np.sqrt(n):
                raise Violation(f"{what} channel {i}: samples are correlated at lag {lag}")
        for j in range(i):
            for lag in (0, 1):
                if n > 200 and abs(np.sum(z[i, lag:] * z[j, :n - lag])) > 8 * np.sqrt(n):
                    raise Violation(f"{what}: channels {i} and {j} are correlated (lag {lag})")


def white(case, ctx):
    src, _ = make(case)
    p = tolist(case["power"], case["ch"])
    check_white(draw_all(src, case["n"], max(case["blocks"], case["n"] // 200)), p, "white noise")
    if case["new_power"] is not None:
        q = np.array(case["new_power"], dtype=float) if isinstance(case["new_power"], list) else case["new_power"]
        src.set_power(q)
        check_white(draw_all(src, case["n"], max(case["blocks"], case["n"] // 200)), tolist(case["new_power"], case["ch"]),
                    "white noise after changing the power")
    ctx.label("white")
    ctx.nt(case["ch"] > 1 or case["power"] != 1)


@st.composite
def band_st(draw):
    c = draw(src_st(kinds=("bandlimited",)))
    c["rng"] = True
    c["new_power"] = draw(st.one_of(st.none(), pw))
    return c


def check_band(x, p, c, what, fresh):
    n = x.shape[1]
    lo, hi = c["lim"]
    nyq = c["sr"] / 2
    rel = (hi - lo) / nyq
    dof, dof0 = n * rel, 10000 * c["ch"] * rel     # the constructor calibrates on 10000 samples per channel
    sd = np.sqrt(2 / dof + 2 / dof0)
    f = np.fft.rfftfreq(n, 1 / c["sr"])
    win = spsig.windows.hann(n, sym=False)
    for i in range(x.shape[0]):
        r = np.mean(x[i] ** 2) / p[i]
        if abs(r - 1) > 8 * sd:
            raise Violation(f"{what} channel {i}: power {r * p[i]} instead of {p[i]}")
        if fresh:
            r0 = np.mean(x[i, :200] ** 2) / p[i]
            if r0 > 12:
                raise Violation(f"{what} channel {i}: the first samples have {r0} times the requested power")
        S = np.abs(np.fft.rfft(x[i] * win)) ** 2
        tot = np.sum(S)
        m = 0.1 * (hi - lo) + 5 * c["sr"] / n
        inband = np.sum(S[(f >= lo - m) & (f <= hi + m)]) / tot
        if inband < 0.985:
            raise Violation(f"{what} channel {i}: only {inband} of the power lies in the band {lo}..{hi} Hz")
        for k in range(4):
            a, b = lo + (hi - lo) * k / 4, lo + (hi - lo) * (k + 1) / 4
            q = np.sum(S[(f >= a) & (f < b)]) / tot
            tol = 0.08 + 8 * np.sqrt(2 * 0.25 / dof)
            if abs(q - 0.25) > tol:
                raise Violation(f"{what} channel {i}: quarter {k} of the band holds {q} of the power")
        for j in range(i):
            z = np.mean(x[i] * x[j]) / np.sqrt(p[i] * p[j])
            if abs(z) > 8 / np.sqrt(dof / 2):
                raise Violation(f"{what}: channels {i} and {j} are correlated ({z})")


def band(case, ctx):
    src, _ = make(case)
    n = 16000
    x = np.array(src.get_samples(n), dtype=float)
    check_band(x, tolist(case["power"], case["ch"]), case, "band-limited noise", True)
    if case["new_power"] is not None:
        src.set_power(case["new_power"])
        src.get_samples(4000)      # lets the old power die out of the filter
        check_band(np.array(src.get_samples(n), dtype=float), tolist(case["new_power"], case["ch"]), case,
                   "band-limited noise after changing the power", False)
    ctx.label("bandlimited")
    ctx.nt(case["ch"] > 1 or case["power"] != 1)


@st.composite
def autocorr_st(draw):
    c = draw(src_st(kinds=("autocorr",)))
    c["rng"] = True
    return c


def autocorr(case, ctx):
    r = autocorr_of(case)
    src, _ = make(case)
    n = 20000
    first = np.array(src.get_samples(1500), dtype=float)
    x = np.array(src.get_samples(n), dtype=float)
    K = r.shape[1]
    for i in range(case["ch"]):
        # all-pole extension of the requested autocorrelation (the maximum entropy one)
        a = np.linalg.solve(np.array([[r[i, abs(u - v)] for v in range(K - 1)] for u in range(K - 1)]), r[i, 1:])
        e = r[i, 0] - np.sum(a * r[i, 1:])
        h = spsig.lfilter([1.0], np.concatenate(([1.0], -a)), np.r_[1.0, np.zeros(3000)]) * np.sqrt(e)
        ext = np.correlate(h, h, "full")
        energy = np.sum(ext ** 2)
        if np.sum(h[1000:] ** 2) > 1e-6 * np.sum(h ** 2):
            ctx.label("autocorr:slow_skipped")
            continue
        sd = np.sqrt(2 * energy / n)
        for k in range(K):
            est = np.sum(x[i, k:] * x[i, :n - k]) / n
            if abs(est - r[i, k]) > 8 * sd + 1e-3 * r[i, 0]:
                raise Violation(f"autocorrelation of channel {i} at lag {k}: {est}, requested {r[i, k]} (standard error {sd})")
        if np.mean(first[i, :100] ** 2) > r[i, 0] * (1 + 60 * np.sqrt(2 * energy / 100) / r[i, 0]):
            raise Violation(f"channel {i} starts with power {np.mean(first[i, :100] ** 2)}, requested {r[i, 0]}")
        for j in range(i):
            z = np.mean(x[i] * x[j]) / np.sqrt(r[i, 0] * r[j, 0])
            if abs(z) > 8 * np.sqrt(energy / n) / r[i, 0] + 8 * np.sqrt(1 / n):
                raise Violation(f"channels {i} and {j} are correlated ({z})")
    ctx.label("autocorr")
    ctx.nt(case["ch"] > 1)


# ------------------------------------------------------------------ seeding
@st.composite
def seed_st(draw):
    c = draw(src_st(kinds=("white", "sine", "multisine", "bandlimited", "autocorr")))
    c["rng"] = True
    return {"src": c, "seed2": draw(st.integers(10000, 99999)), "n": draw(st.integers(4, 60))}


def seeding(case, ctx):
    c, n = case["src"], case["n"]
    x, y = (np.array(make(c)[0].get_samples(n), dtype=float) for _ in range(2))
    if not np.array_equal(x, y):
        raise Violation(f"two {c['kind']} sources with equally seeded generators differ")
    o = dict(c)
    b, _ = make(dict(c, rng=False))
    d, _ = make(dict(c, rng=False))
    if not np.array_equal(np.asarray(b.get_samples(n)), np.asarray(d.get_samples(n))):
        raise Violation(f"two {c['kind']} sources with the default generator differ")
    # other generator seed, same parameters
    if c["kind"] == "autocorr":
        z = np.array(sources.AutocorrSource(c["ch"], autocorr_of(c), np.random.default_rng(case["seed2"])).get_samples(n))
    else:
        o["seed"] = case["seed2"]
        z = np.array(make(o)[0].get_samples(n), dtype=float)
    for i in range(c["ch"]):
        if np.array_equal(x[i], z[i]):
            raise Violation(f"two {c['kind']} sources with differently seeded generators are equal in channel {i}")
        for j in range(i):
            if c["kind"] == "sine" and abs(np.sin(2 * np.pi * c["freq"] / c["sr"])) < 1e-3:
                same = np.array_equal(x[i], x[j])           # multiples of half the sample rate: all phases are proportional
            else:
                same = c["kind"] != "pulse" and np.allclose(x[i] / np.linalg.norm(x[i]), x[j] / np.linalg.norm(x[j]), atol=1e-12)
            if same:
                raise Violation(f"channels {i} and {j} of a {c['kind']} source carry the same signal")
    ctx.label("seed:" + c["kind"])
    ctx.nt(True)


TESTS = [
    Test("sine", sine_st(), sine, quick=2500, thorough=20000),
    Test("multisine", multisine_st(), multisine, quick=1500, thorough=10000),
    Test("pulse", pulse_st(), pulse, quick=3000, thorough=20000),
    Test("counter", counter_st, counter, quick=750, thorough=2000),
    Test("mls", mls_st(), mls, quick=1500, thorough=5000),
    Test("gold", gold_st(), gold, quick=750, thorough=3000),
    Test("white", white_st(), white, quick=2500, thorough=20000),
    Test("band", band_st(), band, quick=750, thorough=4000),
    Test("autocorr", autocorr_st(), autocorr, quick=750, thorough=4000),
    Test("seeding", seed_st(), seeding, quick=2000, thorough=10000),
]
