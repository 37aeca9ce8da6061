"""C25: two omnidirectional microphones form the specified cardioid."""
import numpy as np
from hypothesis import strategies as st

from aspsim.room.directional import differential_cardioid_microphone as cardioid
from vlib.harness import Test, Violation
from vlib.simh import assert_close, rng_of

RULE = ("A case is one spacing/sample rate/speed of sound/filter order with plane waves or random signals. Non-trivial: at least two "
        "microphone pairs, or an angle of incidence that is neither 0 nor pi.")
ASSUMPTIONS = ["usable band: 5% to 45% of the sample rate, at least 4 FIR bins above 0, spacing below 0.6 samples of travel time; "
               "FIR approximation error allowed: 5/filter_order",
               "the filter is acausal by filter_order samples, so signals are compared away from their ends"]


@st.composite
def geo(draw, lo=50, hi=220):
    sr = draw(st.sampled_from([500, 1000, 8000, 16000, 44100]))
    c = draw(st.sampled_from([343.0, 340.0, 330.5, 1500.0]))
    return {"sr": sr, "c": c, "d": draw(st.floats(0.02, 0.6)) * c / sr, "order": draw(st.integers(lo, hi))}


@st.composite
def wave_st(draw):
    g = draw(geo())
    g["fmin"] = max(0.05, 4 / (2 * g["order"] + 1))
    g["waves"] = draw(st.lists(st.tuples(st.one_of(st.sampled_from([0.0, 1.0, 0.5]), st.floats(0, 1)),
                                         st.floats(g["fmin"], 0.45), st.floats(0.1, 10), st.floats(0, 6.28)), min_size=1, max_size=4))
    g["shift"] = draw(st.integers(0, 30))
    return g


def ideal(kd, th):
    return (1 - np.exp(-1j * kd * (1 + np.cos(th)))) / (1 - np.exp(-2j * kd))


def waves(case, ctx):
    sr, c, d, order = (case[k] for k in ("sr", "c", "d", "order"))
    n = np.arange(2 * order + 120) - case["shift"]
    main, sec, want, amps, kds, ths = [], [], [], [], [], []
    for ang, f, a, ph in case["waves"]:
        th, w = ang * np.pi, 2 * np.pi * f
        kd = w * sr / c * d
        x1 = a * np.exp(1j * (w * n + ph))
        x2 = x1 * np.exp(-1j * kd * np.cos(th))      # the wave reaches the secondary microphone later
        main.append(x1.real)
        sec.append(x2.real)
        want.append((x1 * ideal(kd, th)).real)
        amps.append(a)
        kds.append(kd)
        ths.append(th)
    main, sec, want = np.array(main), np.array(sec), np.array(want)
    km, ks = main.copy(), sec.copy()
    y = cardioid(main, sec, d, order, c, sr)
    if y.shape != main.shape:
        raise Violation(f"output shape {y.shape} for signals of shape {main.shape}")
    if not (np.array_equal(km, main) and np.array_equal(ks, sec)):
        raise Violation("the microphone signals were modified")
    mid = slice(order, -order)
    for i, (ang, f, a, ph) in enumerate(case["waves"]):
        err = np.max(np.abs(y[i, mid] - want[i, mid])) / a
        tol = 5 / order
        if err > tol:
            raise Violation(f"plane wave of {f * sr:.1f} Hz from {np.degrees(ths[i]):.1f} degrees, spacing {d:.4f} m, order {order}: "
                            f"output differs by {err:.4f} of the wave's amplitude from the cardioid response {abs(ideal(kds[i], ths[i])):.4f}")
        # small spacing: the familiar (1 + cos)/2 pattern
        if kds[i] < 0.1:
            if abs(np.max(np.abs(want[i, mid])) / a - (1 + np.cos(ths[i])) / 2) > 0.2:
                raise Violation("oracle inconsistency")
            ctx.label("small_spacing")
    ctx.label("plane_wave", len(case["waves"]))
    ctx.nt(any(0 < a < 1 for a, *_ in case["waves"]) or len(case["waves"]) > 1)


@st.composite
def rel_st(draw):
    g = draw(geo(10, 120))
    g.update(seed=draw(st.integers(0, 9999)), ch=draw(st.integers(1, 5)), n=draw(st.integers(1, 300)),
             a=draw(st.floats(-3, 3)), b=draw(st.floats(-3, 3)), lag=draw(st.integers(0, 40)),
             below=draw(st.one_of(st.none(), st.floats(0.05, 0.3).map(lambda v: v * g["sr"]))))
    return g


def relations(case, ctx):
    r = rng_of(case["seed"], 250)
    ch, n = case["ch"], case["n"]
    def f(m, s):
        return cardioid(m, s, case["d"], case["order"], case["c"], case["sr"], filter_below=case["below"])
    m1, s1, m2, s2 = (r.normal(size=(ch, n)) for _ in range(4))
    y1, y2 = f(m1, s1), f(m2, s2)
    if y1.shape != (ch, n) or not np.isfinite(y1).all():
        raise Violation(f"output of shape {y1.shape} for signals of shape {(ch, n)} (finite: {np.isfinite(y1).all()})")
    assert_close(f(case["a"] * m1 + case["b"] * m2, case["a"] * s1 + case["b"] * s2), case["a"] * y1 + case["b"] * y2, "linearity", 1e-8)
    lag = case["lag"]
    pad = lambda x: np.concatenate((np.zeros((ch, lag)), x), axis=-1)
    assert_close(f(pad(m1), pad(s1))[:, lag:], y1, f"signals delayed by {lag} samples", 1e-8)
    for i in range(ch):
        assert_close(f(m1[i:i + 1], s1[i:i + 1]), y1[i:i + 1], f"pair {i} alone", 1e-8)
    mm, ss = m1.copy(), s1.copy()
    mm[0] = m2[0]
    ss[0] = s2[0]
    assert_close(f(mm, ss)[1:], y1[1:], "other pairs after changing pair 0", 1e-8)
    ctx.label("relations")
    ctx.nt(ch > 1)


@st.composite
def below_st(draw):
    g = draw(geo(100, 250))
    g["below"] = draw(st.floats(0.12, 0.3)) * g["sr"]
    g["low"] = draw(st.floats(0.1, 0.3))
    g["high"] = draw(st.floats(0.0, 1.0))
    g["ang"] = draw(st.floats(0, 1))
    return g


def low_limit(case, ctx):
    sr, c, d, order, fb = (case[k] for k in ("sr", "c", "d", "order", "below"))
    n = np.arange(2 * order + 200)
    fl = max(case["low"] * fb / sr, 3 / (2 * order + 1))
    fh = fb / sr * 1.15 + case["high"] * (0.45 - fb / sr * 1.15)
    out = {}
    for name, f in (("low", fl), ("high", fh)):
        w = 2 * np.pi * f
        kd = w * sr / c * d
        x1 = np.exp(1j * w * n)
        x2 = x1 * np.exp(-1j * kd * np.cos(case["ang"] * np.pi))
        y = [cardioid(x1.real[None], x2.real[None], d, order, c, sr, filter_below=b)[0, order:-order] for b in (None, fb)]
        out[name] = (np.max(np.abs(y[0])), np.max(np.abs(y[1])), np.max(np.abs(y[0] - y[1])))
    if out["low"][1] > 0.06:
        raise Violation(f"content at {fl * sr:.1f} Hz passes the low frequency limit {fb:.1f} Hz with gain {out['low'][1]:.3f}")
    if out["high"][2] > 5 / order:
        raise Violation(f"content at {fh * sr:.1f} Hz changed by {out['high'][2]:.3f} by the low frequency limit {fb:.1f} Hz")
    ctx.label("low_limit")
    ctx.nt(0 < case["ang"] < 1)


TESTS = [
    Test("waves", wave_st(), waves, quick=7200, thorough=40000),
    Test("relations", rel_st(), relations, quick=3000, thorough=15000),
    Test("low_limit", below_st(), low_limit, quick=3000, thorough=15000),
]
