"""C10: generated room impulse responses obey the physics of the configured room."""
import numpy as np
from hypothesis import strategies as st

from aspsim.simulator import SimulatorSetup
from vlib import simh
from vlib.harness import Test, Violation

RULE = ("A case is one room (size, centre, reverberation time, rates) with source and microphone positions. Non-trivial: at least "
        "two distinct source-microphone pairs, room centre not at the origin.")
ASSUMPTIONS = ["the reference is an independent image source model (numpy) with Sabine absorption and a Hann-windowed sinc of the "
               "configured extra delay; the library's interpolation table and single precision make each image differ by up to 0.5 % of its amplitude",
               "all positions are inside the room, sources and microphones at least 5 cm apart",
               "with randomized image sources only finiteness, length and the time before the direct sound are checked",
               "the global speed of sound of pyroomacoustics is trusted to be what aspsim sets"]


def ism_ref(s, m, size, center, fs, c, extra, e, L, order_max=None, ambiguous=False):
    """image source model; with ambiguous=True instead the amplitude that single precision arithmetic can move to the next sample
    (the window is centred on a whole sample, so the interpolation jumps when an arrival time crosses a sample)"""
    size, center = np.array(size, float), np.array(center, float)
    s, m = s - center + size / 2, m - center + size / 2
    maxd = (L + extra + 2) / fs * c
    n = np.ceil(maxd / size).astype(int) + 2
    if order_max is not None:
        n = np.minimum(n, order_max + 1)
    ax = []
    for d in range(3):
        k = np.arange(-n[d], n[d] + 1)
        pos = np.where(k % 2 == 0, k * size[d] + s[d], k * size[d] + size[d] - s[d])
        ax.append((pos - m[d], np.abs(k)))
    dist = np.sqrt(ax[0][0][:, None, None] ** 2 + ax[1][0][None, :, None] ** 2 + ax[2][0][None, None, :] ** 2)
    order = ax[0][1][:, None, None] + ax[1][1][None, :, None] + ax[2][1][None, None, :]
    sel = dist < maxd
    if order_max is not None:
        sel &= order <= order_max
    d, o = dist[sel], order[sel]
    amp = (1 - e) ** (o / 2) / d
    t = d / c * fs + extra
    if ambiguous:
        near = np.abs(t - np.round(t)) < 1e-3
        out = np.zeros(L + 2 * extra + 4)
        for k in range(-extra - 1, extra + 2):
            idx = np.round(t[near]).astype(int) + k
            ok = (idx >= 0) & (idx < L)
            np.add.at(out, idx[ok], 1.2 * amp[near][ok])
        for k in range(-extra - 1, extra + 2):  # plus the error of the interpolation table, for every image
            idx = np.round(t).astype(int) + k
            ok = (idx >= 0) & (idx < L)
            np.add.at(out, idx[ok], (3e-3 / (1 + abs(k)) + (2e-3 if abs(k) < 2 else 0)) * amp[ok])
        return out[:L]
    n0 = np.floor(t).astype(int)
    fdl = 2 * extra + 1
    k = np.arange(fdl)
    taps = np.hanning(fdl)[None] * np.sinc(k[None] - extra - (t - n0)[:, None]) * amp[:, None]
    out = np.zeros(L)
    idx = (n0 - extra)[:, None] + k[None]
    ok = (idx >= 0) & (idx < L)
    np.add.at(out, idx[ok], taps[ok])
    return out


def absorption(c):
    if c["rt60"] <= 0:
        return 0.9, 0
    lx, ly, lz = c["room_size"]
    vol, surf = lx * ly * lz, 2 * (lx * ly + ly * lz + lx * lz)
    return 24 * np.log(10) / c["c"] * vol / surf / c["rt60"], None


def place(case, key, n):
    c = case["cfg"]
    half = np.array(c["room_size"]) / 2 - 0.05
    return np.array(c["room_center"]) + simh.rng_of(case["seed"], key).uniform(-1, 1, size=(n, 3)) * half


def separate(src, mics, case):
    """keep sources and microphones apart"""
    c = np.array(case["cfg"]["room_center"])
    for i in range(len(mics)):
        for _ in range(20):
            if np.min(np.linalg.norm(src - mics[i], axis=1)) >= 0.05:
                break
            mics[i] = c + (mics[i] - c) * 0.9 + 0.01
    return mics


def paths(cfg, srcs, mics):
    """srcs/mics: dict name -> positions; one simulator; returns paths and info"""
    su = SimulatorSetup()
    simh.apply_cfg(su.sim_info, {**cfg, "reverb": "ism"})
    for k, p in srcs.items():
        su.add_controllable_source(k, p)
    for k, p in mics.items():
        su.add_mics(k, p)
    sim = su.create_simulator()
    return sim.arrays.paths


def one(cfg, s, m):
    return paths(cfg, {"s": s}, {"m": m})["s"]["m"]


def t_model(case, ctx):
    cfg = case["cfg"]
    L = cfg["max_room_ir_length"]
    S = {f"s{i}": place(case, 10 + i, n) for i, n in enumerate(case["srcs"])}
    allsrc = np.concatenate(list(S.values()))
    M = {f"m{i}": separate(allsrc, place(case, 50 + i, n), case) for i, n in enumerate(case["mics"])}
    P = paths(cfg, S, M)
    e, order = absorption(cfg)
    npairs = 0
    for sn, sp in S.items():
        for mn, mp in M.items():
            got = P[sn][mn]
            if got.shape != (len(sp), len(mp), L):
                raise Violation(f"response has shape {got.shape}, expected {(len(sp), len(mp), L)}")
            if not np.all(np.isfinite(got)):
                if cfg["extra_delay"] == 0 and np.all(np.isnan(got) | (got == 0)):
                    ctx.known("KF-C10-extra-delay-0", "room responses are NaN with extra_delay 0 (the value of the default configuration)")
                    return
                raise Violation("response is not finite")
            for i in range(len(sp)):
                for j in range(len(mp)):
                    npairs += 1
                    d = np.linalg.norm(sp[i] - mp[j])
                    scale = 1 / d
                    if case["rand"]:
                        first = int(np.floor(d / cfg["c"] * cfg["samplerate"]))
                        if np.max(np.abs(got[i, j, :max(first - 1, 0)]), initial=0) > 1e-6 and cfg["rt60"] == 0:
                            raise Violation("sound before the direct sound")
                        continue
                    want = ism_ref(sp[i], mp[j], cfg["room_size"], cfg["room_center"], cfg["samplerate"], cfg["c"], cfg["extra_delay"], e, L, order)
                    err = np.abs(got[i, j] - want)
                    tol = 1e-5 * scale + ism_ref(sp[i], mp[j], cfg["room_size"], cfg["room_center"], cfg["samplerate"], cfg["c"],
                                                 cfg["extra_delay"], e, L, order, ambiguous=True)
                    if np.any(err > tol):
                        k = int(np.argmax(err - tol))
                        raise Violation(f"response {sn}[{i}]->{mn}[{j}] (distance {d:.3f} m, rt60 {cfg['rt60']}): sample {k} is {got[i, j, k]:.5f}, "
                                        f"image source model gives {want[k]:.5f}")
    ctx.label("rt60>0" if cfg["rt60"] > 0 else "direct_only")
    ctx.nt(npairs >= 2 and any(abs(v) > 1e-3 for v in cfg["room_center"]))


def t_relations(case, ctx):
    cfg = case["cfg"]
    rel = case["rel"]
    size, center = np.array(cfg["room_size"]), np.array(cfg["room_center"])
    s = place(case, 1, case["srcs"][0])
    m = separate(s, place(case, 2, case["mics"][0]), case)
    base = one(cfg, s, m)
    scale = 1 / np.min(np.linalg.norm(s[:, None] - m[None], axis=-1))
    e, order = absorption(cfg)
    loose = np.array([[ism_ref(a, b, size, center, cfg["samplerate"], cfg["c"], cfg["extra_delay"], e, base.shape[-1], order, ambiguous=True)
                       for b in m] for a in s])

    def close(got, what):
        if got.shape != base.shape:
            raise Violation(f"{what}: shape {got.shape} instead of {base.shape}")
        d = np.abs(got - base)
        if not np.all(d <= 1e-3 * scale + loose):
            k = np.unravel_index(np.argmax(d - loose), d.shape)
            raise Violation(f"{what}: {k} is {got[k]:.6g} instead of {base[k]:.6g}")

    ctx.label("relation_" + rel)
    ctx.nt(s.shape[0] * m.shape[0] >= 2)
    if rel == "reciprocal":
        close(one(cfg, m, s).transpose(1, 0, 2), "response after exchanging sources and microphones")
    elif rel == "translate":
        t = np.array(case["shift"])
        got = one({**cfg, "room_center": list(center + t)}, s + t, m + t)
        close(got, f"response after moving the scene and the room by {t}")
    elif rel == "mirror":
        ax = case["axes"]
        s2, m2 = s.copy(), m.copy()
        s2[:, ax] = 2 * center[ax] - s2[:, ax]
        m2[:, ax] = 2 * center[ax] - m2[:, ax]
        close(one(cfg, s2, m2), f"response after mirroring the scene in axes {ax}")
    elif rel == "permute_axes":
        p = case["perm"]
        got = one({**cfg, "room_size": list(size[p]), "room_center": list(center[p])}, s[:, p], m[:, p])
        close(got, f"response after exchanging coordinate axes {p}")
    elif rel == "prefix":
        short = max(1, cfg["max_room_ir_length"] // case["div"])
        got = one({**cfg, "max_room_ir_length": short}, s, m)
        simh.assert_close(got, base[:, :, :short], f"first {short} samples of the response", tol=1e-7)
    elif rel == "order":
        ps, pm = simh.rng_of(case["seed"], 3).permutation(len(s)), simh.rng_of(case["seed"], 4).permutation(len(m))
        got = one(cfg, s[ps], m[pm])
        simh.assert_close(got, base[ps][:, pm], "responses of reordered sources and microphones", tol=1e-6)
    elif rel == "alone":
        i, j = case["pick"][0] % len(s), case["pick"][1] % len(m)
        got = one(cfg, s[i:i + 1], m[j:j + 1])
        simh.assert_close(got[0, 0], base[i, j], f"response of source {i} and microphone {j} alone", tol=1e-6)
    elif rel == "arrays":
        k, q = case["pick"][0] % len(s) , case["pick"][1] % len(m)
        S = {"a": s[:k], "b": s[k:]} if 0 < k < len(s) else {"b": s}
        M = {"x": m[:q], "y": m[q:]} if 0 < q < len(m) else {"y": m}
        P = paths(cfg, S, M)
        got = np.concatenate([np.concatenate([P[a][x] for x in M], axis=1) for a in S], axis=0)
        simh.assert_close(got, base, "responses when the elements are split over several arrays", tol=1e-6)
    elif rel == "many":
        big = separate(s, place(case, 77, case["nbig"]), case)
        cfg2 = {**cfg, "rt60": 0.0}
        got = one(cfg2, s, big)
        if got.shape[1] != case["nbig"]:
            raise Violation(f"{got.shape[1]} responses for {case['nbig']} microphones")
        sel = sorted(set([0, case["nbig"] - 1, 499, 500, 501] + [int(v) for v in simh.rng_of(case["seed"], 8).integers(0, case["nbig"], size=20)]))
        sel = [v for v in sel if v < case["nbig"]]
        simh.assert_close(got[:, sel], one(cfg2, s, big[sel]), f"responses of microphones {sel} out of {case['nbig']}", tol=1e-6)


@st.composite
def cfg_room(draw, rel=False):
    size = [draw(st.floats(2.0, 6.0)), draw(st.floats(2.0, 6.0)), draw(st.floats(2.0, 4.0))]
    fs = draw(st.sampled_from([500, 1000, 2000, 8000]))
    c = draw(st.sampled_from([343.0, 300.0, 360.0, 340.3]))
    rt = draw(st.sampled_from([0.0, 0.0, 0.2, 0.25, 0.3]))
    narrow = rt > 0 and draw(st.integers(0, 2)) == 0
    if narrow:   # images of many reflections
        size[draw(st.integers(0, 2))] = draw(st.floats(0.7, 1.0))
        rt = draw(st.sampled_from([0.1, 0.12, 0.15]))
    vol = size[0] * size[1] * size[2]
    surf = 2 * (size[0] * size[1] + size[1] * size[2] + size[0] * size[2])
    if rt > 0 and 24 * np.log(10) / c * vol / surf / rt > 0.95:
        rt = 0.0
    lmax = int(min(160, fs * (rt if rt > 0 else 1.0) * 0.9, (40.0 if narrow else 25.0) / c * fs))
    return {"room_size": size, "room_center": [draw(st.floats(-5, 5)) for _ in range(3)], "samplerate": fs, "c": c, "rt60": rt,
            "extra_delay": draw(st.sampled_from([1, 2, 5, 8, 20])), "max_room_ir_length": draw(st.integers(5, max(6, lmax)))}


@st.composite
def st_model(draw):
    cfg = draw(cfg_room())
    few = cfg["rt60"] > 0
    rand = draw(st.integers(0, 9)) == 0
    if rand:
        cfg["randomized_ism"] = True
    if draw(st.integers(0, 19)) == 0:
        cfg["extra_delay"] = 0
    return {"cfg": cfg, "seed": draw(st.integers(0, 9999)), "rand": rand,
            "srcs": draw(st.lists(st.integers(1, 2 if few else 4), min_size=1, max_size=2)),
            "mics": draw(st.lists(st.integers(1, 2 if few else 5), min_size=1, max_size=2))}


@st.composite
def st_rel(draw):
    cfg = draw(cfg_room(True))
    rel = draw(st.sampled_from(["reciprocal", "translate", "mirror", "permute_axes", "prefix", "order", "alone", "arrays", "many"]))
    few = cfg["rt60"] > 0
    return {"cfg": cfg, "seed": draw(st.integers(0, 9999)), "rel": rel, "srcs": [draw(st.integers(1, 2 if few else 4))],
            "mics": [draw(st.integers(1, 3 if few else 6))], "shift": [draw(st.floats(-9, 9)) for _ in range(3)],
            "axes": draw(st.lists(st.integers(0, 2), min_size=1, max_size=3, unique=True)), "perm": list(draw(st.permutations([0, 1, 2]))),
            "div": draw(st.integers(1, 6)), "pick": [draw(st.integers(0, 9)), draw(st.integers(0, 9))], "nbig": draw(st.integers(495, 530))}


TESTS = [Test("model", st_model(), t_model, quick=250), Test("relations", st_rel(), t_relations, quick=250)]
