"""C24: numerical helpers match their mathematical definition."""
import numpy as np
from hypothesis import strategies as st

import aspsim.processor as aproc
import aspsim.utilities as util
import aspsim.diagnostics.preprocessing as pre
import aspsim.diagnostics.soundfieldplot as sfp
from vlib.harness import Test, Violation
from vlib.simh import assert_close, build, rng_of, scene_st

RULE = ("A case is one input of one helper. Non-trivial: frequency paths with more than one source-microphone pair, block splits with at "
        "least two blocks, grids with at least two rows and columns in shuffled order, signals longer than the smoothing length.")
ASSUMPTIONS = ["frequency paths are only defined for even transform lengths (odd ones raise, as documented)",
               "grid coordinates are either equal or differ by clearly more than the rounding of sort_for_imshow"]


# ---------------------------------------------------------------- frequency paths
@st.composite
def freq_st(draw):
    sc = draw(scene_st(max_free=2, max_ctrl=2, max_mics=2, max_len=20))
    return {"scene": sc, "nfft": 2 * draw(st.integers(1, 24)), "sr": draw(st.sampled_from([1, 500, 8000, 44100]))}


def freq(case, ctx):
    su, info = build(case["scene"])
    sim = su.create_simulator()
    paths = {(s.name, m.name): np.array(p) for s, m, p in sim.arrays.iter_paths()}
    fp, freqs = sim.arrays.get_freq_paths(case["nfft"], case["sr"])
    n = case["nfft"]
    k = np.arange(n // 2 + 1)
    assert_close(freqs, k * case["sr"] / n, "frequencies", 1e-12)
    seen = set()
    for s in info["nsrc"]:
        for m in info["nmic"]:
            if s not in fp or m not in fp[s]:
                raise Violation(f"no frequency path from {s} to {m}")
            p = info["paths"].get((s, m))
            if p is None:
                p = paths[(s, m)]
            q = p[..., :n]
            E = np.exp(-2j * np.pi * np.outer(k, np.arange(q.shape[-1])) / n)
            want = np.einsum("fk,smk->fms", E, q)
            assert_close(fp[s][m], want, f"frequency path {s}->{m} (transform length {n}, response length {p.shape[-1]})", 1e-9)
            seen.add((s, m))
    extra = {(s, m) for s in fp for m in fp[s]} - seen
    if extra:
        raise Violation(f"frequency paths for unknown pairs {extra}")
    for (s, m), p in paths.items():
        if not np.array_equal(p, [q for a, b, q in sim.arrays.iter_paths() if (a.name, b.name) == (s, m)][0]):
            raise Violation("the paths were modified")
    ctx.label("freq_paths")
    ctx.nt(len(seen) > 1)


# ---------------------------------------------------------------- block splitting
@st.composite
def blocks_st(draw):
    bs = draw(st.one_of(st.integers(1, 8), st.integers(1, 300)))
    return {"kind": draw(st.sampled_from(["plain", "buffer", "until"])), "n": draw(st.one_of(st.integers(0, 40), st.integers(0, 2000))),
            "bs": bs, "start": draw(st.integers(0, bs - 1)), "buf": draw(st.integers(0, 60)), "first": draw(st.integers(0, 50))}


def blocks(case, ctx):
    n, bs = case["n"], case["bs"]
    k = case["kind"]
    if k in ("plain", "buffer"):
        if k == "plain":
            got = list(util.calc_block_sizes(n, case["start"], bs))
            start, bounds0 = case["start"], bs
        else:
            # indices run from buf to buf+chunk, then wrap to buf
            start = case["buf"] + case["start"]
            got = list(aproc.calc_block_sizes_with_buffer(n, start, case["buf"], bs))
            start, bounds0 = case["start"], bs
        if any(g <= 0 or g != int(g) for g in got):
            raise Violation(f"{k}: block sizes {got[:10]}")
        if sum(got) != n:
            raise Violation(f"{k}: blocks of {n} samples from {start} in buffer of {bs} sum to {sum(got)}")
        pos = start
        for g in got:
            if pos % bounds0 + g > bounds0:
                raise Violation(f"{k}: a block of {g} samples starting at {pos % bounds0} crosses the boundary at {bounds0}: {got[:10]}")
            pos += g
        ctx.nt(len(got) > 1)
    else:
        a, b = case["first"], case["first"] + n
        got = list(aproc.block_process_until_index(a, b, bs))
        first = aproc.find_first_index_for_block(a, b, bs)
        e = first
        for s, t in got:
            if s != e or t - s != bs:
                raise Violation(f"until: intervals {got[:6]} are not contiguous blocks of {bs} from {first}")
            e = t
        if e != b:
            raise Violation(f"until: blocks end at {e} instead of {b}")
        if not a <= first < a + bs:
            raise Violation(f"until: first index {first} for blocks of {bs} in {a}..{b}")
        ctx.nt(len(got) > 1)
    ctx.label("blocks:" + k)


# ---------------------------------------------------------------- preprocessors
@st.composite
def prep_st(draw):
    return {"seed": draw(st.integers(0, 9999)), "ch": draw(st.integers(1, 4)), "len": draw(st.integers(1, 80)),
            "smooth": draw(st.integers(1, 30)), "lo": draw(st.floats(-2, 0)), "hi": draw(st.floats(0, 2)),
            "scale": draw(st.sampled_from([1, 1e-3, 1e4]))}


def prep(case, ctx):
    x = rng_of(case["seed"], 24).normal(size=(case["ch"], case["len"])) * case["scale"]
    keep = x.copy()
    y = pre.smooth(case["smooth"])(x)
    want = np.zeros_like(x)
    for j in range(case["smooth"]):
        if j < x.shape[1]:
            want[:, j:] += x[:, :x.shape[1] - j] / case["smooth"]
    assert_close(y, want, f"smooth({case['smooth']})", 1e-9)
    lo, hi = case["lo"] * case["scale"], case["hi"] * case["scale"]
    assert_close(pre.clip(lo, hi)(x), np.where(x < lo, lo, np.where(x > hi, hi, x)), "clip", 1e-12)
    assert_close(pre.linear(x), x, "linear", 0)
    p = np.abs(x) + 1e-12
    assert_close(np.power(10.0, np.asarray(pre.db_power(p)) / 10) / p, np.ones_like(p), "db_power", 1e-9)
    assert_close(np.power(10.0, np.asarray(pre.db_amplitude(p)) / 20) / p, np.ones_like(p), "db_amplitude", 1e-9)
    assert_close(np.exp(np.asarray(pre.natural_log(p))) / p, np.ones_like(p), "natural_log", 1e-9)
    if not np.array_equal(x, keep):
        raise Violation("a preprocessor modified its input")
    ctx.label("preprocessors")
    ctx.nt(case["len"] > case["smooth"] > 1)


# ---------------------------------------------------------------- sorting for display
@st.composite
def sort_st(draw):
    return {"seed": draw(st.integers(0, 99999)), "nx": draw(st.integers(1, 8)), "ny": draw(st.integers(1, 8)),
            "dim": draw(st.sampled_from([2, 3])), "sdim": draw(st.integers(1, 3)), "uniform": draw(st.booleans()),
            "order": draw(st.sampled_from(["shuffle", "shuffle", "rows", "cols", "reversed"])),
            "complex": draw(st.booleans())}


def sorting(case, ctx):
    r = rng_of(case["seed"], 25)
    def axis(n):
        off = r.uniform(-5, 5)
        return off + (np.arange(n) * r.uniform(0.01, 1.0) if case["uniform"] else np.cumsum(r.uniform(1e-3, 1.0, size=n)))
    xs, ys = axis(case["nx"]), axis(case["ny"])
    X, Y = np.meshgrid(xs, ys)       # rows are y
    pos = np.stack((X.ravel(), Y.ravel()), axis=-1)
    if case["dim"] == 3:
        pos = np.concatenate((pos, np.full((len(pos), 1), r.uniform(-1, 1))), axis=-1)
    n = len(pos)
    perm = {"shuffle": r.permutation(n), "rows": np.arange(n), "reversed": np.arange(n)[::-1],
            "cols": np.argsort(pos[:, 0], kind="stable")}[case["order"]]
    sig = r.normal(size=(n, case["sdim"]))
    if case["complex"]:
        sig = sig + 1j * r.normal(size=sig.shape)
    p_in, s_in = pos[perm], sig[perm]
    p_keep, s_keep = p_in.copy(), s_in.copy()
    rows, cols = sfp.get_num_pixels(p_in)
    if (rows, cols) != (len(ys), len(xs)):
        raise Violation(f"grid of {len(ys)} rows and {len(xs)} columns counted as {(rows, cols)}")
    ps, ss = sfp.sort_for_imshow(p_in, s_in)
    if ss.shape != (len(ys), len(xs), case["sdim"]) or ps.shape != (len(ys), len(xs), case["dim"]):
        raise Violation(f"sorted shapes {ps.shape}, {ss.shape}")
    # image row 0 is drawn at the top, i.e. at the largest y
    want = sig.reshape(len(ys), len(xs), -1)[::-1]
    if not np.array_equal(ss, want):
        raise Violation(f"a {len(ys)}x{len(xs)} grid in order '{case['order']}' is not drawn with every value at the pixel of its position")
    grid = pos.reshape(len(ys), len(xs), -1)
    if not (np.array_equal(ps, grid) or np.array_equal(ps, grid[::-1])):
        raise Violation("the sorted positions are not the grid positions")
    if not (np.array_equal(p_in, p_keep) and np.array_equal(s_in, s_keep)):
        raise Violation("the input was modified")
    ext = sfp.size_of_2d_plot([p_in, p_in[:1] + 1])
    allp = np.concatenate((p_in, p_in[:1] + 1))[:, :2]
    assert_close(ext, allp.max(axis=0) - allp.min(axis=0), "plot extent", 1e-12)
    ctx.label("sort:" + case["order"])
    ctx.nt(case["nx"] > 1 and case["ny"] > 1)


TESTS = [
    Test("freq", freq_st(), freq, quick=2000, thorough=8000),
    Test("blocks", blocks_st(), blocks, quick=15000, thorough=60000),
    Test("prep", prep_st(), prep, quick=2500, thorough=20000),
    Test("sorting", sort_st(), sorting, quick=5000, thorough=30000),
]
