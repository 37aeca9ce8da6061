"""C05: signal recordings and exported files contain exactly the requested samples."""
import json

import numpy as np
from hypothesis import strategies as st

import aspsim.diagnostics.core as dc
import aspsim.diagnostics.diagnostics as dg
from vlib import simh
from vlib.harness import Test, Violation

WARM = "static"
RULE = ("A case is one simulation (length, buffer, chunk, block or no processor) with up to four recordings, each with its "
        "own intervals, export times, channels and keep-last choice. Signal values encode channel and time. Non-trivial: "
        "some recording has at least two intervals or two exports and the run crosses a buffer boundary.")
ASSUMPTIONS = ["intervals are increasing and inside [0, total length]; export times are increasing and between 1 and the total length"]


class Ramp:
    """channel c delivers c*10000 + (time index of the sample) + 1"""

    def __init__(self, n):
        self.num_channels, self.metadata, self.i = n, {}, 0

    def get_samples(self, k):
        v = np.arange(self.num_channels)[:, None] * 10000.0 + np.arange(self.i, self.i + k)[None, :] + 1
        self.i += k
        return v


def truth(channels, t):
    return np.array([[c * 10000.0 + x + 1 for x in t] for c in channels]).reshape(len(channels), len(t))


def make_intervals(d, tot):
    kind = d["iv_kind"]
    iv = [tuple(x) for x in d["intervals"]]
    if kind == "default":
        return None, [(0, tot)]
    if kind == "list":
        return dc.IntervalCounter([list(x) for x in iv]), iv
    if kind == "tuple":
        return dc.IntervalCounter(tuple(iv)), iv
    if kind == "array":
        return dc.IntervalCounter(np.array(iv)), iv
    return dc.IntervalCounter(iter(iv), sum(b - a for a, b in iv)), iv


def double(x):
    return 2 * x + 1


def t_recordings(case, ctx):
    cfg, n = case["cfg"], case["n"]
    tot = cfg["tot_samples"]
    with simh.scratch_dir() as base:
        su, _ = simh.build({"cfg": {**cfg, "plot_output": "pdf", "export_frequency": case["freq"]}, "free": [], "mics": [], "paths": []},
                           base_fig_path=base)
        su.add_free_source("ramp", simh.positions(1, n), Ramp(n))
        su.add_mics("mic", simh.positions(2, n))
        ir = np.zeros((n, n, 2))
        for i in range(n):
            ir[i, i, 0] = 1
        su.set_path("ramp", "mic", ir)
        sim = su.create_simulator()
        offset = 0 if not cfg["start_sources_before_0"] else cfg["sim_buffer"] - 1
        folder = sim.folder_path
        before = {p.name for p in folder.iterdir()}
        foreign = {}
        for f in case["foreign"]:
            (folder / f).write_text("keep me " + f)
            foreign[f] = "keep me " + f
        models = {}
        for d in case["diags"]:
            save_at, iv = make_intervals(d, tot)
            ch = d["channels"]
            kw = {}
            if ch is not None:
                sel = ch if isinstance(ch, list) else [ch]
                kw = {"channel_idx": ch if isinstance(ch, int) else tuple(ch), "num_channels": len(sel)}
            else:
                sel = list(range(n))
                kw = {"num_channels": n}
            if d["export"] == "default":
                exports = list(range(case["freq"], tot + 1, case["freq"]))
            elif isinstance(d["export"], int):
                kw["export_at"] = d["export"]
                exports = list(range(d["export"], tot + 1, d["export"]))
            else:
                kw["export_at"] = list(d["export"]) if d["export_seq"] == "list" else np.array(d["export"]) if d["export_seq"] == "array" else tuple(d["export"])
                exports = list(d["export"])
            if d["keep"] is not None:
                kw["keep_only_last_export"] = d["keep"]
            if save_at is not None:
                kw["save_at"] = save_at
            if d["func"] == "npz":
                kw["export_func"] = "npz"
                if d["pp"]:
                    kw["preprocess"] = double
            else:
                kw["export_func"] = ["npz", "text"]
                if d["pp"]:
                    kw["preprocess"] = [[double], [double, double]]
                kw["export_kwargs"] = [{}, {}]
            sim.diag.add_diagnostic(d["name"], dg.RecordSignal(d["sig"], sim.sim_info, **kw))
            models[d["name"]] = (d, sel, iv, exports)

        def during(proc, bs):
            for name, (d, sel, iv, exports) in models.items():
                if d["keep"]:
                    left = [p.name for p in folder.glob(name + "_*.npz") if p.name not in foreign and p.stem[len(name) + 1:].isdigit()]
                    if len(left) > 1:
                        raise Violation(f"{name} keeps only the last export but {sorted(left)} exist")
        if case["block"]:
            sim.add_processor(simh.Rec(sim.sim_info, sim.arrays, case["block"], during))
        simh.run(sim)
        sources_ok = offset
        expected_files = set(before) | set(foreign)
        if case["block"] or True:
            expected_files.add("metadata_processor.json")
        expected_npz = {}
        for name, (d, sel, iv, exports) in models.items():
            out = sim.diag[name].get_output()
            want = np.full((len(sel), tot), np.nan)
            for a, b in iv:
                want[:, a:b] = truth(sel, np.arange(a, b) + sources_ok)
            if out.shape != want.shape or not np.array_equal(out, want, equal_nan=True):
                bad = np.argwhere(~((out == want) | (np.isnan(out) & np.isnan(want)))) if out.shape == want.shape else [[-1, -1]]
                i = tuple(int(x) for x in bad[0])
                raise Violation(f"recording {name} (intervals {iv}, channels {sel}): first wrong entry {i}: "
                                f"{out[i] if i[0] >= 0 else out.shape} expected {want[i] if i[0] >= 0 else want.shape}")
            keep = exports[-1:] if d["keep"] else exports
            for e in exports:
                t = [x for a, b in iv for x in range(a, b) if x < e]
                w = truth(sel, np.array(t, dtype=int) + sources_ok)
                fname = f"{name}_{e}.npz"
                if e in keep:
                    expected_npz[fname] = (name, double(w) if d["pp"] else w)
                if d["func"] != "npz":
                    expected_files.add(f"{name}_{e}.json")
                    if (folder / f"{name}_{e}.json").exists() and len(t):
                        val = json.loads((folder / f"{name}_{e}.json").read_text())
                        w2 = double(double(w)) if d["pp"] else w
                        if list(val) != [name] or not abs(val[name] - w2.mean()) <= 1e-6 * max(1, abs(w2.mean())):
                            raise Violation(f"text export {name}_{e}.json holds {val}, expected mean {w2.mean()}")
        expected_files |= set(expected_npz)
        have = {p.name for p in folder.iterdir()}
        missing = sorted(x for x in expected_files - have if x.endswith((".npz", ".json")) and x != "metadata_processor.json")
        extra = sorted(x for x in have - expected_files)
        if missing:
            raise Violation(f"export files missing: {missing[:4]} (present: {sorted(have - before)[:8]})")
        if extra:
            raise Violation(f"unexpected files: {extra[:4]}")
        for f, txt in foreign.items():
            if (folder / f).read_text() != txt:
                raise Violation(f"file {f}, which is no export of a diagnostic, was changed")
        for fname, (key, w) in expected_npz.items():
            with np.load(folder / fname) as z:
                if list(z.keys()) != [key]:
                    raise Violation(f"{fname} has entries {list(z.keys())}, expected [{key}]")
                got = z[key]
            if got.shape != w.shape or not np.array_equal(got, w):
                raise Violation(f"{fname} holds {got.shape} values {got.ravel()[:6]}..., expected {w.shape} {w.ravel()[:6]}...")
        ctx.label("exports_checked", len(expected_npz))
        ctx.label("processor" if case["block"] else "no_processor")
        ctx.nt(tot > cfg["sim_chunk_size"] and any(len(iv) > 1 or len(ex) > 1 for _, _, iv, ex in models.values()))


@st.composite
def diag_st(draw, tot, n, name):
    k = draw(st.integers(1, 5))
    cuts = sorted(draw(st.lists(st.integers(0, tot), min_size=2, max_size=2 * k, unique=True)))
    if len(cuts) % 2:
        cuts = cuts[:-1]
    iv = [[cuts[i], cuts[i + 1]] for i in range(0, len(cuts), 2)]
    ends = [b for _, b in iv]
    exp = draw(st.one_of(st.just("default"), st.integers(1, tot),
                         st.lists(st.one_of(st.integers(1, tot), st.sampled_from(ends)), min_size=1, max_size=5, unique=True).map(sorted)))
    ch = draw(st.one_of(st.none(), st.none(), st.integers(0, n - 1), st.lists(st.integers(0, n - 1), min_size=1, max_size=3)))
    return {"name": name, "sig": draw(st.sampled_from(["ramp", "mic"])), "intervals": iv,
            "iv_kind": draw(st.sampled_from(["default", "list", "tuple", "array", "iter"])),
            "export": exp, "export_seq": draw(st.sampled_from(["list", "tuple", "array"])), "channels": ch,
            "keep": draw(st.sampled_from([None, False, True])),
            "func": draw(st.sampled_from(["npz", "npz", "both"])), "pp": draw(st.integers(0, 3)) == 0}


@st.composite
def st_rec(draw):
    block = draw(st.one_of(st.just(0), st.integers(1, 15)))
    cfg = draw(simh.cfg_st(max(block, 1), max_tot=90, max_chunk=40))
    n = draw(st.integers(1, 3))
    names = draw(st.lists(st.sampled_from(["rec", "rec_1", "rec_1_2", "rec2", "mic", "a", "1"]), min_size=1, max_size=4, unique=True))
    return {"cfg": cfg, "n": n, "block": block, "freq": draw(st.integers(1, max(1, cfg["tot_samples"]))),
            "foreign": draw(st.lists(st.sampled_from(["rec_notes.npz", "recording_3.npz", "rec.npz", "rec_2_.npz", "rec_0_5.npz.bak", "other.txt"]), max_size=3, unique=True)),
            "diags": [draw(diag_st(cfg["tot_samples"], n, nm)) for nm in names]}


simh.stub_savefig()
TESTS = [Test("recordings", st_rec(), t_recordings, quick=2400, thorough=20000)]
