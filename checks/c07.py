"""C07: derived diagnostics equal their definition on the recorded signals."""
import json

import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st

import aspsim.diagnostics.core as dc
import aspsim.diagnostics.diagnostics as dg
import aspsim.diagnostics.diagnosticscollection as dgc
import aspsim.diagnostics.diagnosticsummary as dgs
from checks import c06
from vlib import simh
from vlib.harness import Test, Violation

WARM = "static"
RULE = ("A case is one simulation with up to four derived diagnostics with generated ranges, channels, smoothing and segment "
        "lengths. Non-trivial: the range of some diagnostic is split by at least one internal buffer boundary.")
ASSUMPTIONS = ["summary functions are additive over time (sum of something per sample); a non-additive function is not promised to be combined over partial saves",
               "SignalSummary without function over several channels may be the mean over time of either the sum or the mean over channels",
               "smoothing of the power ratio is checked on a single interval, samples before the interval counting as zero",
               "diagnosticsummary.SignalPowerSpectrum (older duplicate of diagnosticscollection.SignalPowerSpectrum, spectrum of the squared signal) is only required to run",
               "the derived diagnostics of states are compared with the model of C06"]


def my_welch(x, fs, nperseg):
    """power spectrum: periodic Hann window, 50 % overlap, mean removed per segment, one sided"""
    n = min(nperseg, x.shape[-1])
    w = 0.5 - 0.5 * np.cos(2 * np.pi * np.arange(n) / n) if n > 1 else np.ones(1)
    step = n - n // 2
    acc, cnt = 0, 0
    for s in range(0, x.shape[-1] - n + 1, step):
        seg = x[..., s:s + n]
        seg = (seg - seg.mean(axis=-1, keepdims=True)) * w
        acc = acc + np.abs(np.fft.rfft(seg, axis=-1)) ** 2
        cnt += 1
    p = acc / cnt / np.sum(w) ** 2
    last = p.shape[-1] - 1 if n % 2 == 0 else p.shape[-1]
    p[..., 1:last] *= 2
    return p


def sel_of(ch):
    return slice(*ch["s"]) if "s" in ch else list(ch["l"])


def fig_lines():
    """(x, y) of all lines in the current figure"""
    return [(np.asarray(l.get_xdata(), float).ravel(), np.asarray(l.get_ydata(), float).ravel())
            for ax in plt.gcf().axes for l in ax.lines]


def sumsq(x):
    return np.sum(np.asarray(x) ** 2)


def count_big(x):
    return np.sum(np.abs(x) > 0.7)


def identity(x):
    return x


FUNCS = {"none": None, "sumsq": sumsq, "count_big": count_big}


def t_signals(case, ctx):
    cfg = {**case["cfg"], "plot_output": "pdf", "output_smoothing": case["smooth"], "export_frequency": case["freq"]}
    tot = cfg["tot_samples"]
    figs = {}
    with simh.scratch_dir() as base:
        n = case["n"]
        scene = {"cfg": cfg, "free": [{"name": "src", "n": n, "seed": case["seed"]}], "mics": [{"name": "mic", "n": case["nm"]}],
                 "paths": [{"src": "src", "mic": "mic", "len": 4, "seed": case["seed"]}]}
        su, info = simh.build(scene, base_fig_path=base)
        sim = su.create_simulator()
        folder = sim.folder_path
        tl = simh.source_timeline(info["tables"]["src"], cfg, tot)
        mic = simh.ref_mics(scene, info, {"src": tl})["mic"]
        b = cfg["sim_buffer"] - 1
        ref = {"src": tl[:, b:b + tot], "mic": mic[:, b:b + tot]}
        real_save = plt.savefig

        def grab(fname, *a, **k):
            figs[str(fname).rsplit("/", 1)[-1]] = (fig_lines(), [np.array(im.get_array()) for ax in plt.gcf().axes for im in ax.images])
            return real_save(fname, *a, **k)
        checks = []
        for d in case["diags"]:
            k, name, sg = d["kind"], d["name"], d["sig"]
            lo, hi = d["range"]
            x = ref[sg]
            ch = sel_of(d["ch"])
            if k in ("power", "ratio"):
                iv = [(lo, hi)] if d["range2"] is None else [(lo, hi), tuple(d["range2"])]
                kw = {"save_at": dc.IntervalCounter(iv), "export_at": d["export"], "export_func": d["func"]}
                if k == "power":
                    diag = dg.SignalPower(sg, sim.sim_info, sig_channels=ch, **kw)
                    full = np.mean(x[ch] ** 2, axis=0)
                    want = np.full(tot, np.nan)
                    for a, e in iv:
                        want[a:e] = full[a:e]
                else:
                    ch2 = sel_of(d["ch2"])
                    diag = dg.SignalPowerRatio(sg, "src", sim.sim_info, numerator_channels=ch, denom_channels=ch2, **kw)
                    want = np.full(tot, np.nan)
                    num, den = np.mean(x[ch] ** 2, axis=0), np.mean(ref["src"][ch2] ** 2, axis=0)
                    for a, e in iv:
                        if case["smooth"] > 1:
                            nn = np.convolve(num[a:e], np.ones(case["smooth"]))[:e - a]
                            dd = np.convolve(den[a:e], np.ones(case["smooth"]))[:e - a]
                        else:
                            nn, dd = num[a:e], den[a:e]
                        want[a:e] = nn / dd
                checks.append(("series", name, diag, want, d, iv))
            elif k == "summary":
                f = FUNCS[d["fn"]]
                diag = dgc.SignalSummary(sg, sim.sim_info, (lo, hi), summary_func=f)
                if f is None:
                    want = [np.sum(x[:, lo:hi]) / (hi - lo), np.mean(x[:, lo:hi])]
                else:
                    want = [f(x[:, lo:hi]) / (hi - lo)]
                checks.append(("scalar", name, diag, want, d, hi))
            elif k == "powersum":
                diag = dgs.SignalPowerSummary(sg, sim.sim_info, 1, (lo, hi), sig_channels=ch)
                checks.append(("scalar", name, diag, [np.mean(x[ch][:, lo:hi] ** 2)], d, hi))
            elif k == "ratiosum":
                ch2 = sel_of(d["ch2"])
                diag = dgs.SignalPowerRatioSummary(sg, "src", sim.sim_info, 1, (lo, hi), numerator_channels=ch, denom_channels=ch2)
                checks.append(("scalar", name, diag, [np.mean(x[ch][:, lo:hi] ** 2) / np.mean(ref["src"][ch2][:, lo:hi] ** 2)], d, hi))
            elif k == "spectrum":
                nch = x[ch].shape[0]
                diag = dgc.SignalPowerSpectrum(sg, sim.sim_info, (lo, hi), nch, d["nperseg"], sig_channels=ch)
                checks.append(("spectrum", name, diag, np.mean(my_welch(x[ch][:, lo:hi], cfg["samplerate"], d["nperseg"]), axis=0), d, hi))
            elif k == "oldspectrum":
                diag = dgs.SignalPowerSpectrum(sg, sim.sim_info, 1, (lo, hi), x[ch].shape[0], sig_channels=ch)
                checks.append(("run", name, diag, None, d, hi))
            else:
                nn = x.shape[0]
                pos = np.stack([np.arange(nn) % d["cols"], np.arange(nn) // d["cols"], np.zeros(nn)], axis=-1).astype(float)
                grid = nn % d["cols"] == 0
                func = d["sf_func"] if grid and nn > d["cols"] and d["cols"] > 1 else "npz"
                arrs = [sim.arrays["src"]] if d["plot_arrays"] else None
                diag = dg.SoundfieldPower(sg, pos, (lo, hi), sim.sim_info, plot_arrays=arrs, export_func=func)
                checks.append(("field:" + func, name, diag, np.mean(x[:, lo:hi] ** 2, axis=-1), d, hi))
            sim.diag.add_diagnostic(name, diag)
        if case["block"]:
            sim.add_processor(simh.Rec(sim.sim_info, sim.arrays, case["block"]))
        plt.savefig = grab
        try:
            simh.run(sim)
        finally:
            plt.savefig = real_save
        files = {p.name: p for p in folder.iterdir()}

        def need(fname):
            if fname not in files:
                raise Violation(f"{d['kind']}: export file {fname} missing, present {sorted(files)[:10]}")
            return files[fname]
        split = False
        for typ, name, diag, want, d, extra in checks:
            out = diag.get_output()
            lo, hi = d["range"]
            split = split or hi - lo > cfg["sim_chunk_size"]
            what = f"{d['kind']} of {d['sig']} over {d['range']}"
            ctx.label("kind_" + d["kind"])
            if typ == "series":
                if out.shape != want.shape or not np.array_equal(np.isnan(out), np.isnan(want)):
                    raise Violation(f"{what}: recorded at other times than requested {extra}")
                m = ~np.isnan(want)
                simh.assert_close(out[m] / np.maximum(1, np.abs(want[m])), want[m] / np.maximum(1, np.abs(want[m])), what, tol=1e-8)
                for e in range(d["export"], tot + 1, d["export"]):
                    t = np.array([i for i in range(e) if m[i]], dtype=int)
                    if d["func"] == "npz":
                        with np.load(need(f"{name}_{e}.npz")) as z:
                            got = z[name]
                        simh.assert_close(got / (1 + np.abs(want[t])), want[None, t] / (1 + np.abs(want[t])), f"{what}, file {name}_{e}.npz", tol=1e-8)
                    else:
                        need(f"{name}_{e}.pdf")
                        lines = figs[f"{name}_{e}.pdf"][0]
                        if len(lines) == 1:
                            simh.assert_close(lines[0][0], t.astype(float), f"{what}, times in figure {name}_{e}")
                            simh.assert_close(lines[0][1] / (1 + np.abs(want[t])), want[t] / (1 + np.abs(want[t])), f"{what}, values in figure {name}_{e}", tol=1e-8)
            elif typ == "scalar":
                if not any(abs(float(out) - w) <= 1e-9 * max(1.0, abs(w)) for w in want):
                    raise Violation(f"{what}: {float(out)!r}, expected {want[0]!r}")
                val = json.loads(need(f"{name}_{extra}.json").read_text())
                if list(val) != [name] or not abs(val[name] - float(out)) <= 1e-9 * max(1, abs(float(out))):
                    raise Violation(f"{what}: exported {val}, recorded {float(out)}")
            elif typ == "spectrum":
                simh.assert_close(out, want, what)
                need(f"{name}_{extra}.pdf")
                lines = figs[f"{name}_{extra}.pdf"][0]
                if len(lines) == 1:
                    simh.assert_close(lines[0][1], want, f"{what}: values in the figure")
            elif typ == "run":
                need(f"{name}_{extra}.pdf")
            else:
                simh.assert_close(out, want, what)
                if typ == "field:npz":
                    with np.load(need(f"{name}_{extra}.npz")) as z:
                        simh.assert_close(z[name], want, f"{what}: exported file")
                else:
                    need(f"{name}_{extra}.pdf")
                    ims = figs[f"{name}_{extra}.pdf"][1]
                    if ims:
                        im = ims[0].reshape(want.size // d["cols"], d["cols"])
                        simh.assert_close(im[::-1], want.reshape(-1, d["cols"]), f"{what}: image")
        ctx.label("processor" if case["block"] else "no_processor")
        ctx.nt(split)


def chan_st(n):
    return st.one_of(st.just({"s": [None]}), st.integers(0, n - 1).map(lambda i: {"s": [i, i + 1]}),
                     st.lists(st.integers(0, n - 1), min_size=1, max_size=n, unique=True).map(lambda l: {"l": l}))


@st.composite
def st_signals(draw):
    block = draw(st.one_of(st.just(0), st.integers(1, 15)))
    cfg = draw(simh.cfg_st(max(block, 1), max_tot=100, max_chunk=40))
    cfg["samplerate"] = draw(st.sampled_from([1, 100, 8000]))
    tot = cfg["tot_samples"]
    n, nm = draw(st.integers(1, 4)), draw(st.integers(1, 6))
    smooth = draw(st.sampled_from([1, 1, 2, 3, 7, 20]))
    diags = []
    for i in range(draw(st.integers(1, 4))):
        kind = draw(st.sampled_from(["power", "ratio", "summary", "powersum", "ratiosum", "spectrum", "oldspectrum", "field"]))
        sig = draw(st.sampled_from(["src", "mic"]))
        cnt = n if sig == "src" else nm
        lo = draw(st.integers(0, tot - 1))
        hi = draw(st.integers(lo + 1, tot))
        r2 = None
        if smooth == 1 and hi + 2 <= tot and draw(st.booleans()):
            a = draw(st.integers(hi + 1, tot - 1))
            r2 = [a, draw(st.integers(a + 1, tot))]
        diags.append({"kind": kind, "name": f"d{i}", "sig": sig, "range": [lo, hi], "range2": r2, "ch": draw(chan_st(cnt)),
                      "ch2": draw(chan_st(n)), "export": draw(st.integers(max(1, tot // 4), tot)),
                      "func": draw(st.sampled_from(["npz", "npz", "plot"])), "fn": draw(st.sampled_from(sorted(FUNCS))),
                      "nperseg": draw(st.integers(2, 64)), "cols": draw(st.integers(1, cnt)),
                      "sf_func": draw(st.sampled_from(["npz", "image"])), "plot_arrays": draw(st.booleans())})
    return {"cfg": cfg, "block": block, "n": n, "nm": nm, "seed": draw(st.integers(0, 99)), "smooth": smooth,
            "freq": draw(st.integers(1, tot)), "diags": diags}


simh.stub_savefig()
DERIVED = ["summary", "comparison", "power", "eig", "difference", "eigsnap"]
TESTS = [Test("signals", st_signals(), t_signals, quick=1500, thorough=12500),
         Test("states", c06.st_states(DERIVED), c06.t_states, quick=600, thorough=8000)]
