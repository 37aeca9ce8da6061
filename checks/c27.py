"""C27: figures show exactly the exported data, and are written where and in the format asked for."""
import sys
import types

import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st

import aspsim.array as ar
import aspsim.diagnostics.diagnostics as dg
import aspsim.diagnostics.core as dc
import aspsim.diagnostics.plot as dplot
import aspsim.diagnostics.preprocessing as pp
import aspsim.diagnostics.soundfieldplot as sfp
import aspsim.room.region as reg
import aspsim.room.trajectory as tr
from checks import c06
from vlib import simh
from vlib.harness import Test, Violation

WARM = "static"
RULE = ("A case is one simulation with several diagnostics exported as figures in one output format, one array collection plotted, or one "
        "sound field plotted. Non-trivial: at least two figures with at least two lines or patches in total, or a grid with at least two "
        "rows and two columns.")
ASSUMPTIONS = ["the figures are examined as matplotlib objects right before they are written, rendering itself is matplotlib's business",
               "tikzplotlib is not installed: it is replaced by a stand-in that writes the requested file",
               "an impulse response figure has one panel per response of the set, all sets of a filter have the same number of responses",
               "the line of a moving array only has to lie on its path and to reach the places visited (LinearTrajectory: the corner points passed)"]


class Grabber:
    """replaces savefig / show / tikzplotlib while active and keeps what the figure shows"""

    def __init__(self):
        self.figs = []

    def snap(self, how, fname):
        axes = []
        for ax in plt.gcf().axes:
            leg = ax.get_legend()
            axes.append({
                "lines": [(np.asarray(l.get_xdata()).ravel(), np.asarray(l.get_ydata()).ravel(), l.get_label()) for l in ax.lines],
                "images": [(np.array(im.get_array()), im.get_extent(), im.origin, im.get_clim()) for im in ax.images],
                "patches": [(type(p).__name__, p.get_path().transformed(p.get_patch_transform()).get_extents().extents, p.get_label())
                            for p in ax.patches],
                "legend": [t.get_text() for t in leg.get_texts()] if leg is not None else None,
                "title": ax.get_title(), "xlabel": ax.get_xlabel(), "label": ax.get_label()})
        self.figs.append({"how": how, "file": fname, "axes": axes})

    def __enter__(self):
        self.saved = (plt.savefig, plt.show, sys.modules.get("tikzplotlib"))

        def savefig(fname, *a, **k):
            if k.get("format") and not str(fname).endswith("." + k["format"]):
                raise Violation(f"figure {fname} written as {k['format']}")
            self.snap("savefig", str(fname))
            with open(fname, "wb") as f:
                f.write(b"stub")

        def show(*a, **k):
            self.snap("show", None)

        def tikz(fname, *a, **k):
            self.snap("tikz", str(fname))
            with open(fname, "wb") as f:
                f.write(b"stub")
        plt.savefig, plt.show = savefig, show
        m = types.ModuleType("tikzplotlib")
        m.save = tikz
        sys.modules["tikzplotlib"] = m
        return self

    def __exit__(self, *a):
        plt.savefig, plt.show = self.saved[:2]
        if self.saved[2] is None:
            sys.modules.pop("tikzplotlib", None)
        else:
            sys.modules["tikzplotlib"] = self.saved[2]
        plt.close("all")


def expected_files(name, fmt):
    if fmt in ("pdf", "svg"):
        return [f"{name}.{fmt}"]
    if fmt == "tikz":
        return [f"{name}/{name}.tex", f"{name}/{name}.pdf"]
    return []


def tree(folder):
    return {str(p.relative_to(folder)) for p in folder.rglob("*") if p.is_file()}


def double(x):
    return 2 * x


def plus_index(x):
    """depends on the position of the value, so that it matters which values are processed"""
    return x + np.arange(x.shape[-1])


PRE = {"none": [], "linear": [pp.linear], "double": [double], "clip": [pp.clip(-0.5, 0.5)], "index": [plus_index],
       "index_double": [plus_index, double], "double_index": [double, plus_index], "smooth3": [pp.smooth(3)]}


def apply_pre(name, x):
    if name in ("none", "linear"):
        return x
    if name == "double":
        return 2 * x
    if name == "clip":
        return np.minimum(np.maximum(x, -0.5), 0.5)
    idx = np.arange(x.shape[-1])
    if name == "index":
        return x + idx
    if name == "index_double":
        return 2 * (x + idx)
    if name == "double_index":
        return 2 * x + idx
    pad = np.concatenate([np.zeros(x.shape[:-1] + (2,)), x], axis=-1)
    return (pad[..., 2:] + pad[..., 1:-1] + pad[..., :-2]) / 3


def check_legend(axis, want, what):
    """every label once (underscores may be escaped)"""
    got = [t.replace("\\_", "_") for t in (axis["legend"] or [])]
    if sorted(got) != sorted(set(want)):
        raise Violation(f"{what}: legend {got}, expected each of {sorted(set(want))} once")


# ---------------------------------------------------------------- figures of a simulation
def t_series(case, ctx):
    cfg, bs, fmt = case["cfg"], case["block"], case["fmt"]
    tot = cfg["tot_samples"]
    with simh.scratch_dir() as base, Grabber() as grab:
        nsrc, nm = case["n"], case["nm"]
        scene = {"cfg": {**cfg, "plot_output": fmt, "export_frequency": case["freq"]}, "free": [{"name": "src", "n": nsrc, "seed": case["seed"]}],
                 "mics": [{"name": "mic", "n": nm}], "paths": [{"src": "src", "mic": "mic", "len": 4, "seed": case["seed"]}]}
        su, info = simh.build(scene, base_fig_path=base)
        sim = su.create_simulator()
        folder = sim.folder_path
        if fmt == "none":
            if folder is not None or grab.figs or list(base.iterdir()):
                raise Violation(f"output 'none' created {sorted(p.name for p in base.iterdir())} and {len(grab.figs)} figures")
        before = tree(folder) if folder else set()
        want_arr = set(expected_files("array_pos", fmt))
        if folder and not want_arr <= before:
            raise Violation(f"format {fmt}: array figure {sorted(want_arr)} missing, present {sorted(before)}")
        grab.figs.clear()
        sim.add_processor(c06.StateProc(sim.sim_info, sim.arrays, bs, (2, 3), case["dim"]))
        tl = simh.source_timeline(info["tables"]["src"], cfg, tot)
        b = cfg["sim_buffer"] - 1
        rec = {"mic": simh.ref_mics(scene, info, {"src": tl})["mic"][:, b:b + tot], "src": tl[:, b:b + tot]}
        models = []
        for d in case["diags"]:
            kind = d["kind"]
            funcs = [f for f, _ in d["out"]]
            kw = {"export_func": funcs if d["as_list"] or len(funcs) > 1 else funcs[0], "preprocess": [PRE[p] for _, p in d["out"]]}
            if kind == "signal":
                x = rec[d["sig"]]
                sel = d["channels"]
                lo, hi = d["range"]
                diag = dg.RecordSignal(d["sig"], sim.sim_info, num_channels=len(sel) if sel else x.shape[0], channel_idx=sel,
                                       save_at=dc.IntervalCounter([(lo, hi)]), export_at=d["export"], **kw)
                x = x[sel] if sel else x

                def value(e, lag, x=x, lo=lo, hi=hi):
                    return np.arange(lo, min(e, hi)), x[:, lo:min(e, hi)]
                labels = [d["name"]] * x.shape[0]
                exports = d["export"]
            elif kind in ("state", "scalar"):
                times = list(range(d["freq"], tot + 1, d["freq"]))
                fn = (lambda m: np.array([c06.f_scalar(m)])) if kind == "scalar" else (lambda m: c06.f_vec(m, case["dim"]))
                n = 1 if kind == "scalar" else case["dim"]
                if d["suffix"]:
                    suf = [f"ch{i}" for i in range(n)][::-1]
                    kw["label_suffix_channel"] = suf
                    labels = [f"{d['name']}_{s}" for s in suf]
                else:
                    labels = [d["name"]] * n
                diag = dg.RecordState("scalar" if kind == "scalar" else "vec", n, sim.sim_info, save_frequency=d["freq"], export_at=d["export"], **kw)

                def value(e, lag, times=times, fn=fn, n=n):
                    sel = [t for t in times if t - 1 < e]
                    v = np.stack([fn((t + lag) // bs * bs) for t in sel], axis=-1) if sel else np.zeros((n, 0))
                    return np.array([t - 1 for t in sel], dtype=int), v
                exports = d["export"]
            else:
                prop, fn = {"filter": ("filt.ir", lambda m: c06.f_tensor(m, (1, 2, 3))), "list": ("filt.hist['irs']", None),
                            "mat": ("mat", lambda m: c06.f_mat(m, case["dim"])),
                            "tensor": ("tensor", lambda m: c06.f_tensor(m, (2, 3)))}[kind]
                diag = dg.RecordFilter(prop, sim.sim_info, save_at=d["export"], **kw)

                def value(e, lag, fn=fn):
                    return None, fn((e + lag) // bs * bs)
                labels = [d["name"]]
                exports = d["export"]
            sim.diag.add_diagnostic(d["name"], diag)
            if isinstance(exports, int):
                exports = list(range(exports, tot + 1, exports))
            models.append((d, exports, value, labels))
        simh.run(sim)
        if plt.get_fignums():
            raise Violation(f"{len(plt.get_fignums())} figures are left open")
        if fmt == "none":
            if grab.figs or list(base.iterdir()):
                raise Violation("output 'none' exported figures or files")
            ctx.label("fmt_none")
            ctx.nt(False)
            return
        want_files = set()
        n_fig = n_lines = 0
        lags = {0, 1}
        for d, exports, value, labels in models:
            for e in exports:
                name = f"{d['name']}_{e}"
                for f, prename in d["out"]:
                    what = f"{d['kind']} diagnostic {name}, {f}, format {fmt}, preprocessing {prename}"
                    if f == "npz":
                        want_files.add(name + ".npz")
                        continue
                    n_fig += 1
                    want_files.update(expected_files(name, fmt))
                    shown = [g for g in grab.figs if (g["file"] or "").rsplit("/", 1)[-1].rsplit(".", 1)[0] == name] if fmt != "show" else None
                    if shown is None:
                        shown = [g for g in grab.figs if g["how"] == "show" and any(
                            l[2] in labels for a in g["axes"] for l in a["lines"]) or any(a["title"].endswith(f"{d['name']} - {d['name']}") for a in g["axes"])]
                        # several export times give several figures of the same diagnostic, in order
                        per_time = [x for x, _ in d["out"] if x != "npz"]
                        if len(shown) != len(exports) * len(per_time):
                            raise Violation(f"{what}: {len(shown)} figures shown, expected {len(exports) * len(per_time)}")
                        shown = [shown[exports.index(e) * len(per_time) + per_time.index(f)]]
                    if len(shown) != (2 if fmt == "tikz" else 1):
                        raise Violation(f"{what}: written {len(shown)} times")
                    for g in shown:
                        ok = set()
                        msg = None
                        for lag in sorted(lags):
                            try:
                                n_lines += check_figure(g, f, d, labels, value(e, lag), prename, what)
                                ok.add(lag)
                            except Violation as ex:
                                msg = ex
                        if not ok:
                            raise msg
                        lags &= ok
        if fmt == "show" and len(grab.figs) != n_fig:
            raise Violation(f"{len(grab.figs)} figures shown, expected {n_fig}")
        got = tree(folder) - before - {"metadata_processor.json"}
        if got != want_files:
            raise Violation(f"format {fmt}: files {sorted(got ^ want_files)} are missing or unexpected")
        for d in case["diags"]:
            ctx.label("kind_" + d["kind"])
        ctx.label("fmt_" + fmt)
        ctx.nt(n_fig >= 2 and n_lines >= 2)


def check_figure(g, f, d, labels, tv, prename, what):
    times, v = tv
    axes = [a for a in g["axes"] if a["label"] != "<colorbar>"]
    want = apply_pre(prename, v)
    if f == "plot" and times is not None:
        if len(axes) != 1:
            raise Violation(f"{what}: {len(axes)} panels")
        lines = axes[0]["lines"]
        if len(lines) != want.shape[0]:
            raise Violation(f"{what}: {len(lines)} lines for {want.shape[0]} channels")
        for i, (x, y, lab) in enumerate(lines):
            if not np.array_equal(np.asarray(x, float), times.astype(float)):
                raise Violation(f"{what}: line {i} is drawn at times {x[:8]}, recorded at {times[:8]}")
            simh.assert_close(y, want[i], f"{what}: line {i}")
            if lab != labels[i]:
                raise Violation(f"{what}: line {i} is labelled {lab!r} instead of {labels[i]!r}")
        check_legend(axes[0], labels, what)
        return len(lines)
    if f == "spectrum":
        lines = axes[0]["lines"]
        if len(axes) != 1 or len(lines) != want.shape[0]:
            raise Violation(f"{what}: {len(axes)} panels with {len(lines)} lines for {want.shape[0]} channels")
        for i, (x, y, lab) in enumerate(lines):
            simh.assert_close(y, want[i], f"{what}: line {i}")
        check_legend(axes[0], labels[:1] if len(lines) else [], what)
        return len(lines)
    if f == "plot":
        if len(axes) != want.shape[1]:
            raise Violation(f"{what}: {len(axes)} panels for {want.shape[1]} responses")
        for c, a in enumerate(axes):
            if len(a["lines"]) != want.shape[0]:
                raise Violation(f"{what}: {len(a['lines'])} lines for {want.shape[0]} sets of responses")
            for s, (x, y, lab) in enumerate(a["lines"]):
                simh.assert_close(np.asarray(x, float), np.arange(want.shape[2], dtype=float), f"{what}: samples of response {s},{c}")
                simh.assert_close(y, want[s, c], f"{what}: response {s},{c}")
            check_legend(a, labels, what)
        return want.shape[0] * want.shape[1]
    ims = axes[0]["images"]
    if len(axes) != 1 or len(ims) != 1:
        raise Violation(f"{what}: {len(axes)} panels with {len(ims)} images")
    img, ext, origin, _ = ims[0]
    simh.assert_close(img, want, f"{what}: matrix image")
    if origin != "upper":
        raise Violation(f"{what}: first row at the bottom")
    return want.size


@st.composite
def st_series(draw):
    bs = draw(st.integers(1, 12))
    cfg = draw(simh.cfg_st(bs, max_tot=70, max_chunk=30))
    tot = cfg["tot_samples"]
    n, nm = draw(st.integers(1, 3)), draw(st.integers(1, 4))
    pre = st.sampled_from(sorted(PRE))
    names = draw(st.permutations(["d0", "mic_1", "a_b_2", "power", "x"]))
    diags = []
    for i in range(draw(st.integers(1, 4))):
        kind = draw(st.sampled_from(["signal", "signal", "state", "scalar", "filter", "mat", "tensor"]))
        d = {"kind": kind, "name": names[i], "as_list": draw(st.booleans())}
        times = st.lists(st.integers(1, tot), min_size=1, max_size=4, unique=True).map(sorted)
        d["export"] = draw(st.one_of(st.integers(max(1, tot // 4), tot), times))
        if kind == "signal":
            d["sig"] = draw(st.sampled_from(["mic", "src"]))
            lo = draw(st.integers(0, tot - 1))
            d["range"] = [lo, draw(st.integers(lo + 1, tot))]
            cnt = nm if d["sig"] == "mic" else n
            d["channels"] = draw(st.one_of(st.none(), st.lists(st.integers(0, cnt - 1), min_size=1, max_size=cnt, unique=True)))
            funcs = ["plot", "spectrum"]
        elif kind in ("state", "scalar"):
            d["freq"] = draw(st.integers(1, tot))
            d["suffix"] = draw(st.booleans())
            funcs = ["plot"]
        else:
            funcs = ["plot"] if kind == "filter" else ["matshow"]
        out = [[draw(st.sampled_from(funcs)), draw(pre if kind in ("signal", "state", "scalar") else st.sampled_from(["none", "double", "index", "double_index"]))]]
        if draw(st.booleans()):
            out.insert(draw(st.integers(0, 1)), ["npz", draw(st.sampled_from(["none", "double"]))])
        d["out"] = out
        diags.append(d)
    return {"cfg": cfg, "block": bs, "dim": draw(st.integers(1, 4)), "n": n, "nm": nm, "seed": draw(st.integers(0, 99)),
            "freq": draw(st.integers(1, tot)), "fmt": draw(st.sampled_from(["pdf", "svg", "tikz", "show", "pdf", "none"])), "diags": diags}


# ---------------------------------------------------------------- the array figure
def region_of(r):
    c = r["center"]
    k = r["kind"]
    a, b, h = r["size"]
    if k == "cuboid":
        return reg.Cuboid((a, b, h), c, (a, b, h)), (c[0] - a / 2, c[1] - b / 2, c[0] + a / 2, c[1] + b / 2)
    if k == "rectangle":
        return reg.Rectangle((a, b), c, (a, b)), (c[0] - a / 2, c[1] - b / 2, c[0] + a / 2, c[1] + b / 2)
    box = (c[0] - a / 2, c[1] - a / 2, c[0] + a / 2, c[1] + a / 2)
    if k == "disc":
        return reg.Disc(a / 2, c, (a / 2, a / 2)), box
    if k == "ball":
        return reg.Ball(a / 2, c, (a / 2, a / 2, a / 2)), box
    return reg.Cylinder(a / 2, h, c, (a / 2, a / 2, h)), box


def corners_drawn(xy, t, tot, what):
    anchors = t.anchor_points[:, :2]
    if not 1 <= xy.shape[0] <= anchors.shape[0] or not np.allclose(xy, anchors[:xy.shape[0]]):
        raise Violation(f"{what}: drawn at {xy[:4]}, path corners {anchors[:4]}")
    if (tot is None or tot >= t.period * t.samplerate) and xy.shape[0] != anchors.shape[0]:
        raise Violation(f"{what}: only {xy.shape[0]} of {anchors.shape[0]} corners drawn although all are visited")


def t_arrays(case, ctx):
    with simh.scratch_dir() as base, Grabber() as grab:
        from aspsim.simulator import SimulatorSetup
        su = SimulatorSetup(base)
        simh.apply_cfg(su.sim_info, {"plot_output": case["fmt"], "tot_samples": case["tot"], "samplerate": 500, "room_size": case["room"],
                                     "room_center": case["center"], "rt60": 0.0, "reverb": case["reverb"], "max_room_ir_length": 40})
        points, boxes, moving = {}, {}, {}
        for i, a in enumerate(case["arrays"]):
            name = a["name"]
            if a["kind"] == "region":
                rb = [region_of(r) for r in a["regions"]]
                boxes[name] = [b for _, b in rb]
                su.arrays.add_array(ar.RegionArray(name, [r for r, _ in rb] if len(rb) > 1 or a["as_list"] else rb[0][0]))
                continue
            pos = simh.positions(case["seed"] + i, a["n"], 0.4) + np.array(case["center"])
            if a["move"]:
                t = tr.LinearTrajectory(pos if a["n"] > 1 else np.concatenate([pos, pos + 0.1]), a["period"], 500)
                moving[name] = t
                p = t
            else:
                points[name] = pos
                p = pos if not a["groups"] else [pos[:1], pos[1:]]
            if a["kind"] == "mic":
                su.arrays.add_array(ar.MicArray(name, p))
            elif a["kind"] == "ctrl":
                su.arrays.add_array(ar.ControllableSourceArray(name, p))
            else:
                n = 1 if a["move"] else a["n"]
                su.arrays.add_array(ar.FreeSourceArray(name, p, simh.TableSource(np.zeros((n, 4)))))
        for s, m, typ in case["types"]:
            su.arrays.path_type[s][m] = typ
        types_used = [su.arrays.path_type[s.name].get(m.name, case["reverb"]) for m, s in
                      ((m, s) for s in su.arrays.sources() for m in su.arrays.mics())]
        sim = su.create_simulator()
        figs = [g for g in grab.figs]
        if case["fmt"] == "none":
            if figs:
                raise Violation("array figure written with output none")
            return
        if len(figs) != (2 if case["fmt"] == "tikz" else 1):
            raise Violation(f"{len(figs)} array figures for format {case['fmt']}")
        missing = set(expected_files("array_pos", case["fmt"])) - tree(sim.folder_path)
        if missing:
            raise Violation(f"array figure: {sorted(missing)} not written")
        if plt.get_fignums():
            raise Violation("array figure left open")
        for g in figs:
            if len(g["axes"]) != 1:
                raise Violation(f"array figure with {len(g['axes'])} panels")
            a = g["axes"][0]
            for name, pos in points.items():
                l = [x for x in a["lines"] if x[2] == name]
                if len(l) != 1:
                    raise Violation(f"array {name} is drawn {len(l)} times")
                simh.assert_close(np.stack(l[0][:2], axis=-1), pos[:, :2], f"drawn positions of {name}")
            for name, t in moving.items():
                l = [x for x in a["lines"] if x[2] == name]
                if len(l) != 1:
                    raise Violation(f"moving array {name} is drawn {len(l)} times")
                corners_drawn(np.stack(l[0][:2], axis=-1), t, case["tot"], f"moving array {name}")
            if len(a["lines"]) != len(points) + len(moving):
                raise Violation(f"{len(a['lines'])} lines for {len(points) + len(moving)} arrays")
            rest = list(a["patches"])
            for name, bb in boxes.items():
                got = [p for p in rest if p[2] == name]
                if len(got) != len(bb):
                    raise Violation(f"region array {name}: {len(got)} shapes for {len(bb)} regions")
                for p, want in zip(got, bb):
                    simh.assert_close(p[1], np.array(want), f"region {name}, bounds of the drawn shape")
                    rest.remove(p)
            room = "ism" in types_used
            if len(rest) != int(room):
                raise Violation(f"path types {sorted(set(types_used))}: room drawn {len(rest)} times")
            if room:
                c, s = case["center"], case["room"]
                simh.assert_close(rest[0][1], np.array([c[0] - s[0] / 2, c[1] - s[1] / 2, c[0] + s[0] / 2, c[1] + s[1] / 2]), "drawn room")
        ctx.label("room" if room else "no_room")
        ctx.label("moving" if moving else "static")
        ctx.nt(len(points) + len(moving) + len(boxes) >= 2)


@st.composite
def st_arrays(draw):
    names = draw(st.permutations(["mic", "src", "a_1", "zone", "ls", "B", "err"]))
    center = draw(st.sampled_from([[0.0, 0.0, 0.0], [1.5, -2.0, 1.25], [-0.75, 3.0, 1.0]]))
    arrays = []
    for i in range(draw(st.integers(2, 5))):
        kind = ["mic", "free"][i] if i < 2 else draw(st.sampled_from(["mic", "free", "ctrl", "region", "region"]))
        a = {"name": names[i], "kind": kind}
        if kind == "region":
            a["as_list"] = draw(st.booleans())
            k = draw(st.integers(1, 2))
            a["regions"] = [{"kind": draw(st.sampled_from(["cuboid", "rectangle", "disc", "ball", "cylinder"])),
                             "center": [center[0] + (-0.6 if j else 0.6), center[1] + draw(st.sampled_from([0.0, 0.3])), center[2]],
                             "size": [draw(st.sampled_from([0.25, 0.5])), draw(st.sampled_from([0.5, 0.75])), 0.5]} for j in range(k)]
        else:
            a.update(n=draw(st.integers(1, 5)), move=draw(st.sampled_from([False, False, True])), groups=False)
            if not a["move"] and a["n"] > 1:
                a["groups"] = draw(st.booleans())
            a["period"] = draw(st.sampled_from([0.02, 0.1, 1.0, 3.0]))
        arrays.append(a)
    srcs = [a["name"] for a in arrays if a["kind"] in ("free", "ctrl")]
    mics = [a["name"] for a in arrays if a["kind"] in ("mic", "region")]
    typ = st.sampled_from(["ism", "none", "random", "none", "none"])
    types_ = [[s, m, draw(typ)] for s in srcs for m in mics if draw(st.booleans())]
    return {"arrays": arrays, "types": types_, "reverb": draw(typ), "room": [draw(st.sampled_from([4.0, 3.5])), draw(st.sampled_from([3.0, 5.0])), 2.5],
            "center": center, "tot": draw(st.sampled_from([20, 60, 600])), "seed": draw(st.integers(0, 999)),
            "fmt": draw(st.sampled_from(["pdf", "svg", "tikz", "show", "pdf"]))}


# ---------------------------------------------------------------- sound fields
def minus(x):
    return -x


def log(x):
    return np.log(x + 1e-3)


FIELD_PRE = {"minus": minus, "log": log}


def grid(case):
    """positions of a full grid in generated order, with rank of each position (row from the lowest y, column from the lowest x)"""
    xs = np.cumsum(np.array(case["dx"])) + case["x0"]
    ys = np.cumsum(np.array(case["dy"])) + case["y0"]
    rows, cols = len(ys), len(xs)
    order = simh.rng_of(case["seed"], 3).permutation(rows * cols) if case["shuffle"] else np.arange(rows * cols)
    r, c = order // cols, order % cols
    pos = np.stack([xs[c], ys[r], np.full(r.shape, case["z"])], axis=-1)
    return pos, r, c, rows, cols


def check_image(image, pos, r, c, rows, cols, val, clim, what):
    img, ext, origin, lim = image
    img = img.reshape(rows, cols) if img.size == rows * cols else img
    if img.shape != (rows, cols):
        raise Violation(f"{what}: image of {img.shape} for {rows} rows and {cols} columns")
    want = np.zeros((rows, cols))
    want[r, c] = val
    top = np.flip(want, axis=0) if origin == "upper" else want
    simh.assert_close(img, top, f"{what}: value at the pixel of the position")
    simh.assert_close(np.array(ext), np.array([pos[:, 0].min(), pos[:, 0].max(), pos[:, 1].min(), pos[:, 1].max()]), f"{what}: extent")
    simh.assert_close(np.array(lim, float), np.array(clim, float), f"{what}: color limits")


def t_field(case, ctx):
    pos, r, c, rows, cols = grid(case)
    rng = simh.rng_of(case["seed"], 8)
    n = pos.shape[0]
    pl = []
    for i, a in enumerate(case["arrays"]):
        p = simh.positions(case["seed"] + i, a["n"])
        if a["move"]:
            t = tr.LinearTrajectory(np.concatenate([p, p[:1] + 0.5]), 0.1, 500)
            pl.append((ar.MicArray(a["name"], t), t))
        else:
            pl.append((ar.MicArray(a["name"], p) if i % 2 else ar.ControllableSourceArray(a["name"], p), p[:, :2]))
    objs = [o for o, _ in pl]
    with simh.scratch_dir() as base, Grabber() as grab:
        if case["how"] == "diag":
            cfg = {"tot_samples": case["tot"], "plot_output": case["fmt"]}
            scene = {"cfg": cfg, "free": [{"name": "src", "n": 1, "seed": case["seed"]}], "mics": [{"name": "mic", "n": n}],
                     "paths": [{"src": "src", "mic": "mic", "len": 3, "seed": case["seed"]}]}
            su, info = simh.build(scene, base_fig_path=base)
            sim = su.create_simulator()
            grab.figs.clear()
            full = {**cfg, "sim_buffer": 20}
            x = simh.ref_mics(scene, info, {"src": simh.source_timeline(info["tables"]["src"], full, case["tot"])})["mic"][:, 19:19 + case["tot"]]
            lo, hi = case["range"]
            pre = case.get("pre", "none")
            kw = {} if pre == "none" else {"preprocess": [[FIELD_PRE[pre]]]}
            sim.diag.add_diagnostic("field", dg.SoundfieldPower("mic", pos, (lo, hi), sim.sim_info, plot_arrays=objs or None, **kw))
            simh.run(sim)
            val = np.mean(x[:, lo:hi] ** 2, axis=-1)
            val = {"none": val, "minus": -val, "log": np.log(val + 1e-3)}[pre]
            name = f"field_{hi}"
            missing = set(expected_files(name, case["fmt"])) - tree(sim.folder_path)
            if missing:
                raise Violation(f"sound field figure: {sorted(missing)} not written")
            figs = grab.figs
            if len(figs) != (2 if case["fmt"] == "tikz" else 1):
                raise Violation(f"{len(figs)} sound field figures")
            clim = (val.min(), val.max())
            panels = [[(figs[-1]["axes"], val, clim, "field")]]
        elif case["how"] == "plot":
            val = rng.normal(size=n)
            fig, ax = plt.subplots()
            ps, ss = sfp.sort_for_imshow(pos, val[:, None])
            clim = (-3.0, 2.5) if case["clim"] else (val.min(), val.max())
            coll = ar.ArrayCollection()
            for o in objs:
                coll.add_array(o)
            arg = {"list": objs, "dict": {o.name: o for o in objs}, "collection": coll, "single": objs[0] if objs else None}[case["arg"]]
            if case["arg"] == "single":
                pl = pl[:1]
            sfp.sf_plot(ax, ps, ss, "a title", arrays_to_plot=arg, vminmax=clim if case["clim"] else None)
            grab.snap("direct", None)
            plt.close("all")
            panels = [[(grab.figs[-1]["axes"], val, clim, "a title")]]
        else:
            pl = []
            na, nr = case["algos"], case["per"]
            val = rng.normal(size=(na, nr, n))
            sig = [v for v in val] if case["as_list"] else val
            sfp.compare_soundfields(pos, sig, [f"algo{i}" for i in range(na)], [f"row{j}" for j in range(nr)])
            grab.snap("direct", None)
            plt.close("all")
            axes = [a for a in grab.figs[-1]["axes"] if a["label"] != "<colorbar>"]
            if len(axes) != na * nr:
                raise Violation(f"comparison of {na} algorithms with {nr} fields each has {len(axes)} panels")
            panels = [[([axes[i * nr + j]], val[i, j], (val[i, j].min(), val[i, j].max()), f"algo{i}, row{j}") for j in range(nr)] for i in range(na)]
        for row in panels:
            for axes, v, clim, title in row:
                axes = [a for a in axes if a["label"] != "<colorbar>"]
                if len(axes) != 1 or len(axes[0]["images"]) != 1:
                    raise Violation(f"{case['how']}: {len(axes)} panels")
                a = axes[0]
                check_image(a["images"][0], pos, r, c, rows, cols, v, clim, case["how"])
                if a["title"] != title:
                    raise Violation(f"panel titled {a['title']!r} instead of {title!r}")
                if [l[2] for l in a["lines"]] != [o.name for o, _ in pl]:
                    raise Violation(f"{case['how']}: arrays drawn {[l[2] for l in a['lines']]}, expected {[o.name for o, _ in pl]}")
                for l, (o, xy) in zip(a["lines"], pl):
                    if o.dynamic:
                        corners_drawn(np.stack(l[:2], axis=-1), xy, case["tot"] if case["how"] == "diag" else None, f"{case['how']}: {o.name}")
                    else:
                        simh.assert_close(np.stack(l[:2], axis=-1), xy, f"{case['how']}: drawn positions of {o.name}")
    ctx.label("how_" + case["how"])
    ctx.nt(rows >= 2 and cols >= 2)


@st.composite
def st_field(draw):
    step = st.sampled_from([0.1, 0.05, 0.25, 1.0, 0.3])
    rows, cols = draw(st.integers(2, 5)), draw(st.integers(2, 5))
    tot = draw(st.integers(10, 60))
    lo = draw(st.integers(0, tot - 1))
    how = draw(st.sampled_from(["diag", "plot", "compare"]))
    same = draw(st.booleans())
    d = draw(step)
    arrays = [{"name": f"ar{i}", "n": draw(st.integers(1, 4)), "move": draw(st.sampled_from([False, False, True]))} for i in range(draw(st.integers(0, 2)))]
    return {"how": how, "dx": [d if same else draw(step) for _ in range(cols)], "dy": [d if same else draw(step) for _ in range(rows)],
            "x0": draw(st.sampled_from([0.0, -1.7])), "y0": draw(st.sampled_from([0.0, 2.3])), "z": draw(st.sampled_from([0.0, 1.4])),
            "shuffle": draw(st.booleans()), "seed": draw(st.integers(0, 999)), "tot": tot, "range": [lo, draw(st.integers(lo + 1, tot))],
            "arrays": arrays, "arg": draw(st.sampled_from(["list", "dict", "collection", "single"])), "clim": draw(st.booleans()),
            "pre": draw(st.sampled_from(["none", "none", "minus", "log"])), "algos": draw(st.integers(1, 3)), "per": draw(st.integers(1, 3)), "as_list": draw(st.booleans()),
            "fmt": draw(st.sampled_from(["pdf", "svg", "tikz"]))}


# ---------------------------------------------------------------- writing one figure
def t_output(case, ctx):
    """output_plot writes exactly the files of its format; only earlier tikz exports of the same figure may be tidied up"""
    with simh.scratch_dir() as base, Grabber() as grab:
        d = base / "figs"
        d.mkdir()
        name = f"{case['base']}{case['idx']}"
        (base / f"{case['base']}0").mkdir()         # same name outside the folder
        (base / f"{case['base']}0" / "a.tex").write_text("outside")
        keep, moved, removed = {}, {}, set()
        for i, e in enumerate(case["entries"]):
            n = e["base"] + e["num"]
            if n == name or (d / n).exists() or (d / (n + ".pdf")).exists():
                continue
            earlier = (e["base"] == case["base"] and e["num"].isdigit() and int(e["num"]) < case["idx"] and case["fmt"] == "tikz" and case["tidy"]
                       and case["folder"])
            if e["kind"] == "folder":
                (d / n).mkdir()
                for ext in e["content"]:
                    f = d / n / f"{n}{ext}"
                    f.write_text(f"{n}{ext}")
                    if not earlier:
                        keep[f"{n}/{n}{ext}"] = f"{n}{ext}"
                    elif ext == ".pdf":
                        moved[f"{n}.pdf"] = f"{n}.pdf"
                if earlier:
                    removed.add(n)
            else:
                f = d / (n + e["kind"])
                f.write_text(n)
                keep[f.name] = n
        fig, ax = plt.subplots()
        ax.plot([0, 1, 2], [3, 4, 9], label="x_1")
        if case["legend"]:
            ax.legend()
        plt.subplots()      # a second figure is closed too
        plt.figure(fig.number)
        try:
            dplot.output_plot(case["fmt"], d if case["folder"] else None, name, **({"keep_only_latest_tikz": True} if case["tidy"] else {}))
        except ValueError:
            if case["fmt"] in ("pdf", "svg", "tikz", "show", "none"):
                raise
            ctx.label("fmt_unknown")
            ctx.nt(True)
            return
        if case["fmt"] not in ("pdf", "svg", "tikz", "show", "none"):
            raise Violation(f"output format {case['fmt']!r} accepted")
        if plt.get_fignums():
            raise Violation("figures are left open")
        new = set(expected_files(name, case["fmt"])) if case["folder"] else set()
        got = tree(d)
        want = new | set(keep) | set(moved)
        if got != want:
            raise Violation(f"{case['fmt']} figure {name} (tidy {case['tidy']}): wrong files {sorted(got ^ want)}, present {sorted(got)}")
        for f, text in {**keep, **moved}.items():
            if (d / f).read_text() != text:
                raise Violation(f"{case['fmt']} figure {name}: content of {f} changed")
        for n in removed:
            if (d / n).exists():
                raise Violation(f"folder {n} of an earlier export is left behind")
        if (base / f"{case['base']}0" / "a.tex").read_text() != "outside":
            raise Violation("a file outside the figure folder changed")
        n_how = {"pdf": 1, "svg": 1, "tikz": 2, "show": 1, "none": 0}[case["fmt"]] if case["folder"] or case["fmt"] == "show" else 0
        if len(grab.figs) != n_how or any(len(g["axes"]) != 1 or len(g["axes"][0]["lines"]) != 1 for g in grab.figs):
            raise Violation(f"{case['fmt']}: current figure written {len(grab.figs)} times")
        ctx.label("fmt_" + case["fmt"])
        ctx.nt(bool(keep or moved))


@st.composite
def st_output(draw):
    base = draw(st.sampled_from(["fig_", "mic_power_", "a_1_", "x", "my fig_", "a.b_", "v1.5 x_", "m~ic_", "Å-fig_"]))
    idx = draw(st.one_of(st.integers(0, 15), st.sampled_from([99, 100, 1000])))
    ent = st.fixed_dictionaries({"base": st.sampled_from([base, base, base, base + "x_", "my" + base, base[:-1] + "s_"]),
                                 "num": st.one_of(st.integers(0, max(idx - 1, 0)).map(str), st.integers(0, max(idx - 1, 0)).map(str), st.sampled_from(["", "a", "0.5", "0.0", "0_3"])),
                                 "kind": st.sampled_from(["folder", "folder", "folder", ".npz", ".pdf", ".json", ".wav"]),
                                 "content": st.lists(st.sampled_from([".pdf", ".tex", ".tsv", "-000.tsv", "-001.tsv"]), max_size=4, unique=True)})
    return {"base": base, "idx": idx, "entries": draw(st.lists(ent, max_size=6)), "fmt": draw(st.sampled_from(["pdf", "svg", "tikz", "tikz", "tikz", "show", "none", "png", ""])),
            "folder": draw(st.sampled_from([True, True, True, False])), "tidy": draw(st.booleans()), "legend": draw(st.booleans())}


TESTS = [Test("series", st_series(), t_series, quick=1100, thorough=9000),
         Test("arrays", st_arrays(), t_arrays, quick=600, thorough=5000),
         Test("output", st_output(), t_output, quick=600, thorough=6000),
         Test("field", st_field(), t_field, quick=450, thorough=4000)]
