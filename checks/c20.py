"""C20: every simulation writes complete metadata into its own new folder."""
import hashlib
import json
import os
import pathlib

import matplotlib
matplotlib.use("Agg")
import matplotlib.patches as mpatches
import matplotlib.pyplot as plt
import numpy as np
import yaml
from hypothesis import strategies as st

import aspsim.array as ar
import aspsim.configutil as cu
import aspsim.diagnostics.diagnostics as dg
import aspsim.fileutilities as fu
import aspsim.room.trajectory as tr
import aspsim.signal.sources as sources
from aspsim.simulator import SimulatorSetup
from checks import c12, c15
from vlib.harness import Test, Violation
from vlib.simh import Rec, TableSource, apply_cfg, ir_of, rng_of, scratch_dir, table

RULE = ("A case is a history of created (and partly run) simulations that share one parent folder, with files and folders put in between, or a set of "
        "file names. Non-trivial: at least two folders are created in one history with at least three array or path types, or several matching files.")
ASSUMPTIONS = ["the parent folder (and session folder) exist and are writable", "array names are usable as dictionary keys; processor metadata consists of json values and numpy values",
               "metadata files may use the Infinity/NaN extension of Python's json (e.g. a truncation error of -Infinity dB)",
               "output as tikz needs a package that is not installed and is left out; plt.savefig is replaced by a recorder of the drawn figure except in a few cases",
               "nobody else writes to the parent folder while a simulator is created"]
WARM = "dynamic"
TYPES = ["none", "direct", "random", "ism"]
SRC_KINDS = ("sequence", "white", "sine", "counter", "multisine", "bandlimited", "pulse", "autocorr", "mls", "gold")
_REAL_SAVEFIG = plt.savefig


# ---------------------------------------------------------------- generation
@st.composite
def scene_st(draw):
    size = [draw(st.sampled_from([2.0, 2.5, 3])) for _ in range(3)]
    sab = 0.161 * np.prod(size) / (2 * (size[0] * size[1] + size[0] * size[2] + size[1] * size[2]))
    cfg = {"tot_samples": draw(st.integers(5, 30)), "sim_buffer": draw(st.integers(5, 16)), "sim_chunk_size": draw(st.integers(5, 20)),
           "samplerate": draw(st.sampled_from([500, 800])), "c": draw(st.sampled_from([343.0, 340])), "reverb": draw(st.sampled_from(["none", "random", "ism"])),
           "room_size": size, "room_center": [draw(st.sampled_from([0.0, 0.5, -1])) for _ in range(3)], "rt60": draw(st.sampled_from([0, 0.0, round(1.4 * sab, 3)])),
           "max_room_ir_length": draw(st.integers(4, 60)), "extra_delay": draw(st.integers(1, 8)), "highpass_cutoff": draw(st.sampled_from([0, 0.0, 20])),
           "randomized_ism": draw(st.booleans()), "export_frequency": draw(st.integers(2, 20)), "output_smoothing": draw(st.integers(1, 3)),
           "save_source_contributions": draw(st.booleans()), "start_sources_before_0": draw(st.booleans()), "array_update_freq": draw(st.integers(5, 20))}
    names = draw(st.permutations(["mic", "src", "a b", "ls/", "é", "error~mic", "x->y", "ref1", "M", "reg"]))
    na = draw(st.integers(1, 6))
    arrays = []
    for i in range(na):
        a = {"name": names[i], "kind": draw(st.sampled_from(["free", "free", "free", "ctrl", "mic", "mic", "region", "moving mic", "moving src"])),
             "n": draw(st.sampled_from([1, 1, 2, 3, 3, 0])), "seed": draw(st.integers(0, 9999))}
        if a["kind"] == "free":
            a["src"] = draw(st.one_of(c12.src_st(SRC_KINDS), c12.src_st(SRC_KINDS), st.fixed_dictionaries({"kind": st.sampled_from(["table", "bare", "np sine", "np band", "np counter", "np multi"])})))
            if a["src"]["kind"] in ("np counter", "np multi"):
                a["n"] = 1
            elif a["src"]["kind"].startswith("np"):
                a["n"] = max(a["n"], 1)
            a["replace"] = draw(st.one_of(st.none(), st.none(), c12.src_st(SRC_KINDS)))
            if a["n"] == 0:
                a["src"], a["replace"] = {"kind": draw(st.sampled_from(["table", "bare"]))}, None
            elif "ch" in a["src"]:
                a["n"] = a["src"]["ch"]
            if a["replace"] is not None and a["replace"]["ch"] != a["n"]:
                a["replace"] = None
        elif a["kind"] == "region":
            a["regs"] = [draw(c15.reg_st(("cuboid", "rect3", "disc3", "ball", "cyl")))]
            if draw(st.booleans()):
                b = dict(draw(c15.reg_st(("cuboid", "rect3", "disc3", "ball", "cyl"))))
                b["center"] = [v + 40 for v in b["center"]]
                a["regs"].append(b)
            for r in a["regs"]:   # few points
                r["spacing"] = [round(v, 3) for v in (r["size"] if "size" in r else [r["radius"]] * (2 if r["kind"] == "disc3" else 3))]
                if r["kind"] == "cyl":
                    r["spacing"][2] = r["height"]
            a["how"] = draw(st.sampled_from(["single", "list", "combined"]))
        elif a["kind"].startswith("moving"):
            a["n"] = draw(st.integers(1, 2))
            a["traj"] = draw(st.sampled_from(["linear", "circular", "function"]))
        else:
            a["groups"] = draw(st.sampled_from([None, None, "pos", "set"]))
        arrays.append(a)
    types, user = {}, {}
    for s in arrays:
        for m in arrays:
            if is_mic(s) or not is_mic(m):
                continue
            what = draw(st.sampled_from(["default", "type", "user"]))
            still = not s["kind"].startswith("moving") and not m["kind"].startswith("moving")
            far = any("region" == x["kind"] for x in (s, m))
            if what == "user" and still and not far:
                user[s["name"] + "|" + m["name"]] = draw(st.integers(1, 6))
            elif what == "type" or far or not still:
                types[s["name"] + "|" + m["name"]] = draw(st.sampled_from(["none", "random"] if far else
                                                                          [t for t in TYPES if t != "direct" or s["n"] == m["n"]]))
    return {"cfg": cfg, "arrays": arrays, "types": types, "user": user, "setrev": draw(st.booleans())}


def is_mic(a):
    return a["kind"] in ("mic", "region", "moving mic")


step_st = st.one_of(
    st.fixed_dictionaries({"op": st.just("create"), "i": st.integers(0, 2), "plot": st.sampled_from(["pdf", "pdf", "pdf", "svg", "none", "show"]),
                           "fig": st.sampled_from(["path", "path", "path", "str", "none"]), "run": st.sampled_from(["no", "run", "proc", "proc"]),
                           "auto": st.booleans(), "reuse": st.booleans(), "np": st.booleans(), "real": st.integers(0, 14)}),
    st.fixed_dictionaries({"op": st.just("clutter"), "k": st.integers(0, 4), "what": st.sampled_from(["file", "folder", "full folder"])}),
    st.fixed_dictionaries({"op": st.just("delete"), "k": st.integers(0, 4)}))
hist_st = st.fixed_dictionaries({"scenes": st.lists(scene_st(), min_size=1, max_size=3), "steps": st.lists(step_st, min_size=2, max_size=8), "seed": st.integers(0, 999)})


class Bare:
    """the least a source needs to be: something with get_samples"""

    def __init__(self, n):
        self.n = n

    def get_samples(self, num_samples):
        return np.ones((self.n, num_samples))


def make_source(a, c, counter):
    if c["kind"] == "table":
        return TableSource(table(a["seed"], a["n"], 600))
    if c["kind"] == "bare":
        return Bare(a["n"])
    n = a["n"]
    if c["kind"] == "np sine":
        return sources.SineSource(n, np.full((n, 1), 0.5), np.arange(1.0, n + 1)[:, None] * 20, np.int64(500))
    if c["kind"] == "np band":
        return sources.BandlimitedNoiseSource(n, np.float32(0.5), np.array([50.0, 150.0]), np.int64(500))
    if c["kind"] == "np counter":
        return sources.Counter(1, np.int64(5))
    if c["kind"] == "np multi":
        return sources.MultiSineSource(1, np.float64(0.5), np.array([10, 20]), 500)
    return c12.make(c)[0]


class Walk(tr.Trajectory):
    def __init__(self, start):
        self.start = start
        super().__init__(lambda t: start + np.array([[0.01, 0.0, 0.0]]) * (t % 7) / 7)


def trajectory(a, p, sr):
    def one(q):
        if a["traj"] == "linear":
            return tr.LinearTrajectory(np.stack((q, q + [0.05, 0.1, 0.02], q + [0.1, 0.0, 0.0])), 0.07, sr)
        if a["traj"] == "circular":
            return tr.CircularTrajectory((0.05, 0.1), q, 0.11, 0.07, sr)
        return Walk(q[None, :])
    ts = [one(q) for q in p]
    return ts[0] if len(ts) == 1 else tr.TrajectoryCollection(ts)


def build(sc, base, session):
    """-> set-up, expectations per array"""
    su = SimulatorSetup(base, session)
    apply_cfg(su.sim_info, sc["cfg"])
    exp = {}
    cen = np.array(sc["cfg"]["room_center"], dtype=float)
    for i, a in enumerate(sc["arrays"]):
        # all positions apart and inside the room
        p = cen + rng_of(a["seed"], i, 20).uniform(-0.2, 0.2, size=(a["n"], 3)) + np.array([0.12 * (i - 2), 0.45 * (1 if is_mic(a) else -1), 0.05 * i])
        e = {"number of groups": 1, "dynamic": False, "pos": p}
        if a["kind"] == "free":
            arr = ar.FreeSourceArray(a["name"], p.copy(), make_source(a, a["src"], i))
            e["src"] = a["src"]
            if a["replace"] is not None:
                e["src"] = a["replace"]
            e["type"] = "FreeSourceArray"
        elif a["kind"] == "region":
            regs = [c15.make(r) for r in a["regs"]]
            import aspsim.room.region as region
            if len(regs) > 1:
                arr = ar.RegionArray(a["name"], region.CombinedRegion(regs) if a["how"] == "combined" else regs)
                e["shape"] = "CombinedRegion"
            else:
                arr = ar.RegionArray(a["name"], regs if a["how"] == "list" else regs[0])
                e["shape"] = type(regs[0]).__name__
            e["pos"] = np.concatenate([r.equally_spaced_points() for r in regs])
            e["number of groups"] = len(regs)
            e["type"] = "RegionArray"
        elif a["kind"].startswith("moving"):
            t = trajectory(a, p, sc["cfg"]["samplerate"])
            arr = (ar.MicArray if is_mic(a) else ar.ControllableSourceArray)(a["name"], t)
            e.update(dynamic=True, pos=t.current_pos(0), type="MicArray" if is_mic(a) else "ControllableSourceArray")
        else:
            cls = ar.MicArray if a["kind"] == "mic" else ar.ControllableSourceArray
            e["type"] = cls.__name__
            if a["groups"] == "pos" and a["n"] > 1:
                arr = cls(a["name"], [p[:1], p[1:]])
                e["number of groups"] = 2
            else:
                arr = cls(a["name"], p.copy())
                if a["groups"] == "set" and a["n"] > 0:
                    arr.set_groups([[k] for k in range(a["n"])])
                    e["number of groups"] = a["n"]
        su.add_array(arr)
        if a["kind"] == "free" and a["replace"] is not None:
            su.set_source(a["name"], c12.make(a["replace"])[0])
        exp[a["name"]] = e
    n = {k: len(e["pos"]) for k, e in exp.items()}
    for k, L in sc["user"].items():
        s, m = k.split("|")
        su.set_path(s, m, ir_of(L, n[s], n[m], L))
    for k, t in sc["types"].items():
        s, m = k.split("|")
        su.arrays.set_path_types({s: {m: t}})
    return su, exp, n


# ---------------------------------------------------------------- oracle
def snapshot(folder):
    out = {}
    for d, dirs, files in os.walk(folder):
        for f in files:
            p = os.path.join(d, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, folder)] = hashlib.sha1(fh.read()).hexdigest()
        for x in dirs:
            out[os.path.relpath(os.path.join(d, x), folder) + "/"] = ""
    return out


def unchanged(before, after, allowed, what):
    for p, h in before.items():
        if p not in after:
            raise Violation(f"{what}: {p} was removed")
        if after[p] != h:
            raise Violation(f"{what}: existing file {p} was changed")
    for p in after:
        if p not in before and not any(p.startswith(a) for a in allowed):
            raise Violation(f"{what}: unexpected {p} was written")


def plain(x):
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x.tolist() if hasattr(x, "tolist") else x


def flat(x):
    return np.asarray(plain(x), dtype=float).ravel().tolist()


def near(a, b):
    """numbers as text keep their value: exact up to printing"""
    try:
        a, b = np.asarray(a, dtype=float).ravel(), np.asarray(b, dtype=float).ravel()
    except (TypeError, ValueError):
        return False
    return a.shape == b.shape and bool(np.all(np.isclose(a, b, rtol=1e-9, atol=0)))


def check_source(info, c, n, what):
    if not isinstance(info, dict):
        raise Violation(f"{what}: source info is {info!r}")
    k = c["kind"]
    if k == "table":
        want = {"type": "table"}
        if info != want:
            raise Violation(f"{what}: source info is {info}, the source's metadata is {want}")
        return
    if k == "bare":
        return
    want = {"number of channels": n}
    if k.startswith("np"):
        want.update({"np sine": {"power": [0.5] * n, "frequency": [20.0 * (i + 1) for i in range(n)]}, "np band": {"power": 0.5, "frequency span": [50, 150]},
                     "np counter": {"start number": 5}, "np multi": {"power": 0.5, "frequency": [10, 20]}}[k])
    if k in ("white", "sine", "multisine", "bandlimited", "gold"):
        want["power"] = c["power"]
    if k == "sine":
        want["frequency"] = c["freq"]
    elif k == "multisine":
        want["frequency"] = c["freqs"]
    elif k == "counter":
        want["start number"] = c["start"] or 0
    elif k == "bandlimited":
        want["frequency span"] = c["lim"]
    elif k == "gold":
        want.update({"order": c["order"], "sequence length": 2 ** c["order"] - 1})
    elif k == "mls":
        want["order"] = c["order"]
        if c["taps"] is not None:
            want["polynomial"] = c["taps"]
        if c["state"]:
            s = (rng_of(c["seed"], 17).uniform(size=c["order"]) < 0.5).astype(int)
            s[c["seed"] % c["order"]] = 1
            want["start state"] = s.tolist()
    for key, v in want.items():
        if key not in info or not near(info[key], v):
            raise Violation(f"{what}: source info says {key} = {info.get(key, 'nothing')!r}, the source has {v!r}")


def check_json(path):
    try:
        return json.loads(path.read_text())
    except ValueError as e:
        raise Violation(f"{path.name} is not valid json: {e}")


def types_of(sc, n):
    out = {}
    for s in sc["arrays"]:
        for m in sc["arrays"]:
            if not is_mic(s) and is_mic(m):
                k = s["name"] + "|" + m["name"]
                t = "modified" if k in sc["user"] else sc["types"].get(k, sc["cfg"]["reverb"])
                out[s["name"] + "->" + m["name"]] = (t, n[s["name"]] == 0 or n[m["name"]] == 0)
    return out


def check_folder(folder, sc, cfg, exp, n, plot, figs, real, what):
    need = ["array_pos.json", "config.yaml", "metadata_arrays.json", "metadata_paths.json"]
    if plot in ("pdf", "svg"):
        need.append("array_pos." + plot)
    have = sorted(p.name for p in folder.iterdir())
    missing = [f for f in need if f not in have]
    if missing:
        raise Violation(f"{what}: {missing} missing in the new folder, it has {have}")
    if "metadata_processor.json" in have:
        raise Violation(f"{what}: metadata_processor.json exists before anything was run")
    # configuration
    conf = yaml.safe_load((folder / "config.yaml").read_text())
    want = {k: plain(v) for k, v in cfg.items()}
    if conf != want:
        diff = {k: (conf.get(k), want.get(k)) for k in set(conf) | set(want) if conf.get(k) != want.get(k)}
        raise Violation(f"{what}: config.yaml differs from the configuration (saved, configured): {diff}")
    # positions
    pos = check_json(folder / "array_pos.json")
    if sorted(pos) != sorted(exp):
        raise Violation(f"{what}: array_pos.json has arrays {sorted(pos)}, the set-up {sorted(exp)}")
    for k, e in exp.items():
        if not (len(pos[k]) == len(e["pos"]) and (len(e["pos"]) == 0 or np.array_equal(np.array(pos[k], dtype=float), e["pos"]))):
            raise Violation(f"{what}: array_pos.json has {str(pos[k])[:200]} for {k}, it is at {str(e['pos'].tolist())[:200]}")
    # arrays
    meta = check_json(folder / "metadata_arrays.json")
    if sorted(meta) != sorted(exp):
        raise Violation(f"{what}: metadata_arrays.json has {sorted(meta)}, the set-up {sorted(exp)}")
    for k, e in exp.items():
        for key, v in (("type", e["type"]), ("number", n[k]), ("number of groups", e["number of groups"]), ("dynamic", e["dynamic"])):
            if meta[k].get(key) != v or type(meta[k].get(key)) is not type(v):
                raise Violation(f"{what}: metadata_arrays.json says {key} = {meta[k].get(key, 'nothing')!r} for {k}, it is {v!r}")
        if "src" in e:
            check_source(meta[k].get("source info"), e["src"], n[k], f"{what}: {k}")
        if "shape" in e and meta[k].get("region shape") != e["shape"]:
            raise Violation(f"{what}: region shape of {k} is {meta[k].get('region shape')!r}, it is {e['shape']}")
    # paths
    paths = check_json(folder / "metadata_paths.json")
    types = types_of(sc, n)
    if sorted(paths) != sorted(types):
        raise Violation(f"{what}: metadata_paths.json has {sorted(paths)}, the set-up has {sorted(types)}")
    for k, (t, empty) in types.items():
        ok = (t, "none") if empty else (t,)
        if paths[k].get("type") not in ok:
            raise Violation(f"{what}: type of {k} is {paths[k].get('type')!r} in metadata_paths.json, it is {t}")
        if t == "ism" and not empty:
            check_ism(paths[k], cfg, f"{what}: {k}")
    # figure
    if plot in ("pdf", "svg"):
        if real:
            head = (folder / f"array_pos.{plot}").read_bytes()[:300]
            if not (head.startswith(b"%PDF") if plot == "pdf" else b"svg" in head or b"xml" in head):
                raise Violation(f"{what}: array_pos.{plot} starts with {head[:40]!r}")
        else:
            names = [f for f in figs if pathlib.Path(f).parent == folder]
            if len(names) != 1:
                raise Violation(f"{what}: figures {names} were drawn for the new folder")
            check_figure(figs[names[0]], sc, cfg, exp, types, what)


def check_ism(info, cfg, what):
    d = info.get("ism_info")
    if not isinstance(d, dict):
        raise Violation(f"{what}: no information about the room responses: {info}")
    order = d.get("Max ISM order")
    if (cfg["rt60"] == 0) != (order == 0):
        raise Violation(f"{what}: Max ISM order is {order} with reverberation time {cfg['rt60']}")
    if cfg["rt60"] > 0:
        lx, ly, lz = cfg["room_size"]
        e = 24 * np.log(10) / 343.0 * lx * ly * lz / (2 * (lx * ly + ly * lz + lx * lz)) / cfg["rt60"]
        e2 = e * 343.0 / cfg["c"]
        got = d.get("Energy Absorption")
        if not any(np.isclose(got, x, rtol=1e-6) for x in (e, e2)):
            raise Violation(f"{what}: Energy Absorption is {got}, Sabine's formula gives {e2}")
    for key in ("Max Normalized Truncation Error (dB)", "Max Normalized Truncated Value (dB)"):
        if not (key in d and d[key] <= 1e-9):
            raise Violation(f"{what}: {key} is {d.get(key)}")


def grab_figure():
    fig = plt.gcf()
    pts, patches = [np.zeros((0, 2))], []
    for ax in fig.axes:
        for l in ax.lines:
            xy = np.column_stack([np.asarray(l.get_xdata(), float).ravel(), np.asarray(l.get_ydata(), float).ravel()])
            pts.append(xy)
        for c in ax.collections:
            pts.append(np.asarray(c.get_offsets(), float).reshape(-1, 2))
        for p in ax.patches:
            if isinstance(p, mpatches.Rectangle):
                patches.append(("rect", p.get_x(), p.get_y(), p.get_width(), p.get_height()))
            else:
                patches.append((type(p).__name__,))
    return np.concatenate(pts), patches


def check_figure(fig, sc, cfg, exp, types, what):
    pts, patches = fig
    for k, e in exp.items():
        if e["dynamic"] or "shape" in e:
            continue
        for q in e["pos"]:
            if not np.any(np.all(np.abs(pts - q[None, :2]) < 1e-9, axis=1)):
                raise Violation(f"{what}: element of {k} at {q.tolist()} is not in the figure")
    x, y = (cfg["room_center"][i] - cfg["room_size"][i] / 2 for i in (0, 1))
    walls = ("rect", x, y, cfg["room_size"][0], cfg["room_size"][1])
    drawn = any(p[0] == "rect" and np.allclose(p[1:], walls[1:], atol=1e-9) for p in patches)
    ism = [k for k, (t, empty) in types.items() if t == "ism" and not empty]
    if ism and not drawn:
        raise Violation(f"{what}: the walls {walls} are not drawn although {ism[0]} is a room response; drawn: {patches}")
    if not any(t == "ism" for t, _ in types.values()) and drawn:
        raise Violation(f"{what}: walls drawn without room responses")


class Meta:
    pass


def history(case, ctx):
    figs = {}
    real_now = {"on": False}

    def save(fname, *a, **k):
        if real_now["on"]:
            return _REAL_SAVEFIG(fname, *a, **k)
        figs[str(fname)] = grab_figure()
        with open(fname, "wb") as f:
            f.write(b"figure")
    plt.savefig = save
    cwd = os.getcwd()
    created = 0
    kinds = set()
    try:
        with scratch_dir() as d:
            base, sess, work = d / "figs", d / "sessions", d / "cwd"
            for x in (base, sess, work):
                x.mkdir()
            (base / "notes.txt").write_text("keep me")
            (base / "config.yaml").write_text("a: 1\n")
            (base / "figs_").mkdir()
            os.chdir(work)
            setups = {}
            folders = []          # created output folders still there
            for si, step in enumerate(case["steps"]):
                if step["op"] == "clutter":
                    stamp = folders[-1].name.rsplit("_", 1)[0] if folders else "figs_" + fu.get_time_string()
                    p = base / f"{stamp}_{step['k']}"
                    if p.exists():
                        continue
                    if step["what"] == "file":
                        p.write_text("a file")
                    else:
                        p.mkdir()
                        if step["what"] == "full folder":
                            (p / "array_pos.json").write_text("old")
                            (p / "config.yaml").write_text("old")
                    continue
                if step["op"] == "delete":
                    if folders:
                        import shutil
                        f = folders.pop(step["k"] % len(folders))
                        shutil.rmtree(f)
                    continue
                i = step["i"] % len(case["scenes"])
                sc = case["scenes"][i]
                key = (i, step["fig"])
                if not (step["reuse"] and key in setups):
                    fig = {"path": base, "str": str(base), "none": None}[step["fig"]]
                    setups[key] = build(sc, fig, sess)
                su, exp, n = setups[key]
                su.sim_info.plot_output = step["plot"]
                su.sim_info.auto_save_load = step["auto"]
                if step["np"]:
                    su.sim_info.room_size = np.array(sc["cfg"]["room_size"], dtype=float)
                    su.sim_info.c = np.float64(sc["cfg"]["c"])
                cfg = {k: getattr(su.sim_info, k) for k in su.sim_info.__dataclass_fields__}
                on = step["fig"] != "none" and step["plot"] != "none"
                real_now["on"] = step["real"] == 0 and step["plot"] in ("pdf", "svg")
                what = f"step {si}"
                before = snapshot(d)
                np.random.seed(case["seed"] + si)
                figs.clear()
                sim = su.create_simulator()
                after = snapshot(d)
                new = [base / p[5:-1] for p in after if p not in before and p.startswith("figs/") and p.endswith("/") and p.count("/") == 2]
                if on:
                    if len(new) != 1:
                        raise Violation(f"{what}: {len(new)} new folders in the parent folder")
                    folder = new[0]
                    if sim.folder_path is None or pathlib.Path(sim.folder_path) != folder:
                        raise Violation(f"{what}: folder_path is {sim.folder_path}, the new folder is {folder}")
                    unchanged(before, after, [f"figs/{folder.name}/"] + (["sessions/"] if step["auto"] else []), what)
                    check_folder(folder, sc, cfg, exp, n, step["plot"], dict(figs), real_now["on"], what)
                    folders.append(folder)
                    created += 1
                else:
                    unchanged(before, after, ["sessions/"] if step["auto"] else [], what)
                    if sim.folder_path is not None:
                        raise Violation(f"{what}: folder_path is {sim.folder_path} although output is off")
                kinds |= {a["kind"] for a in sc["arrays"]} | {t for t, _ in types_of(sc, n).values()}
                # run
                if step["run"] == "no" or sc["setrev"] and step["plot"] == "show":
                    continue
                before = snapshot(d)
                proc = None
                if step["run"] == "proc":
                    proc = Rec(sim.sim_info, sim.arrays, 1 + si % 3, name=["proc", "my/proc", "é"][si % 3])
                    proc.metadata = {"step": [0.5, 1], "np": np.arange(3) / 2, "scalar": np.float32(0.25), "count": np.int64(3), "text": "x", "none": None,
                                     "nested": {"a": np.eye(2)}}
                    sim.add_processor(proc)
                sel = sc["arrays"][0]["name"]
                tot = sc["cfg"]["tot_samples"]
                if n[sel] > 0:
                    for nm, func in (("rec", "npz"), ("snd", "wav")):
                        sim.diag.add_diagnostic(nm, dg.RecordSignal(sel, sim.sim_info, num_channels=n[sel], export_func=func))
                sim.run_simulation()
                after = snapshot(d)
                unchanged(before, after, [f"figs/{folder.name}/"] if on else [], what + " run")
                if on:
                    f = folder / "metadata_processor.json"
                    if proc is None:
                        if f.exists():
                            raise Violation(f"{what}: metadata_processor.json was written without a processor")
                    else:
                        if not f.exists():
                            raise Violation(f"{what}: metadata_processor.json was not written")
                        got = check_json(f)
                        want = {proc.name: {"step": [0.5, 1], "np": [0.0, 0.5, 1.0], "scalar": 0.25, "count": 3, "text": "x", "none": None,
                                            "nested": {"a": [[1.0, 0.0], [0.0, 1.0]]}}}
                        if got != want:
                            raise Violation(f"{what}: metadata_processor.json holds {got} instead of {want}")
                    ctx.label("run " + ("with processor" if proc else "without processor"))
    finally:
        os.chdir(cwd)
        plt.savefig = _REAL_SAVEFIG
        plt.close("all")
    for k in kinds:
        ctx.label("has:" + k)
    ctx.label(f"folders created:{min(created, 4)}")
    ctx.nt(created >= 2 and len(kinds) >= 3)


# ---------------------------------------------------------------- truncation info
@st.composite
def trunc_st(draw):
    sc = draw(st.fixed_dictionaries({
        "size": st.lists(st.sampled_from([2.0, 2.4, 3.1]), min_size=3, max_size=3), "rt": st.sampled_from([0, 1.3, 1.6]), "sr": st.sampled_from([500, 800]),
        "extra": st.integers(1, 12), "ns": st.integers(1, 3), "nm": st.integers(1, 3), "seed": st.integers(0, 9999), "L": st.integers(8, 90)}))
    return sc


def truncation(case, ctx):
    size = case["size"]
    sab = 0.161 * np.prod(size) / (2 * (size[0] * size[1] + size[0] * size[2] + size[1] * size[2]))
    cfg = {"reverb": "ism", "room_size": size, "rt60": round(case["rt"] * sab, 4), "samplerate": case["sr"], "extra_delay": case["extra"]}

    def go(L):
        su = SimulatorSetup()
        apply_cfg(su.sim_info, {**cfg, "max_room_ir_length": L})
        su.add_controllable_source("s", rng_of(case["seed"], 1).uniform(-0.45, 0.45, size=(case["ns"], 3)) * size)
        su.add_mics("m", rng_of(case["seed"], 2).uniform(-0.45, 0.45, size=(case["nm"], 3)) * size)
        a = su.create_simulator().arrays
        return a.paths["s"]["m"], a.path_info["s->m"]
    L = case["L"]
    _, info = go(L)
    full, _ = go(4000)
    info = info["ism_info"]
    e2 = np.sum(full[..., L:] ** 2, axis=-1) / np.sum(full ** 2, axis=-1)
    v = np.max(np.abs(full[..., L:]), axis=-1) / np.max(np.abs(full), axis=-1)
    for key, ratio, fac in (("Max Normalized Truncation Error (dB)", float(e2.max()), 10), ("Max Normalized Truncated Value (dB)", float(v.max()), 20)):
        got = info[key]
        want = fac * np.log10(ratio) if ratio > 0 else -np.inf
        # single precision sums in the library
        if want > -90 and not abs(got - want) < 0.02 or want <= -90 and not got < -85:
            raise Violation(f"{key} is {got}, cutting the full responses after {L} samples gives {want}")
    ctx.label("truncated" if e2.max() > 1e-9 else "complete")
    ctx.nt(e2.max() > 1e-9 and case["ns"] * case["nm"] > 1)


# ---------------------------------------------------------------- file names
nm_st = st.sampled_from(["sig", "sig_1", "a", "figs", "sig_", "x2"])
files_st = st.fixed_dictionaries({
    "files": st.lists(st.tuples(nm_st, st.integers(0, 130), st.sampled_from([".npz", ".json", ".pdf", ""]), st.booleans()), min_size=0, max_size=10),
    "extra": st.lists(st.sampled_from(["sig_x.npz", "sig.npz", "other.txt", "sig_1x.npz", "figs_a_3", "sig_-3.npz", "sig_ 4.npz"]), max_size=4, unique=True),
    "name": nm_st, "idx": st.integers(0, 130), "suffix": st.sampled_from([".npz", ".json", ".pdf"]), "n": st.integers(0, 5), "detailed": st.booleans()})


def files(case, ctx):
    with scratch_dir() as d:
        for name, i, suf, under in case["files"]:
            (d / (f"{name}_{i}{suf}" if under else f"{name}{i}{suf}")).write_text("x")
        for e in case["extra"]:
            (d / e).write_text("x")
        names = {p.name: p for p in d.iterdir()}
        pre, suf = case["name"] + "_", case["suffix"]
        nums = {}
        for x in names:
            core = x[len(pre):len(x) - len(suf)] if x.startswith(pre) and x.endswith(suf) and len(x) >= len(pre) + len(suf) else ""
            if core and all(ch in "0123456789" for ch in core):
                nums[x] = int(core)
        got = fu.get_highest_numbered_file(d, pre, suf)
        want = {k for k, v in nums.items() if v == max(nums.values())} if nums else {None}
        if (None if got is None else got.name) not in want:
            raise Violation(f"highest numbered file of {sorted(names)} for {pre}*{suf} is {got}, expected {sorted(map(str, want))}")
        # earlier files
        same = {}
        for x, p in names.items():
            stem = p.stem
            if stem.startswith(pre) and stem[len(pre):].isdigit():
                same[x] = int(stem[len(pre):])
        cur = case["idx"]
        for incl in (False, True):
            arg = pre + str(cur) if incl else case["name"]
            res = fu.find_all_earlier_files(d, arg, cur, name_includes_idx=incl, error_if_future_files_exist=False)
            if sorted(p.name for p in res) != sorted(x for x, v in same.items() if v < cur):
                raise Violation(f"earlier files of {arg} at {cur} among {sorted(names)}: {sorted(p.name for p in res)}")
            try:
                fu.find_all_earlier_files(d, arg, cur, name_includes_idx=incl)
                raised = False
            except ValueError:
                raised = True
            if raised != any(v > cur for v in same.values()):
                raise Violation(f"files later than {cur} exist: {any(v > cur for v in same.values())}, error raised: {raised}")
        # fresh names
        pf = case["name"] + "_"
        snap = snapshot(d)
        made = []
        for _ in range(case["n"]):
            u = fu.get_unique_folder_name(pf, d, case["detailed"])
            if u.exists() or u.parent != d or not u.name.startswith(pf):
                raise Violation(f"unique folder name {u}")
            u.mkdir()
            made.append(u)
        more = fu.get_multiple_unique_folder_names(pf, d, case["n"])
        if len(more) != case["n"] or len(set(more)) != len(more) or any(p.exists() or p.parent != d or not p.name.startswith(pf) for p in more):
            raise Violation(f"{case['n']} unique folder names: {more}, existing: {sorted(p.name for p in d.iterdir())}")
        for p in more + made:
            idx = fu.find_index_in_name(p.name)
            tail = p.name[len(p.name.rstrip("0123456789")):]
            if idx != int(tail):
                raise Violation(f"index of {p.name} is {idx}")
        unchanged(snap, snapshot(d), [p.name for p in made], "looking for names")
        for x in list(names) + ["abc", "", "12", "a1b"]:
            tail = x[len(x.rstrip("0123456789")):]
            if tail.startswith("0") and len(tail) > 1:
                continue
            if fu.find_index_in_name(x) != (int(tail) if tail else None):
                raise Violation(f"index of {x!r} is {fu.find_index_in_name(x)}")
        ctx.nt(len(same) >= 2 or len(nums) >= 2)


TESTS = [
    Test("history", hist_st, history, quick=650, thorough=20000),
    Test("truncation", trunc_st(), truncation, quick=100, thorough=3000),
    Test("file names", files_st, files, quick=1050, thorough=30000),
]
