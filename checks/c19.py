"""C19: configurations survive saving and loading and are validated."""
import dataclasses
import json
import os
import pathlib

import numpy as np
import yaml
from hypothesis import strategies as st

import aspsim.configutil as cu
from aspsim.simulator import SimulatorSetup
from vlib.harness import Test, Violation
from vlib.simh import scratch_dir, stub_savefig

RULE = ("A case is a complete set of configuration values that is written and read back, written by hand as yaml, saved next to results, or corrupted "
        "in one place. Non-trivial: at least five values differ from the shipped default, or a rejection.")
ASSUMPTIONS = ["values are of the annotated types (numpy scalars, arrays and tuples may stand for numbers and lists) and finite",
               "hand-written files use plain yaml 1.1 number notation (1e-3 without a dot is a string there)"]

POS = st.one_of(st.sampled_from([1e-5, 0.1, 343.0, 1e6, 1 / 3]), st.floats(1e-6, 1e6, allow_nan=False))
ANYF = st.one_of(st.sampled_from([0.0, -1.0, 0.1 + 0.2, 1e-7, -1e5]), st.floats(-1e4, 1e4, allow_nan=False))
NUM = st.one_of(POS, st.integers(1, 10 ** 6))
ANY = st.one_of(ANYF, st.integers(-1000, 1000))
FIELDS = ["tot_samples", "sim_buffer", "sim_chunk_size", "start_sources_before_0", "save_source_contributions", "array_update_freq", "samplerate", "c",
          "spatial_dims", "reverb", "room_size", "room_center", "rt60", "max_room_ir_length", "randomized_ism", "extra_delay", "highpass_cutoff",
          "export_frequency", "plot_output", "output_smoothing", "auto_save_load"]


@st.composite
def values_st(draw):
    dims = draw(st.sampled_from([3, 3, 3, 2, 1]))
    big = st.one_of(st.integers(1, 50), st.integers(1, 10 ** 9))
    return {"tot_samples": draw(big), "sim_buffer": draw(big), "sim_chunk_size": draw(big), "start_sources_before_0": draw(st.booleans()),
            "save_source_contributions": draw(st.booleans()), "array_update_freq": draw(big), "samplerate": draw(big), "c": draw(NUM),
            "spatial_dims": dims, "reverb": draw(st.sampled_from(["none", "direct", "random", "ism"])),
            "room_size": draw(st.lists(NUM, min_size=dims, max_size=dims)), "room_center": draw(st.lists(ANY, min_size=dims, max_size=dims)),
            "rt60": draw(st.one_of(st.just(0), st.just(0.0), st.floats(0, 10))), "max_room_ir_length": draw(big), "randomized_ism": draw(st.booleans()),
            "extra_delay": draw(st.integers(0, 10000)), "highpass_cutoff": draw(st.one_of(st.just(0), st.just(0.0), POS)),
            "export_frequency": draw(big), "plot_output": draw(st.sampled_from(["none", "pdf", "svg", "tikz", "show"])),
            "output_smoothing": draw(big), "auto_save_load": draw(st.booleans())}


@st.composite
def rt_st(draw):
    v = draw(values_st())
    # numpy stand-ins
    return {"v": v, "np": draw(st.lists(st.sampled_from(["c", "rt60", "room_size", "room_center", "highpass_cutoff", "samplerate", "tot_samples",
                                                         "extra_delay", "randomized_ism"]), max_size=3, unique=True)),
            "tup": draw(st.booleans()), "twice": draw(st.booleans()), "other": draw(st.sampled_from(["other name.yml", "b.yaml", "settings", "c.txt", "config.yaml.bak"])), "name": draw(st.sampled_from(["cfg", "my results", "figs_2020_01_01_0", "ü", "v1.2", "a.yaml", "run.2020.yml", ".hidden"]))}


def numpyfy(v, names, tup):
    out = dict(v)
    for n in names:
        x = v[n]
        if isinstance(x, list):
            out[n] = tuple(x) if tup else np.array(x) if len({type(e) for e in x}) == 1 else [np.array(e)[()] for e in x]
        elif isinstance(x, bool):
            out[n] = np.bool_(x)
        elif isinstance(x, int):
            out[n] = np.int64(x)
        else:
            out[n] = np.float64(x)
    return out


def same(a, b):
    """equal, and of the same type (yes/no settings stay yes/no settings, text stays text)"""
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(b, (bool, str)) or isinstance(a, (bool, str)):
        return type(a) is type(b) and a == b
    return isinstance(a, (int, float)) and isinstance(b, (int, float)) and a == b


def expect(info, v, what):
    got = {f: getattr(info, f) for f in FIELDS}
    for f in FIELDS:
        if not same(got[f], v[f]):
            raise Violation(f"{what}: {f} is {got[f]!r}, it was {v[f]!r}")


def differs(v):
    d = default_values()
    return sum(v[k] != d[k] for k in v) >= 5


def default_values():
    with open(os.path.join(os.path.dirname(cu.__file__), "config.yaml")) as f:
        return yaml.safe_load(f)


def roundtrip(case, ctx):
    v = case["v"]
    info = cu.SimulatorInfo(**numpyfy(v, case["np"], case["tup"]))
    if [f.name for f in dataclasses.fields(info)] != FIELDS and set(f.name for f in dataclasses.fields(info)) != set(FIELDS):
        raise Violation(f"settings are {[f.name for f in dataclasses.fields(info)]}")
    with scratch_dir() as d:
        folder = d / case["name"]
        folder.mkdir()
        info.save_to_file(folder)
        if case["twice"]:
            info.save_to_file(folder)
        if [p.name for p in folder.iterdir()] != ["config.yaml"]:
            raise Violation(f"saving a config wrote {[p.name for p in folder.iterdir()]}")
        loaded = {"folder": cu.load_from_file(folder), "file": cu.load_from_file(folder / "config.yaml"),
                  "folder name": cu.load_from_file(str(folder)), "file name": cu.load_from_file(str(folder / "config.yaml"))}
        other = folder / case["other"]
        other.write_bytes((folder / "config.yaml").read_bytes())
        loaded["other file"] = cu.load_from_file(other)
        for how, x in loaded.items():
            expect(x, v, f"loaded from {how}")
        a = loaded["folder"]
        if not case["np"] and (a != info or not a == loaded["file"]):
            raise Violation("loaded configuration does not compare equal to the saved one")
        for t in ("ism", "random", "none"):
            if not cu.equal_audio(info, a, {"s": {"m": t}}):
                raise Violation("saved and loaded configuration have different audio settings")
        a.save_to_file(folder)
        expect(cu.load_from_file(folder), v, "saved and loaded twice")
        for how in (folder, str(folder), folder / "config.yaml"):
            expect(SimulatorSetup(config_path=how).sim_info, v, "set-up with config_path")
    info.save_to_file(None)
    ctx.label("numpy" if case["np"] else "plain")
    ctx.nt(differs(v))


# ---------------------------------------------------------------- hand-written files
@st.composite
def hand_st(draw):
    return {"v": draw(values_st()), "perm": draw(st.permutations(list(range(len(FIELDS))))), "style": draw(st.lists(st.integers(0, 3), min_size=21, max_size=21))}


def text(x, style):
    if isinstance(x, bool):
        return [str(x), str(x).lower(), {True: "yes", False: "no"}[x], str(x).upper()][style]
    if isinstance(x, str):
        return [x, f"'{x}'", f'"{x}"', x][style]
    if isinstance(x, list):
        if style % 2:
            return "".join(f"\n  - {num(e)}" for e in x)
        return "[" + ", ".join(num(e) for e in x) + "]"
    return num(x)


def num(x):
    if isinstance(x, int):
        return str(x)
    s = format(x, ".17f")
    return s if float(s) == x else None or yaml.safe_dump(x).split("\n")[0]


def hand(case, ctx):
    v = case["v"]
    lines = ["# SIMULATION PARAMETERS"]
    for i in case["perm"]:
        f = FIELDS[i]
        t = text(v[f], case["style"][i])
        if f == "reverb" and v[f] == "none" or f == "plot_output" and v[f] == "none":
            t = v[f]
        lines.append(f"{f} : {t}" + (" # comment" if case["style"][i] == 3 and not isinstance(v[f], list) else ""))
        if case["style"][i] == 1:
            lines.append("")
    with scratch_dir() as d:
        (d / "config.yaml").write_text("\n".join(lines) + "\n")
        for p in (d, str(d), d / "config.yaml", str(d / "config.yaml")):
            expect(cu.load_from_file(p), v, "hand-written file")
        expect(SimulatorSetup(config_path=d).sim_info, v, "set-up from a hand-written file")
    ctx.nt(differs(v))


# ---------------------------------------------------------------- saved next to results
@st.composite
def results_st(draw):
    v = draw(values_st())
    dims = 3
    v.update({"spatial_dims": 3, "reverb": draw(st.sampled_from(["none", "random"])), "max_room_ir_length": draw(st.integers(1, 50)),
              "plot_output": draw(st.sampled_from(["pdf", "svg"])), "highpass_cutoff": 0.0, "sim_buffer": draw(st.integers(4, 20)),
              "rt60": 0.0, "auto_save_load": draw(st.booleans()),
              "room_size": draw(st.lists(NUM, min_size=3, max_size=3)), "room_center": draw(st.lists(ANY, min_size=dims, max_size=dims))})
    return {"v": v, "session": draw(st.booleans()), "change": draw(st.booleans()), "as_str": draw(st.booleans())}


def results(case, ctx):
    stub_savefig()
    v = case["v"]
    with scratch_dir() as d:
        (d / "figs").mkdir()
        (d / "sess").mkdir()
        w = str if case["as_str"] else pathlib.Path
        su = SimulatorSetup(w(d / "figs"), w(d / "sess") if case["session"] else None)
        for k, x in v.items():
            setattr(su.sim_info, k, x)
        su.add_controllable_source("s", np.zeros((1, 3)))
        su.add_mics("m", np.ones((2, 3)))
        sim = su.create_simulator()
        expect(cu.load_from_file(sim.folder_path), v, "config next to the results")
        expect(sim.sim_info, v, "settings of the simulator")
        sessions = list((d / "sess").iterdir())
        if case["session"] and v["auto_save_load"]:
            if len(sessions) != 1:
                raise Violation(f"{len(sessions)} sessions saved")
            expect(cu.load_from_file(sessions[0]), v, "config of the session")
        elif sessions:
            raise Violation("session saved although it was not asked for")
        if case["change"]:
            su.sim_info.export_frequency = 123457
            su.sim_info.tot_samples = v["tot_samples"] + 1
            sim2 = su.create_simulator()
            expect(cu.load_from_file(sim2.folder_path), dict(v, export_frequency=123457, tot_samples=v["tot_samples"] + 1), "config next to the second results")
            expect(cu.load_from_file(sim.folder_path), v, "config next to the first results, after a second simulation")
    ctx.nt(differs(v))


# ---------------------------------------------------------------- default and rejections
@st.composite
def bad_st(draw):
    v = draw(values_st())
    sort = draw(st.sampled_from(["default", "reverb", "room_size", "room_center", "dims", "missing", "unknown", "dropped file", "not a mapping"]))
    return {"v": v, "sort": sort, "field": draw(st.sampled_from(FIELDS)), "by": draw(st.sampled_from([-1, 1])),
            "text": draw(st.sampled_from(["ISM", "Ism", "rir", "", "anechoic", "modified", "ism ", "None", "randomized"])),
            "name": draw(st.sampled_from(["samplerat", "sample_rate", "foo", "Rt60", "seed", "max_room_ir_len", "sim_block_size"]))}


def bad(case, ctx):
    v, sort = dict(case["v"]), case["sort"]
    if sort == "default":
        info = cu.load_default_config()
        want = default_values()
        expect(info, want, "default configuration")
        expect(SimulatorSetup().sim_info, want, "configuration of a new set-up")
        for r in ("none", "direct", "random", "ism"):
            if cu.SimulatorInfo(**dict(v, reverb=r)).reverb != r:
                raise Violation(f"reverb {r}")
        return
    if sort == "reverb":
        v["reverb"] = case["text"]
    elif sort in ("room_size", "room_center"):
        v[sort] = v[sort] + [1.0] if case["by"] == 1 else v[sort][:-1]
    elif sort == "dims":
        v["spatial_dims"] += case["by"]
    elif sort == "missing":
        del v[case["field"]]
    elif sort == "unknown":
        v[case["name"]] = 3
    tries = {}
    if sort not in ("dropped file", "not a mapping"):
        tries["constructed"] = lambda: cu.SimulatorInfo(**v)
    with scratch_dir() as d:
        if sort == "not a mapping":
            (d / "config.yaml").write_text(["[1, 2, 3]\n", "", "just text\n"][case["by"] + 1])
        elif sort != "dropped file":
            (d / "config.yaml").write_text(yaml.safe_dump(v))
        tries["loaded from folder"] = lambda: cu.load_from_file(d)
        tries["loaded from file"] = lambda: cu.load_from_file(d / "config.yaml")
        tries["used for a set-up"] = lambda: SimulatorSetup(config_path=d)
        for how, f in tries.items():
            try:
                f()
            except Exception:
                continue
            raise Violation(f"invalid configuration ({sort}: {({k: v.get(k) for k in ('reverb', 'spatial_dims', 'room_size', 'room_center')} if sort != 'missing' else case['field'])}) can be {how}")
    ctx.label("rejected:" + sort)
    ctx.nt(True)


TESTS = [
    Test("roundtrip", rt_st(), roundtrip, quick=2400, thorough=30000),
    Test("hand", hand_st(), hand, quick=1600, thorough=20000),
    Test("results", results_st(), results, quick=600, thorough=6000),
    Test("bad", bad_st(), bad, quick=2000, thorough=20000),
]
