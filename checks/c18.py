"""C18: loading a saved session is equivalent to generating it anew."""
import copy
import hashlib
import json
import os
import pathlib

import numpy as np
from hypothesis import strategies as st

import aspsim.array as ar
import aspsim.room.trajectory as tr
from aspsim.simulator import SimulatorSetup
from vlib.harness import Test, Violation
from vlib.simh import TableSource, apply_cfg, assert_close, ir_of, record, rng_of, run, scratch_dir, table

RULE = ("A case is a history of simulations that use one session folder, differing in none or one parameter, with damaged and foreign entries put "
        "into the folder in between. Non-trivial: at least one session is loaded and at least one further session is saved in the history; for "
        "load_from_path, at least one generated path.")
ASSUMPTIONS = ["the session folder exists", "settings are of the documented types (lists, numbers), positions are compared exactly",
               "sessions are at rest while a simulator is created (no concurrent writers)",
               "whether a session is reused if only settings differ that do not influence any of its responses (e.g. the room size without room responses, or the trajectory) is left open",
               "sources can be serialised"]
WARM = "dynamic"
TYPES = ["none", "direct", "random", "ism"]
IRRELEVANT = ["tot_samples", "sim_buffer", "sim_chunk_size", "export_frequency", "start_sources_before_0", "save_source_contributions",
              "output_smoothing", "array_update_freq", "source", "order", "advance"]
ACOUSTIC = ["samplerate", "c", "rt60", "room_size", "room_center", "max_room_ir_length", "extra_delay", "highpass_cutoff", "randomized_ism"]
ARRAYS = ["move", "nudge", "rename", "number", "kind", "static", "groups"]
PATHS = ["new mic", "drop", "type", "default", "user value", "user length", "user removed", "user added", "user tiny"]


@st.composite
def base_st(draw):
    size = [draw(st.sampled_from([2.0, 2.5, 3.0])) for _ in range(3)]
    sabine = 0.161 * np.prod(size) / (2 * (size[0] * size[1] + size[0] * size[2] + size[1] * size[2]))
    cfg = {"tot_samples": draw(st.integers(20, 40)), "sim_buffer": draw(st.integers(8, 16)), "sim_chunk_size": draw(st.integers(8, 20)),
           "samplerate": draw(st.sampled_from([500, 800])), "reverb": draw(st.sampled_from(["ism", "ism", "random", "none"])),
           "room_size": size, "room_center": [draw(st.sampled_from([0.0, 0.5, -1.0])) for _ in range(3)],
           "rt60": draw(st.sampled_from([0.0, round(1.4 * sabine, 3)])), "max_room_ir_length": draw(st.integers(20, 60)),
           "extra_delay": draw(st.integers(1, 8)), "highpass_cutoff": draw(st.sampled_from([0.0, 0.0, 20.0])),
           "array_update_freq": draw(st.integers(1, 4)), "auto_save_load": True}
    src = [{"name": "S%d" % i, "n": draw(st.integers(1, 2)), "kind": draw(st.sampled_from(["free", "free", "ctrl"])), "seed": draw(st.integers(0, 99))}
           for i in range(draw(st.integers(1, 2)))]
    src[0]["kind"] = "free"
    mics = [{"name": "M%d" % i, "n": draw(st.integers(1, 2)), "moving": draw(st.integers(0, 3)) == 0} for i in range(draw(st.integers(1, 2)))]
    for m in mics:
        if m["moving"]:
            m["n"] = 1
            cfg["array_update_freq"] = draw(st.integers(4, 9))
            cfg["rt60"] = draw(st.sampled_from([0.0, 0.0, 0.0, cfg["rt60"]]))
    types, user = {}, {}
    for s in src:
        for m in mics:
            k = f"{s['name']}>{m['name']}"
            what = draw(st.sampled_from(["default", "default", "type", "user"]))
            if what == "user" and not m["moving"]:
                user[k] = {"len": draw(st.integers(1, 12)), "seed": draw(st.integers(0, 999)), "scale": draw(st.sampled_from([1.0, 1.0, 1e-10]))}
            elif what == "type":
                types[k] = draw(st.sampled_from([t for t in TYPES if t != "direct" or s["n"] == m["n"]]))
    return {"cfg": cfg, "src": src, "mics": mics, "types": types, "user": user, "order": 0, "advance": 0}


step_st = st.one_of(
    st.fixed_dictionaries({"op": st.just("run"), "delta": st.one_of(st.just("nothing"), st.just("nothing"), st.sampled_from(IRRELEVANT),
                                                                    st.sampled_from(ACOUSTIC), st.sampled_from(ACOUSTIC), st.sampled_from(ARRAYS), st.sampled_from(PATHS)),
                           "i": st.integers(0, 5), "back": st.integers(0, 2)}),
    st.fixed_dictionaries({"op": st.just("run"), "delta": st.just("nothing"), "i": st.just(0), "back": st.integers(0, 3)}),
    st.fixed_dictionaries({"op": st.just("damage"), "i": st.integers(0, 9),
                           "how": st.sampled_from(["no config", "no arrays", "truncated arrays", "empty arrays", "garbage arrays", "other object",
                                                   "unknown key", "missing key", "invalid yaml", "yaml list", "empty config", "config is folder"])}),
    st.fixed_dictionaries({"op": st.just("foreign"), "i": st.integers(0, 9),
                           "how": st.sampled_from(["empty folder", "folder with file", "file", "file named session", "nested session", "dotfile"])}))
hist_st = st.fixed_dictionaries({"base": base_st(), "steps": st.lists(step_st, min_size=2, max_size=7), "as_str": st.booleans(), "seed": st.integers(0, 9999)})


def vary(scene, delta, i):
    """a copy of the scene with one parameter changed; None if the change does not apply"""
    sc = copy.deepcopy(scene)
    cfg = sc["cfg"]
    if delta == "nothing":
        return sc
    if delta in cfg:
        v = cfg[delta]
        if delta == "rt60":
            if v == 0:
                sz = cfg["room_size"]
                cfg["rt60"] = round(1.6 * 0.161 * sz[0] * sz[1] * sz[2] / (2 * (sz[0] * sz[1] + sz[0] * sz[2] + sz[1] * sz[2])), 3)
            else:
                cfg["rt60"] = round(v + 0.011, 3)
        elif delta in ("room_size", "room_center"):
            v[i % 3] = round(v[i % 3] + (0.25 if delta == "room_size" else 0.02), 3)
        elif delta == "c":
            cfg["c"] = v + 5.0
        elif delta == "samplerate":
            cfg["samplerate"] = v + 50
        elif delta == "highpass_cutoff":
            cfg["highpass_cutoff"] = v + 15.0
        else:
            cfg[delta] = v + 1 + i % 2
        return sc
    if delta in ("start_sources_before_0", "save_source_contributions", "randomized_ism"):
        cfg[delta] = not cfg.get(delta, False)
    elif delta == "c":
        cfg["c"] = cfg.get("c", 343.0) - 6.0
    elif delta in ("export_frequency", "output_smoothing"):
        cfg[delta] = 700 + i if delta == "export_frequency" else 2 + i
    elif delta == "source":
        sc["src"][0]["seed"] += 1
    elif delta == "advance":
        sc["advance"] += 1 + i
    elif delta == "order":
        sc["order"] += 1 + i
    elif delta in ("move", "nudge"):
        a = (sc["src"] + sc["mics"])[i % (len(sc["src"]) + len(sc["mics"]))]
        a["shift"] = a.get("shift", 0) + (0.05 if delta == "move" else 1e-6)
    elif delta == "rename":
        a = (sc["src"] + sc["mics"])[i % (len(sc["src"]) + len(sc["mics"]))]
        old, a["name"] = a["name"], a["name"] + "x"
        for d in ("types", "user"):
            sc[d] = {">".join(a["name"] if p == old else p for p in k.split(">")): v for k, v in sc[d].items()}
    elif delta == "number":
        m = sc["mics"][i % len(sc["mics"])]
        if m["moving"] or any(t == "direct" for t in sc["types"].values()):
            return None
        m["n"] += 1
    elif delta == "new mic":
        if len(sc["mics"]) > 2 or "direct" in (cfg["reverb"], *sc["types"].values()):
            return None
        sc["mics"].append({"name": "M%d" % (7 + i), "n": 1 + i % 2, "moving": False})
        if any(a["name"] == sc["mics"][-1]["name"] for a in sc["mics"][:-1]):
            return None
    elif delta == "drop":
        a = (sc["mics"][1:] + sc["src"][1:])
        if not a:
            return None
        a = a[i % len(a)]
        for g in ("src", "mics"):
            sc[g] = [x for x in sc[g] if x is not a]
        for g in ("types", "user"):
            sc[g] = {k: v for k, v in sc[g].items() if a["name"] not in k.split(">")}
    elif delta == "kind":
        s = sc["src"][i % len(sc["src"])]
        s["kind"] = "ctrl" if s["kind"] == "free" else "free"
    elif delta == "static":
        m = sc["mics"][i % len(sc["mics"])]
        if not m["moving"]:
            return None
        m["moving"] = False
    elif delta == "groups":
        m = sc["mics"][i % len(sc["mics"])]
        if m["moving"] or m["n"] < 2:
            return None
        m["groups"] = not m.get("groups", False)
    elif delta == "default":
        cfg["reverb"] = [t for t in ("ism", "random", "none") if t != cfg["reverb"]][i % 2]
    else:
        s, m = sc["src"][i % len(sc["src"])], sc["mics"][(i // 2) % len(sc["mics"])]
        k = f"{s['name']}>{m['name']}"
        if delta == "type":
            if k in sc["user"]:
                return None
            now = sc["types"].get(k, cfg["reverb"])
            sc["types"][k] = [t for t in ("ism", "random", "none") if t != now][i % 2]
        elif delta == "user added":
            if k in sc["user"] or m["moving"]:
                return None
            sc["user"][k] = {"len": 5, "seed": 3 + i, "scale": 1.0}
        else:
            if not sc["user"]:
                return None
            k = sorted(sc["user"])[i % len(sc["user"])]
            u = sc["user"][k]
            if delta == "user value":
                u["seed"] += 1
            elif delta == "user length":
                u["len"] += 1
            elif delta == "user tiny":
                u["eps"] = u.get("eps", 0) + 1
            else:
                del sc["user"][k]
    return sc


def user_ir(u, ns, nm):
    p = ir_of(u["seed"], ns, nm, u["len"]) * u["scale"]
    if u.get("eps"):
        p[0, 0, 0] += u["eps"] * 1e-7 * u["scale"]
    return p


def pos_of(sc, a, i):
    # relative to fixed coordinates, so that room changes do not move the arrays
    r = rng_of(1800 + i)
    p = np.array([0.0, 0.0, 0.0]) + r.uniform(-0.25, 0.25, size=(4, 3)) + np.array([0.3, 0.3, -0.1])
    c = np.clip(np.array(BASE_CENTER), -2, 2)
    p = p + c + np.array([[a.get("shift", 0), 0, 0]])
    return p[:a["n"]]


BASE_CENTER = [0.0, 0.0, 0.0]


def final_types(sc):
    out = {}
    for s in sc["src"]:
        for m in sc["mics"]:
            k = f"{s['name']}>{m['name']}"
            out[k] = "modified" if k in sc["user"] else sc["types"].get(k, sc["cfg"]["reverb"])
    return out


def keys(sc):
    """(settings that determine the responses, all acoustic settings and arrays)"""
    t = final_types(sc)
    cfg = {**{"c": 343.0, "randomized_ism": False}, **sc["cfg"]}
    arrs = {a["name"]: [a.get("kind", "mic"), a["n"], a.get("shift", 0)] for a in sc["src"] + sc["mics"]}
    gen = set(t.values()) - {"modified", "none"}
    strict = {"arrays": arrs, "types": t, "user": sc["user"]}
    if gen:
        strict["hp"] = cfg["highpass_cutoff"]
        if cfg["highpass_cutoff"] > 0:
            strict["sr"] = cfg["samplerate"]
    if gen & {"random", "ism"}:
        strict["len"] = cfg["max_room_ir_length"]
    if "ism" in gen:
        strict["room"] = [cfg[k] for k in ACOUSTIC]
    full = dict(strict, all=[cfg[k] for k in ACOUSTIC], reverb=cfg["reverb"], moving={m["name"]: m["moving"] for m in sc["mics"]},
                groups={m["name"]: m.get("groups", False) for m in sc["mics"]})
    return json.dumps(strict, sort_keys=True), json.dumps(full, sort_keys=True)


def setup(sc, session_folder, fig=None):
    su = SimulatorSetup(fig, session_folder)
    apply_cfg(su.sim_info, dict(sc["cfg"], auto_save_load=session_folder is not None))
    items = sc["src"] + sc["mics"]
    idx = list(range(len(items)))
    k = sc["order"] % len(idx)
    sources = {}
    for i in idx[k:] + idx[:k]:
        a = items[i]
        p = pos_of(sc, a, i)
        if "moving" in a:
            if a["moving"]:
                q = np.concatenate((p, p + np.array([[0.1, 0.2, 0.05]])))
                su.add_array(ar.MicArray(a["name"], tr.LinearTrajectory(q, 0.08, sc["cfg"]["samplerate"], mode="constant_time")))
            elif a.get("groups"):
                su.add_mics(a["name"], [p[:1], p[1:]])
            else:
                su.add_mics(a["name"], p)
        elif a["kind"] == "free":
            src = TableSource(table(a["seed"] + 50 * i, a["n"], 400))
            if sc["advance"]:
                src.get_samples(sc["advance"])
            sources[a["name"]] = src
            su.add_free_source(a["name"], p, src)
        else:
            su.add_controllable_source(a["name"], p)
    n = {a["name"]: a["n"] for a in items}
    for key, t in sc["types"].items():
        s, m = key.split(">")
        su.arrays.set_path_types({s: {m: t}})
    for key, u in sc["user"].items():
        s, m = key.split(">")
        su.set_path(s, m, user_ir(u, n[s], n[m]))
    return su


def outputs(sim, sc):
    names = [(a["name"], a["n"]) for a in sc["src"] + sc["mics"]]
    if sc["cfg"].get("save_source_contributions"):
        names += [(f"{s['name']}~{m['name']}", m["n"]) for s in sc["src"] for m in sc["mics"]]
    for k, n in names:
        record(sim, k, n)
    run(sim)
    return {k: sim.diag.diagnostics[k].get_output()[:, :sc["cfg"]["tot_samples"]] for k, _ in names}


def snapshot(folder):
    out = {}
    for d, dirs, files in os.walk(folder):
        for f in files:
            p = os.path.join(d, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, folder)] = hashlib.sha1(fh.read()).hexdigest()
        for x in dirs:
            out[os.path.relpath(os.path.join(d, x), folder) + "/"] = ""
    return out


def damage(p, how):
    cfg, arr = p / "config.yaml", p / "arrays.pickle"
    if how == "no config":
        cfg.unlink()
    elif how == "no arrays":
        arr.unlink()
    elif how == "truncated arrays":
        b = arr.read_bytes()
        arr.write_bytes(b[:len(b) // 2])
    elif how == "empty arrays":
        arr.write_bytes(b"")
    elif how == "garbage arrays":
        arr.write_bytes(bytes(rng_of(1).integers(0, 256, 300).astype(np.uint8)))
    elif how == "other object":
        import pickle
        arr.write_bytes(pickle.dumps({"arrays": 3}))
    elif how == "unknown key":
        cfg.write_text(cfg.read_text() + "\nnot_a_setting: 3\n")
    elif how == "missing key":
        cfg.write_text("\n".join(l for l in cfg.read_text().splitlines() if not l.startswith("samplerate")))
    elif how == "invalid yaml":
        cfg.write_text(cfg.read_text() + "\n}:][ {\n")
    elif how == "yaml list":
        cfg.write_text("- 1\n- 2\n")
    elif how == "empty config":
        cfg.write_text("")
    else:
        cfg.unlink()
        cfg.mkdir()


def foreign(folder, how, n):
    if how == "empty folder":
        (folder / f"empty{n}").mkdir()
    elif how == "folder with file":
        (folder / f"notes{n}").mkdir()
        (folder / f"notes{n}" / "readme.txt").write_text("x")
    elif how == "file":
        (folder / f"file{n}.txt").write_text("x")
    elif how == "file named session":
        (folder / f"session_2020_01_01_00_0{n}").write_text("x")
    elif how == "nested session":
        (folder / f"old{n}" / "session_2020_01_01_00_00_0").mkdir(parents=True)
        (folder / f"old{n}" / "session_2020_01_01_00_00_0" / "config.yaml").write_text("tot_samples: 3\n")
    else:
        (folder / ".cache").write_text("x")


def history(case, ctx):
    global BASE_CENTER
    BASE_CENTER = list(case["base"]["cfg"]["room_center"])
    with scratch_dir() as d:
        folder = d / "sessions"
        folder.mkdir()
        saved = []              # dicts: path, strict, full, paths, scene
        scenes = [case["base"]]
        loads = saves = 0
        for k, stp in enumerate(case["steps"]):
            before = snapshot(folder)
            if stp["op"] == "damage":
                alive = [s for s in saved if s["ok"]]
                if alive:
                    s = alive[stp["i"] % len(alive)]
                    damage(s["path"], stp["how"])
                    s["ok"] = False
                    ctx.label("damage:" + stp["how"])
                continue
            if stp["op"] == "foreign":
                foreign(folder, stp["how"], k)
                ctx.label("foreign:" + stp["how"])
                continue
            sc = vary(scenes[-1 - stp["back"] % len(scenes)], stp["delta"], stp["i"])
            if sc is None:
                continue
            scenes.append(sc)
            what = f"step {k} ({stp['delta']})"
            seed = (case["seed"] + 31 * k) % 2 ** 31
            np.random.seed(seed)
            sim = setup(sc, str(folder) if case["as_str"] else folder).create_simulator()
            after = snapshot(folder)
            gone = [f for f in before if after.get(f) != before[f]]
            if gone:
                raise Violation(f"{what}: existing entries of the session folder changed: {gone[:3]}")
            new = [p for p in folder.iterdir() if p.is_dir() and p.name + "/" not in before]
            extra = [f for f in after if f not in before and not any(f == p.name + "/" or f.startswith(p.name + "/") for p in new)]
            if extra or len(new) > 1:
                raise Violation(f"{what}: created {[p.name for p in new]} and {extra[:3]} in the session folder")
            strict, full = keys(sc)
            ok = [s for s in saved if s["ok"]]
            allowed = [s for s in ok if s["strict"] == strict]
            required = [s for s in ok if s["full"] == full]
            np.random.seed(seed)
            ref = setup(sc, None).create_simulator()
            paths = {k2: sim.arrays.paths[k2.split(">")[0]][k2.split(">")[1]].copy() for k2 in final_types(sc)}
            refp = {k2: ref.arrays.paths[k2.split(">")[0]][k2.split(">")[1]] for k2 in paths}
            if not new:
                loads += 1
                ctx.label("loaded:" + stp["delta"])
                if not allowed:
                    raise Violation(f"{what}: no new session was saved although no session matches {'(all complete sessions differ from the set-up)' if ok else '(there are no complete sessions)'}")
                if not any(all(s["paths"][k2].shape == v.shape and np.array_equal(s["paths"][k2], v) for k2, v in paths.items()) for s in allowed):
                    raise Violation(f"{what}: the loaded responses are not those of the matching session")
            else:
                saves += 1
                ctx.label("saved:" + stp["delta"])
                if required:
                    raise Violation(f"{what}: a new session was generated although a session of the same arrays and settings is there")
                for f in ("config.yaml", "arrays.pickle"):
                    if not (new[0] / f).is_file():
                        raise Violation(f"{what}: the saved session has no {f}")
                saved.append({"path": new[0], "strict": strict, "full": full, "paths": paths, "ok": True, "scene": sc})
            rnd = sc["cfg"].get("randomized_ism", False)
            for k2, t in final_types(sc).items():
                if not new and (t == "random" or (t == "ism" and rnd)):
                    ref.arrays.paths[k2.split(">")[0]][k2.split(">")[1]] = paths[k2].copy()
                else:
                    assert_close(paths[k2], refp[k2], f"{what}: path {k2} of type {t} {'loaded' if not new else 'generated'}", 1e-12)
                a, b = k2.split(">")
                if sim.arrays.path_type[a][b] != t or sim.arrays.path_info[f"{a}->{b}"].get("type") != t:
                    raise Violation(f"{what}: path {k2} of type {t} is reported as {sim.arrays.path_type[a][b]} / {sim.arrays.path_info[f'{a}->{b}'].get('type')}")
            if list(sim.arrays.arrays) != list(ref.arrays.arrays):
                raise Violation(f"{what}: arrays {list(sim.arrays.arrays)}")
            for a in sim.arrays:
                if a.metadata != ref.arrays[a.name].metadata or not np.array_equal(a.pos, ref.arrays[a.name].pos):
                    raise Violation(f"{what}: array {a.name}: {a.metadata}, not {ref.arrays[a.name].metadata}")
            if sc["cfg"].get("randomized_ism") and any(m["moving"] for m in sc["mics"]):
                continue            # every position update draws new numbers
            if any(m["moving"] for m in sc["mics"]):
                if "random" in final_types(sc).values():
                    continue
            np.random.seed(5)
            got = outputs(sim, sc)
            np.random.seed(5)
            want = outputs(ref, sc)
            for n2 in want:
                assert_close(got[n2], want[n2], f"{what}: {n2} {'with a loaded session' if not new else 'after saving a session'}", 1e-10)
        ctx.nt(loads > 0 and saves > 1)


# ---------------------------------------------------------------- one parameter, any size of difference
@st.composite
def pair_st(draw):
    size = [draw(st.floats(1.8, 3.2)) for _ in range(3)]
    sab = 0.161 * np.prod(size) / (2 * (size[0] * size[1] + size[0] * size[2] + size[1] * size[2]))
    return {"size": size, "center": [draw(st.sampled_from([0.0, 0.3, -1.2])) for _ in range(3)], "rt60": float(sab * draw(st.floats(1.5, 2.0))),
            "fs": draw(st.sampled_from([500, 800, 1000])), "c": draw(st.sampled_from([343.0, 340, 345.5])), "len": draw(st.integers(30, 50)),
            "extra": draw(st.integers(1, 8)), "hp": draw(st.sampled_from([0, 20.0, 20, 31.7])), "n": [draw(st.integers(1, 2)), draw(st.integers(1, 3))],
            "what": draw(st.sampled_from(["rt60", "rt60", "room_size", "room_center", "c", "highpass_cutoff", "samplerate", "max_room_ir_length", "extra_delay",
                                          "source position", "mic position", "user path", "user path", "samplerate", "array", "array"])),
            "type": draw(st.sampled_from(["ism", "ism", "ism", "direct", "random"])),
            "axis": draw(st.integers(0, 2)), "elem": draw(st.integers(0, 99)), "delta": draw(st.sampled_from([1e-7, 1e-5, 1e-3, 3e-3, 0.01, 0.03, 0.08])),
            "sign": draw(st.sampled_from([-1, 1])), "seed": draw(st.integers(0, 999)), "again": draw(st.booleans())}


def pair(case, ctx):
    """A is saved, B that differs in one number is not served from A, A is (also after B was saved)"""
    w, dl = case["what"], case["delta"] * case["sign"]
    case.setdefault("type", "ism")

    def make(second, folder):
        cfg = {"reverb": case["type"], "room_size": list(case["size"]), "room_center": list(case["center"]), "rt60": case["rt60"], "samplerate": case["fs"],
               "c": case["c"], "max_room_ir_length": case["len"], "extra_delay": case["extra"], "highpass_cutoff": case["hp"], "auto_save_load": folder is not None,
               "tot_samples": 10, "sim_buffer": 8, "sim_chunk_size": 8}
        r = rng_of(case["seed"], 181)
        n = [case["n"][0], case["n"][1] if case["type"] != "direct" else case["n"][0]]
        src = np.array(case["center"]) + r.uniform(-0.3, 0.3, size=(n[0], 3)) - 0.3
        mic = np.array(case["center"]) + r.uniform(-0.3, 0.3, size=(n[1], 3)) + 0.35
        u = ir_of(case["seed"], n[0], n[1], 5)
        if second:
            if w in ("room_size", "room_center"):
                cfg[w][case["axis"]] += dl * (1 if w == "room_center" else 0.5)
            elif w in ("samplerate", "max_room_ir_length", "extra_delay"):
                cfg[w] += 1 + case["elem"] % 3
            elif w in ("source position", "mic position"):
                x = src if w[0] == "s" else mic
                x[case["elem"] % len(x), case["axis"]] += dl
            elif w == "user path":
                x = u.reshape(-1)
                x[case["elem"] % x.size] += dl
            elif w == "highpass_cutoff" and cfg[w] == 0:
                cfg[w] = 20.0 + dl
            elif w != "array":
                cfg[w] *= 1 + dl
        su = SimulatorSetup(None, folder)
        apply_cfg(su.sim_info, cfg)
        su.add_controllable_source("S", src)
        su.add_mics("M", mic)
        su.add_controllable_source("U", src + 0.04)
        su.set_path("U", "M", u)
        if w == "array" and second == (case["sign"] > 0):       # the one of them has a further array
            x = ["E", "A", "Z"][case["elem"] % 3]
            (su.add_mics if case["axis"] else su.add_controllable_source)(x, (mic if case["axis"] else src) + 0.07)
        np.random.seed(case["seed"])
        sim = su.create_simulator()
        if [a.name for a in sim.arrays] != [a.name for a in su.arrays]:
            raise Violation(f"arrays {[a.name for a in sim.arrays]} of a set-up with {[a.name for a in su.arrays]}")
        return sim.arrays.paths

    def check(got, want, what):
        for s in ("S", "U"):
            assert_close(got[s]["M"], want[s]["M"], f"{what}: path of {s}", 1e-12)
    ref = [make(False, None), make(True, None)]
    with scratch_dir() as d:
        for k, second in enumerate((False, True, False, True) if case["again"] else (False, True, False)):
            n0 = len(list(d.iterdir()))
            what = f"{'A' if not second else 'B'} (step {k}; they differ by {dl} in {w})"
            check(make(second, d), ref[second], what)
            new = len(list(d.iterdir())) - n0
            must = not all(ref[0][a]["M"].shape == ref[1][a]["M"].shape and np.array_equal(ref[0][a]["M"], ref[1][a]["M"]) for a in ("S", "U")) or w == "array"
            if case["type"] == "ism" or must:
                if new == (1 if k < 2 else 0):
                    continue
                raise Violation(f"{what}: {new} sessions saved, expected {1 if k < 2 else 0}")
    ctx.label(f"pair:{w}")
    ctx.label(f"pair type:{case['type']}")
    ctx.nt(True)


# ---------------------------------------------------------------- load_from_path
lfp_st = st.fixed_dictionaries({"base": base_st(), "as_str": st.booleans(), "fig": st.booleans(), "seed": st.integers(0, 9999)})


def load_path(case, ctx):
    global BASE_CENTER
    sc = case["base"]
    BASE_CENTER = list(sc["cfg"]["room_center"])
    with scratch_dir() as d:
        (d / "sessions").mkdir()
        (d / "figs").mkdir()
        np.random.seed(case["seed"])
        sim0 = setup(sc, d / "sessions").create_simulator()
        sess = [p for p in (d / "sessions").iterdir()]
        if len(sess) != 1:
            raise Violation(f"saving one session created {[p.name for p in sess]}")
        before = snapshot(d / "sessions")
        su = SimulatorSetup(d / "figs" if case["fig"] else None)
        su.load_from_path(str(sess[0]) if case["as_str"] else sess[0])
        want_cfg = dict(vars(sim0.sim_info))
        if dict(vars(su.sim_info)) != want_cfg:
            raise Violation(f"load_from_path: settings {dict(vars(su.sim_info))}, saved {want_cfg}")
        sim = su.create_simulator()
        if snapshot(d / "sessions") != before:
            raise Violation("load_from_path changed the saved session")
        types = final_types(sc)
        for k, t in types.items():
            a, b = k.split(">")
            moving = any(m["name"] == b and m["moving"] for m in sc["mics"])
            if not (moving and (t == "random")):
                assert_close(sim.arrays.paths[a][b], sim0.arrays.paths[a][b], f"load_from_path: path {k} of type {t}", 1e-12)
        if not (any(m["moving"] for m in sc["mics"]) and "random" in types.values()):
            got, want = outputs(sim, sc), outputs(sim0, sc)
            for n2 in want:
                assert_close(got[n2], want[n2], f"load_from_path: {n2}", 1e-10)
        ctx.label("figs" if case["fig"] else "no figs")
        ctx.label("moving" if any(m["moving"] for m in sc["mics"]) else "static")
        ctx.nt(any(t != "modified" for t in types.values()))


# ---------------------------------------------------------------- directional elements
DIRS = ["omni", "cardioid", "hypercardioid", "supercardioid", "bidirectional"]
direct_st = st.fixed_dictionaries({
    "n": st.lists(st.integers(1, 3), min_size=2, max_size=2), "first": st.booleans(), "who": st.sampled_from(["mic", "src", "free"]),
    "kinds": st.lists(st.sampled_from(DIRS + ["omni", "omni"]), min_size=3, max_size=3), "explicit": st.booleans(), "seed": st.integers(0, 999),
    "rounds": st.integers(1, 2)})


def directive(case, ctx):
    """an array with directional elements is never served from a session of an array with other elements"""
    ns, nm = case["n"]
    n = nm if case["who"] == "mic" else ns

    def make(kinds, folder):
        su = SimulatorSetup(None, folder)
        apply_cfg(su.sim_info, {"reverb": "ism", "rt60": 0.0, "max_room_ir_length": 40, "auto_save_load": folder is not None,
                                "tot_samples": 10, "sim_buffer": 8, "sim_chunk_size": 8})
        r = rng_of(case["seed"], 182)
        ps, pm = r.uniform(-0.5, 0, size=(ns, 3)), r.uniform(0, 0.5, size=(nm, 3))
        v = r.normal(size=(n, 3))
        kw = {"directivity_type": list(kinds), "directivity_dir": v / np.linalg.norm(v, axis=-1, keepdims=True)} if kinds else {}
        src_kw, mic_kw = (kw, {}) if case["who"] != "mic" else ({}, kw)
        if case["who"] == "free":
            su.add_array(ar.FreeSourceArray("S", ps, TableSource(table(1, ns, 400)), **src_kw))
        else:
            su.add_array(ar.ControllableSourceArray("S", ps, **src_kw))
        su.add_array(ar.MicArray("M", pm, **mic_kw))
        try:
            return su.create_simulator().arrays.paths["S"]["M"]
        except NotImplementedError:
            return None
    special = case["kinds"][:n]
    plain = ["omni"] * n if case["explicit"] else None
    ref = {"omni": make(plain, None), "special": make(special, None)}
    with scratch_dir() as d:
        order = (["special", "omni"] if case["first"] else ["omni", "special"]) * case["rounds"] + ["special"]
        for k, w in enumerate(order):
            got = make(plain if w == "omni" else special, d)
            what = f"step {k} of {order}: {case['who']} elements {special if w == 'special' else plain}, session folder used before"
            if (got is None) != (ref[w] is None):
                raise Violation(f"{what}: {'rejected' if got is None else 'accepted'}, without sessions it is {'rejected' if ref[w] is None else 'accepted'}")
            if got is not None:
                assert_close(got, ref[w], what, 1e-12)
    ctx.label("directive:" + ("rejected" if ref["special"] is None else "accepted"))
    ctx.nt(set(special) != {"omni"})


TESTS = [
    Test("history", hist_st, history, quick=600, thorough=9000),
    Test("pair", pair_st(), pair, quick=500, thorough=8000),
    Test("directive", direct_st, directive, quick=120, thorough=1500),
    Test("load_path", lfp_st, load_path, quick=300, thorough=4000),
]
