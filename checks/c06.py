"""C06: state and snapshot diagnostics record the state at the requested times."""
import numpy as np
from hypothesis import strategies as st

import aspsim.processor as aproc
import aspsim.diagnostics.core as dc
import aspsim.diagnostics.diagnostics as dg
import aspsim.diagnostics.diagnosticscollection as dgc
from vlib import simh
from vlib.harness import Test, Violation

RULE = ("A case is one simulation of a processor whose state is an injective function of the number of processed samples, "
        "with several state and snapshot diagnostics of generated frequency, export times and access path (or one access "
        "path on a generated object). Non-trivial: at least two entries/exports before the end and a block size larger than 1, "
        "or a nested access path.")
ASSUMPTIONS = ["the processor state between two calls is constant, so 'after m samples' means after the last block completed at "
               "that point; whether the block ending exactly one sample later is already included is accepted either way, but has "
               "to be the same for all diagnostics and times",
               "a trailing NaN entry in get_output (when the frequency does not divide the total length) is accepted"]


class Obj:
    pass


def laid_out(a, layout):
    """the same values in another memory layout, still writable in place"""
    if layout == "F":
        return np.asfortranarray(a)
    if layout == "strided":
        return np.repeat(a, 2, axis=-1)[..., ::2]
    if layout == "reversed":
        return a[..., ::-1].copy()[..., ::-1]
    if layout == "T":
        return np.ascontiguousarray(np.moveaxis(a, -1, 0)).transpose(tuple(range(1, a.ndim)) + (0,)) if a.ndim > 1 else a
    return a


def phase(a, on):
    """the array, or with a different phase for each element"""
    a = np.asarray(a)
    return a * np.exp(1j * (0.4 + np.arange(a.size).reshape(a.shape))) if on else a


class StateProc(aproc.AudioProcessor):
    def __init__(self, sim_info, arrays, block_size, shape, dim, cx=False, layout="C"):
        super().__init__(sim_info, arrays, block_size)
        self.name = "stateproc"
        self.count = 0
        self.shape, self.dim, self.cx = shape, dim, cx
        t = complex if cx else float
        def zeros(sh):
            return laid_out(np.zeros(sh, t), layout)
        self.vec = zeros(dim)
        self.vec2 = zeros(dim)
        self.scalar = 0.0
        self.tensor = zeros(shape)
        self.mat = zeros((dim, dim))
        self.filt = Obj()
        self.filt.ir = zeros((1, 2, 3))
        self.filt.hist = {"irs": [np.zeros(3), np.zeros(3)]}
        self.store = {"a": [np.zeros(2, t), {"b c": np.zeros(dim, t)}], "k1": self.filt}
        self.update()

    def update(self):
        """in-place updates, so that a diagnostic holding a reference shows the wrong value later"""
        self.scalar = f_scalar(self.count)
        self.vec[:] = phase(f_vec(self.count, self.dim), self.cx)
        self.vec2[:] = phase(f_vec2(self.count, self.dim), self.cx)
        self.tensor[...] = phase(f_tensor(self.count, self.shape), self.cx)
        self.mat[...] = f_mat(self.count, self.dim, self.cx)
        self.filt.ir[...] = phase(f_tensor(self.count, (1, 2, 3)), self.cx)
        for i, x in enumerate(self.filt.hist["irs"]):
            x[:] = f_vec(self.count, 3) + i / 2
        self.store["a"][0][:] = phase(f_vec(self.count, 2), self.cx)
        self.store["a"][1]["b c"][:] = phase(f_vec2(self.count, self.dim), self.cx)

    def process(self, num_samples):
        self.count += num_samples
        self.update()


def f_scalar(m):
    return 3.0 * m + 1


def f_vec(m, d):
    return m + 1000.0 * np.arange(d) + 1


def f_vec2(m, d):
    return -2.0 * m + 500.0 * np.arange(d) + 7


def f_tensor(m, shape):
    return (m + 1) * 1.0 + 10000.0 * np.arange(int(np.prod(shape))).reshape(shape)


def f_mat(m, d, cx=False):
    a = np.diag(np.arange(d) * 10.0 + m - 25) + (0j if cx else 0.0)      # indefinite for small m
    a[0, -1] += 1.0
    if d > 1:
        a[-1, 0] += 1.0
    if cx and d > 1:
        a[0, -1] += 4.0j
        a[-1, 0] -= 4.0j
    return a


def sum_sq(x):
    x = np.asarray(x)
    return float(np.sum(x.real ** 2 + 2 * x.imag ** 2))


def dist(x, y):
    z = np.asarray(x) - 2 * np.asarray(y)
    return float(np.sum(z.real - 3 * z.imag))


STATE = ["vec", "scalar", "tensor", "nested", "summary", "comparison", "power", "eig"]
INSTANT = ["filter", "array", "nestedsnap", "difference", "eigsnap", "list", "object", "dict"]


def make(kind, case, sim, d):
    """returns (diagnostic, value function of m giving the entry as array)"""
    si, dim, cx = sim.sim_info, case["dim"], case["complex"]

    def vec(m, n=dim):
        return phase(f_vec(m, n), cx)

    def vec2(m):
        return phase(f_vec2(m, dim), cx)

    def tensor(m, sh):
        return phase(f_tensor(m, sh), cx)
    shape = tuple(case["shape"])
    if kind in STATE:
        kw = {"save_frequency": d["freq"], "export_func": "npz"}
        if d["export"] != "default":
            kw["export_at"] = d["export"] if isinstance(d["export"], int) else list(d["export"])
        if d["keep"] is not None:
            kw["keep_only_last_export"] = d["keep"]
        if kind == "vec":
            return dg.RecordState("vec", dim, si, **kw), vec
        if kind == "scalar":
            return dg.RecordState("scalar", 1, si, **kw), lambda m: np.array([f_scalar(m)])
        if kind == "tensor":
            return dg.RecordState("tensor", shape, si, **kw), lambda m: tensor(m, shape)
        if kind == "nested":
            return dg.RecordState("store['a'][1]['b c']", dim, si, **kw), vec2
        if kind == "summary":
            return dg.StateSummary(sum_sq, "filt.ir", si, **kw), lambda m: np.array(sum_sq(tensor(m, (1, 2, 3))))
        if kind == "comparison":
            return (dg.StateComparison(dist, "vec", "vec2", si, **kw),
                    lambda m: np.array(dist(vec(m), vec2(m))))
        if kind == "power":
            return dg.StatePower("store['a'][0]", si, **kw), lambda m: np.array(np.mean(np.abs(vec(m, 2)) ** 2))
        lo, hi = case["eig"]
        return (dgc.EigenvaluesOverTime("mat", (lo, hi), si, abs_value=case["abs"], **kw),
                lambda m: (np.abs if case["abs"] else (lambda v: v))(np.sort(np.linalg.eigvalsh(f_mat(m, dim, cx)))[lo:hi + 1]))
    kw = {"export_func": "npz"}
    if d["save"] != "default":
        kw["save_at"] = d["save"] if isinstance(d["save"], int) else (tuple(d["save"]) if d["seq"] == "tuple" else np.array(d["save"]) if d["seq"] == "array" else list(d["save"]))
    if d["keep"] is not None:
        kw["keep_only_last_export"] = d["keep"]
    if kind == "filter":
        return dg.RecordFilter("filt.ir", si, **kw), lambda m: tensor(m, (1, 2, 3))
    if kind == "array":
        return dg.RecordFilter("tensor", si, **kw), lambda m: tensor(m, shape)
    if kind == "list":
        return dg.RecordFilter("filt.hist['irs']", si, **kw), lambda m: np.stack([f_vec(m, 3), f_vec(m, 3) + 0.5])
    if kind == "object":
        return dg.RecordFilter("store['k1']", si, **kw), lambda m: tensor(m, (1, 2, 3))
    if kind == "dict":
        return dg.RecordFilter("filt.hist", si, **kw), lambda m: np.stack([f_vec(m, 3), f_vec(m, 3) + 0.5])
    if kind == "nestedsnap":
        return dg.RecordFilter("store['k1'].ir", si, **kw), lambda m: tensor(m, (1, 2, 3))
    if kind == "difference":
        return dg.RecordFilterDifference("vec", "vec2", si, **kw), lambda m: vec(m) - vec2(m)
    return (dgc.Eigenvalues("mat", si, abs_value=case["abs"], **kw),
            lambda m: (np.abs if case["abs"] else (lambda v: v))(np.sort(np.linalg.eigvalsh(f_mat(m, dim, cx))))[None, None, :])


def plain(kind, x):
    """a recorded snapshot as array"""
    return x.ir if kind == "object" else np.stack(x["irs"]) if kind == "dict" else np.asarray(x)


def same(a, b):
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=1e-9, atol=1e-7))


def t_states(case, ctx):
    case.setdefault("complex", False)
    cfg, bs = case["cfg"], case["block"]
    tot = cfg["tot_samples"]
    with simh.scratch_dir() as base:
        su, _ = simh.build({"cfg": {**cfg, "plot_output": "pdf", "export_frequency": case["freq"]}, "free": [],
                            "mics": [{"name": "mic", "n": 1}], "paths": []}, base_fig_path=base)
        su.add_free_source("src", simh.positions(1, 1), simh.TableSource(np.zeros((1, 1000))))
        sim = su.create_simulator()
        folder = sim.folder_path
        sim.add_processor(StateProc(sim.sim_info, sim.arrays, bs, tuple(case["shape"]), case["dim"], case["complex"], case.get("layout", "C")))
        models = []
        for d in case["diags"]:
            diag, val = make(d["kind"], case, sim, d)
            sim.diag.add_diagnostic(d["name"], diag)
            models.append((d, diag, val))
        simh.run(sim)
        have = {p.name: p for p in folder.glob("*.npz")}
        lags = {0, 1}
        expected = set()

        def restrict(fn, what):
            """fn(lag) -> None or message; keep the lags for which it holds"""
            msgs = {lag: fn(lag) for lag in sorted(lags)}
            ok = {lag for lag, m in msgs.items() if m is None}
            if not ok:
                raise Violation(f"{what}: {msgs[max(msgs)]}")
            lags.intersection_update(ok)

        for d, diag, val in models:
            name = d["name"]

            def m_at(t, lag):
                return ((t + lag) // bs) * bs
            if d["kind"] in STATE:
                times = list(range(d["freq"], tot + 1, d["freq"]))
                out = np.asarray(diag.get_output())

                def check_out(lag):
                    n_extra = out.shape[-1] - len(times)
                    if n_extra not in (0, 1):
                        return f"{out.shape[-1]} entries for the {len(times)} multiples of {d['freq']} up to {tot}"
                    if n_extra and not np.all(np.isnan(out[..., -1])):
                        return f"an entry {out[..., -1]} beyond the total length"
                    for i, t in enumerate(times):
                        want = val(m_at(t, lag))
                        if not same(out[..., i], want):
                            return f"entry {i} (time {t}) is {np.ravel(out[..., i])[:4]}, expected {np.ravel(want)[:4]}"
                restrict(check_out, f"{d['kind']} diagnostic saved every {d['freq']} samples, block size {bs}")
                if d["export"] == "default":
                    exports = list(range(case["freq"], tot + 1, case["freq"]))
                elif isinstance(d["export"], int):
                    exports = list(range(d["export"], tot + 1, d["export"]))
                else:
                    exports = list(d["export"])
            else:
                times = None
                f = case["freq"] if d["save"] == "default" else d["save"]
                exports = list(range(f, tot + 1, f)) if isinstance(f, int) else list(f)
                if exports:
                    out = plain(d["kind"], diag.get_output())

                    def check_last(lag):
                        want = val(m_at(exports[-1], lag))
                        if not same(out, want):
                            return f"holds {np.ravel(out)[:6]} at the end, the value then was {np.ravel(want)[:6]}"
                    restrict(check_last, f"{d['kind']} snapshot at {exports[-1]} (block {bs})")
            for e in (exports[-1:] if d["keep"] else exports):
                fname = f"{name}_{e}.npz"
                expected.add(fname)
                if fname not in have:
                    raise Violation(f"{d['kind']} diagnostic: export {fname} missing, present: {sorted(have)[:8]}")
                with np.load(have[fname], allow_pickle=d["kind"] in ("object", "dict")) as z:
                    if list(z.keys()) != [name]:
                        raise Violation(f"{fname} holds {list(z.keys())}")
                    got = plain(d["kind"], z[name].item() if d["kind"] in ("object", "dict") else z[name])

                def check_exp(lag):
                    if times is None:
                        want = val(m_at(e, lag))
                    else:
                        sel = [t for t in times if t - 1 < e]
                        if not sel:
                            return None if got.size == 0 else f"holds {got.shape} values although no entry is before {e}"
                        want = np.stack([val(m_at(t, lag)) for t in sel], axis=-1)
                        if want.ndim == 1:
                            want = want[None, :]
                    if not same(got, want):
                        return f"holds {got.shape} {np.ravel(got)[:6]}, expected {want.shape} {np.ravel(want)[:6]}"
                restrict(check_exp, f"{d['kind']} diagnostic, export file {fname} (block {bs}, freq {d.get('freq')}, save {d.get('save')})")
        extra = sorted(set(have) - expected)
        if extra:
            raise Violation(f"unexpected export files {extra[:5]}")
        for d in case["diags"]:
            ctx.label("kind_" + d["kind"])
        ctx.nt(bs > 1 and len(expected) >= 2)


@st.composite
def st_states(draw, kinds=STATE + INSTANT):
    bs = draw(st.integers(1, 12))
    cfg = draw(simh.cfg_st(bs, max_tot=70, max_chunk=30))
    tot = cfg["tot_samples"]
    dim = draw(st.integers(1, 4))
    lo = draw(st.integers(0, dim - 1))
    diags = []
    for i in range(draw(st.integers(1, 4))):
        kind = draw(st.sampled_from(kinds))
        d = {"kind": kind, "name": f"d{i}", "keep": draw(st.sampled_from([None, False, True]))}
        times = st.lists(st.integers(1, tot), min_size=1, max_size=5, unique=True).map(sorted)
        if kind in STATE:
            d["freq"] = draw(st.one_of(st.integers(1, tot), st.integers(1, 8).map(lambda k: k * bs).filter(lambda v: True)))
            d["freq"] = min(d["freq"], tot)
            d["export"] = draw(st.one_of(st.just("default"), st.integers(1, tot), times))
        else:
            d["save"] = draw(st.one_of(st.just("default"), st.integers(1, tot), times))
            d["seq"] = draw(st.sampled_from(["list", "tuple", "array"]))
        diags.append(d)
    return {"cfg": cfg, "block": bs, "dim": dim, "eig": [lo, draw(st.integers(lo, dim - 1))], "abs": draw(st.booleans()), "complex": draw(st.sampled_from([False, False, True])),
            "layout": draw(st.sampled_from(["C", "C", "F", "T", "strided", "reversed"])),
            "shape": draw(st.lists(st.integers(1, 3), min_size=2, max_size=3)), "freq": draw(st.integers(1, tot)), "diags": diags}


def t_access(case, ctx):
    """obj.<attr>([..])* chains over a generated nested structure"""
    leaf = np.arange(3.0)
    steps = case["steps"]
    val = leaf
    # build from the inside out, with decoys next to the wanted entry
    for s in reversed(steps):
        kind = s["k"]
        if kind == "attr":
            o = Obj()
            for dname in ["other", "x_1", "ir2"]:
                setattr(o, dname, "decoy")
            setattr(o, s["v"], val)
            val = o
        elif kind == "key":
            dct = {"decoy": "decoy", s["v"] + "_": "decoy", "0": "decoy"}
            dct[s["v"]] = val
            val = dct
        else:
            i, n = s["v"], s["n"]
            lst = ["decoy%d" % j for j in range(n)]
            lst[i] = val
            val = lst if s["list"] else tuple(lst)
    root = val
    name = ""
    for s in steps:
        if s["k"] == "attr":
            name += ("." if name else "") + s["v"]
        elif s["k"] == "key":
            name += f"['{s['v']}']"
        else:
            name += f"[{s['v']}]"
    got = dc.attritemgetter(name)(root)
    if got is not leaf:
        raise Violation(f"access path {name!r} selected {got!r}")
    ctx.label(f"depth_{len(steps)}")
    ctx.nt(len(steps) >= 2)


@st.composite
def st_access(draw):
    ident = st.sampled_from(["ir", "proc", "a", "filt_1", "W", "x", "other2"])
    key = st.sampled_from(["a", "mic", "b c", "0", "1", "Key_3", "mic~src", "-1"])
    steps = [{"k": "attr", "v": draw(ident)}]
    for _ in range(draw(st.integers(0, 5))):
        k = draw(st.sampled_from(["attr", "key", "idx"]))
        if k == "attr":
            steps.append({"k": k, "v": draw(ident)})
        elif k == "key":
            steps.append({"k": k, "v": draw(key)})
        else:
            n = draw(st.integers(1, 12))
            steps.append({"k": k, "n": n, "v": draw(st.integers(-n, n - 1)), "list": draw(st.booleans())})
    return {"steps": steps}


simh.stub_savefig()
WARM = "static"
TESTS = [Test("states", st_states(), t_states, quick=1750, thorough=17500),
         Test("access", st_access(), t_access, quick=1000, thorough=10000)]
