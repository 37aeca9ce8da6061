"""Helpers to build simulations from JSON scenes and to compute reference signals."""
import os
import shutil
import signal
import tempfile

import numpy as np
from hypothesis import strategies as st

import aspcore.filter as fc
import aspsim.array as ar
import aspsim.processor as aproc
import aspsim.signal.sources as sources
from aspsim.simulator import SimulatorSetup
import aspsim.diagnostics.diagnostics as dg

from vlib.harness import Violation


def scratch():
    base = os.environ.get("VERIF_SCRATCH_W") or os.environ.get("VERIF_SCRATCH") or "/tmp"
    return tempfile.mkdtemp(dir=base)


class scratch_dir:
    """Context manager: a pathlib scratch folder removed afterwards."""

    def __enter__(self):
        import pathlib
        self.p = pathlib.Path(scratch())
        return self.p

    def __exit__(self, *a):
        shutil.rmtree(self.p, ignore_errors=True)


def warm(dynamic=False):
    """Compile the third-party jit filters before the workers fork (does not touch aspsim)."""
    x = np.random.default_rng(0).normal(size=(2, 30))
    for dyn in ([False, True] if dynamic else [False]):
        f = fc.create_filter(ir=np.ones((2, 3, 4)), sum_over_input=True, dynamic=dyn)
        f.process(x[:, 3:9])
        f.process(x[..., 3:4])
        f.process(x[..., 3:4].copy())   # one sample of one channel is contiguous
        if dyn:
            f.update_ir(np.zeros((2, 3, 4)))
            f.process(x[..., 3:4])
    # sliced responses (as left by the highpass filter) have another memory layout
    f = fc.create_filter(ir=np.ones((2, 3, 9))[..., 2:6], sum_over_input=True, dynamic=False)
    f.process(x[..., 3:4])
    if dynamic:
        f = fc.create_filter(ir=np.ones((2, 3, 9))[..., 2:6], sum_over_input=True, dynamic=True)
        f.update_ir(np.ones((2, 3, 9))[..., 2:6])
        f.process(x[..., 3:4])


_PLT_STUBBED = False


def stub_savefig():
    """Figures are not examined by most checks: write a tiny file instead of rendering."""
    global _PLT_STUBBED
    import matplotlib.pyplot as plt
    if _PLT_STUBBED:
        return

    def fake(fname, *a, **k):
        with open(fname, "wb") as f:
            f.write(b"%PDF-stub")
    plt.savefig = fake
    _PLT_STUBBED = True


def rng_of(*key):
    return np.random.default_rng([int(k) & 0xFFFFFFFF for k in key])


class TableSource:
    """A user-supplied source: plays a table (index = number of delivered samples)."""

    def __init__(self, table):
        self.table = table
        self.num_channels = table.shape[0]
        self.metadata = {"type": "table"}
        self.pos = 0
        self.requests = []

    def get_samples(self, n):
        out = self.table[:, self.pos:self.pos + n]
        if out.shape[1] != n:
            raise Violation(f"source asked for {self.pos + n} samples, far more than the simulation length")
        self.pos += n
        self.requests.append(n)
        return out.copy()


def table(seed, n, length, gaps=0):
    t = rng_of(seed, 77).normal(size=(length, n)).T.copy()
    if gaps:                       # bursts: audible for a while, then exactly silent for 'gaps' samples
        t[:, np.arange(length) % (gaps + 7) >= 7] = 0
    return t


def default_cfg(si):
    si.tot_samples = 60
    si.sim_buffer = 20
    si.sim_chunk_size = 30
    si.start_sources_before_0 = False
    si.save_source_contributions = False
    si.array_update_freq = 1
    si.samplerate = 500
    si.c = 343.0
    si.spatial_dims = 3
    si.reverb = "none"
    si.room_size = [4.0, 3.0, 2.5]
    si.room_center = [0.0, 0.0, 0.0]
    si.rt60 = 0.1
    si.max_room_ir_length = 32
    si.randomized_ism = False
    si.extra_delay = 5
    si.highpass_cutoff = 0.0
    si.export_frequency = 1000
    si.plot_output = "none"
    si.output_smoothing = 1
    si.auto_save_load = False


def apply_cfg(si, cfg):
    default_cfg(si)
    for k, v in cfg.items():
        if not hasattr(si, k):
            raise KeyError(k)
        setattr(si, k, v)


def ir_of(seed, n_src, n_mic, length, sparse=False):
    r = rng_of(seed, n_src, n_mic, length)
    p = r.normal(size=(n_src, n_mic, length))
    if sparse:
        p *= r.uniform(size=p.shape) < 0.3
    return p


def positions(seed, n, lim=1.0):
    return rng_of(seed, 5, n).uniform(-lim, lim, size=(n, 3))


def build(scene, base_fig_path=None, source_factory=None):
    """scene: dict with cfg, free [{name,n,seed}], ctrl [{name,n}], mics [{name,n}],
    paths [{src,mic,len,seed}] -> (setup, info)"""
    su = SimulatorSetup(base_fig_path)
    apply_cfg(su.sim_info, scene["cfg"])
    order = scene.get("order") or (["F%d" % i for i in range(len(scene.get("free", [])))]
                                   + ["C%d" % i for i in range(len(scene.get("ctrl", [])))]
                                   + ["M%d" % i for i in range(len(scene["mics"]))])
    cfg = scene["cfg"]
    total = cfg.get("tot_samples", 60) + cfg.get("sim_buffer", 20) * 2 + cfg.get("sim_chunk_size", 30) + 600
    tables = {}
    for tag in order:
        kind, i = tag[0], int(tag[1:])
        if kind == "F":
            s = scene["free"][i]
            tables[s["name"]] = table(s["seed"], s["n"], total, s.get("gaps", 0))
            src = source_factory(s) if source_factory else TableSource(tables[s["name"]])
            su.add_free_source(s["name"], positions(1000 + i, s["n"]), src)
        elif kind == "C":
            s = scene["ctrl"][i]
            su.add_controllable_source(s["name"], positions(2000 + i, s["n"]))
        else:
            m = scene["mics"][i]
            su.add_mics(m["name"], positions(3000 + i, m["n"]))
    nsrc = {s["name"]: s["n"] for s in scene.get("free", []) + scene.get("ctrl", [])}
    nmic = {m["name"]: m["n"] for m in scene["mics"]}
    paths, same = {}, {}
    for p in scene["paths"]:
        ir = ir_of(p["seed"], nsrc[p["src"]], nmic[p["mic"]], p["len"], p.get("sparse", False))
        paths[(p["src"], p["mic"])] = ir
        arg = ir.copy()
        if scene.get("share"):            # the very same array object is given to several pairs
            arg = same.setdefault((ir.shape, ir.tobytes()), arg)
        su.set_path(p["src"], p["mic"], arg)
    return su, {"tables": tables, "paths": paths, "nsrc": nsrc, "nmic": nmic}


def source_timeline(tbl, cfg, length):
    """Source signal on the time axis starting at -(buf-1); sample g is at index buf-1+g."""
    buf = cfg["sim_buffer"]
    out = np.zeros((tbl.shape[0], length + buf - 1))
    start = 0 if cfg.get("start_sources_before_0") else buf - 1
    n = out.shape[1] - start
    out[:, start:] = tbl[:, :n]
    return out


def conv_sum(x, ir):
    """x (n_src, L), ir (n_src, n_mic, K) -> (n_mic, L) full linear convolution, first L samples."""
    L = x.shape[1]
    out = np.zeros((ir.shape[1], L))
    for s in range(ir.shape[0]):
        for m in range(ir.shape[1]):
            out[m] += np.convolve(x[s], ir[s, m])[:L]
    return out


def ref_mics(scene, info, timelines):
    """timelines: dict src -> (n, L) ; returns dict mic -> (n, L)"""
    L = next(iter(timelines.values())).shape[1] if timelines else 0
    out = {}
    for m in scene["mics"]:
        acc = np.zeros((m["n"], L))
        for s, x in timelines.items():
            ir = info["paths"].get((s, m["name"]))
            if ir is not None:
                acc += conv_sum(x, ir)
        out[m["name"]] = acc
    return out


def close(a, b, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    scale = max(1.0, float(np.max(np.abs(b))) if b.size else 1.0)
    return bool(np.all(np.abs(a - b) <= tol * scale)) and bool(np.all(np.isfinite(a) == np.isfinite(b)))


def assert_close(got, want, what, tol=1e-9):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        raise Violation(f"{what}: shape {got.shape} instead of {want.shape}")
    if got.size == 0:
        return
    scale = max(1.0, float(np.max(np.abs(want))))
    bad = ~(np.abs(got - want) <= tol * scale)
    if bad.any():
        i = tuple(int(k) for k in np.argwhere(bad)[0])
        raise Violation(f"{what}: {int(bad.sum())} of {got.size} values wrong, first at {i}: got {got[i]!r}, expected {want[i]!r}")


def finite(x, what):
    if not np.all(np.isfinite(x)):
        raise Violation(f"{what}: {int(np.sum(~np.isfinite(x)))} of {np.size(x)} values are not finite")


class Rec(aproc.AudioProcessor):
    """Harness processor: calls `on_process(self, num_samples)`; records nothing by itself."""

    def __init__(self, sim_info, arrays, block_size, on_process=None, name="proc"):
        super().__init__(sim_info, arrays, block_size)
        self.name = name
        self.count = 0
        self.calls = []
        self.on_process = on_process

    def process(self, num_samples):
        self.calls.append(num_samples)
        if self.on_process is not None:
            self.on_process(self, num_samples)
        self.count += num_samples


def record(sim, name, channels, **kw):
    kw.setdefault("export_func", "npz")
    sim.diag.add_diagnostic(name, dg.RecordSignal(name, sim.sim_info, num_channels=channels, **kw))


def run(sim):
    sim.run_simulation()
    return sim


# ---------------------------------------------------------------- strategies
@st.composite
def cfg_st(draw, min_block=1, max_tot=120, max_buf=40, max_chunk=50):
    """Buffer/chunk/length geometry admissible for processors with block size <= min_block."""
    b = min_block
    buf = draw(st.integers(max(4, b + 1), max(max_buf, b + 3)))
    chunk = draw(st.integers(max(b, 1), max(max_chunk, 2 * b)))
    tot = draw(st.integers(2, max_tot))
    return {"tot_samples": tot, "sim_buffer": buf, "sim_chunk_size": chunk,
            "start_sources_before_0": draw(st.booleans())}


NAMES = ["mic", "src", "a", "zeta", "B", "ls", "error", "ref", "x1", "Noise"]


@st.composite
def scene_st(draw, min_block=1, max_free=3, max_ctrl=0, max_mics=3, min_free=1, max_n=3, max_len=14, max_tot=120, min_ctrl=0):
    cfg = draw(cfg_st(min_block, max_tot=max_tot))
    nf = draw(st.integers(min_free, max_free))
    nc = draw(st.integers(min_ctrl, max_ctrl)) if max_ctrl else 0
    nm = draw(st.integers(1, max_mics))
    names = draw(st.permutations(NAMES))[:nf + nc + nm]
    free = [{"name": names[i], "n": draw(st.integers(1, max_n)), "seed": draw(st.integers(0, 999))} for i in range(nf)]
    ctrl = [{"name": names[nf + i], "n": draw(st.integers(1, max_n))} for i in range(nc)]
    mics = [{"name": names[nf + nc + i], "n": draw(st.integers(1, max_n))} for i in range(nm)]
    tags = ["F%d" % i for i in range(nf)] + ["C%d" % i for i in range(nc)] + ["M%d" % i for i in range(nm)]
    order = draw(st.permutations(tags))
    paths = []
    for s in free + ctrl:
        for m in mics:
            if draw(st.integers(0, 9)) > 0:   # sometimes no path at all ("none")
                paths.append({"src": s["name"], "mic": m["name"], "len": draw(st.integers(1, max_len)),
                              "seed": draw(st.integers(0, 999)), "sparse": draw(st.booleans())})
    out = {"cfg": cfg, "free": free, "ctrl": ctrl, "mics": mics, "order": list(order), "paths": paths}
    if draw(st.integers(0, 7)) == 0:
        gaps = draw(st.integers(cfg["sim_buffer"] // 2, 2 * cfg["sim_buffer"] + 5))
        for s in free:
            s["gaps"] = gaps
    if draw(st.integers(0, 5)) == 0:      # equal responses to arrays of equal size, given as one shared object
        out["share"] = True
        for s in free + ctrl:
            s["n"] = (free + ctrl)[0]["n"]
        for m in mics:
            m["n"] = mics[0]["n"]
        if paths and draw(st.booleans()):
            for p in paths:
                p.update({k: paths[0][k] for k in ("len", "seed", "sparse")})
    return out
