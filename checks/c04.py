"""C04: processors are scheduled every block and act causally."""
import numpy as np
from hypothesis import strategies as st

from vlib import simh
from vlib.harness import Test, Violation

WARM = "static"
RULE = ("A case is one scene with controllable sources, a block size, buffer/chunk geometry and a per-block script with "
        "optional microphone feedback and processor-created signals. Non-trivial: the controllable source has a path to a "
        "microphone, at least three blocks are processed and at least one internal buffer boundary is crossed.")
ASSUMPTIONS = ["buffer >= block size + 1 and chunk >= block size; history of buffer - block size samples is relied upon"]


def reference(scene, info, block, script, feedback, window, L, gain):
    """Global-time simulation, one block at a time. Returns timelines of all sources and mics."""
    cfg = scene["cfg"]
    o = cfg["sim_buffer"] - 1
    src = {n: simh.source_timeline(t, cfg, L) for n, t in info["tables"].items()}
    for c in scene["ctrl"]:
        src[c["name"]] = np.zeros((c["n"], L + o))
    mic = {m["name"]: np.zeros((m["n"], L + o)) for m in scene["mics"]}

    def fill(g0, g1):
        """microphones for times g0..g1-1 (source timelines complete up to g1)"""
        for (s, m), ir in info["paths"].items():
            x, K = src[s], ir.shape[2]
            for t in range(max(0, o + g0), o + g1):
                k = min(K, t + 1)
                seg = x[:, t - k + 1:t + 1][:, ::-1]
                mic[m][:, t] += np.einsum("sk,smk->m", seg, ir[:, :, :k])
    fill(-o, 0)
    call, g = 0, 0
    first = scene["mics"][0]["name"]
    while g + block <= L:
        fill(g, g + block)
        g += block
        call += 1
        if g + block > L:
            break
        for k, c in enumerate(scene["ctrl"]):
            v = script(k, c["n"], call)
            if feedback:
                fb = np.zeros(block)
                fb[:window] = mic[first][0, o + g - window:o + g]
                v = v + gain * fb
            src[c["name"]][:, o + g:o + g + block] = v
    return src, mic, o


def t_schedule(case, ctx):
    scene, block, seed = case["scene"], case["block"], case["seed"]
    cfg = scene["cfg"]
    tot, buf = cfg["tot_samples"], cfg["sim_buffer"]
    window = min(block, buf - block)
    gain = 0.05
    L = tot + 3 * block + 5
    quiet = case.get("quiet", 0)          # the scripts are silent after so many calls

    def script(k, n, call):
        v = simh.rng_of(seed, k, call).normal(size=(n, block))
        return v if not quiet or call % (quiet + 12) <= quiet else 0 * v
    su, info = simh.build(scene)
    sim = su.create_simulator()
    src, mic, o = reference(scene, info, block, script, case["feedback"], window, L, gain)
    ref = {**src, **mic}
    first = scene["mics"][0]["name"]
    shapes = case["own"]
    own = {"own%d" % i: tuple(s) for i, s in enumerate(shapes)}
    stats = {"n": 0}

    def own_value(i, shape, g):
        base = np.arange(int(np.prod(shape))).reshape(shape) * 1e4 + i * 1e6
        return base + g + 1

    def on_process(proc, bs):
        call = len(proc.calls)
        if bs != block:
            raise Violation(f"call {call}: asked to process {bs} samples instead of {block}")
        done, idx = call * block, proc.sig.idx
        if idx < buf - block:
            raise Violation(f"call {call}: only {idx} samples of history although the buffer is {buf}")
        lo = max(0, idx - (buf - block))
        t = o + done - (idx - lo)
        for n, r in ref.items():
            got = proc.sig[n][:, lo:idx]
            want = np.zeros_like(got)
            a = max(0, -t)
            want[:, a:] = r[:, t + a:o + done]
            if not simh.close(got, want):
                bad = np.argwhere(~np.isclose(got, want, atol=1e-9))[0]
                raise Violation(f"{n} at time {done - (idx - lo) + int(bad[1])} seen at call {call} (after {done} samples): "
                                f"{got[tuple(bad)]} expected {want[tuple(bad)]}")
            stats["n"] += got.size
        for i, (n, shape) in enumerate(own.items()):
            if n not in proc.sig:
                raise Violation(f"signal {n} created by the processor is gone at call {call}")
            got = proc.sig[n]
            if got.shape[:-1] != shape:
                raise Violation(f"signal {n} has shape {got.shape} at call {call}, created with {shape}")
            for j in range(lo, idx):
                g = done - (idx - j)
                want = own_value(i, shape, g) if g >= block else np.zeros(shape)
                if not np.array_equal(got[..., j], want):
                    raise Violation(f"processor signal {n} at time {g} is {got[..., j].ravel()[:3]} at call {call}, expected {want.ravel()[:3]}")
            for j in range(block):
                got[..., idx + j] = own_value(i, shape, done + j)
        for k, c in enumerate(scene["ctrl"]):
            v = script(k, c["n"], call)
            if case["feedback"]:
                fb = np.zeros(block)
                fb[:window] = proc.sig[first][0, idx - window:idx]
                v = v + gain * fb
            if case["add"]:
                proc.sig[c["name"]][:, idx:idx + bs] += v
            else:
                proc.sig[c["name"]][:, idx:idx + bs] = v

    proc = simh.Rec(sim.sim_info, sim.arrays, block, on_process, name=case["name"])
    if case["own_where"] == "constructor":
        for n, s in own.items():
            proc.sig.create_signal(n, s if len(s) != 1 or case["tuple_dim"] else s[0])
    else:
        def prep():
            for n, s in own.items():
                proc.sig.create_signal(n, s)
        proc.prepare = prep
    sim.add_processor([proc] if case["as_list"] else proc)
    for n, ch in {**info["nsrc"], **info["nmic"]}.items():
        simh.record(sim, n, ch)
    for n, s in own.items():
        if len(s) == 1:
            simh.record(sim, n, s[0])
    simh.run(sim)
    for n in {**info["nsrc"], **info["nmic"]}:
        simh.assert_close(sim.diag[n].get_output(), ref[n][:, o:o + tot], f"recorded {n}")
    for i, (n, s) in enumerate(own.items()):
        if len(s) == 1:
            want = np.stack([own_value(i, s, g) if g >= block else np.zeros(s) for g in range(tot)], axis=-1)
            simh.assert_close(sim.diag[n].get_output(), want, f"recorded processor signal {n}", 0)
    processed = len(proc.calls) * block
    if processed < tot:
        raise Violation(f"only {processed} of {tot} samples were processed")
    if processed > tot + block:
        raise Violation(f"{processed} samples were processed, only {tot} were asked for")
    ctx.label("feedback" if case["feedback"] else "scripted")
    ctx.label("own_signals", len(own))
    ctx.label("block_divides_chunk" if cfg["sim_chunk_size"] % block == 0 else "block_not_dividing_chunk")
    ctx.nt(any(p["src"] in [c["name"] for c in scene["ctrl"]] for p in scene["paths"])
           and len(proc.calls) >= 3 and tot > cfg["sim_chunk_size"])


@st.composite
def st_schedule(draw):
    block = draw(st.one_of(st.integers(1, 8), st.integers(1, 24)))
    scene = draw(simh.scene_st(min_block=block, max_free=2, min_free=0, max_ctrl=2, min_ctrl=1, max_mics=2, max_tot=130, max_n=2))
    own = draw(st.lists(st.lists(st.integers(1, 3), min_size=1, max_size=3), max_size=2))
    return {"scene": scene, "block": block, "seed": draw(st.integers(0, 999)), "feedback": draw(st.booleans()),
            "add": draw(st.booleans()), "own": own, "own_where": draw(st.sampled_from(["constructor", "prepare"])),
            "quiet": draw(st.sampled_from([0, 0, 0, 1, 3])), "tuple_dim": draw(st.booleans()), "as_list": draw(st.booleans()),
            "name": draw(st.sampled_from(["proc", "My Processor", "mic"]))}


TESTS = [Test("schedule", st_schedule(), t_schedule, quick=2100, thorough=17500)]
