"""C22: phase and event counters follow their schedule."""
import numpy as np
from hypothesis import strategies as st

import aspsim.counter as counter
from vlib.harness import Test, Violation

RULE = ("A case is one counter definition and a number of steps. Non-trivial: at least two phases of non-zero length are entered, "
        "or at least two events of different frequency are counted past their period.")
ASSUMPTIONS = ["events are examined after each step of the counter (the event list is empty before the first step)",
               "whether the time after all finite phases sets the first-sample flag is left open"]

INF = "inf"


@st.composite
def phase_st(draw):
    n = draw(st.integers(1, 6))
    lens = draw(st.lists(st.one_of(st.integers(0, 3), st.integers(1, 20)), min_size=n, max_size=n))
    end = draw(st.sampled_from(["finite", "finite", "inf", "neg", "mid"]))
    if end == "inf":
        lens[-1] = INF
    elif end == "neg":
        lens[-1] = draw(st.sampled_from([-1, -5]))
    elif end == "mid":
        lens[draw(st.integers(0, n - 1))] = INF
    names = draw(st.permutations(["init", "wait", "process", "a", "b", "phase 6"]))[:n]
    return {"phases": [[nm, ln] for nm, ln in zip(names, lens)], "steps": draw(st.integers(0, 70)), "verbose": draw(st.integers(0, 9)) == 0,
            "float": draw(st.booleans())}


def phases(case, ctx):
    d = {}
    for nm, ln in case["phases"]:
        d[nm] = np.inf if ln == INF else (float(ln) if case["float"] else ln)
    given = dict(d)
    pc = counter.PhaseCounter(d, verbose=case["verbose"])
    if d != given:
        raise Violation("the phase definition of the caller was modified")
    # model
    ivs, t = [], 0.0
    starts = {}
    for nm, ln in given.items():
        starts.setdefault(nm, t)
        e = t + (np.inf if ln < 0 else ln)
        if e > t:
            ivs.append((nm, t, e))
        t = e
    for nm, s in starts.items():
        if pc.start_idxs.get(nm) != s and not (np.isinf(s) and nm not in pc.start_idxs):
            raise Violation(f"start index of phase {nm} is {pc.start_idxs.get(nm)}, expected {s} for {case['phases']}")
    if np.isfinite(t) and pc.start_idxs.get(None, t) != t:
        raise Violation("start index of the time after all phases")
    entered = set()
    for n in range(case["steps"] + 1):
        if n:
            pc.progress()
        cur = [(nm, s) for nm, s, e in ivs if s <= n < e]
        want = cur[0][0] if cur else None
        if pc.phase != want:
            raise Violation(f"phases {case['phases']}: phase at sample {n} is {pc.phase!r}, expected {want!r}")
        for nm in list(given) + ["not a phase"]:
            if bool(pc.current_phase_is(nm)) != (nm == want):
                raise Violation(f"current_phase_is({nm!r}) wrong at sample {n}")
        if cur and bool(pc.first_sample) != (cur[0][1] == n):
            raise Violation(f"phases {case['phases']}: first_sample is {pc.first_sample} at sample {n} of phase {want!r}")
        if not cur and n > t and pc.first_sample:
            raise Violation(f"first_sample is set at sample {n}, after all phases")
        entered.add(want)
    ctx.label("phase_end:" + ("finite" if np.isfinite(t) else "infinite"))
    if any(ln == 0 for _, ln in case["phases"]):
        ctx.label("zero_length")
    ctx.nt(len(entered) >= 2)


@st.composite
def event_st(draw):
    ev = st.tuples(st.sampled_from(["e1", "e2", "e3", "e4", "x", "y"]), st.integers(1, 12), st.integers(0, 30))
    return {"init": draw(st.lists(ev, max_size=4)), "steps": draw(st.integers(1, 80)),
            "add": [[draw(st.integers(0, 60))] + list(a) for a in draw(st.lists(ev, max_size=3))]}


def events(case, ctx):
    defs = {n: (f, o) for n, f, o in case["init"]}
    model = dict(defs)
    ec = counter.EventCounter(dict(defs))
    for n in range(1, case["steps"] + 1):
        for at, nm, f, o in case["add"]:
            if at == n - 1:
                ec.add_event(nm, f, o)
                model[nm] = (f, o)
        ec.progress()
        want = sorted(nm for nm, (f, o) in model.items() if n % f == o % f)
        if sorted(ec.event) != want:
            raise Violation(f"events {model}: at sample {n} reported {ec.event}, expected {want}")
    ctx.label("events")
    ctx.nt(len({f for f, _ in model.values()}) >= 2 and case["steps"] > 12)


TESTS = [
    Test("phases", phase_st(), phases, quick=15000, thorough=60000),
    Test("events", event_st(), events, quick=7500, thorough=30000),
]
