"""C23: file helpers never collide with or misidentify existing files."""
import datetime
import os

import numpy as np
from hypothesis import strategies as st

import aspsim.fileutilities as fu
from vlib.harness import Test, Violation
from vlib.simh import scratch_dir

RULE = ("A case is a generated folder content and one or several requests. Non-trivial: at least one existing entry carries the requested "
        "prefix, i.e. competes with the answer.")
ASSUMPTIONS = ["names contain no path separators; numbers are ASCII digits",
               "names are created by one process at a time (no concurrent creation)"]

part = st.sampled_from(["fig", "fig_", "sim", "summary_", "figs", "a", "a_1", "x-", "out.", "fig_1_", "session_"])
exts = st.sampled_from(["", ".npz", ".json", ".pdf", ".txt"])
nums = st.one_of(st.integers(0, 15), st.sampled_from([99, 100, 101, 1000]))
entry = st.tuples(part, st.one_of(nums.map(str), st.sampled_from(["", "007", "010", "1_0", "-3", "+4", " 5", "1a", "a1", "1.5", "_"])), exts).map("".join)


def fill(folder, names, dirs=False):
    out = set()
    for i, n in enumerate(names):
        if not n.strip(". ") or n in out:
            continue
        p = folder / n
        if dirs or i % 4 == 3:
            p.mkdir()
        else:
            p.write_text("x")
        out.add(n)
    return out


# ---------------------------------------------------------------- unique names
@st.composite
def uniq_st(draw):
    return {"prefix": draw(st.sampled_from(["figs_", "session_", "", "a b", "x.y_"])), "detailed": draw(st.booleans()),
            "pre": draw(st.lists(st.integers(0, 14), max_size=10)), "rounds": draw(st.integers(1, 6)),
            "kind": draw(st.sampled_from(["one", "one", "multi"])), "num": draw(st.integers(1, 8)),
            "mk": draw(st.lists(st.booleans(), min_size=6, max_size=6)), "files": draw(st.booleans())}


def uniq(case, ctx):
    with scratch_dir() as d:
        prefix = case["prefix"]
        now = datetime.datetime.now()
        if now.second > 57:
            pass    # a change of minute only makes the competition weaker
        stamp = fu.get_time_string()
        compete = 0
        for k in case["pre"]:
            p = d / f"{prefix}{stamp}_{k}"
            if not p.exists():
                p.mkdir() if not case["files"] else p.write_text("x")
                compete += 1
        before = {p.name for p in d.iterdir()}
        for r in range(case["rounds"]):
            if case["kind"] == "one":
                got = [fu.get_unique_folder_name(prefix, d, case["detailed"])]
            else:
                got = fu.get_multiple_unique_folder_names(prefix, d, case["num"])
                if len(got) != case["num"]:
                    raise Violation(f"asked for {case['num']} names, got {len(got)}")
            if len({str(g) for g in got}) != len(got):
                raise Violation(f"names asked for together are not distinct: {[g.name for g in got]}")
            for g in got:
                if os.path.lexists(g):
                    raise Violation(f"name {g.name} exists already ({sorted(p.name for p in d.iterdir())})")
                if g.parent != d or not g.name.startswith(prefix):
                    raise Violation(f"name {g} lost parent {d} or prefix {prefix!r}")
            if {p.name for p in d.iterdir()} != before:
                raise Violation("asking for a name changed the folder")
            for g, mk in zip(got, case["mk"]):
                if mk or case["kind"] == "one":
                    g.mkdir()
                    before.add(g.name)
                    compete += 1
        ctx.label("unique:" + case["kind"])
        ctx.nt(compete > 0)


# ---------------------------------------------------------------- highest number
@st.composite
def high_st(draw):
    pre = draw(part)
    suf = draw(exts)
    near = st.one_of(nums.map(str), st.sampled_from(["007", "010", "1_0", "-3", "+4", " 5", "1a", "", "1.5"]))
    names = [pre + s + suf for s in draw(st.lists(near, max_size=6))] + draw(st.lists(entry, max_size=6))
    return {"prefix": pre, "suffix": suf, "names": draw(st.permutations(names)) if names else []}


def high(case, ctx):
    with scratch_dir() as d:
        names = fill(d, case["names"])
        pre, suf = case["prefix"], case["suffix"]
        cand = {}
        for n in names:
            if n.startswith(pre) and n.endswith(suf) and len(n) > len(pre) + len(suf):
                mid = n[len(pre):len(n) - len(suf)]
                if mid.isascii() and mid.isdigit():
                    cand.setdefault(int(mid), set()).add(n)
        got = fu.get_highest_numbered_file(d, pre, suf)
        if not cand:
            if got is not None:
                raise Violation(f"no file named {pre}<number>{suf} in {sorted(names)}, but got {got.name}")
        else:
            want = cand[max(cand)]
            if got is None or got.name not in want or got.parent != d:
                raise Violation(f"highest numbered {pre}<number>{suf} in {sorted(names)} is {sorted(want)}, got {got and got.name}")
        ctx.label("highest:" + ("none" if not cand else "some"))
        ctx.nt(any(n.startswith(pre) for n in names))


# ---------------------------------------------------------------- earlier files
@st.composite
def earlier_st(draw):
    base = draw(st.sampled_from(["fig", "spectrum", "a_b", "x1", "fig_1", "a.b", "v1.5 x"]))
    idx = draw(nums)
    sib = st.sampled_from([base + "_", base + "_x_", base[:-1] + "_", "my" + base + "_", base + "2_", base])
    near = st.tuples(st.just(base + "_"), nums.map(str), exts).map("".join)
    other = st.tuples(sib, nums.map(str), exts).map("".join)
    odd = st.tuples(st.just(base + "_"), st.sampled_from(["", "x", "1x", "-1", "1_2", "0.5", "1.x_2"]), exts).map("".join)
    return {"base": base, "idx": idx, "incl": draw(st.booleans()), "err": draw(st.booleans()),
            "names": draw(st.lists(st.one_of(near, near, other, odd), max_size=9))}


def earlier(case, ctx):
    with scratch_dir() as d:
        names = fill(d, case["names"])
        base, idx = case["base"], case["idx"]
        want, future = set(), False
        for n in names:
            stem = n if (d / n).is_dir() else (d / n).stem        # folders have no extension
            mid = stem[len(base) + 1:]
            if stem.startswith(base + "_") and mid.isdigit():
                if int(mid) < idx:
                    want.add(n)
                elif int(mid) > idx:
                    future = True
        name = f"{base}_{idx}" if case["incl"] else base
        try:
            got = fu.find_all_earlier_files(d, name, idx, name_includes_idx=case["incl"], error_if_future_files_exist=case["err"])
        except ValueError:
            if not (future and case["err"]):
                raise Violation(f"reported newer files than {name} index {idx} in {sorted(names)}")
            ctx.label("earlier:error")
            ctx.nt(True)
            return
        if future and case["err"]:
            raise Violation(f"did not report newer files than {name} index {idx} in {sorted(names)}")
        gn = [g.name for g in got]
        if sorted(gn) != sorted(want) or any(g.parent != d for g in got):
            raise Violation(f"files earlier than index {idx} of {base} in {sorted(names)}: got {sorted(gn)}, expected {sorted(want)}")
        ctx.label("earlier")
        ctx.nt(bool(want))


# ---------------------------------------------------------------- trailing numbers
@st.composite
def trail_st(draw):
    head = draw(st.one_of(part, st.text("ab_-. 019", max_size=6)))
    return {"name": head + draw(st.one_of(st.just(""), nums.map(str), st.sampled_from(["007", "00", "1x", "12_"])))}


def trailing(case, ctx):
    n = case["name"]
    k = len(n)
    while k and n[k - 1] in "0123456789":
        k -= 1
    want = int(n[k:]) if k < len(n) else None
    got = fu.find_index_in_name(n)
    if got != want:
        raise Violation(f"number at the end of {n!r}: {got}, expected {want}")
    ctx.label("trailing")
    ctx.nt(want is not None)


TESTS = [
    Test("uniq", uniq_st(), uniq, quick=3200, thorough=20000),
    Test("high", high_st(), high, quick=6000, thorough=40000),
    Test("earlier", earlier_st(), earlier, quick=6000, thorough=40000),
    Test("trailing", trail_st(), trailing, quick=6000, thorough=30000),
]
