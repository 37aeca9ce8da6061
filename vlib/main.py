"""Entry point: vlib/main.py <ID> [--replay FILE]"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")
sys.path[:0] = [ROOT, REPO_SRC]
sys.dont_write_bytecode = True


def worker(prop, widx, seed, tier, nworkers, conn, known_ids, tstart):
    from vlib import harness
    try:
        mod = importlib.import_module("checks." + prop.lower())
        ctx = harness.Ctx(prop, known_ids)
        failures = []
        budget = getattr(mod, "BUDGET_QUICK", 110) if tier == "quick" else getattr(mod, "BUDGET_THOROUGH", 780)
        deadline = tstart + budget
        scratch = os.path.join(os.environ["VERIF_SCRATCH"], f"w{widx}")
        os.makedirs(scratch, exist_ok=True)
        os.environ["VERIF_SCRATCH_W"] = scratch
        os.chdir(scratch)
        sel = os.environ.get("VERIF_ONLY")
        for ti, test in enumerate(mod.TESTS):
            if sel and test.name not in sel.split(","):
                continue
            total = test.quick if tier == "quick" else test.thorough
            n = total // nworkers + (1 if widx < total % nworkers else 0)
            if n == 0:
                continue
            f = harness.run_test(test, ctx, (seed * 1000 + ti) * 64 + widx, n, deadline,
                                 shrink_seconds=45 if tier == "quick" else 120)
            if f:
                failures.append(f)
                break
        conn.send({"ok": True, "failures": failures, "evaluations": ctx.evaluations,
                   "nontrivial": sorted(ctx.nontrivial), "labels": ctx.labels,
                   "samples": ctx.samples, "per_test": ctx.per_test, "known": ctx.known_hits})
    except BaseException as e:
        conn.send({"ok": False, "error": f"{type(e).__name__}: {e}\n{traceback.format_exc()}"})
    finally:
        conn.close()


def load_known(prop):
    with open(os.path.join(ROOT, "known_findings.json")) as f:
        d = json.load(f)
    return [k for k in d["findings"] if k["property"] == prop]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    a = ap.parse_args()
    prop = a.prop.upper()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    import warnings
    warnings.simplefilter("ignore")
    from vlib import harness
    try:
        mod = importlib.import_module("checks." + prop.lower())
        import aspsim
        if not os.path.realpath(list(aspsim.__path__)[0]).startswith(os.path.realpath(REPO_SRC)):
            raise harness.HarnessError(f"aspsim imported from {list(aspsim.__path__)}")
    except Exception:
        traceback.print_exc()
        return 2
    warm = getattr(mod, "WARM", None)
    if warm:
        from vlib import simh
        try:
            simh.warm(dynamic=(warm == "dynamic"))
        except Exception:
            pass  # the cases will show it
    known = load_known(prop)
    known_ids = {k["id"] for k in known}
    tests = {t.name: t for t in mod.TESTS}

    def replay_one(rec, ctx):
        test = tests[rec["test"]]
        try:
            harness.run_case(test, rec["case"], ctx)
        except harness._CaseTimeout:
            return f"did not finish within {test.case_timeout} s"
        except Exception as e:
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
            return harness.describe(e)
        return None

    os.environ.setdefault("VERIF_SCRATCH", "/tmp")
    if a.replay:
        with open(a.replay) as f:
            rec = json.load(f)
        os.environ["VERIF_SCRATCH_W"] = os.environ["VERIF_SCRATCH"]
        ctx = harness.Ctx(prop, known_ids)
        msg = replay_one(rec, ctx)
        if msg:
            print(msg)
            print(f"VIOLATION property={prop} replay={os.path.abspath(a.replay)}")
            return 1
        print(f"replay of {a.replay}: property {prop} holds on this case")
        return 0

    nworkers = getattr(mod, "WORKERS", 8) if tier == "quick" else 8
    ctxm = mp.get_context("fork")
    procs = []
    for w in range(nworkers):
        rx, tx = ctxm.Pipe(duplex=False)
        p = ctxm.Process(target=worker, args=(prop, w, seed, tier, nworkers, tx, known_ids, t0))
        p.start()
        tx.close()
        procs.append((p, rx))
    results = []
    for p, rx in procs:
        try:
            results.append(rx.recv())
        except EOFError:
            results.append({"ok": False, "error": f"worker died (exit {p.exitcode})"})
        p.join()

    # probes of the known findings
    os.environ["VERIF_SCRATCH_W"] = os.path.join(os.environ["VERIF_SCRATCH"], "probe")
    os.makedirs(os.environ["VERIF_SCRATCH_W"], exist_ok=True)
    pctx = harness.Ctx(prop, known_ids)
    probe_fail = []
    for k in known:
        msg = replay_one(k, pctx)
        if msg:
            probe_fail.append({"test": k["test"], "case": k["case"], "message": msg})

    errors = [r["error"] for r in results if not r["ok"]]
    good = [r for r in results if r["ok"]]
    failures = probe_fail + [f for r in good for f in r["failures"]]
    nt, labels, samples, per_test, evals, hits = set(), {}, [], {}, 0, dict(pctx.known_hits)
    for r in good:
        nt.update(r["nontrivial"])
        evals += r["evaluations"]
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in r["known"].items():
            hits[k] = hits.get(k, 0) + v
        for k, v in r["per_test"].items():
            d = per_test.setdefault(k, {"evaluations": 0, "nontrivial": 0})
            d["evaluations"] += v["evaluations"]
            d["nontrivial"] += v["nontrivial"]
    seen = set()
    for r in good:
        for s in r["samples"]:
            if (s["test"]) in seen and len(samples) >= len(tests):
                continue
            if len([x for x in samples if x["test"] == s["test"]]) < 2:
                samples.append(s)
                seen.add(s["test"])
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(nt), "rule": mod.RULE,
                       "samples": samples, "per_test": per_test, "labels": labels,
                       "workers": nworkers, "known_finding_hits": hits},
          "assumptions": getattr(mod, "ASSUMPTIONS", []),
          "violations": len(failures), "wall_s": round(time.time() - t0, 2)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)

    for k in known:
        if k["id"] in pctx.known_hits:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    if failures:
        f = min(failures, key=lambda x: len(harness.canon(x["case"])))
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        path = os.path.join(ROOT, "replays", f"{prop}.json")
        with open(path, "w") as fh:
            json.dump({"property": prop, **f}, fh, indent=1)
        print(f"{f['test']}: {f['message']}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        print("CHECK ERROR:\n" + errors[0])
        return 2
    if len(nt) == 0:
        print("CHECK ERROR: no non-trivial case generated")
        return 2
    print(f"{prop}: held on {evals} cases ({len(nt)} distinct non-trivial), {ev['wall_s']} s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
