#!/opt/venv/bin/python
"""Sensitivity test of the checks: small AST mutations of aspsim, each judged by the checks of the properties anchored in that file.

usage: mutate.py OUT.jsonl [--files a.py,b.py] [--max N] [--seed S] [--jobs 8] [--frac 0.25] [--seconds 40]
Works on copies below /tmp, never on /repo.  Not used by any registered check.
"""
import argparse, ast, copy, json, os, random, shutil, signal, sys, tempfile, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("MUT_SRC", "/repo/src")
for k in ["OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "NUMBA_NUM_THREADS", "MKL_NUM_THREADS"]:
    os.environ[k] = "1"
os.environ["MPLBACKEND"] = "Agg"
CHECKS = {
    "simulator.py": "C01 C04 C03 C02 C05 C20 C21 C18 C11 C08 C24",
    "array.py": "C11 C08 C20 C16 C18 C21 C24 C01",
    "configutil.py": "C19 C18 C20", "counter.py": "C22", "fileutilities.py": "C23 C20 C05", "processor.py": "C24 C04 C06",
    "saveloadsession.py": "C18 C20", "utilities.py": "C24 C12 C14", "diagnostics/core.py": "C05 C06 C07 C02 C20",
    "diagnostics/diagnostics.py": "C05 C06 C07", "diagnostics/diagnosticscollection.py": "C07 C06", "diagnostics/diagnosticsummary.py": "C07",
    "diagnostics/plot.py": "C05 C26 C06 C07 C20", "diagnostics/preprocessing.py": "C24 C07", "diagnostics/soundfieldplot.py": "C24 C07",
    "room/directional.py": "C25", "room/generatepoints.py": "C17", "room/region.py": "C15 C16", "room/roomimpulseresponse.py": "C10 C11 C08 C20",
    "room/trajectory.py": "C09 C08", "signal/sources.py": "C12 C13 C14 C26 C20"}

CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div, ast.Add], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Div], ast.Mod: [ast.FloorDiv], ast.Pow: [ast.Mult]}
SWAP = {"mic": "src", "src": "mic", "start": "end", "end": "start", "min": "max", "max": "min", "zeros": "ones", "ceil": "floor", "floor": "ceil",
        "sum": "mean", "mean": "sum", "cos": "sin", "sin": "cos", "sim_buffer": "sim_chunk_size", "sim_chunk_size": "sim_buffer", "append": "extend",
        "all": "any", "any": "all"}


def mutants(src):
    """yields (lineno, description, new source)"""
    tree = ast.parse(src)
    nodes = list(ast.walk(tree))
    skip = set()
    for n in nodes:   # docstrings, prints and asserts' messages
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "print":
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, (ast.JoinedStr, ast.Raise)):
            skip.update(id(x) for x in ast.walk(n))
    out = []

    def emit(i, desc, fn):
        t = copy.deepcopy(tree)
        n = list(ast.walk(t))[i]
        fn(n)
        try:
            new = ast.unparse(ast.fix_missing_locations(t))
        except Exception:
            return
        out.append((getattr(nodes[i], "lineno", 0), desc, new))
    for i, n in enumerate(nodes):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                emit(i, f"{ast.unparse(n)} -> {o.__name__}", lambda m, o=o: m.ops.__setitem__(0, o()))
        elif isinstance(n, (ast.BinOp, ast.AugAssign)):
            for o in BIN.get(type(n.op), []):
                emit(i, f"{ast.unparse(n)} -> {o.__name__}", lambda m, o=o: setattr(m, "op", o()))
        elif isinstance(n, ast.BoolOp):
            emit(i, f"{ast.unparse(n)} and<->or", lambda m: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And()))
            for k in range(len(n.values)):
                if len(n.values) > 1:
                    emit(i, f"{ast.unparse(n)} drop operand {k}", lambda m, k=k: m.values.pop(k))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            emit(i, f"{ast.unparse(n)} drop unary", lambda m: setattr(m, "op", ast.UAdd()) if isinstance(m.op, ast.USub) else m.__dict__.update(operand=ast.UnaryOp(ast.Not(), m.operand)))
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                emit(i, f"{n.value} flipped", lambda m: setattr(m, "value", not m.value))
            elif isinstance(n.value, int):
                emit(i, f"{n.value}+1", lambda m: setattr(m, "value", m.value + 1))
                if n.value != 0:
                    emit(i, f"{n.value}-1", lambda m: setattr(m, "value", m.value - 1))
            elif isinstance(n.value, float):
                emit(i, f"{n.value}*1.1", lambda m: setattr(m, "value", m.value * 1.1 + (m.value == 0)))
        elif isinstance(n, ast.If):
            emit(i, f"if {ast.unparse(n.test)}: negated", lambda m: setattr(m, "test", ast.UnaryOp(ast.Not(), m.test)))
            emit(i, f"if {ast.unparse(n.test)}: never", lambda m: setattr(m, "test", ast.Constant(False)))
            emit(i, f"if {ast.unparse(n.test)}: always", lambda m: setattr(m, "test", ast.Constant(True)))
        elif isinstance(n, ast.Call):
            f = ast.unparse(n.func)
            if f in ("copy.deepcopy", "copy.copy", "np.copy", "np.abs", "np.array", "np.flip", "np.round", "list", "sorted", "np.squeeze") and n.args:
                def drop(m):
                    a = m.args[0]
                    m.func, m.args, m.keywords = ast.Lambda(ast.arguments([], [ast.arg("x")], None, [], [], None, []), ast.Name("x", ast.Load())), [a], []
                emit(i, f"{ast.unparse(n)} drop call", drop)
            if len(n.args) == 2:
                emit(i, f"{ast.unparse(n)} swap args", lambda m: m.args.reverse())
            for k, kw in enumerate(n.keywords):
                if kw.arg:
                    emit(i, f"{ast.unparse(n)} drop {kw.arg}", lambda m, k=k: m.keywords.pop(k))
        elif isinstance(n, (ast.Attribute, ast.Name)) and isinstance(getattr(n, "ctx", None), ast.Load):
            key = "attr" if isinstance(n, ast.Attribute) else "id"
            v = getattr(n, key)
            if v in SWAP:
                emit(i, f"{ast.unparse(n)} -> {SWAP[v]}", lambda m, key=key, v=v: setattr(m, key, SWAP[v]))
        elif isinstance(n, ast.Slice):
            if n.lower is not None:
                emit(i, f"{ast.unparse(n)} lower+1", lambda m: setattr(m, "lower", ast.BinOp(m.lower, ast.Add(), ast.Constant(1))))
            if n.upper is not None:
                emit(i, f"{ast.unparse(n)} upper-1", lambda m: setattr(m, "upper", ast.BinOp(m.upper, ast.Sub(), ast.Constant(1))))
        elif isinstance(n, (ast.Break, ast.Continue)):
            pass
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and not isinstance(getattr(n, "value", None), ast.Constant):
            if isinstance(n, ast.Expr) or isinstance(n, ast.AugAssign) or not isinstance(n.targets[0], ast.Name):
                def blank(m):
                    d = ast.Pass(lineno=m.lineno, col_offset=0)
                    m.__class__ = ast.Pass
                    for k in list(m.__dict__):
                        if k not in ("lineno", "col_offset", "end_lineno", "end_col_offset"):
                            del m.__dict__[k]
                emit(i, f"delete: {ast.unparse(n)[:90]}", blank)
    seen, uniq = {src, ast.unparse(tree)}, []
    for m in out:
        if m[2] not in seen:
            seen.add(m[2])
            uniq.append(m)
    return uniq


def child(srcdir, checks, frac, seconds, seed, out):
    sys.path[:0] = [ROOT, srcdir]
    sys.dont_write_bytecode = True
    import importlib, warnings
    warnings.simplefilter("ignore")
    res = {"killed_by": None, "errors": []}
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    try:
        from vlib import harness
        scratch = tempfile.mkdtemp(prefix="verif_mut.")
        os.environ["VERIF_SCRATCH"] = os.environ["VERIF_SCRATCH_W"] = scratch
        os.environ["MPLCONFIGDIR"] = scratch
        os.chdir(scratch)
        tempfile.tempdir = scratch
        for c in checks:
            try:
                mod = importlib.import_module("checks." + c.lower())
                import aspsim
                assert list(aspsim.__path__)[0].startswith(srcdir), list(aspsim.__path__)
            except Exception as e:
                res["killed_by"], res["msg"] = c, "import: " + repr(e)[:200]
                break
            with open(os.path.join(ROOT, "known_findings.json")) as f:
                known = {k["id"] for k in json.load(f)["findings"]}
            ctx = harness.Ctx(c, known)
            per = seconds / len(mod.TESTS)
            for ti, t in enumerate(mod.TESTS):
                if c == "C10" or c == "C08":
                    pass
                f = harness.run_test(t, ctx, seed * 1000 + ti, max(20, int(t.quick * frac)), time.time() + max(per, 8), shrink_seconds=0)
                if f:
                    res["killed_by"], res["msg"] = c, f["test"] + ": " + f["message"][:200]
                    break
            if res["killed_by"]:
                break
    except BaseException as e:
        res["errors"].append(repr(e)[:300])
    shutil.rmtree(scratch, ignore_errors=True)
    with open(out, "w") as f:
        json.dump(res, f)
    os._exit(0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out"); ap.add_argument("--files"); ap.add_argument("--max", type=int, default=10 ** 9); ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--jobs", type=int, default=8); ap.add_argument("--frac", type=float, default=0.25); ap.add_argument("--seconds", type=float, default=40)
    ap.add_argument("--checks"); ap.add_argument("--list", action="store_true"); ap.add_argument("--only-lines")
    a = ap.parse_args()
    files = a.files.split(",") if a.files else list(CHECKS)
    jobs = []
    for f in files:
        for ln, desc, new in mutants(open(os.path.join(SRC, "aspsim", f)).read()):
            jobs.append((f, ln, desc, new))
    random.Random(a.seed).shuffle(jobs)
    jobs = jobs[:a.max]
    if a.list:
        from collections import Counter
        print(Counter(j[0] for j in jobs), len(jobs))
        return
    done = set()
    if os.path.exists(a.out):
        done = {(r["file"], r["line"], r["desc"]) for r in map(json.loads, open(a.out))}
    # import everything that is not aspsim and compile the filters once, children are forked
    sys.path.insert(0, ROOT)
    import numpy, scipy.signal, pyroomacoustics, hypothesis, matplotlib.pyplot, soundfile, dill, yaml, numba  # noqa
    import aspcore.filter as fc
    import io, contextlib
    src = open(os.path.join(ROOT, "vlib", "simh.py")).read()
    body = src[src.index("def warm("):src.index("_PLT_STUBBED")]
    env = {"np": numpy, "fc": fc}
    exec(body, env)
    env["warm"](dynamic=True)
    running = {}
    base = tempfile.mkdtemp(prefix="mut_src.")
    res = open(a.out, "a")

    def collect(pid, status):
        meta, d, t0 = running.pop(pid)
        try:
            r = json.load(open(os.path.join(d, "res.json")))
        except Exception:
            r = {"killed_by": None, "errors": [f"died status {status}"]}
        shutil.rmtree(d, ignore_errors=True)
        res.write(json.dumps({**meta, **r, "t": round(time.time() - t0, 1)}) + "\n")
        res.flush()
    for f, ln, desc, new in jobs:
        if (f, ln, desc) in done:
            continue
        while len(running) >= a.jobs:
            pid, st = os.wait()
            if pid in running:
                collect(pid, st)
        d = tempfile.mkdtemp(dir=base)
        shutil.copytree(os.path.join(SRC, "aspsim"), os.path.join(d, "aspsim"), ignore=shutil.ignore_patterns("__pycache__"))
        open(os.path.join(d, "aspsim", f), "w").write(new)
        checks = (a.checks or CHECKS[f]).replace(",", " ").split()
        pid = os.fork()
        if pid == 0:
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            child(d, checks, a.frac, a.seconds, a.seed, os.path.join(d, "res.json"))
        running[pid] = ({"file": f, "line": ln, "desc": desc}, d, time.time())
    while running:
        pid, st = os.wait()
        if pid in running:
            collect(pid, st)
    shutil.rmtree(base, ignore_errors=True)


main()
