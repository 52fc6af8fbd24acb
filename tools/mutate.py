"""Mutation study of the checks (not a check itself).

    python tools/mutate.py list FILE            number of mutants of src/mud/FILE
    python tools/mutate.py run FILE LO HI OUT   run them through the checks (reduced searches)

Each mutant is one syntactic change of /repo's code, written to a scratch copy; the checks run on the
copy in one process each (dst.core.Search with a fraction of the quick runs), and stop at the first
violation.  What survives is either equivalent, outside the properties, or a gap to close.
"""
import ast
import copy
import json
import os
import shutil
import subprocess
import sys
import tempfile

SRC = os.environ.get("MUTATE_SRC", "/repo/src")
CMP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.MatMult: ast.Mult, ast.Pow: ast.Mult}


def is_doc(node, parents):
    return isinstance(node, ast.Constant) and isinstance(node.value, str) and isinstance(parents.get(node), ast.Expr)


def mutants(src):
    """(description, mutated source) for every mutation of a module."""
    tree = ast.parse(src)
    parents = {c: p for p in ast.walk(tree) for c in ast.iter_child_nodes(p)}
    nodes = list(ast.walk(tree))
    index = {n: i for i, n in enumerate(nodes)}

    def skip(n):
        while n in parents:
            if isinstance(n, ast.Raise) or isinstance(n, ast.JoinedStr) or isinstance(n, (ast.Import, ast.ImportFrom)):
                return True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("warning", "info", "debug"):
                return True
            if isinstance(n, ast.arg) or isinstance(n, ast.AnnAssign) and False:
                return True
            n = parents[n]
        return False

    def make(i, f):
        t = copy.deepcopy(tree)
        n = list(ast.walk(t))[i]
        ps = {c: p for p in ast.walk(t) for c in ast.iter_child_nodes(p)}
        f(n, ps)
        ast.fix_missing_locations(t)
        return ast.unparse(t)

    def replace(n, ps, new):
        p = ps[n]
        for name, v in ast.iter_fields(p):
            if v is n:
                setattr(p, name, new)
            elif isinstance(v, list) and n in v:
                v[v.index(n)] = new

    out = []
    for n in nodes:
        if skip(n) and not isinstance(n, ast.Raise):
            continue
        i = index[n]
        where = f"{getattr(n, 'lineno', '?')}"
        add = lambda what, f: out.append((f"{where}: {what}", i, f))
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            new = CMP[type(n.ops[0])]
            add(f"{ast.unparse(n)} -> {new.__name__}", lambda m, ps, new=new: m.ops.__setitem__(0, new()))
        elif isinstance(n, ast.BoolOp):
            new = ast.Or if isinstance(n.op, ast.And) else ast.And
            add(f"{ast.unparse(n)} -> {new.__name__}", lambda m, ps, new=new: setattr(m, "op", new()))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            new = BIN[type(n.op)]
            add(f"{ast.unparse(n)} -> {new.__name__}", lambda m, ps, new=new: setattr(m, "op", new()))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            add(f"{ast.unparse(n)} -> operand", lambda m, ps: replace(m, ps, m.operand))
        elif isinstance(n, ast.Constant) and not is_doc(n, parents):
            v = n.value
            if isinstance(v, bool):
                add(f"{v} -> {not v}", lambda m, ps, v=v: setattr(m, "value", not v))
            elif isinstance(v, (int, float)):
                w = v + 1 if v in (0, 1, 2, -1) else v * 2
                add(f"{v} -> {w} in {ast.unparse(parents[n])[:60]}", lambda m, ps, w=w: setattr(m, "value", w))
                if v == 1:
                    add(f"{v} -> 0 in {ast.unparse(parents[n])[:60]}", lambda m, ps: setattr(m, "value", 0))
            elif v is None and not isinstance(parents[n], (ast.Compare, ast.Return, ast.arguments)):
                add("None -> 0", lambda m, ps: setattr(m, "value", 0))
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and not is_doc(getattr(n, "value", n), parents) \
                and not isinstance(n.value, ast.Constant):
            add(f"delete {ast.unparse(n)[:70]}", lambda m, ps: replace(m, ps, ast.Pass()))
        elif isinstance(n, ast.Raise):
            add(f"delete {ast.unparse(n)[:70]}", lambda m, ps: replace(m, ps, ast.Pass()))
        elif isinstance(n, ast.If):
            add(f"if {ast.unparse(n.test)[:60]} -> True", lambda m, ps: setattr(m, "test", ast.Constant(True)))
            add(f"if {ast.unparse(n.test)[:60]} -> False", lambda m, ps: setattr(m, "test", ast.Constant(False)))
        elif isinstance(n, ast.IfExp):
            add(f"{ast.unparse(n)[:70]} -> body", lambda m, ps: replace(m, ps, m.body))
            add(f"{ast.unparse(n)[:70]} -> orelse", lambda m, ps: replace(m, ps, m.orelse))
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "reshape", "ravel", "flatten", "transpose"):
                add(f"{ast.unparse(n)[:70]} -> no {n.func.attr}", lambda m, ps: replace(m, ps, m.func.value))
            elif len(n.args) == 1 and not n.keywords and isinstance(n.func, (ast.Attribute, ast.Name)) and \
                    (getattr(n.func, "attr", None) or n.func.id) in (
                        "array", "copy", "deepcopy", "list", "dict", "atleast_2d", "asarray", "make_2d_unit_mesh", "set_shape"):
                add(f"{ast.unparse(n)[:70]} -> argument", lambda m, ps: replace(m, ps, m.args[0]))
            for k, kw in enumerate(n.keywords):
                if kw.arg:
                    add(f"{ast.unparse(n)[:60]} drop {kw.arg}", lambda m, ps, k=k: m.keywords.pop(k))
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                add(f"{ast.unparse(n)[:60]} swap", lambda m, ps: m.args.__setitem__(slice(0, 2), m.args[1::-1]))
        elif isinstance(n, ast.Attribute) and n.attr == "T" and isinstance(n.ctx, ast.Load):
            add(f"{ast.unparse(n)[:60]} -> no T", lambda m, ps: replace(m, ps, m.value))
    return out, make


ORDER = {
    "base.py": ["C10", "C01", "C03", "C04", "C05", "C08", "C11", "C07", "C16", "C02", "C06", "C09", "C12"],
    "funs.py": ["C16", "C04", "C05", "C10", "C07", "C06", "C09", "C08"],
    "plot.py": ["C14", "C11", "C08", "C12", "C07"],
    "util.py": ["C10", "C16", "C04", "C01", "C07", "C08", "C06", "C11"],
    "norm.py": ["C07", "C06", "C04"],
    "preprocessing.py": ["C10", "C07", "C06"],
}
FRACTION = int(os.environ.get("MUTATE_FRACTION", "10"))


def probe(props):
    """In a fresh process with MUDSIM_SRC set: run reduced searches."""
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from dst import core

    scratch = tempfile.mkdtemp(prefix="mutsim.")
    os.chdir(scratch)
    code = 0
    try:
        core.quiet_env()
        if props[0] != "C14":
            [core.load_prop(pid) for pid in props]  # stubs come before the library
        for pid in props:
            prop = core.load_prop(pid)
            if getattr(prop, "IMPORT_MUD", True):
                try:
                    core.import_mud()
                    getattr(prop, "warm_up", lambda: None)()
                except Exception as e:
                    print(f"{pid} import: {type(e).__name__}: {e}")
                    code = 1
                    break
            s = core.Search(pid, "quick", 1, scratch, workers=int(os.environ.get("MUDSIM_WORKERS", "4")),
                            count=max(40, prop.RUNS["quick"] // FRACTION))
            s.budget = 90
            found = s.run()
            if found:
                v = found[3]["violation"] if found[3] else ["hang", ""]
                print(f"{pid} {v[0]}: {v[1][:150]}")
                code = 1
                break
            if s.errors:
                print(f"{pid} harness: {s.errors[0].strip().splitlines()[-1][:200]}")
                code = 1
                break
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)


def main():
    if sys.argv[1] == "probe":
        probe(sys.argv[2:])
    name = sys.argv[2]
    with open(f"{SRC}/mud/{name}") as fp:
        src = fp.read()
    out, make = mutants(src)
    if sys.argv[1] == "list":
        print(len(out))
        for i, m in enumerate(out):
            print(i, m[0])
        return
    lo, hi, path = int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
    step = int(os.environ.get("MUTATE_STEP", "1"))
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for i in range(lo, min(hi, len(out)), step):
        what, idx, f = out[i]
        d = tempfile.mkdtemp(prefix="mut.")
        try:
            try:
                new = make(idx, f)
                compile(new, name, "exec")
            except Exception as e:
                continue
            shutil.copytree(f"{SRC}/mud", f"{d}/mud", ignore=shutil.ignore_patterns("__pycache__"))
            with open(f"{d}/mud/{name}", "w") as fp:
                fp.write(new)
            env = dict(os.environ, MUDSIM_SRC=d, PYTHONPATH=here, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
                       MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1")
            try:
                r = subprocess.run(["/opt/venv/bin/python", os.path.abspath(__file__), "probe", *ORDER[name]], env=env,
                                   capture_output=True, text=True, timeout=900)
                text, rc = r.stdout.strip()[-200:], r.returncode
                if rc not in (0, 1):
                    text = r.stderr.strip()[-200:]
            except subprocess.TimeoutExpired:
                rc, text = 9, "timeout"
            with open(path, "a") as fp:
                fp.write(json.dumps({"file": name, "i": i, "what": what, "rc": rc, "text": text}) + "\n")
        finally:
            shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    main()
