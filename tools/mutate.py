"""Development helper: one-place mutations of the package which pass its tests and change what it decodes.
usage: mutate.py OUT.json   writes [[file, line, what, source]] of the survivors whose outputs (tools/benign.py's comparison) differ."""
import ast
import copy
import glob
import json
import multiprocessing
import os
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import benign  # noqa: E402

CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.Mod: [ast.Mult]}


def regexes(s):
    for m in re.finditer(r"\{(\d),(\d)\}", s):
        yield s[:m.start()] + "{%s}" % m.group(1) + s[m.end():]
        yield s[:m.start()] + "{%s}" % m.group(2) + s[m.end():]
    for m in re.finditer(r"\\d", s):
        yield s[:m.start()] + "[1-9]" + s[m.end():]
    for m in re.finditer(r"\?(?![<P!:=])", s):
        if m.start() and s[m.start() - 1] != "(":
            yield s[:m.start()] + s[m.end():]
    for m in re.finditer(r"\|[^|()\[\]]+(?=[|)])", s):
        yield s[:m.start()] + s[m.end():]
    for m in re.finditer(r"(?<=[(>])[^|()\[\]?<>]+\|", s):
        yield s[:m.start()] + s[m.end():]
    for m in re.finditer(r"\(\?<?!\\S\)", s):
        yield s[:m.start()] + s[m.end():]
    if s.endswith("$"):
        yield s[:-1]


def variants(node, doc):
    """Replacements of one node."""
    if isinstance(node, ast.Compare) and len(node.ops) == 1:
        for o in CMP.get(type(node.ops[0]), []):
            n = copy.deepcopy(node)
            n.ops = [o()]
            yield n
    if isinstance(node, ast.BoolOp):
        n = copy.deepcopy(node)
        n.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
        yield n
        for i in range(len(node.values)):
            n = copy.deepcopy(node)
            del n.values[i]
            yield n if len(n.values) > 1 else n.values[0]
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
        yield node.operand
    if isinstance(node, ast.BinOp):
        for o in BIN.get(type(node.op), []):
            n = copy.deepcopy(node)
            n.op = o()
            yield n
    if isinstance(node, ast.Constant) and id(node) not in doc:
        v = node.value
        if isinstance(v, bool):
            yield ast.Constant(not v)
        elif isinstance(v, (int, float)):
            yield ast.Constant(v + 1)
            yield ast.Constant(v - 1)
        elif isinstance(v, str) and v:
            if "(?P<" in v or "\\" in v:
                for r in regexes(v):
                    yield ast.Constant(r)
            else:
                yield ast.Constant(v + "X")
    if isinstance(node, (ast.If, ast.IfExp, ast.While)):
        for b in (True, False):
            if isinstance(node, ast.While) and b:
                continue
            n = copy.deepcopy(node)
            n.test = ast.Constant(b)
            yield n
    if isinstance(node, ast.Return) and node.value is not None and not (isinstance(node.value, ast.Constant) and node.value.value is None):
        yield ast.Return(ast.Constant(None))
    if isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign, ast.Continue, ast.Break)) and not (isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
        yield ast.Pass()
    if isinstance(node, (ast.List, ast.Dict, ast.Tuple)) and isinstance(getattr(node, "ctx", ast.Load()), ast.Load):
        k = len(node.keys) if isinstance(node, ast.Dict) else len(node.elts)
        if 1 < k:
            for i in range(k):
                n = copy.deepcopy(node)
                if isinstance(node, ast.Dict):
                    del n.keys[i], n.values[i]
                else:
                    del n.elts[i]
                yield n


def mutants():
    for fn in sorted(glob.glob("/repo/aeromet_py/**/*.py", recursive=True)):
        if fn.endswith(("stations.py", "countries.py", "__main__.py")):
            continue
        src = open(fn).read()
        tree = ast.parse(src)
        doc, ann = set(), set()
        for n in ast.walk(tree):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                doc.add(id(n.value))
            for f in ("annotation", "returns"):
                for m in ast.walk(getattr(n, f, None) or ast.Pass()):
                    ann.add(id(m))
        seen = set()
        for n in ast.walk(tree):
            if id(n) in ann:
                continue
            for v in variants(n, doc):
                new = ast.unparse(tree_copy(tree, n, v))
                if new in seen:
                    continue
                seen.add(new)
                yield fn, getattr(n, "lineno", 0), "%s -> %s" % (ast.unparse(n)[:90], ast.unparse(v)[:90]), new


def tree_copy(tree, n, v):
    """The tree with n replaced (by path, on a copy)."""
    path = []

    def find(x):
        for f, val in ast.iter_fields(x):
            if val is n:
                path.append((f, None))
                return True
            if isinstance(val, list):
                for i, y in enumerate(val):
                    if y is n:
                        path.append((f, i))
                        return True
                    if isinstance(y, ast.AST) and find(y):
                        path.append((f, i))
                        return True
            elif isinstance(val, ast.AST) and find(val):
                path.append((f, None))
                return True
        return False
    find(tree)
    t = copy.deepcopy(tree)
    x = t
    path.reverse()
    for f, i in path[:-1]:
        x = getattr(x, f) if i is None else getattr(x, f)[i]
    f, i = path[-1]
    if i is None:
        setattr(x, f, v)
    else:
        getattr(x, f)[i] = v
    return ast.fix_missing_locations(t)


REF = None


def work(job):
    k, (fn, line, what, new) = job
    root = "/tmp/mut.%d" % os.getpid()
    if not os.path.isdir(root):
        shutil.copytree("/repo", root, symlinks=True, ignore=shutil.ignore_patterns(".git"))
    p = root + fn[len("/repo"):]
    old = open(p).read()
    open(p, "w").write(new)
    try:
        env = dict(os.environ, PYTHONPATH=root, PYTHONDONTWRITEBYTECODE="1", TZ="UTC", FAKETIME="@2022-10-06 12:00:00", NO_FAKE_STAT="1",
                   FAKETIME_DONT_FAKE_MONOTONIC="1", LD_PRELOAD="/usr/lib/x86_64-linux-gnu/faketime/libfaketime.so.1")
        try:
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", "tests"], cwd=root, stdout=subprocess.DEVNULL,
                               stderr=subprocess.DEVNULL, timeout=60, env=env)
            if r.returncode:
                return None
            o = subprocess.run(["/opt/venv/bin/python", "-c", benign.COMPARE], cwd=root, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120,
                               env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")).stdout
        except subprocess.TimeoutExpired:
            return None
        a, b = REF.splitlines(), o.splitlines()
        d = sum(x != y for x, y in zip(a, b)) + abs(len(a) - len(b))
        return [fn, line, what, d, new]
    finally:
        open(p, "w").write(old)


def main(out):
    global REF
    REF = benign.out("/repo")
    jobs = list(enumerate(mutants()))
    print(len(jobs), "mutants", flush=True)
    with multiprocessing.Pool(8) as pool:
        r = [x for x in pool.imap_unordered(work, jobs, chunksize=4) if x]
    json.dump(r, open(out, "w"))
    print(len(r), "survive", sum(1 for x in r if x[3]), "differ")
    for d in glob.glob("/tmp/mut.[0-9]*"):
        if os.path.isdir(d):
            shutil.rmtree(d)


if __name__ == "__main__":
    main(sys.argv[1])
