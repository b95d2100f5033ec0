"""Mutation survey: small changes to nappy that pass the stable tests and that no check notices.

    mutate.py OUT.jsonl [-n COUNT] [-s SEED] [-j JOBS] [FILE ...]

Every surviving change is either one that changes no behaviour, or a gap in a check.  Works on scratch copies.
"""
import argparse
import ast
import json
import os
import random
import sys
import tempfile
import threading
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

import plant

NAF = ["P01", "P02", "P03", "P04", "P05", "P06", "P08", "P16", "P07", "P17"]
ORDER = {
    "nappy/na_file/": NAF,
    "nappy/utils/text_parser.py": ["P03", "P04", "P01"],
    "nappy/utils/list_manipulator.py": ["P02", "P01"],
    "nappy/utils/common_utils.py": ["P13", "P12", "P14", "P07", "P09", "P16", "P24", "P20"],
    "nappy/utils/parse_config.py": ["P07", "P14", "P24", "P13"],
    "nappy/utils/compare": ["P15"],
    "nappy/nappy_api.py": ["P07", "P06", "P13", "P23", "P05", "P08", "P12", "P14", "P20", "P09", "P24", "P18", "P10", "P22"],
    "nappy/nc_interface/nc_to_na.py": ["P09", "P13", "P24", "P10", "P12", "P14"],
    "nappy/nc_interface/xarray_utils.py": ["P10", "P09", "P11", "P24", "P22", "P18", "P17"],
    "nappy/nc_interface/na_to": ["P17", "P20", "P19", "P21", "P22", "P18"],
    "nappy/nc_interface/na_content_collector.py": ["P10", "P09", "P11", "P24", "P22", "P18", "P14"],
    "nappy/nc_interface/xarray": ["P14", "P12", "P13", "P24", "P08", "P06", "P11"],
    "nappy/script/": ["P23"],
}
ALL = ["P%02d" % k for k in range(1, 25)]


def order(path):
    for k, v in ORDER.items():
        if path.startswith(k):
            return v + [p for p in ALL if p not in v]
    return ALL


def span(src_lines, node):
    """Character offsets of a node."""
    def at(line, col):
        return sum(len(x) for x in src_lines[:line - 1]) + len(src_lines[line - 1].encode()[:col].decode())
    return at(node.lineno, node.col_offset), at(node.end_lineno, node.end_col_offset)


CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in", ast.NotIn: "in",
       ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}


def mutants(path):
    """(description, new source) of every small change to a file."""
    src = open(path, newline="").read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    lines = []
    # (the line numbers of ast count \n, \r\n and \r only)
    rest = src
    import re
    lines = re.findall(r"[^\r\n]*(?:\r\n|\r|\n)|[^\r\n]+$", src)
    out = []
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            skip.add(id(n.body[0]))
            skip.add(id(n.body[0].value))
        if isinstance(n, ast.Raise) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and
                                        ast.unparse(n.value.func).split(".")[0] in ("log", "print", "logging", "warnings")):
            for m in ast.walk(n):
                if m is not n:
                    skip.add(id(m))
            if not isinstance(n, ast.Raise):
                skip.add(id(n))

    def text(n):
        a, b = span(lines, n)
        return src[a:b]

    def put(n, new, what):
        a, b = span(lines, n)
        s = src[:a] + new + src[b:]
        if s == src:
            return
        try:
            ast.parse(s)
        except SyntaxError:
            return
        out.append(("%d: %s: %s -> %s" % (n.lineno, what, src[a:b][:90].replace("\n", " "), new[:90].replace("\n", " ")), s))
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            put(n, "(%s) %s (%s)" % (text(n.left), CMP[type(n.ops[0])], text(n.comparators[0])), "compare")
            if isinstance(n.ops[0], ast.Eq) and isinstance(n.comparators[0], ast.Constant) and isinstance(n.comparators[0].value, int):
                put(n, "(%s) >= (%s)" % (text(n.left), text(n.comparators[0])), "compare")
        elif isinstance(n, ast.BoolOp):
            new = " or " if isinstance(n.op, ast.And) else " and "
            put(n, "(" + new.join("(%s)" % text(v) for v in n.values) + ")", "bool")
            for k in range(len(n.values)):
                put(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join(
                    "(%s)" % text(v) for j, v in enumerate(n.values) if j != k) + ")", "drop condition")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, "(%s)" % text(n.operand), "not")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            put(n, "(%s)" % text(n.operand), "sign")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            put(n, "(%s) %s (%s)" % (text(n.left), BIN[type(n.op)], text(n.right)), "arithmetic")
            if isinstance(n.op, ast.Add):
                put(n, "(%s)" % text(n.left), "drop operand")
                put(n, "(%s)" % text(n.right), "drop operand")
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                put(n, repr(not v), "constant")
            elif isinstance(v, int):
                put(n, "(%d)" % (v + 1), "constant")
                if v > 0:
                    put(n, "(%d)" % (v - 1), "constant")
            elif isinstance(v, float):
                put(n, repr(v * 1.5 + 1), "constant")
            elif isinstance(v, str) and len(v) < 60 and text(n)[0] in "\"'":
                put(n, '""' if v else '"mutant"', "text")
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            if not isinstance(n, ast.While):
                put(n.test, "True", "condition")
            put(n.test, "False", "condition")
        elif isinstance(n, ast.Return) and n.value is not None:
            put(n.value, "None", "return")
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            put(n, "pass", "drop call")
        elif isinstance(n, (ast.AugAssign,)):
            put(n, "pass", "drop update")
        elif isinstance(n, ast.Assign) and not isinstance(n.targets[0], ast.Name):
            put(n, "pass", "drop assignment")
        elif isinstance(n, ast.Raise):
            put(n, "pass", "drop raise")
        elif isinstance(n, ast.Break):
            put(n, "continue", "break")
        elif isinstance(n, ast.Continue):
            put(n, "pass", "continue")
        elif isinstance(n, ast.For):
            put(n.iter, "list(%s)[1:]" % text(n.iter), "skip first")
            put(n.iter, "list(%s)[:-1]" % text(n.iter), "skip last")
        elif isinstance(n, ast.comprehension):
            put(n.iter, "list(%s)[:-1]" % text(n.iter), "skip last")
            for c in n.ifs:
                put(c, "True", "comprehension condition")
        if isinstance(n, ast.Call):
            f = text(n.func)
            for k in n.keywords:
                if k.arg:
                    a, b = span(lines, k)
                    s = src[:a] + src[b:]
                    t = s[a:].lstrip()
                    s = s[:a] + (t[1:] if t.startswith(",") else t)
                    try:
                        ast.parse(s)
                        out.append(("%d: drop keyword: %s of %s" % (n.lineno, k.arg, f), s))
                    except SyntaxError:
                        pass
            for m in ("strip", "rstrip", "lstrip", "lower", "upper", "copy"):
                if isinstance(n.func, ast.Attribute) and n.func.attr == m and not n.args:
                    put(n, text(n.func.value), "drop ." + m)
            if f in ("list", "sorted", "int", "float", "str", "abs", "tuple", "set", "reversed", "copy.deepcopy", "min", "max", "any", "all",
                     "enumerate") and len(n.args) == 1:
                new = {"any": "all(%s)", "all": "any(%s)", "min": "max(%s)", "max": "min(%s)", "enumerate": "enumerate(%s, 1)"}.get(f, "(%s)")
                put(n, new % text(n.args[0]), "drop " + f)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("-n", type=int, default=100)
    ap.add_argument("-s", type=int, default=1)
    ap.add_argument("-j", type=int, default=6)
    ap.add_argument("--scale", type=float, default=0.5)
    ap.add_argument("--own", action="store_true", help="only the checks nearest to the file")
    ap.add_argument("files", nargs="*")
    a = ap.parse_args()
    root = Path("/repo")
    files = a.files or sorted(str(p.relative_to(root)) for p in root.glob("nappy/**/*.py"))
    todo = []
    for f in files:
        for what, s in mutants(root / f):
            todo.append((f, what, s))
    rng = random.Random(a.s)
    rng.shuffle(todo)
    done = set()
    if os.path.exists(a.out):
        for line in open(a.out):
            r = json.loads(line)
            done.add((r["file"], r["what"]))
    print(len(todo), "possible")
    todo = [t for t in todo if (t[0], t[1]) not in done][:a.n]
    lock = threading.Lock()

    def work(t):
        f, what, s = t
        res = {"file": f, "what": what}
        with tempfile.TemporaryDirectory(prefix="mutant_") as tmp:
            repo = plant.copy_repo(tmp)
            open(repo / f, "w", newline="").write(s)
            try:
                broken = plant.stable_tests(repo, tmp)
            except Exception as exc:
                broken = [repr(exc)]
            if broken:
                res["fate"] = "tests"
            else:
                res["fate"] = "survived"
                ps = order(f)
                if a.own:
                    ps = ps[:next((len(v) for k, v in ORDER.items() if f.startswith(k)), 8)]
                for p in ps:
                    try:
                        r = plant.check(p, repo, VERIF_TLC_WORKERS="2", VERIF_TLC_HEAP="2g", VERIF_SCALE=str(a.scale))
                    except Exception as exc:
                        res["fate"] = "%s: %r" % (p, exc)
                        break
                    if r.returncode == 1:
                        res["fate"] = p
                        break
                    if r.returncode:
                        res["fate"] = "%s failed" % p
                        res["output"] = (r.stdout + r.stderr)[-600:]
                        break
        with lock:
            with open(a.out, "a") as h:
                h.write(json.dumps(res) + "\n")
    with ThreadPoolExecutor(a.j) as pool:
        list(pool.map(work, todo))
    fates = {}
    for line in open(a.out):
        r = json.loads(line)
        fates[r["fate"]] = fates.get(r["fate"], 0) + 1
    print(fates)


main()
