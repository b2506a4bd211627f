"""Mutation run: which changes of /repo do the checks not notice?

tools/mutate.py FILE CHECK[,CHECK...] [--n N] [--seed S] [--only LINE-LINE]

Each mutant changes one place of FILE in a scratch copy of /repo; the checks
are run on it (without shrinking) until one fails. Survivors are printed with
their diff, to be judged by hand (equivalent, or a gap). Not a check itself.
"""
import argparse
import ast
import copy
import difflib
import os
import pathlib
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = pathlib.Path(__file__).resolve().parent.parent
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
       ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div,
       ast.Div: ast.Mult, ast.FloorDiv: ast.Mult, ast.MatMult: None,
       ast.Mod: ast.FloorDiv}
SKIP_CALLS = {"warn", "info", "debug", "warning", "error", "print", "format",
              "tqdm", "empty_cache", "add_argument"}


def name_of(call):
    f = call.func
    return f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")


class Sites(ast.NodeVisitor):
    """Collects (description, line, path-in-tree, edit)."""

    def __init__(self):
        self.out = []

    def add(self, node, what, edit):
        self.out.append((node, what, edit))

    def visit_FunctionDef(self, node):
        for s in node.body:
            self.visit(s)
        for d in node.args.defaults + [d for d in node.args.kw_defaults if d]:
            self.visit(d)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        for s in node.body:
            self.visit(s)

    def visit_AnnAssign(self, node):
        if node.value:
            self.visit(node.value)

    def visit_Raise(self, node):
        self.add(node, "drop raise", "pass")

    def visit_Import(self, node):
        pass

    visit_ImportFrom = visit_Import

    def visit_Expr(self, node):
        if isinstance(node.value, ast.Constant):
            return
        if isinstance(node.value, ast.Call):
            if name_of(node.value) in SKIP_CALLS:
                return
            self.add(node, "drop call", "pass")
        self.generic_visit(node)

    def visit_Assign(self, node):
        if isinstance(node.value, (ast.Constant, ast.JoinedStr)) and getattr(
                node.targets[0], "id", "") in ("msg", "message", "error_msg"):
            return
        if isinstance(node.targets[0], ast.Attribute):
            self.add(node, "drop assignment", "pass")
        self.generic_visit(node)

    def visit_AugAssign(self, node):
        self.add(node, "drop augmented", "pass")
        self.add(node, "aug -> assign", "plain")
        self.generic_visit(node)

    def visit_If(self, node):
        self.add(node, "if True", ("test", True))
        self.add(node, "if False", ("test", False))
        self.generic_visit(node)

    def visit_IfExp(self, node):
        self.add(node, "ifexp body", "body")
        self.add(node, "ifexp orelse", "orelse")
        self.generic_visit(node)

    def visit_Compare(self, node):
        t = CMP.get(type(node.ops[0]))
        if t and len(node.ops) == 1:
            self.add(node, "compare", t)
        self.generic_visit(node)

    def visit_BinOp(self, node):
        t = BIN.get(type(node.op))
        if t:
            self.add(node, "binop", t)
        self.generic_visit(node)

    def visit_BoolOp(self, node):
        self.add(node, "and/or", "flip")
        self.generic_visit(node)

    def visit_UnaryOp(self, node):
        if isinstance(node.op, (ast.USub, ast.Not)):
            self.add(node, "drop unary", "operand")
        self.generic_visit(node)

    def visit_Constant(self, node):
        if isinstance(node.value, bool):
            self.add(node, "bool", not node.value)
        elif isinstance(node.value, int):
            self.add(node, "int+1", node.value + 1)
        elif isinstance(node.value, float):
            self.add(node, "float*3", node.value * 3 + (node.value == 0))

    def visit_Call(self, node):
        if name_of(node) in SKIP_CALLS:
            return
        for i, k in enumerate(node.keywords):
            self.add(node, "drop keyword %s" % k.arg, ("kw", i))
        if len(node.args) >= 2 and not any(
                isinstance(a, ast.Starred) for a in node.args[:2]):
            self.add(node, "swap args", "swap")
        if isinstance(node.func, ast.Attribute) and not node.args and \
                node.func.attr in ("detach", "clone", "T", "flatten", "item",
                                   "eval", "contiguous", "unsqueeze", "float",
                                   "copy", "sum", "mean", "sqrt"):
            self.add(node, "drop .%s()" % node.func.attr, "unwrap")
        self.generic_visit(node)

    def visit_JoinedStr(self, node):
        pass

    def visit_Break(self, node):
        self.add(node, "drop break", "pass")

    def visit_Continue(self, node):
        self.add(node, "drop continue", "pass")


def apply(tree, k):
    """A mutated copy of the tree (site number k) or None."""
    tree = copy.deepcopy(tree)
    s = Sites()
    s.visit(tree)
    node, what, edit = s.out[k]
    new = None
    if edit == "pass":
        new = ast.Pass()
    elif edit == "plain":
        new = ast.Assign([node.target], node.value)
    elif isinstance(edit, tuple) and edit[0] == "test":
        node.test = ast.Constant(edit[1])
    elif isinstance(edit, tuple):
        del node.keywords[edit[1]]
    elif what == "compare":
        node.ops = [edit()]
    elif what == "binop":
        node.op = edit()
    elif edit == "flip":
        node.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
    elif edit in ("body", "orelse"):
        new = getattr(node, edit)
    elif edit == "operand":
        new = node.operand
    elif edit == "swap":
        node.args[0], node.args[1] = node.args[1], node.args[0]
    elif edit == "unwrap":
        new = node.func.value
    else:
        new = ast.Constant(edit)
    if new is not None:
        class R(ast.NodeTransformer):
            def generic_visit(self, n):
                if n is node:
                    return ast.copy_location(new, node)
                return super().generic_visit(n)

            def visit(self, n):
                return ast.copy_location(new, node) if n is node \
                    else super().visit(n)
        tree = R().visit(tree)
    ast.fix_missing_locations(tree)
    return tree, what, node.lineno


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("file")
    ap.add_argument("checks")
    ap.add_argument("--n", type=int, default=40)
    ap.add_argument("--seed", type=int, default=0)
    ap.add_argument("--lines", default=None)
    ap.add_argument("--jobs", type=int, default=2)
    a = ap.parse_args()
    src = pathlib.Path("/repo", a.file).read_text()
    base = ast.parse(src)
    norm = ast.unparse(base)
    s = Sites()
    s.visit(base)
    ks = list(range(len(s.out)))
    if a.lines:
        lo, hi = map(int, a.lines.split("-"))
        ks = [k for k in ks if lo <= s.out[k][0].lineno <= hi]
    random.Random(a.seed).shuffle(ks)
    ks = ks[:a.n]
    print(a.file, len(s.out), "sites,", len(ks), "tried", flush=True)

    def one(k):
        tree, what, line = apply(base, k)
        new = ast.unparse(tree)
        if new == norm:
            return None
        scratch = tempfile.mkdtemp(prefix="mut.")
        try:
            shutil.copytree("/repo/dattri", scratch + "/dattri")
            pathlib.Path(scratch, a.file).write_text(new)
            diff = "\n".join(x for x in difflib.unified_diff(
                norm.split("\n"), new.split("\n"), lineterm="", n=1)
                if not x.startswith(("---", "+++", "@@")))
            for c in a.checks.split(","):
                env = {**os.environ, "DATTRI_REPO": scratch, "PV_NO_SHRINK": "1",
                       "VERIF_NPROC": str(8 // a.jobs), "VERIF_NO_EVIDENCE": "1"}
                try:
                    p = subprocess.run(["./run.sh", c], cwd=ROOT, env=env,
                                       capture_output=True, text=True,
                                       timeout=900, check=False)
                except subprocess.TimeoutExpired:
                    return line, what, diff, "killed %s (timeout)" % c
                if p.returncode == 1:
                    return line, what, diff, "killed " + c
                if p.returncode != 0:
                    return line, what, diff, "HARNESS %s: %s" % (
                        c, p.stdout[-300:])
            return line, what, diff, "SURVIVED"
        finally:
            shutil.rmtree(scratch)

    n = killed = 0
    with ThreadPoolExecutor(a.jobs) as ex:
        for r in ex.map(one, ks):
            if r is None:
                continue
            n += 1
            if r[3].startswith("killed"):
                killed += 1
                continue
            print("== %s:%d %s: %s\n%s" % (a.file, r[0], r[1], r[3], r[2]),
                  flush=True)
    print(a.file, "killed %d of %d" % (killed, n), flush=True)


if __name__ == "__main__":
    sys.exit(main())
