"""
Systematic small changes of the code under test, to find gaps of the checks:
tools/mutate.py OUT.jsonl [--count N] [--seed N] [--jobs N] [--budget S] [--only REGEX of file:function]

Each change is made in a scratch copy. One that the tests don't notice is given to the checks, one after another, until one
reports it. Results (file, line, function, old and new text, killed by what) go to OUT.jsonl; nothing else is kept.
"""
import argparse
import ast
import glob
import json
import multiprocessing
import os
import random
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
FIRST = {"reader": ["c02", "c03", "c07", "c05", "c06"], "writer": ["c01", "c03", "c06", "c04", "c13"],
         "workspace": ["c13", "c12", "c08", "c09"], "implementation": ["c18", "c19"], "type_generator": ["c19"],
         "element": ["c10", "c16", "c17", "c14", "c20", "c21", "c15", "c11", "c08", "c09", "c01"],
         "enumeration": ["c05"], "document": ["c13", "c03"], "template": ["c12"]}
SWAP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Is: "is not",
        ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}


class Sites(ast.NodeVisitor):
    """Collects (function, line, start, end, new text, kind)"""

    def __init__(self, text):
        self.text = text
        self.lines = text.split("\n")
        self.starts = [0]
        for line in self.lines:
            self.starts.append(self.starts[-1] + len(line) + 1)
        self.where = []
        self.found = []
        self.docs = set()

    def pos(self, lineno, col):
        line = self.lines[lineno - 1]
        return self.starts[lineno - 1] + len(line.encode()[:col].decode())

    def span(self, node):
        return self.pos(node.lineno, node.col_offset), self.pos(node.end_lineno, node.end_col_offset)

    def src(self, node):
        start, end = self.span(node)
        return self.text[start:end]

    def add(self, node, new, kind):
        if not self.where or not any(x.islower() or x.startswith("_") for x in self.where[-1:]):
            pass
        start, end = self.span(node)
        if self.text[start:end] != new and self.where:
            self.found.append((".".join(self.where), node.lineno, start, end, new, kind))

    def visit_ClassDef(self, node):
        self.where.append(node.name)
        for sub in node.body:
            if isinstance(sub, (ast.FunctionDef, ast.ClassDef)):
                self.visit(sub)
        self.where.pop()

    def visit_FunctionDef(self, node):
        self.where.append(node.name)
        body = node.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            body = body[1:]
        for default in node.args.defaults + node.args.kw_defaults:
            if default is not None:
                self.visit(default)
        for sub in body:
            self.visit(sub)
        self.where.pop()

    def visit_Module(self, node):
        for sub in node.body:
            if isinstance(sub, (ast.FunctionDef, ast.ClassDef)):
                self.visit(sub)

    def visit_Compare(self, node):
        if len(node.ops) == 1:
            self.add(node, f"{self.src(node.left)} {SWAP[type(node.ops[0])]} {self.src(node.comparators[0])}", "compare")
        self.generic_visit(node)

    def visit_BoolOp(self, node):
        word = " or " if isinstance(node.op, ast.And) else " and "
        self.add(node, "(" + word.join(f"({self.src(v)})" for v in node.values) + ")", "bool")
        self.generic_visit(node)

    def visit_UnaryOp(self, node):
        if isinstance(node.op, ast.Not):
            self.add(node, f"({self.src(node.operand)})", "not")
        self.generic_visit(node)

    def visit_BinOp(self, node):
        if isinstance(node.op, (ast.Add, ast.Sub)):
            word = "-" if isinstance(node.op, ast.Add) else "+"
            self.add(node, f"{self.src(node.left)} {word} {self.src(node.right)}", "binop")
        self.generic_visit(node)

    def visit_If(self, node):
        if not isinstance(node.test, (ast.Compare, ast.UnaryOp)):
            self.add(node.test, f"not ({self.src(node.test)})", "negate")
        self.add(node.test, "True", "always")
        self.add(node.test, "False", "never")
        self.generic_visit(node)

    def visit_Constant(self, node):
        value = node.value
        if isinstance(value, bool):
            self.add(node, repr(not value), "constant")
        elif isinstance(value, int):
            self.add(node, repr(value + 1), "constant")
        elif isinstance(value, str) and value:
            self.add(node, repr(value + "X"), "constant")

    def visit_JoinedStr(self, node):
        pass

    def visit_Raise(self, node):
        self.add(node, "pass", "delete")

    def visit_Expr(self, node):
        if not isinstance(node.value, ast.Constant):
            self.add(node, "pass", "delete")
            self.generic_visit(node)

    def visit_Assign(self, node):
        if not isinstance(node.targets[0], ast.Name):
            self.add(node, "pass", "delete")
        self.generic_visit(node)

    def visit_AugAssign(self, node):
        self.add(node, "pass", "delete")
        self.generic_visit(node)

    def visit_AnnAssign(self, node):
        if node.value is not None:
            self.visit(node.value)

    def visit_Return(self, node):
        if node.value is not None and not (isinstance(node.value, ast.Constant) and node.value.value is None):
            self.add(node, "return None", "return")
            self.generic_visit(node)

    def visit_Break(self, node):
        self.add(node, "pass", "delete")

    def visit_Continue(self, node):
        self.add(node, "pass", "delete")

    def visit_Call(self, node):
        if len(node.args) >= 2 and not any(isinstance(a, ast.Starred) for a in node.args[:2]):
            if self.src(node.args[0]) != self.src(node.args[1]):
                first, second = self.src(node.args[0]), self.src(node.args[1])
                start, end = self.span(node)
                inner = (self.span(node.args[0]), self.span(node.args[1]))
                new = (self.text[start:inner[0][0]] + second + self.text[inner[0][1]:inner[1][0]] + first
                       + self.text[inner[1][1]:end])
                if not re.match(r"(isinstance|getattr|setattr|hasattr|self\._assign|self\._add_content)", new):
                    self.add(node, new, "swap")
        for index, keyword in enumerate(node.keywords):
            if keyword.arg is not None and len(node.keywords) > 1:
                kept = [self.src(a) for a in node.args]
                kept += [f"{k.arg}={self.src(k.value)}" if k.arg else f"**{self.src(k.value)}"
                         for i, k in enumerate(node.keywords) if i != index]
                self.add(node, f"{self.src(node.func)}({', '.join(kept)})", "drop-argument")
        self.generic_visit(node)


class Subtle(Sites):
    """Changes that need something specific: other truth, almost equal texts, long lists, subclasses, aliases, old values"""

    def visit_Compare(self, node):
        if len(node.ops) == 1:
            left, op, right = self.src(node.left), node.ops[0], node.comparators[0]
            if isinstance(op, (ast.Is, ast.IsNot)) and isinstance(right, ast.Constant) and right.value is None:
                self.add(node, f"({left})" if isinstance(op, ast.IsNot) else f"not ({left})", "truth")
            elif isinstance(op, (ast.Eq, ast.NotEq)) and not (isinstance(right, ast.Constant) and not isinstance(right.value, str)):
                word = "not " if isinstance(op, ast.NotEq) else ""
                right = self.src(right)
                self.add(node, f"({word}str({left}).startswith(str({right})))", "starts")
                self.add(node, f"({word}str({right}).endswith(str({left})))", "ends")
                self.add(node, f"({word}str({left}).casefold() == str({right}).casefold())", "case")
            elif isinstance(op, (ast.In, ast.NotIn)):
                word = "not " if isinstance(op, ast.NotIn) else ""
                self.add(node, f"({word}any(str({left}).casefold() == str(_x).casefold() for _x in ({self.src(right)})))", "case")
        self.generic_visit(node)

    def visit_If(self, node):
        self.generic_visit(node)

    def visit_For(self, node):
        source = self.src(node.iter)
        self.add(node.iter, f"list({source})[:6]", "cap")
        self.add(node.iter, f"(lambda _l: _l if len(_l) < 5 else _l[:1] + _l[:0:-1])(list({source}))", "long-order")
        self.add(node.iter, f"(lambda _l: [x for i, x in enumerate(_l) if x not in _l[:i]])(list({source}))", "dedupe")
        if not isinstance(node.iter, ast.Call):
            self.add(node.iter, f"(lambda _l: [x for i, x in enumerate(_l) if getattr(x, 'name', i) not in "
                     f"[getattr(y, 'name', None) for y in _l[:i]]])(list({source}))", "dedupe-name")
        self.generic_visit(node)

    def visit_Call(self, node):
        func = self.src(node.func)
        args = [self.src(a) for a in node.args]
        if func == "isinstance":
            kind = f"in {args[1]}" if isinstance(node.args[1], ast.Tuple) else f"is {args[1]}"
            self.add(node, f"(type({args[0]}) {kind})", "exact-type")
        elif func in ("list", "dict") and len(args) == 1:
            self.add(node, f"({args[0]})", "alias")
        elif func.endswith(".copy") and not args:
            self.add(node, f"({func[:-5]})", "alias")
        elif func == "sorted":
            self.add(node, f"list({args[0]})", "unsorted")
            if len(node.args) + len(node.keywords) == 1:
                self.add(node, f"sorted({args[0]}, key=lambda _x: str(_x).casefold())", "sort-case")
                self.add(node, f"sorted({args[0]}, key=lambda _x: (len(str(_x)), str(_x)))", "sort-length")
        elif func == "str" and len(args) == 1:
            self.add(node, f"str({args[0]}).strip()", "strip")
            self.add(node, f"str({args[0]})[:60]", "cut")
        elif func == "int" and len(args) == 1:
            self.add(node, f"int(float({args[0]}))", "float")
        elif func == "float" and len(args) == 1:
            self.add(node, f"float('%.12g' % float({args[0]}))", "precision")
        elif func.endswith(".append") and len(args) == 1:
            self.add(node, f"({func}({args[0]}) if ({args[0]}) not in {func[:-7]} else None)", "append-once")
            self.add(node, f"{func[:-7]}.insert(0 if len({func[:-7]}) > 4 else len({func[:-7]}), {args[0]})", "append-long")
        elif func.endswith("_add_content") and len(args) > 1:
            rest = "".join(", " + a for a in args[2:]) + "".join(f", {k.arg}={self.src(k.value)}" for k in node.keywords)
            self.add(node, f"{func}({args[0]}, {args[1]}.strip(){rest})", "strip")
        self.generic_visit(node)

    def visit_Subscript(self, node):
        text = self.src(node)
        if text.endswith("[-1]"):
            self.add(node, text[:-4] + "[0]", "first")
        elif text.endswith("[0]") and isinstance(node.ctx, ast.Load):
            self.add(node, text[:-3] + "[-1]", "last")
        self.generic_visit(node)

    def visit_Attribute(self, node):
        if node.attr == "text" and isinstance(node.ctx, ast.Load):
            text = self.src(node)
            self.add(node, f"({text} if {text} is None else {text}.strip())", "strip")
            self.add(node, f"({text} or '')", "no-none")
        self.generic_visit(node)

    def visit_Assign(self, node):
        target = node.targets[0]
        if isinstance(target, ast.Attribute) and not isinstance(node.value, ast.Constant):
            text, value = self.src(target), self.src(node.value)
            self.add(node, f"{text} = getattr({self.src(target.value)}, '{target.attr}', None) or ({value})", "keep-old")
        self.generic_visit(node)

    def visit_Dict(self, node):
        if len(node.keys) > 4 or not node.keys:
            return
        self.generic_visit(node)

    def visit_Constant(self, node):
        pass

    def visit_Expr(self, node):
        if not isinstance(node.value, ast.Constant):
            self.generic_visit(node)

    def visit_AugAssign(self, node):
        self.generic_visit(node)

    def visit_Return(self, node):
        if node.value is not None:
            self.generic_visit(node)

    def visit_UnaryOp(self, node):
        self.generic_visit(node)

    def visit_BoolOp(self, node):
        if len(node.values) > 1:
            for skip in range(len(node.values)):
                word = " and " if isinstance(node.op, ast.And) else " or "
                kept = [f"({self.src(v)})" for i, v in enumerate(node.values) if i != skip]
                self.add(node, "(" + word.join(kept) + ")", "drop-condition")
        self.generic_visit(node)

    def visit_BinOp(self, node):
        self.generic_visit(node)

    def visit_Raise(self, node):
        pass

    def visit_Break(self, node):
        pass

    def visit_Continue(self, node):
        pass

    def swaps(self, body):
        """Two neighbours change places"""
        simple = (ast.Expr, ast.Assign)
        for first, second in zip(body, body[1:]):
            if isinstance(first, (ast.If, ast.For)) and type(second) is type(first) or (
                    isinstance(first, simple) and isinstance(second, simple)):
                start, _ = self.span(first)
                _, end = self.span(second)
                pad = " " * first.col_offset
                new = f"{self.src(second)}\n{pad}{self.src(first)}"
                if self.where and not isinstance(getattr(first, "value", None), ast.Constant):
                    self.found.append((".".join(self.where), first.lineno, start, end, new, "swap-statements"))

    def generic_visit(self, node):
        for field in ("body", "orelse"):
            body = getattr(node, field, None)
            if isinstance(body, list) and not isinstance(node, (ast.Module, ast.ClassDef)):
                self.swaps(body)
        super().generic_visit(node)

    def visit_FunctionDef(self, node):
        self.where.append(node.name)
        self.swaps(node.body)
        self.where.pop()
        super().visit_FunctionDef(node)


def sites(root, only, visitor_class=Sites):
    res = []
    for path in sorted(glob.glob(os.path.join(root, "src", "autosar", "**", "*.py"), recursive=True)):
        with open(path, encoding="utf-8") as fp:
            text = fp.read()
        visitor = visitor_class(text)
        visitor.visit(ast.parse(text))
        name = os.path.relpath(path, root)
        for func, line, start, end, new, kind in visitor.found:
            if not only or re.search(only, f"{name}:{func}"):
                res.append((name, func, line, start, end, new, kind))
    return res


def run(cmd, cwd, timeout, **env):
    full = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", **env)
    try:
        return subprocess.run(cmd, cwd=cwd, env=full, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None


def judge(job):
    site, budget, base, every = job
    name, func, line, start, end, new, kind = site
    work = f"/tmp/mut-{os.getpid()}"
    if not os.path.isdir(work):
        shutil.copytree(base, work, symlinks=True)
    path = os.path.join(work, name)
    with open(os.path.join(base, name), encoding="utf-8") as fp:
        text = fp.read()
    res = {"file": name, "function": func, "line": line, "kind": kind, "old": text[start:end][:300], "new": new[:300]}
    changed = text[:start] + new + text[end:]
    try:
        try:
            compile(changed, name, "exec")
        except SyntaxError:
            res["by"] = "syntax"
            return res
        with open(path, "w", encoding="utf-8") as fp:
            fp.write(changed)
        tests = run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], work, 60,
                    PYTHONPATH=os.path.join(work, "src"))
        if tests is None or tests.returncode != 0:
            res["by"] = "tests"
            return res
        stem = os.path.basename(name)[:-3]
        names = sorted(os.path.basename(x)[:-3] for x in glob.glob(os.path.join(VERIF, "checks", "c[0-9]*.py")))
        first = [x for x in FIRST.get(stem, []) if x in names]
        caught = []
        for check in first + [x for x in names if x not in first]:
            out = run([PY, os.path.join(VERIF, "tools", "keys.py"), check, str(budget)], work, 200, ARV_REPO=work)
            if out is None:
                res["by"] = check + " (no answer)"
                return res
            last = (out.stdout.strip().splitlines() or [""])[-1]
            match = re.match(r"(\d+) keys;", last)
            if not match:
                res["by"] = check + " (error) " + (out.stderr.strip().splitlines() or ["?"])[-1][:100]
                return res
            if match.group(1) != "0":
                caught.append(check)
                if not every:
                    break
        res["by"] = " ".join(caught) or None
        return res
    finally:
        with open(path, "w", encoding="utf-8") as fp:
            fp.write(text)


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("out")
    parser.add_argument("--count", type=int, default=300)
    parser.add_argument("--seed", type=int, default=1)
    parser.add_argument("--jobs", type=int, default=7)
    parser.add_argument("--budget", type=float, default=4)
    parser.add_argument("--all", action="store_true", help="all checks, not only the first one that notices")
    parser.add_argument("--only", default="")
    parser.add_argument("--subtle", action="store_true", help="changes that need something specific to show")
    parser.add_argument("--again", help="judge the changes of this result file again")
    parser.add_argument("--by", default="None", help="only those whose result matches this expression")
    args = parser.parse_args()
    base = f"/tmp/mutbase-{os.getpid()}"
    shutil.copytree("/repo", base, symlinks=True)
    rng = random.Random(args.seed)
    groups = {}
    kinds = Subtle if args.subtle else Sites
    for site in sites(base, args.only, kinds):
        groups.setdefault(site[6] if args.subtle else site[:2], []).append(site)
    print(sum(map(len, groups.values())), "sites in", len(groups), "functions")
    for group in groups.values():
        rng.shuffle(group)
    chosen = []
    # small functions are as important as big ones: number of sites ~ square root of the size
    weights = {k: len(v) ** 0.5 for k, v in groups.items()}
    while len(chosen) < args.count and weights:
        key = rng.choices(list(weights), list(weights.values()))[0]
        chosen.append(groups[key].pop())
        if not groups[key]:
            del weights[key]
    if args.again:
        with open(args.again, encoding="utf-8") as fp:
            rows = [json.loads(line) for line in fp]
        wanted = {(r["file"], r["function"], r["line"], r["kind"], r["old"], r["new"]) for r in rows
                  if re.search(args.by, str(r["by"]))}
        chosen = []
        for site in sites(base, "", kinds):
            name, func, line, start, end, new, kind = site
            with open(os.path.join(base, name), encoding="utf-8") as fp:
                old = fp.read()[start:end]
            if (name, func, line, kind, old[:300], new[:300]) in wanted:
                chosen.append(site)
    counts = {}
    with multiprocessing.Pool(args.jobs) as pool, open(args.out, "a", encoding="utf-8") as fp:
        for res in pool.imap_unordered(judge, [(s, args.budget, base, args.all) for s in chosen], 1):
            fp.write(json.dumps(res) + "\n")
            fp.flush()
            by = "MISSED" if res["by"] is None else res["by"]
            counts[by] = counts.get(by, 0) + 1
    for folder in glob.glob("/tmp/mut-*"):
        shutil.rmtree(folder, ignore_errors=True)
    shutil.rmtree(base, ignore_errors=True)
    print(counts)


if __name__ == "__main__":
    sys.exit(main())
