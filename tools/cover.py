"""Lines of /repo/src/autosar that no check executes: tools/cover.py [SECONDS [CHECK ...]]"""
import ast
import glob
import importlib
import multiprocessing
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from arv import env, harness  # noqa: E402

SRC = os.path.join(os.path.realpath(env.SRC), "autosar")


def one(job):
    """Executed lines of one check: {file: lines}"""
    name, seconds = job
    hit = {}
    mon = sys.monitoring
    mon.use_tool_id(mon.COVERAGE_ID, "cover")

    def line(code, number):
        if code.co_filename.startswith(SRC):
            hit.setdefault(code.co_filename, set()).add(number)
        return mon.DISABLE
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
    out = os.dup(1)
    null = os.open("/dev/null", os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)
    importlib.import_module("checks." + name).run(harness.Context(name.upper(), 1, "quick", seconds))
    os.dup2(out, 1)
    mon.set_events(mon.COVERAGE_ID, 0)
    return name, hit


def functions(path):
    """[(function, first lines of its statements)]"""
    with open(path, encoding="utf-8") as fp:
        tree = ast.parse(fp.read())
    res = []

    def walk(node, where):
        for sub in ast.iter_child_nodes(node):
            if isinstance(sub, ast.ClassDef):
                walk(sub, where + [sub.name])
            elif isinstance(sub, ast.FunctionDef):
                lines = set()
                for stmt in ast.walk(sub):
                    if isinstance(stmt, ast.stmt) and stmt is not sub and not (
                            isinstance(stmt, ast.Expr) and isinstance(stmt.value, ast.Constant)):
                        lines.add(stmt.lineno)
                res.append((".".join(where + [sub.name]), lines))
    walk(tree, [])
    return res


def main():
    seconds = float(sys.argv[1]) if len(sys.argv) > 1 else 8.0
    names = sys.argv[2:] or sorted(os.path.basename(x)[:-3] for x in glob.glob(os.path.join(HERE, "checks", "c[0-9]*.py")))
    total = {}
    with multiprocessing.get_context("spawn").Pool(4, maxtasksperchild=1) as pool:
        for _, hit in pool.imap_unordered(one, [(n, seconds) for n in names], 1):
            for path, lines in hit.items():
                total.setdefault(os.path.realpath(path), set()).update(lines)
    count = missed = 0
    for path in sorted(glob.glob(os.path.join(SRC, "**", "*.py"), recursive=True)):
        hit = total.get(os.path.realpath(path), set())
        for name, lines in functions(path):
            count += len(lines)
            rest = sorted(lines - hit)
            missed += len(rest)
            if rest:
                print(f"{os.path.relpath(path, SRC)}:{name}: {' '.join(map(str, rest))}")
    print(f"{missed} of {count} lines in functions are not executed")


if __name__ == "__main__":
    main()
