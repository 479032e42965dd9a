"""C25: the example programs write the documents that are shipped with them"""
import io
import os
import re
import shutil
import subprocess
from contextlib import redirect_stdout
from autosar.xml.reader import Reader
from autosar.xml.writer import Writer
from arv import env, xio
from arv.harness import Violation

RULE = ("every program below examples (and the one in README.md) is run as a process of its own in a scratch copy from which the "
        "documents it writes were removed: from several working directories, over files that are there already, and with other "
        "hash seeds, locales and optimisation; the documents are compared with the shipped ones and between runs, and read and "
        "written again; distinct = distinct (program, way to run it) and documents")
ASSUMPTIONS = ["files written by several programs are the ones of the last one in run_examples.sh"]
QUICK_S = 20.0
THOROUGH_S = 150.0
MIN_DISTINCT = 60

WAYS = {
    "plain": {},
    "other-folder": {"cwd": ""},
    "again": {"again": True},
    "optimised": {"flags": ["-O"]},
    "ascii": {"env": {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}},
    "hash": {"env": {"PYTHONHASHSEED": "{seed}"}},
}


def shipped():
    """Path below examples -> bytes"""
    res = {}
    root = os.path.join(env.REPO, "examples")
    for folder, _, names in os.walk(root):
        for name in names:
            if name.endswith(".arxml"):
                path = os.path.join(folder, name)
                with open(path, "rb") as fp:
                    res[os.path.relpath(path, root)] = fp.read()
    return res


def programs():
    """Paths below examples, in the order of run_examples.sh, then the others"""
    root = os.path.join(env.REPO, "examples")
    found = []
    for folder, _, names in os.walk(root):
        for name in names:
            if name.endswith(".py"):
                path = os.path.join(folder, name)
                with open(path, encoding="utf-8") as fp:
                    if re.search(r"^if __name__ ==", fp.read(), re.M):
                        found.append(os.path.relpath(path, root))
    order = []
    listing = os.path.join(env.REPO, "run_examples.sh")
    if os.path.exists(listing):
        with open(listing, encoding="utf-8") as fp:
            order = re.findall(r"examples/(\S+\.py)", fp.read())
    return [x for x in order if x in found] + sorted(set(found) - set(order))


def readme_program():
    with open(os.path.join(env.REPO, "README.md"), encoding="utf-8") as fp:
        blocks = re.findall(r"^```python\n(.*?)^```", fp.read(), re.M | re.S)
    return [x for x in blocks if "import autosar" in x]


def execute(command, cwd, more):
    full = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=os.path.join(env.REPO, "src"))
    full.pop("PYTHONOPTIMIZE", None)
    full.pop("PYTHONHASHSEED", None)
    full.update(more)
    proc = subprocess.run(command, cwd=cwd, env=full, capture_output=True, timeout=120, check=False)
    return proc.returncode, proc.stdout, proc.stderr.decode("utf-8", "replace")


def documents(root):
    res = {}
    for folder, _, names in os.walk(root):
        for name in names:
            if not name.endswith((".py", ".md", ".toml", ".pyc")):
                path = os.path.join(folder, name)
                with open(path, "rb") as fp:
                    res[os.path.relpath(path, root)] = fp.read()
    return res


def run_program(program, way, seed, inputs):
    """(documents it writes, output)"""
    how = WAYS[way]
    with xio.scratch() as top:
        root = os.path.join(top, "examples")
        shutil.copytree(os.path.join(env.REPO, "examples"), root,
                        ignore=lambda folder, names: [x for x in names if x == "__pycache__"])
        for path in documents(root):
            if path not in inputs:
                os.remove(os.path.join(root, path))
        for folder in {os.path.dirname(x) for x in shipped()}:
            os.makedirs(os.path.join(root, folder), exist_ok=True)
        more = {k: v.format(seed=seed) for k, v in how.get("env", {}).items()}
        cwd = top if how.get("cwd") is None else os.path.join(root, how["cwd"])
        command = [env.PYTHON] + how.get("flags", []) + [os.path.join(root, program)]
        first = None
        for _ in range(2 if how.get("again") else 1):
            code, out, err = execute(command, cwd, more)
            if code != 0:
                raise Violation(f"failed-{way}", f"{program}: exit {code}: {err[-700:]}")
            found = {k: v for k, v in documents(root).items() if k not in inputs}
            if first is not None and found != first:
                raise Violation("again", f"{program} writes other documents over its own")
            first = found
            for path in found if how.get("again") else ():
                # Whatever is there is replaced
                with open(os.path.join(root, path), "ab") as fp:
                    fp.write(b"<!-- another document -->\n" * 50)
        stray = [x for x in os.listdir(top) if x != "examples"]
        if stray:
            raise Violation("stray", f"{program} writes {stray} into the working directory")
        return found, out


def judge_program(ctx, program, ways, inputs, written):
    base = None
    for way in ways:
        seed = ctx.rng(program, way).randrange(1, 1000)
        found, out = run_program(program, way, seed, inputs)
        if base is None:
            base = (found, out)
            written.append((program, found))
        elif found != base[0]:
            diff = sorted(k for k in set(found) | set(base[0]) if found.get(k) != base[0].get(k))
            raise Violation(f"differs-{way}", f"{program}: {diff}")
        elif out != base[1]:
            raise Violation(f"output-{way}", f"{program}: {out[:300]!r} instead of {base[1][:300]!r}")
        ctx.case(f"{program}/{way}", f"{program}, {way}: writes {', '.join(map(os.path.basename, found)) or 'no documents'}")
        ctx.count("program_runs")
        ctx.count("documents_written", len(found))
    return base


def first_difference(got, wanted):
    got, wanted = got.decode("utf-8", "replace").split("\n"), wanted.decode("utf-8", "replace").split("\n")
    for number, (a, b) in enumerate(zip(got, wanted), 1):
        if a != b:
            return f"line {number} is {a.strip()!r}, shipped is {b.strip()!r}"
    return f"{len(got)} lines instead of {len(wanted)}"


def judge_shipped(ctx, written, golden, complete):
    """The documents are the ones that are shipped"""
    last = {}
    for program, found in written:
        for path, data in found.items():
            last[path] = (program, data)
    for path, data in golden.items():
        if path not in last:
            if complete:
                raise Violation("not-written", f"{path} is shipped, and no program writes it")
        elif last[path][1] != data:
            raise Violation("not-as-shipped", f"{last[path][0]} writes another {path}: {first_difference(last[path][1], data)}")
        else:
            ctx.case(f"shipped/{path}", f"{path}: as shipped")
            ctx.count("documents_as_shipped")


def judge_round_trip(ctx, path, data):
    """A document of an example is read without messages, and written as it was"""
    text = data.decode("utf-8")
    noise = io.StringIO()
    reader = Reader()
    with redirect_stdout(noise):
        document = reader.read_str(text)
    if noise.getvalue():
        raise Violation("messages", f"{path}: {noise.getvalue()[:300]}")
    again = Writer().write_str(document, skip_root_attr=False)
    if again != text:
        raise Violation("round-trip", f"{path}: {first_difference(again.encode(), data)}")
    ctx.case(f"round-trip/{path}")
    ctx.count("documents_round_tripped")


def judge_readme(ctx, text, number):
    with xio.scratch() as folder:
        path = os.path.join(folder, "program.py")
        with open(path, "w", encoding="utf-8") as fp:
            fp.write(text)
        code, _, err = execute([env.PYTHON, path], folder, {})
        if code != 0:
            raise Violation("readme", f"the program in README.md: exit {code}: {err[-700:]}")
        found = documents(folder)
        if not found:
            raise Violation("readme", "the program in README.md writes nothing")
        for name, data in found.items():
            judge_round_trip(ctx, f"README/{number}/{name}", data)


def alone(ctx, func, *args):
    """Not guarded by the watchdog: the processes have their own limit"""
    try:
        return func(*args)
    except Violation as ex:
        ctx.violation(ex.key, ex.what, ex.detail)
    return None


def run(ctx):
    golden = shipped()
    inputs = {x for x in golden if x.startswith(os.path.join("xml", "reader", ""))}
    golden = {k: v for k, v in golden.items() if k not in inputs}
    # Folders are the unit: only programs of the same folder write the same files
    everything = programs()
    folders = sorted({os.path.dirname(x) for x in everything})
    ways = list(WAYS)
    for _, folder in ctx.each("folders", folders):
        mine = [x for x in everything if os.path.dirname(x) == folder]
        written, complete = [], True
        for program in mine:
            if alone(ctx, judge_program, ctx, program, ways, inputs, written) is None:
                complete = False
        below = {k: v for k, v in golden.items() if k.startswith(folder + os.sep)}
        alone(ctx, judge_shipped, ctx, written, below, complete)
        for program, found in written:
            for path, data in found.items():
                ctx.guard(judge_round_trip, ctx, f"{program}:{path}", data)
    for number, text in ctx.each("readme", readme_program()):
        alone(ctx, judge_readme, ctx, text, number)
