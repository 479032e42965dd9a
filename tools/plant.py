"""
Confirms a planted bug in a scratch copy and keeps it under /verif/seeded/<id>/.

plant(id, property, [(file below src/autosar, old, new), ...], demo program, needs, what it breaks)
"""
import json
import os
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
DEMO_SH = """#!/bin/bash
# Run in the repository: exit 0 when the property holds for this case
here="$(cd "$(dirname "$0")" && pwd)"
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" exec /opt/venv/bin/python "$here/demo.py"
"""


def run(cmd, cwd, **env):
    full = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", **env)
    return subprocess.run(cmd, cwd=cwd, env=full, capture_output=True, text=True, timeout=1200)


def base_commit():
    return subprocess.run("git -C /repo rev-list --max-parents=0 HEAD", shell=True, capture_output=True,
                          text=True).stdout.split()[0]


def original_lines(work, diff):
    """True if each changed file loses at least one line that my commits did not add"""
    files = re.split(r"(?m)^diff --git ", diff)[1:]
    base = base_commit()
    for part in files:
        name = re.match(r"a/(\S+)", part).group(1)
        blame = run(["git", "blame", "-l", "-s", "HEAD", "--", name], work).stdout.splitlines()
        good = False
        line = 0
        for row in part.splitlines():
            hunk = re.match(r"@@ -(\d+)", row)
            if hunk:
                line = int(hunk.group(1))
            elif row.startswith("-") and not row.startswith("---"):
                if blame[line - 1].lstrip("^").startswith(base[:39]):
                    good = True
                line += 1
            elif row.startswith(" "):
                line += 1
        if not good:
            return False
    return True


def plant(ident, prop, edits, demo, needs, breaks):
    out = os.path.join(VERIF, "seeded", ident)
    work = f"/tmp/plant-{ident}"
    shutil.rmtree(work, ignore_errors=True)
    shutil.copytree("/repo", work, symlinks=True)
    try:
        os.makedirs(out, exist_ok=True)
        with open(os.path.join(out, "demo.py"), "w", encoding="utf-8") as fp:
            fp.write(demo.strip() + "\n")
        with open(os.path.join(out, "demo.sh"), "w", encoding="utf-8") as fp:
            fp.write(DEMO_SH)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        clean = run(["bash", os.path.join(out, "demo.sh")], work)
        if clean.returncode != 0:
            raise SystemExit(f"{ident}: demo fails on the unchanged tree\n{clean.stdout[-800:]}{clean.stderr[-1500:]}")
        for name, old, new in edits:
            path = os.path.join(work, "src", "autosar", name)
            with open(path, encoding="utf-8") as fp:
                text = fp.read()
            if text.count(old) != 1:
                raise SystemExit(f"{ident}: {text.count(old)} occurrences in {name} of\n{old}")
            with open(path, "w", encoding="utf-8") as fp:
                fp.write(text.replace(old, new))
        diff = run(["git", "diff"], work).stdout
        if not original_lines(work, diff):
            raise SystemExit(f"{ident}: changes no original line\n{diff}")
        broken = run(["bash", os.path.join(out, "demo.sh")], work)
        if broken.returncode == 0:
            raise SystemExit(f"{ident}: demo passes with the change")
        tests = run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], work,
                    PYTHONPATH=os.path.join(work, "src"))
        if tests.returncode != 0:
            raise SystemExit(f"{ident}: tests fail\n{tests.stdout[-1500:]}")
        with open(os.path.join(out, "patch.diff"), "w", encoding="utf-8") as fp:
            fp.write(diff)
        with open(os.path.join(out, "meta.json"), "w", encoding="utf-8") as fp:
            json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, fp, indent=1)
            fp.write("\n")
        check = run([PY, "run.py", prop, "--tier", "quick"], VERIF, ARV_REPO=work, VERIF_SEED="1")
        keys = re.findall(r"key=(\S+)", check.stdout)
        caught = check.returncode == 1 and f"VIOLATION property={prop} " in check.stdout
        print(f"{ident} {prop} {'CAUGHT' if caught else 'MISSED rc=%d' % check.returncode} {keys[:4]}"
              + ("" if caught else check.stdout[-400:] + check.stderr[-400:]))
        print("   demo:", (broken.stderr.strip().splitlines() or broken.stdout.strip().splitlines() or ["?"])[-1][:150])
        return caught
    finally:
        shutil.rmtree(work, ignore_errors=True)


def recheck(only=None):
    """Runs the quick check of every kept bug again"""
    root = os.path.join(VERIF, "seeded")
    for ident in sorted(os.listdir(root)):
        if only and not any(ident.startswith(o) for o in only):
            continue
        folder = os.path.join(root, ident)
        with open(os.path.join(folder, "meta.json"), encoding="utf-8") as fp:
            prop = json.load(fp)["property"]
        work = f"/tmp/plant-{ident}"
        shutil.rmtree(work, ignore_errors=True)
        shutil.copytree("/repo", work, symlinks=True)
        try:
            clean = run(["bash", os.path.join(folder, "demo.sh")], work).returncode
            applied = run(["git", "apply", os.path.join(folder, "patch.diff")], work).returncode
            broken = run(["bash", os.path.join(folder, "demo.sh")], work).returncode
            tests = run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], work,
                        PYTHONPATH=os.path.join(work, "src")).returncode
            check = run([PY, "run.py", prop, "--tier", "quick"], VERIF, ARV_REPO=work, VERIF_SEED="1")
            caught = check.returncode == 1 and f"VIOLATION property={prop} " in check.stdout
            state = "ok" if (clean, applied, broken != 0, tests) == (0, 0, True, 0) else \
                f"INVALID clean={clean} apply={applied} broken={broken} tests={tests}"
            print(f"{ident} {prop} {'CAUGHT' if caught else 'MISSED rc=%d' % check.returncode} {state} "
                  f"{re.findall(r'key=(.*)', check.stdout)[:3]}", flush=True)
        finally:
            shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    recheck(sys.argv[1:])
