"""Locates the code under test. Import this before anything that imports autosar."""
import os
import sys

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ARV_REPO", "/repo")
SRC = os.path.join(REPO, "src")
PYTHON = "/opt/venv/bin/python"

# The package is installed in editable mode; make sure the working tree comes first anyway.
sys.path.insert(0, SRC)
if not os.path.isdir(SRC):
    raise SystemExit(f"no source tree at {SRC}")

import autosar  # noqa: E402

_loaded = os.path.dirname(os.path.dirname(os.path.abspath(autosar.__file__)))
if os.path.realpath(_loaded) != os.path.realpath(SRC):
    raise SystemExit(f"autosar was loaded from {_loaded}, expected {SRC}")
