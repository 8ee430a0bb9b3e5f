#!/usr/bin/env python3
"""Nothing has to be installed: check that the tools the checks need work."""
import os
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import build  # noqa: E402

if shutil.which("gcc") is None or not os.path.exists("/opt/venv/bin/python"):
    sys.exit("gcc or the Python environment is missing")
d = tempfile.mkdtemp(prefix="vf_setup_")
try:
    build.build("/repo", os.path.join(d, "ext"))
    build.asan_runtime()
finally:
    shutil.rmtree(d, ignore_errors=True)
print("ready")
