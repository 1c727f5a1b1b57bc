"""Sanity check of the toolchain the checks need (they build everything else themselves)."""
import os
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import extract  # noqa: E402

ws = tempfile.mkdtemp(prefix="ethnum-sa-setup-")
try:
    extract.build_mirx(ws)
    print("toolchain ok")
finally:
    shutil.rmtree(ws, ignore_errors=True)
