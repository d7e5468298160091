"""Offline setup: prepares the compiled-function cache for the current source tree (checks redo it when it is missing)."""
import sys
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent.parent))
import run  # noqa: E402

d = run.numba_cache()
print('compiled functions ready in', d)
