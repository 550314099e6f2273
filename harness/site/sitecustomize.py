"""Loaded by every python process started by the checks (through PYTHONPATH).

Removes the meson-python editable finder, so that ``fluidimage`` is imported as
plain Python from the current working tree of the repository: the checks see
every change of the sources (also in the modules usually compiled with Pythran,
which run as pure Python thanks to TRANSONIC_NO_REPLACE=1) without rebuilding.
"""
import os
import sys

_src = os.environ.get("FLUIDIMAGE_VERIF_SRC")
if _src:
    sys.meta_path[:] = [
        f for f in sys.meta_path if type(f).__name__ != "MesonpyMetaFinder"
    ]
    if _src not in sys.path:
        sys.path.insert(0, _src)
