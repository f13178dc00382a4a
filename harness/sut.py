"""Imports the code under test from /repo's working tree, never from stale bytecode."""
import os, sys, tempfile, warnings

sys.dont_write_bytecode = True
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VT not in sys.path:
    sys.path.append(VT)          # hypothesis; numpy/polars still come from /opt/venv

import numpy as np               # noqa: E402
import polars as pl              # noqa: E402
import toml                      # noqa: E402,F401
import cloudpickle               # noqa: E402
import praatio.textgrid          # noqa: E402,F401
from praatio.textgrid import openTextgrid                          # noqa: E402
from praatio.data_classes.textgrid import Textgrid                 # noqa: E402
from praatio.data_classes.interval_tier import IntervalTier        # noqa: E402
from praatio.data_classes.point_tier import PointTier              # noqa: E402
from praatio.utilities.constants import Interval, Point            # noqa: E402
import hypothesis                # noqa: E402,F401

REPO = "/repo"
_src = os.path.join(REPO, "src")
# look for cached bytecode of the code under test only where there is none
_pyc = tempfile.mkdtemp(prefix="vpyc")
os.rmdir(_pyc)
sys.pycache_prefix = _pyc
sys.path.insert(0, _src)
warnings.simplefilter("ignore")

import aligned_textgrid as at    # noqa: E402
assert os.path.realpath(at.__file__).startswith(os.path.realpath(_src)), at.__file__
from aligned_textgrid import (   # noqa: E402,F401
    AlignedTextGrid, SequenceInterval, SequencePoint, SequenceTier, SequencePointTier,
    TierGroup, PointsGroup, SequenceList, Word, Phone, Top, Bottom, custom_classes, to_df)
from aligned_textgrid.custom_classes import clone_class, get_class_hierarchy  # noqa: E402,F401
from aligned_textgrid.polar.polar_grid import PolarGrid           # noqa: E402,F401
from aligned_textgrid.polar import polar_classes as polar         # noqa: E402,F401
sys.pycache_prefix = None
