"""Small projects on disk used by several checks"""
import hashlib
import json
import os
import shutil
from pathlib import Path

import numpy as np

from build import time_data

import resistics.calibrate as C
import resistics.decimate as D
import resistics.letsgo as L
import resistics.regression as R
import resistics.spectra as S
import resistics.time as T
import resistics.window as W
from resistics.config import Configuration
from resistics.project import PROJ_DIRS


def configuration(name="conf", tf=None, solver=None, **kwargs):
    parts = dict(
        dec_setup=D.DecimationSetup(n_levels=2, per_level=2, min_samples=64),
        win_setup=W.WindowSetup(min_size=32, min_olap=8, min_n_wins=2),
        fourier=S.FourierTransform(workers=1),
        solver=solver or R.SolverScikitOLS(n_jobs=1),
    )
    if tf is not None:
        parts["tf"] = tf
    parts.update(kwargs)
    return Configuration(name=name, **parts)


def tree(root):
    """Relative path -> content digest (None for directories)"""
    out = {}
    root = str(root)
    for base, dirs, files in os.walk(root):
        rel = os.path.relpath(base, root)
        for d in dirs:
            out[os.path.normpath(os.path.join(rel, d)) + "/"] = None
        for f in files:
            with open(os.path.join(base, f), "rb") as h:
                out[os.path.normpath(os.path.join(rel, f))] = hashlib.md5(h.read()).hexdigest()
    return out


def copy_tree(src, dst):
    shutil.copytree(str(src), str(dst))


def without(obj, names=("time_local", "time_utc", "created_on_local", "created_on_utc", "file_info", "messages")):
    """JSON value without what depends on when it was made"""
    if isinstance(obj, dict):
        return {k: without(v, names) for k, v in obj.items() if k not in names}
    if isinstance(obj, list):
        return [without(x, names) for x in obj]
    return obj


def canonical(metadata):
    return json.dumps(without(json.loads(metadata.json())), sort_keys=True)


def spectra_content(path):
    """Everything in evaluated spectra but the times of writing"""
    data = S.SpectraDataReader().run(Path(path))
    return (canonical(data.metadata), tuple((k, v.shape, v.tobytes()) for k, v in sorted(data.data.items())))


def solution_content(sol):
    return canonical(sol)


def signal(key, n):
    """Deterministic broad band signal"""
    i = np.arange(n, dtype=float)
    x = np.zeros(n)
    for k in range(1, 24):
        x += np.cos(2 * np.pi * (i * (k * 0.0201 + 0.0007 * ((key * 7 + k * 3) % 11)) + ((key + 1) * k * k * 0.137) % 1.0)) * (1 + ((k + key) % 3))
    return x


def write_measurement(root, site, meas, td, ascii_=False):
    path = Path(root) / PROJ_DIRS["time"] / site / meas
    (T.TimeWriterAscii() if ascii_ else T.TimeWriterNumpy()).run(path, td)
    return path
