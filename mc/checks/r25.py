"""R25 every object and error describes itself completely and without changing"""
import contextlib
import io
import itertools
import json
import re
import warnings
from fractions import Fraction
from pathlib import Path

import numpy as np
import pandas as pd
import yaml

from build import STATION, T0, T0_ODD, chans_meta, snapshot, spectra_data, time_data, windowed_data
from checks import r18
from proj import configuration, signal, write_measurement
from ref import time_at

import resistics.calibrate as C
import resistics.common as K
import resistics.decimate as D
import resistics.errors as E
import resistics.gather as G
import resistics.letsgo as L
import resistics.regression as R
import resistics.time as T
import resistics.window as W
from resistics.config import Configuration, get_default_configuration
from resistics.project import ProjectMetadata
from resistics.sampling import to_datetime
from resistics.transfunc import Component, ImpedanceTensor, Tipper, TransferFunction

ID = "R25"
LEVEL = "exploration"
RULE = (
    "every registered process over its parameter grid, every transfer function, configurations, every metadata and data "
    "class with one to three channels, one to twelve levels and one or more windows, loaded projects with sites and "
    "measurements, solutions: text is parsed back and compared with the object's JSON and fields, printing is repeated and "
    "the object compared before and after; every error class with every kind of path and name; arrays of every type and "
    "length with every format; non-trivial: distinct objects"
)
ASSUMPTIONS = ["a summary prints every field name, its layout is not judged", "to_string of spectra and gathered data names their class only"]


def BOUNDS(tier):
    return {"channels": "1..3", "levels": "1..12"}


def jobs(tier):
    for cls in r18.GRIDS:
        yield {"kind": "process", "cls": cls.__name__}
    for kind in ("tfs", "configs", "metadata", "decimated", "data", "project", "errors", "arrays", "paths", "names", "tables"):
        yield {"kind": kind}


def run_job(job, ctx):
    warnings.simplefilter("ignore")
    globals()["job_" + job["kind"]](job, ctx)


def printed(obj):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        obj.summary()
    return re.sub(r"\x1b\[[0-9;]*m", "", out.getvalue())


def check_model(ctx, obj, key):
    before = obj.json()
    data = json.loads(before)
    text = obj.to_string()
    ctx.check(str(obj) == text, key + "-str", "str differs from to_string")
    back = yaml.safe_load(text)
    ctx.check(back == data, key + "-text", f"{text[:300]} is not {before[:300]}")
    ctx.check(isinstance(back, dict) and list(back) == list(data), key + "-order", f"{list(back)} {list(data)}")
    shown = printed(obj)
    for name in data:
        ctx.check(name in shown, key + "-summary", f"{name} is not in the summary")
    ctx.check(obj.json() == before, key + "-changed", "printing changed the object")
    ctx.check(set(data) == set(obj.__fields__), key + "-fields", f"{sorted(data)} {sorted(obj.__fields__)}")


def job_process(job, ctx):
    cls = r18.by_name(job["cls"])
    cases = list(r18.grid_of(cls))
    for params in cases:
        def one():
            obj = r18.make(cls, params)
            data = yaml.safe_load(obj.to_string())
            ctx.check(data == json.loads(obj.json()), "process-text", f"{obj.to_string()}")
            ctx.check(data["name"] == cls.__name__, "process-name", f"{data}")
            ctx.check(str(obj) == obj.to_string(), "process-str", "")
        ctx.case({"cls": job["cls"], "params": str(params)}, one)
    ctx.case({"cls": job["cls"], "summary": str(cases[-1])}, lambda: check_model(ctx, r18.make(cls, cases[-1]), "process"))


def job_tfs(job, ctx):
    for cls in r18.TF_GRIDS:
        for params in r18.grid_of(cls):
            def one():
                obj = r18.make(cls, params)
                before = obj.json()
                shown = printed(obj)
                for name, value in json.loads(before).items():
                    ctx.check(name in shown, "tf-summary", f"{name}")
                text = str(obj)
                for o in obj.out_chans:
                    for i in obj.in_chans:
                        ctx.check(f"{o}_{i}" in text, "tf-text", f"{o}_{i} is not in\n{text}")
                ctx.check(obj.json() == before, "tf-changed", "")
            ctx.case({"cls": cls.__name__, "params": str(params)}, one)


def job_configs(job, ctx):
    for conf in (get_default_configuration(), configuration(), configuration("n m", tf=Tipper(), time_processors=[T.Add(add={"Ex": 1}), T.RemoveMean()])):
        ctx.case({"config": conf.name}, check_model, ctx, conf, "config")


def history(n):
    h = K.History()
    for i in range(n):
        h.add_record(K.get_record({"name": f"step{i}", "values": [1, 0.1, 1e-30], "deep": {"a": None, "b": "2021-01-01"}}, [f"message {i}", "a: b", "- x", "#"]))
    return h


def job_metadata(job, ctx):
    for chans in (["Ex"], ["Hy", "Ex"], ["T", "Bz", "E4"]):
        for fs in (10.0, 0.1, 1 / 3, 65536.0, 1e-5):
            for n in (0, 1, 3):
                def one():
                    md = time_data(fs, np.zeros((len(chans), 5)), chans, t0=T0_ODD).metadata
                    md.history = history(n)
                    check_model(ctx, md, "time")
                    for c in chans:
                        check_model(ctx, md[c], "chan")
                    text = yaml.safe_load(md.to_string())
                    ctx.check(to_datetime(text["first_time"]) == md.first_time and to_datetime(text["last_time"]) == md.last_time, "time-dates", f"{text}")
                ctx.case({"time": chans, "fs": fs, "records": n}, one)
    for n in (0, 1, 2, 5):
        ctx.case({"history": n}, lambda: check_model(ctx, history(n), "history"))
        for rec in history(n).records:
            ctx.case({"record": n, "creator": rec.creator}, lambda: check_model(ctx, rec, "record"))
    others = {
        "file": lambda: K.ResisticsFile(),
        "component": lambda: Component(real=[1.0, 0.1, 1e-30, -0.0], imag=[2.0, 1e30, 0.0, -5.0]),
        "calibration": lambda: C.CalibrationData(file_path=Path("a/b c"), serial="007", sensor="yes", frequency=[0.1, 3.0], magnitude=[1.0, 2e-9], phase=[0.0, -1.5]),
        "project": lambda: ProjectMetadata(ref_time=T0_ODD, location="no", country="1e3", year=2021, description="a\nb: c", contributors=["x", "", "- y"]),
        "dec-params": lambda: D.DecimationSetup(n_levels=3, per_level=2).run(128.0),
        "win-params": lambda: W.WindowSetup().run(3, [128.0, 32.0, 8.0]),
    }
    for name, make in others.items():
        ctx.case({"model": name}, lambda: check_model(ctx, make(), name))
    for n_levels in (1, 2, 12):
        for fs in (10.0, 1 / 3, 65536.0):
            def one():
                arrays = [np.zeros((2, 1, 8))] * n_levels
                rates = [fs / (i + 1) for i in range(n_levels)]
                check_model(ctx, windowed_data(arrays, rates, ["Ex"], ref=T0_ODD).metadata, "windowed")
                check_model(ctx, spectra_data(arrays, rates, [np.arange(8) * 0.1] * n_levels, ["Ex"], ref=T0_ODD).metadata, "spectra")
            ctx.case({"levels": n_levels, "fs": fs}, one)


def job_decimated(job, ctx):
    """The printed table of decimation levels"""
    def one(n_levels, fs, t0, chans):
        rates = [fs / 2 ** i for i in range(n_levels)]
        sizes = [4096 // 2 ** i + 1 for i in range(n_levels)]
        levels = [D.DecimatedLevelMetadata(fs=r, n_samples=s, first_time=t0, last_time=time_at(t0, Fraction(s - 1) / Fraction(r))) for r, s in zip(rates, sizes)]
        md = D.DecimatedMetadata(fs=rates, chans=chans, n_levels=n_levels, first_time=t0, last_time=levels[0].last_time, chans_metadata=chans_meta(chans), levels_metadata=levels, **STATION)
        dec = D.DecimatedData(md, {i: np.zeros((len(chans), s), dtype="float32") for i, s in enumerate(sizes)})
        before = snapshot(dec)
        text = dec.to_string()
        ctx.check(str(dec) == text and repr(dec) == text, "dec-str", "")
        lines = text.split("\n")
        ctx.check("DecimatedData" in lines[0], "dec-class", lines[0])
        rows = [line.split() for line in lines[1:] if re.match(r"^\d+\s", line)]
        ctx.require(len(rows) == n_levels, "dec-rows", f"{len(rows)} rows for {n_levels} levels:\n{text}")
        for i, row in enumerate(rows):
            ctx.check(int(row[0]) == i and int(row[3]) == sizes[i], "dec-row", f"{row} expected {sizes[i]} samples")
            ctx.check(abs(float(row[1]) - rates[i]) <= 1e-5 * max(1, rates[i]) and abs(float(row[2]) - 1 / rates[i]) <= 1e-5 * max(1, 1 / rates[i]), "dec-row", f"{row} expected {rates[i]}")
        shown = printed(dec)
        ctx.check(all(line.strip() in shown for line in lines), "dec-summary", "")
        ctx.check(snapshot(dec) == before, "dec-changed", "printing changed the data")

    for n_levels in range(1, 13):
        for fs in (1.0, 128.0, 10.0, 4096.0):
            for t0 in (T0, T0_ODD):
                for chans in (["Ex"], ["Hy", "Ex"]):
                    ctx.case({"levels": n_levels, "fs": fs, "t0": t0.isoformat(), "chans": chans}, one, n_levels, fs, t0, chans)


def check_data(ctx, obj, key):
    before = snapshot(obj) if hasattr(obj, "metadata") and isinstance(getattr(obj, "data", None), (dict, np.ndarray)) else None
    text = obj.to_string()
    ctx.check(isinstance(text, str) and len(text) > 0, key + "-text", "nothing")
    ctx.check(str(obj) == text and repr(obj) == text, key + "-str", "")
    ctx.check(obj.type_to_string() == str(type(obj)), key + "-type", obj.type_to_string())
    shown = printed(obj)
    ctx.check(type(obj).__name__ in shown and text in shown, key + "-summary", shown[:200])
    if before is not None:
        ctx.check(snapshot(obj) == before, key + "-changed", "printing changed the data")


def job_data(job, ctx):
    for chans in (["Ex"], ["Hy", "Ex", "T"]):
        for n in (1, 2, 50):
            for dtype in ("float32", "float64", "int32"):
                def one():
                    td = time_data(3.0, np.arange(len(chans) * n).reshape(len(chans), n).astype(dtype), chans, t0=T0_ODD)
                    check_data(ctx, td, "time-data")
                    head, _, body = td.to_string().partition("\n")
                    ctx.check("TimeData" in head, "time-data-class", head)
                    ctx.check(yaml.safe_load(body) == json.loads(td.metadata.json()), "time-data-body", body[:200])
                ctx.case({"time": chans, "n": n, "dtype": dtype}, one)
        for n_levels in (1, 12):
            for n_wins in (1, 4):
                def two():
                    arrays = [np.zeros((n_wins, len(chans), 8))] * n_levels
                    rates = [8.0 / (i + 1) for i in range(n_levels)]
                    win = windowed_data(arrays, rates, chans, ref=T0_ODD, offset=3)
                    check_data_windowed(ctx, win)
                    check_data(ctx, spectra_data(arrays, rates, [np.arange(8)] * n_levels, chans), "spectra-data")
                ctx.case({"levels": n_levels, "wins": n_wins, "chans": chans}, two)


def check_data_windowed(ctx, win):
    before = snapshot(win)
    text = win.to_string()
    ctx.check(str(win) == text and repr(win) == text, "windowed-str", "")
    ctx.check(yaml.safe_load(text) == json.loads(win.metadata.json()), "windowed-text", text[:200])
    ctx.check(text in printed(win), "windowed-summary", "")
    ctx.check(snapshot(win) == before, "windowed-changed", "")


def job_project(job, ctx):
    root = ctx.scratch() / "proj"
    L.new(root, {"ref_time": "2021-01-01 00:00:00"})
    for site, meas, fs in (("A", "m1", 10.0), ("A", "m2", 10.0), ("B", "m1", 10.0), ("B", "yes", 128.0)):
        data = np.array([signal(k, 900) for k in range(4)])
        write_measurement(root, site, meas, time_data(fs, data, ["Ex", "Ey", "Hx", "Hy"], t0=T0))
    conf = configuration()
    env = L.load(root, conf)

    def structure():
        check_model(ctx, env.proj, "project")
        check_model(ctx, env, "environment")
        for site in env.proj:
            check_model(ctx, site, "site")
            for meas in site:
                check_model(ctx, meas, "measurement")
        text = yaml.safe_load(str(env.proj))
        ctx.check(sorted(text["sites"]) == ["A", "B"] and {k: sorted(v["measurements"]) for k, v in text["sites"].items()} == {"A": ["m1", "m2"], "B": ["m1", "yes"]}, "project-sites", str(text)[:300])

    ctx.case({"project": "structure"}, structure)
    for site, meas in (("A", "m1"), ("A", "m2"), ("B", "m1")):
        L.process_time_to_evals(env, site, meas)
    env = L.reload(env)

    def products():
        for sites in (["A"], ["A", "B"]):
            sel = G.Selector().run("conf", env.proj, sites, env.config.dec_setup.run(10.0))
            check_data(ctx, sel, "selection")
            tf = ImpedanceTensor()
            gath = G.ProjectGather().run("conf", env.proj, sel, tf, out_name="A", in_name="A", cross_name=sites[-1])
            check_data(ctx, gath, "gathered")
            for part in (gath.out_data, gath.in_data, gath.cross_data):
                check_data(ctx, part, "site-combined")
                check_model(ctx, part.metadata, "site-combined-metadata")
            reg = R.RegressionPreparerGathered().run(tf, gath)
            check_data(ctx, reg, "regression-input")
            check_model(ctx, reg.metadata, "regression-metadata")
            sol = env.config.solver.run(reg)
            check_model(ctx, sol, "solution")
            ctx.check(yaml.safe_load(str(sol))["freqs"] == sol.freqs, "solution-freqs", "")

    ctx.case({"project": "products"}, products)


def job_errors(job, ctx):
    paths = [Path("a"), Path("/x y/z.json"), Path("rel/dir"), Path("."), Path("ünï/c")]
    words = ["why", "", "a: b\nc", "%s {0}"]

    def says(e, *parts):
        text = str(e)
        ctx.check(isinstance(e, Exception) and len(text) > 0, "error-empty", f"{type(e).__name__}")
        for p in parts:
            if p is not None:
                ctx.check(str(p) in text, "error-text", f"{type(e).__name__}: {p!r} is not in {text!r}")
        try:
            raise e
        except type(e) as got:
            ctx.check(got is e, "error-raise", "")

    for p in paths:
        for w in words:
            def one():
                for cls in (E.PathError, E.PathNotFoundError, E.NotFileError, E.NotDirectoryError):
                    says(cls(p), p)
                    ctx.check(cls(p).path == p and isinstance(cls(p), E.PathError), "error-path", "")
                for cls in (E.WriteError, E.ReadError, E.MetadataReadError, E.CalibrationFileReadError):
                    says(cls(p), p)
                for cls in (E.WriteError, E.ReadError, E.MetadataReadError, E.ProjectPathError, E.ProjectCreateError, E.ProjectLoadError, E.TimeDataReadError, E.CalibrationFileReadError):
                    says(cls(p, w), p, w)
                says(E.CalibrationFileNotFound(p, p / "f", w), p, p / "f", w)
                says(E.CalibrationFileNotFound(p, [p / "f", p / "g"]), p, "f", "g")
                ctx.check(issubclass(E.ProjectCreateError, E.ProjectPathError) and issubclass(E.ProjectLoadError, E.ProjectPathError), "error-family", "")
            ctx.case({"path": str(p), "message": w}, one)
    for a, b in itertools.product(["A", "site 1", "x'y"], repeat=2):
        def two():
            says(E.MeasurementNotFoundError(a, b), a, b)
            says(E.SiteNotFoundError(a), a)
            says(E.ChannelNotFoundError(a, [b, "Ex"]), a, b, "Ex")
            says(E.ChannelNotFoundError(a, {b: 1}), a, b)
            says(E.ChannelNotFoundError(a, []), a)
            says(E.ProcessRunError(a, b), a, b)
        ctx.case({"names": [a, b]}, two)


def job_arrays(job, ctx):
    """array_to_string parses back to the printed precision"""
    def one(values, dtype, sep, precision, scientific):
        arr = np.array(values, dtype=dtype)
        text = K.array_to_string(arr, sep=sep, precision=precision, scientific=scientific)
        got = [x for x in re.split(r"[\s,;]+", text) if x]
        ctx.require(len(got) == len(values), "array-count", f"{text!r} for {values}")
        for g, v in zip(got, arr.tolist()):
            if "int" in dtype:
                ctx.check(g == str(v), "array-int", f"{g} {v}")
            else:
                ctx.check(g == (f"{v:.{precision}e}" if scientific else f"{v:.{precision}f}"), "array-float", f"{g} {v}")
        ctx.check(sep.strip() == "" or text.count(sep.strip()) == max(0, len(values) - 1), "array-sep", f"{text!r}")

    pool = [0, 1, -2, 100000, 7]
    for dtype in ("int32", "int64", "float32", "float64"):
        for r in (1, 2, 3):
            for values in itertools.product(pool, repeat=r):
                for sep in (", ", ";", " "):
                    for precision, scientific in ((8, False), (0, False), (3, True)) if r < 3 else ((3, False),):
                        v = list(values) if "int" in dtype else [x + 0.37 for x in values]
                        ctx.case({"values": v, "dtype": dtype, "sep": sep, "precision": precision, "scientific": scientific}, one, v, dtype, sep, precision, scientific)


def job_paths(job, ctx):
    """Checks and listings of files and directories"""
    root = ctx.scratch()

    def kinds(names):
        d = root / "_".join(names) if names else root / "empty"
        d.mkdir()
        made = {"files": [], "dirs": []}
        for i, kind in enumerate(names):
            p = d / f"{'zyx'[i]}{kind}"
            if kind == "file":
                p.write_text("x")
                made["files"].append(p)
            else:
                p.mkdir()
                (p / "inner").write_text("y")
                made["dirs"].append(p)
        dirs, files = K.dir_contents(d)
        ctx.check(sorted(dirs) == sorted(made["dirs"]) and sorted(files) == sorted(made["files"]), "dir-contents", f"{dirs} {files}")
        ctx.check(sorted(K.dir_files(d)) == sorted(made["files"]), "dir-files", f"{K.dir_files(d)}")
        ctx.check(sorted(K.dir_subdirs(d)) == sorted(made["dirs"]), "dir-subdirs", f"{K.dir_subdirs(d)}")
        for p in made["files"] + made["dirs"] + [d / "none", d]:
            isf, isd = p in made["files"], p in made["dirs"] or p == d
            ctx.check(K.is_file(p) == isf, "is-file", str(p))
            ctx.check(K.is_dir(p) == isd, "is-dir", str(p))
            for fn, ok, other in ((K.assert_file, isf, E.NotFileError), (K.assert_dir, isd, E.NotDirectoryError)):
                if ok:
                    ctx.check(fn(p) is None, "assert-path", str(p))
                else:
                    ctx.refuses(lambda: fn(p), "assert-path", f"{fn.__name__} accepts {p.name}", (FileNotFoundError, E.PathNotFoundError) if p.name == "none" else other)
        for fn in (K.dir_contents, K.dir_files, K.dir_subdirs):
            ctx.refuses(lambda: fn(d / "none"), "list-missing", "a missing directory", E.PathNotFoundError)
            for p in made["files"]:
                ctx.refuses(lambda: fn(p), "list-file", "a file", E.NotDirectoryError)

    for r in range(4):
        for names in itertools.product(("file", "dir"), repeat=r):
            ctx.case({"contents": names}, kinds, names)


def job_names(job, ctx):
    """Names of sampling frequencies in paths"""
    seen = {}

    def one(num, den):
        f = num / den
        text = K.fs_to_string(f)
        ctx.check(re.fullmatch(r"\d+_\d{6}", text) is not None, "fs-name", f"{f} {text}")
        ctx.check(abs(Fraction(text.replace("_", ".")) - Fraction(f)) <= Fraction(1, 10**6), "fs-name-value", f"{f} {text}")
        key = round(f * 10**6)
        ctx.check(seen.setdefault(text, key) == key, "fs-name-shared", f"{text} for different frequencies")

    for num in list(range(1, 200)) + [512, 1024, 24000, 65536, 131072]:
        for den in (1, 2, 3, 7, 10, 60, 64, 1000):
            ctx.case({"fs": f"{num}/{den}"}, one, num, den)


def job_tables(job, ctx):
    """Calibration tables"""
    def one(rows):
        f = [0.5 * 3 ** i for i in range(rows)]
        m = [10.0 / (i + 1) for i in range(rows)]
        p = [-0.1 * i for i in range(rows)]
        cal = C.CalibrationData(file_path=None, serial="1", sensor="s", frequency=f, magnitude=m, phase=p)
        ctx.check(cal.n_samples == rows, "cal-rows", f"{cal.n_samples}")
        df = cal.to_dataframe()
        ctx.check(df.index.name == "frequency" and df.index.tolist() == f and df["magnitude"].tolist() == m and df["phase"].tolist() == p, "cal-frame", f"{df}")
        for k, v in (("frequency", f), ("magnitude", m), ("phase", p)):
            ctx.check(cal[k].tolist() == v, "cal-item", k)
        for bad in ("x", "", "Frequency", "serial"):
            ctx.refuses(lambda: cal[bad], "cal-item-refused", bad, ValueError)

    for rows in (1, 2, 5, 30):
        ctx.case({"rows": rows}, one, rows)
