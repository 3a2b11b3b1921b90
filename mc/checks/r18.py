"""R18 configurations, processes and transfer functions rebuild from their JSON"""
import copy
import itertools
import json
import warnings
from typing import Dict, List, Optional, Union

import numpy as np

from build import T0, snapshot, spectra_data, time_data, windowed_data

import resistics.calibrate as C
import resistics.decimate as D
import resistics.gather as G
import resistics.letsgo as L
import resistics.project as P
import resistics.regression as R
import resistics.spectra as S
import resistics.time as T
import resistics.window as W
from resistics.common import ResisticsProcess
from resistics.config import Configuration, get_default_configuration
from resistics.transfunc import ImpedanceTensor, Tipper, TransferFunction

ID = "R18"
LEVEL = "exploration"
RULE = (
    "every registered process and transfer function x the product of two to four values for each of its parameters x route "
    "(json text, dictionary, parameters(), nested in a model of its base class, record of its history), user subclasses of "
    "every base, configurations with every process in its place and lists of processes in every order up to length three, "
    "every mutation of a good dictionary (name missing, unknown, of another kind, each parameter removed or of the wrong "
    "type); the rebuilt object is compared in class, parameters, JSON and output on sample data, and dictionaries given "
    "are compared before and after; non-trivial: distinct objects"
)
ASSUMPTIONS = [
    "functions (ApplyFunction) have no JSON form and are not covered",
    "a name given by the user that is not the name of a class cannot be rebuilt (the name is documented to be set automatically)",
]


def BOUNDS(tier):
    return {"parameter values": 4, "list length": 3}


# parameters: name -> values. Missing key: default
GRIDS = {
    T.TimeReaderAscii: {"apply_scalings": [True, False], "extension": [".txt", ".dat"], "delimiter": [None, ",", "\t"], "n_header": [0, 3]},
    T.TimeReaderNumpy: {"apply_scalings": [True, False], "extension": [".npy", ".x"]},
    T.TimeWriterNumpy: {"overwrite": [True, False]},
    T.TimeWriterAscii: {"overwrite": [True, False]},
    T.Subsection: {"from_time": ["2021-01-01 00:00:01", "2021-01-01 00:00:02.125"], "to_time": ["2021-01-01 00:00:05", "2021-01-01 00:00:04.000000000000500"]},
    T.InterpolateNans: {},
    T.RemoveMean: {},
    T.Add: {"add": [2, -0.1, 1e-30, {"Ex": 3.5}, {"Ey": 1, "Hx": -2}, {}]},
    T.Multiply: {"multiplier": [2, -0.1, 1e30, {"Ex": 3.5}, {"Ey": 1, "Hx": -2}, {}]},
    T.LowPass: {"cutoff": [1, 2.5, 0.1], "order": [10, 3]},
    T.HighPass: {"cutoff": [1, 2.5, 0.1], "order": [10, 3]},
    T.BandPass: {"cutoff_low": [0.5, 1], "cutoff_high": [2.5, 3], "order": [10, 3]},
    T.Notch: {"notch": [1, 2.5], "band": [None, 0.5], "order": [10, 3]},
    T.Resample: {"new_fs": [4, 2.0, 1.6]},
    T.Decimate: {"factor": [1, 2, 6], "max_single_factor": [3, 13]},
    T.ShiftTimestamps: {"shift": [4, 0.125, 1e-3]},
    D.DecimationSetup: {"n_levels": [2, 8], "per_level": [2, 5], "min_samples": [8, 256], "div_factor": [2, 3], "eval_freqs": [None, [2, 1.5, 0.5, 0.1]]},
    D.Decimator: {"resample": [True, False], "max_single_factor": [3, 7]},
    D.DecimatedDataWriter: {"overwrite": [True, False]},
    D.DecimatedDataReader: {},
    W.WindowSetup: {"min_size": [16, 128], "min_olap": [4, 32], "win_factor": [4, 2], "olap_proportion": [0.25, 0.5], "min_n_wins": [5, 1],
                    "win_sizes": [None, [16, 8]], "olap_sizes": [None, [4, 2]]},
    W.Windower: {},
    W.WindowerTarget: {"target": [1000, 3], "min_size": [64, 8], "olap_proportion": [0.25, 0.5]},
    W.WindowedDataWriter: {"overwrite": [True, False]},
    W.WindowedDataReader: {},
    S.FourierTransform: {"win_fnc": [("kaiser", 14), ("kaiser", 2.5), "hann", ("tukey", 0.5)], "detrend": ["linear", "constant", None], "workers": [1, -2]},
    S.EvaluationFreqs: {},
    S.SpectraDataWriter: {"overwrite": [True, False]},
    S.SpectraDataReader: {},
    S.SpectraSmootherUniform: {"length_proportion": [0.1, 0.5, 1]},
    S.SpectraSmootherGaussian: {"sigma": [1, 2.5, 0.1]},
    C.SensorCalibrationJSON: {"extension": [".json", ".JSN"], "file_str": ["IC_$sensor$extension", "$serial_$chopper$extension"]},
    C.SensorCalibrationTXT: {"extension": [".TXT", ".txt"], "file_str": ["IC_$sensor$extension", "$serial_$chopper$extension"]},
    C.SensorCalibrator: {"chans": [None, ["Ex"], []], "readers": [[], [C.SensorCalibrationJSON()], [C.SensorCalibrationTXT(extension=".a"), C.SensorCalibrationJSON(file_str="$serial")]]},
    C.InstrumentCalibrator: {"chans": [None, ["Ex"]], "readers": [[], [C.InstrumentCalibrationReader(extension=".z")]]},
    G.Selector: {},
    G.ProjectGather: {},
    G.QuickGather: {},
    R.RegressionPreparerSpectra: {},
    R.RegressionPreparerGathered: {},
    R.SolverScikitOLS: {"fit_intercept": [True, False], "normalize": [True, False], "n_jobs": [1, -2]},
    R.SolverScikitHuber: {"fit_intercept": [True, False], "epsilon": [1, 1.5]},
    R.SolverScikitTheilSen: {"fit_intercept": [True, False], "n_jobs": [1, -2], "max_subpopulation": [2000, 10], "n_subsamples": [None, 0.5]},
    R.SolverScikitRANSAC: {"fit_intercept": [True, False], "min_samples": [0.8, 0.5], "max_trials": [20, 3]},
    R.SolverScikitWLS: {"n_jobs": [1], "n_iter": [50, 2]},
    L.ProjectLoader: {"dir_path": ["some/where", "/x"]},
    L.ProjectCreator: {"dir_path": ["some/where"], "metadata": [P.ProjectMetadata(ref_time="2021-01-01"), P.ProjectMetadata(
        ref_time="2021-02-03 04:05:06.000000000007", location="l", country="c", year=2021, description="d", contributors=["a", "b"])]},
}
TF_GRIDS = {
    TransferFunction: {"variation": ["generic", "v"], "out_chans": [["Ex"], ["Ey", "Ex"]], "in_chans": [["Hx", "Hy"], ["Hy"]], "cross_chans": [None, ["Rx"], ["Ry", "Rx", "Hx"]]},
    ImpedanceTensor: {"variation": ["default", "v 1"], "cross_chans": [None, ["Rx"], ["Ry", "Rx", "Hx"]], "out_chans": [["Ex", "Ey"], ["Ey"]],
                      "in_chans": [["Hx", "Hy"], ["By", "Bx"], ["Hy"]]},
    Tipper: {"variation": ["default", ""], "cross_chans": [None, ["Hy", "Hx"]], "in_chans": [["Hx", "Hy"], ["Bx"], ["By", "Hx", "Bx"]]},
}
REQUIRED_SAFE = 0


def grid_of(cls):
    grid = GRIDS[cls] if cls in GRIDS else TF_GRIDS[cls]
    names = sorted(grid)
    for values in itertools.product(*[grid[n] for n in names]):
        yield dict(zip(names, values))


def jobs(tier):
    for cls in GRIDS:
        yield {"kind": "process", "cls": cls.__name__}
    for cls in TF_GRIDS:
        yield {"kind": "tf", "cls": cls.__name__}
    yield {"kind": "registry"}
    yield {"kind": "users"}
    for i in range(len(CONFIG_PARTS)):
        yield {"kind": "configs", "part": i}
    yield {"kind": "lists"}
    yield {"kind": "defaults"}


def run_job(job, ctx):
    warnings.simplefilter("ignore")
    globals()["job_" + job["kind"]](job, ctx)


def by_name(name):
    return next(c for c in list(GRIDS) + list(TF_GRIDS) if c.__name__ == name)


def make(cls, params):
    return cls(**copy.deepcopy(params))


# -- behaviour on sample data
def sample_time():
    i = np.arange(48)
    data = np.stack([np.sin(i * (0.3 + 0.2 * k)) + 0.1 * (i * (k + 3) % 7) for k in range(3)])
    return time_data(8.0, data, ["Ex", "Ey", "Hx"])


def sample_spectra():
    i = np.arange(3 * 3 * 20).reshape(3, 3, 20)
    return spectra_data([np.sin(i) + 1j * np.cos(i * 0.7)], [8.0], [np.arange(20) / 5.0], ["Ex", "Ey", "Hx"])


def outcome_of(fn):
    try:
        out = fn()
    except Exception as e:
        return ("error", type(e).__name__)
    if isinstance(out, tuple):
        return out
    if hasattr(out, "metadata") and hasattr(out, "data"):
        md = json.loads(out.metadata.json())
        md.pop("history", None)
        data = out.data if isinstance(out.data, dict) else {0: out.data}
        return ("data", json.dumps(md, sort_keys=True), tuple((k, v.shape, str(v.dtype), np.ascontiguousarray(v).tobytes()) for k, v in sorted(data.items())))
    return ("json", out.json())


def behaviour(obj):
    if isinstance(obj, T.TimeProcess):
        return outcome_of(lambda: obj.run(sample_time()))
    if isinstance(obj, S.SpectraProcess):
        return outcome_of(lambda: obj.run(sample_spectra()))
    if isinstance(obj, D.DecimationSetup):
        return outcome_of(lambda: obj.run(64))
    if isinstance(obj, D.Decimator):
        dp = D.DecimationSetup(n_levels=3, min_samples=4, per_level=2).run(8.0)
        return outcome_of(lambda: obj.run(dp, sample_time()))
    if isinstance(obj, W.WindowSetup):
        return outcome_of(lambda: obj.run(2, [8.0, 2.0]))
    if isinstance(obj, W.Windower):
        dp = D.DecimationSetup(n_levels=2, min_samples=4, per_level=2).run(8.0)
        dec = D.Decimator().run(dp, sample_time())
        wp = W.WindowSetup(min_size=8, min_olap=2, min_n_wins=1).run(dec.metadata.n_levels, dec.metadata.fs)
        return outcome_of(lambda: obj.run(T0, wp, dec))
    if isinstance(obj, S.FourierTransform):
        i = np.arange(4 * 2 * 16).reshape(4, 2, 16)
        return outcome_of(lambda: obj.run(windowed_data([np.sin(i * 0.37) + i % 5], [8.0], ["Ex", "Hx"])))
    if isinstance(obj, S.EvaluationFreqs):
        dp = D.DecimationParameters(fs=8.0, n_levels=1, per_level=2, min_samples=4, eval_freqs=[2.1, 1.3], dec_factors=[1])
        return outcome_of(lambda: obj.run(dp, sample_spectra()))
    if isinstance(obj, TransferFunction):
        return ("tf", obj.to_string(), obj.n_out, obj.n_in, obj.n_cross, obj.n_eqns_per_output(), obj.n_regressors())
    return None


def same(ctx, obj, back, key, deep=True):
    ctx.require(type(back) is type(obj), key + "-class", f"{type(back).__name__} instead of {type(obj).__name__}")
    ctx.check(back is not obj, key + "-same-object", "")
    ctx.require(back.dict() == obj.dict() and back == obj, key + "-parameters", f"{back.dict()} instead of {obj.dict()}")
    ctx.check(json.loads(back.json()) == json.loads(obj.json()), key + "-json", f"{back.json()} instead of {obj.json()}")
    ctx.check(list(back.dict()) == list(obj.dict()), key + "-fields", "")
    for f in obj.__fields__:
        a, b = getattr(back, f), getattr(obj, f)
        ctx.check(type(a) is type(b) or {type(a), type(b)} == {int, float}, key + "-types", f"{f}: {getattr(back, f)!r} instead of {getattr(obj, f)!r}")
    if deep:
        ctx.check(behaviour(back) == behaviour(obj), key + "-behaviour", "the rebuilt object gives another result")


def rebuild(ctx, obj, base, expected):
    """expected: parameters that were given"""
    for k, v in expected.items():
        got = getattr(obj, k)
        if v is None or str(got) == str(v):
            continue
        ctx.check(got == v, "constructed", f"{k}: {got!r} given {v!r}")
    text = obj.json()
    loaded = json.loads(text)
    ctx.check(loaded.get("name") == type(obj).__name__, "name", f"{loaded.get('name')}")
    keep = copy.deepcopy(loaded)
    for cls in base:
        back = cls.validate(loaded)
        same(ctx, obj, back, "dict")
        ctx.check(loaded == keep, "dict-changed", f"{loaded} was {keep}")
        again = cls.validate(loaded)
        same(ctx, obj, again, "dict-again", deep=False)
        ctx.check(loaded == keep, "dict-changed", f"{loaded} was {keep}")
        ctx.check(cls.validate(obj) is obj or cls.validate(obj) == obj, "instance", "")
    same(ctx, obj, type(obj).parse_raw(text), "json", deep=False)
    plain = obj.dict()
    keep = copy.deepcopy(plain)
    same(ctx, obj, base[0].validate(plain), "python-dict", deep=False)
    ctx.check(plain == keep, "dict-changed", f"{plain} was {keep}")
    if isinstance(obj, ResisticsProcess):
        params = obj.parameters()
        ctx.check(params == loaded, "parameters", "")
        same(ctx, obj, base[0].validate(params), "parameters", deep=False)


def history_rebuild(ctx, obj):
    """The record a process leaves rebuilds it"""
    data = {"time": sample_time, "spectra": sample_spectra}
    if isinstance(obj, T.TimeProcess):
        src = data["time"]()
    elif isinstance(obj, S.SpectraProcess):
        src = data["spectra"]()
    else:
        return
    try:
        out = obj.run(src)
    except Exception:
        ctx.outcome("refused")
        return
    records = out.metadata.history.records
    mine = [r for r in records if r.creator.get("name") == type(obj).__name__]
    ctx.require(len(mine) >= 1 and records[-1] is mine[-1], "history-record", f"{[r.creator for r in records]}")
    text = out.metadata.json()
    back = ResisticsProcess.validate(json.loads(text)["history"]["records"][-1]["creator"])
    same(ctx, obj, back, "history")
    ctx.outcome("ran")


BASES = [T.TimeReader, T.TimeProcess, S.SpectraProcess, C.Calibrator, C.SensorCalibrationReader, R.Solver, W.Windower]


def bases_of(cls):
    if issubclass(cls, TransferFunction):
        return [TransferFunction] + ([cls] if cls is not TransferFunction else [])
    return [ResisticsProcess] + [b for b in BASES if issubclass(cls, b)] + [cls]


def job_process(job, ctx):
    cls = by_name(job["cls"])

    def one(params):
        obj = make(cls, params)
        if isinstance(obj, TransferFunction):
            # without cross channels of its own the input channels serve
            cross = params.get("cross_chans") or params["in_chans"]
            ctx.check(obj.cross_chans == cross and (obj.n_out, obj.n_in, obj.n_cross) == (len(obj.out_chans), len(obj.in_chans), len(cross)),
                      "tf-channels", f"{obj.json()} from {params}")
        rebuild(ctx, obj, bases_of(cls), params)
        history_rebuild(ctx, obj)

    first = None
    for params in grid_of(cls):
        first = first or params
        ctx.case({"job": job, "params": str(params)}, one, params)
    mutations(job, ctx, cls, first or {})


job_tf = job_process

WRONG = {bool: "perhaps", int: "many", float: "much", str: {"a": 1}}


def mutations(job, ctx, cls, params):
    good = json.loads(make(cls, params).json())
    base = bases_of(cls)[0]

    def refused(bad, key):
        keep = copy.deepcopy(bad)
        ctx.refuses(lambda: base.validate(bad), key, f"{bad} accepted")
        ctx.check(bad == keep, "dict-changed", f"{bad} was {keep}")

    other = "Tipper" if issubclass(cls, ResisticsProcess) else "RemoveMean"
    for name in (None, "", "Unknown", cls.__name__.lower(), cls.__name__ + " ", other, 3, ["LowPass"], "_types", "validate"):
        ctx.case({"job": job, "name": str(name)}, refused, dict(good, name=name), "unknown-name-refused")
    ctx.case({"job": job, "name": "missing"}, refused, {k: v for k, v in good.items() if k != "name"}, "missing-name-refused")
    for bad in (None, 3, "LowPass", [good], json.dumps(good)):
        ctx.case({"job": job, "value": str(bad)[:30]}, lambda: ctx.refuses(lambda: base.validate(bad), "not-a-dictionary-refused", f"{bad!r} accepted"))
    for name, f in cls.__fields__.items():
        if name == "name":
            continue
        if f.required:
            ctx.case({"job": job, "missing": name}, refused, {k: v for k, v in good.items() if k != name}, "missing-parameter-refused")
            ctx.case({"job": job, "none": name}, refused, dict(good, **{name: None}), "missing-parameter-refused")
        wrong = WRONG.get(f.outer_type_, None)
        if wrong is None and isinstance(f.type_, type) and issubclass(f.type_, (int, float)):
            wrong = "wrong"
        if wrong is not None and not isinstance(f.outer_type_, type(Union[int, str])):
            ctx.case({"job": job, "wrong": name}, refused, dict(good, **{name: wrong}), "wrong-type-refused")


def job_registry(job, ctx):
    """Every class of the package is found by its name"""
    def one(cls):
        obj = cls()
        same(ctx, obj, ResisticsProcess.validate({"name": cls.__name__}), "registry", deep=False)

    for cls in GRIDS:
        if not any(f.required for f in cls.__fields__.values()):
            ctx.case({"job": job, "cls": cls.__name__}, one, cls)

    def readers():
        """Nested processes given as dictionaries, in order and untouched"""
        nested = [{"name": "SensorCalibrationTXT", "extension": ".q"}, {"name": "SensorCalibrationJSON"}, {"name": "SensorCalibrationTXT"}]
        value = {"name": "SensorCalibrator", "chans": ["Hx"], "readers": nested}
        keep = copy.deepcopy(value)
        for _ in range(2):
            obj = ResisticsProcess.validate(value)
            ctx.check([type(x).__name__ for x in obj.readers] == [x["name"] for x in nested] and obj.readers[0].extension == ".q", "nested", "")
            ctx.check(value == keep, "dict-changed", "nested")
        ctx.refuses(lambda: ResisticsProcess.validate(dict(value, readers=[{"name": "Nothing"}])), "unknown-name-refused", "unknown nested reader accepted")

    ctx.case({"job": job, "what": "nested"}, readers)


def job_users(job, ctx):
    """Processes and transfer functions users write"""
    class UserAdd(T.TimeProcess):
        amount: float
        chans: Optional[List[str]] = None
        weights: Dict[str, float] = {}
        label: str = "x"

        def run(self, time_data):
            new = time_data.data + self.amount * (self.weights.get("w", 1) if self.chans is None else len(self.chans))
            return T.TimeData(T.TimeMetadata(**time_data.metadata.dict()), new)

    class UserAddTwo(UserAdd):
        amount: float = 2.0

    class UserMean(T.RemoveMean):
        times: int = 1

        def run(self, time_data):
            out = time_data
            for _ in range(self.times):
                out = T.RemoveMean.run(self, out)
            return out

    class UserLow(T.LowPass):
        order: int = 4

    class UserSmoother(S.SpectraProcess):
        factor: float = 2.0

        def run(self, spec_data):
            return S.SpectraData(S.SpectraMetadata(**spec_data.metadata.dict()), {k: v * self.factor for k, v in spec_data.data.items()})

    class UserSolver(R.SolverScikitOLS):
        damping: float = 0.5
        n_jobs: int = 1

    class UserWindower(W.Windower):
        keep: List[int] = [1, 2]

    class UserReader(T.TimeReaderNumpy):
        flavour: str = "sweet"

    class UserCalibrationReader(C.SensorCalibrationReader):
        extension: str = ".cal"
        columns: List[str] = ["f", "m"]

    class UserTipper(Tipper):
        scale: float = 1.0

    class UserTF(TransferFunction):
        variation: str = "user"
        out_chans: List[str] = ["Bz"]
        in_chans: List[str] = ["Bx", "By"]

    grids = [
        (UserAdd, {"amount": [1, 2.5], "chans": [None, ["Ex", "Ey"]], "weights": [{}, {"w": 3.0}], "label": ["x", "Größe \"q\"\n"]}),
        (UserAddTwo, {"amount": [2.0, -1], "chans": [None, []]}), (UserMean, {"times": [1, 3]}), (UserLow, {"cutoff": [1.0, 2.0], "order": [4, 6]}),
        (UserSmoother, {"factor": [2.0, 0.1]}), (UserSolver, {"damping": [0.5, 1.5], "fit_intercept": [False, True]}),
        (UserWindower, {"keep": [[1, 2], [], [3]]}), (UserReader, {"flavour": ["sweet", "sour"], "extension": [".npy", ".f"]}),
        (UserCalibrationReader, {"columns": [["f"], []], "file_str": ["a_$serial"]}),
        (UserTipper, {"scale": [1.0, 3.0], "variation": ["default", "u"]}), (UserTF, {"variation": ["user", "b"], "in_chans": [["Bx", "By"], ["By"]], "cross_chans": [None, ["Hx"]]}),
    ]

    def one(cls, params):
        obj = make(cls, params)
        rebuild(ctx, obj, bases_of(cls), params)
        slot = [("time_processors", T.TimeProcess), ("spectra_processors", S.SpectraProcess), ("time_readers", T.TimeReader)]
        kwargs = {}
        for name, base in slot:
            if isinstance(obj, base):
                kwargs = {name: [obj, make(cls, params)]}
        for name, base in (("solver", R.Solver), ("windower", W.Windower), ("tf", TransferFunction)):
            if isinstance(obj, base):
                kwargs = {name: obj}
        if isinstance(obj, C.SensorCalibrationReader):
            kwargs = {"sensor_calibrator": C.SensorCalibrator(readers=[obj])}
        check_config(ctx, Configuration(name="user", **kwargs))

    for cls, grid in grids:
        names = sorted(grid)
        for values in itertools.product(*[grid[n] for n in names]):
            params = dict(zip(names, values))
            ctx.case({"job": job, "cls": cls.__name__, "params": str(params)}, one, cls, params)


CONFIG_PARTS = [
    ("solver", [R.SolverScikitOLS, R.SolverScikitHuber, R.SolverScikitTheilSen, R.SolverScikitRANSAC, R.SolverScikitWLS]),
    ("windower", [W.Windower, W.WindowerTarget]),
    ("win_setup", [W.WindowSetup]),
    ("dec_setup", [D.DecimationSetup]),
    ("decimator", [D.Decimator]),
    ("fourier", [S.FourierTransform]),
    ("tf", [TransferFunction, ImpedanceTensor, Tipper]),
    ("sensor_calibrator", [C.SensorCalibrator, C.InstrumentCalibrator]),
    ("time_readers", [T.TimeReaderAscii, T.TimeReaderNumpy]),
    ("time_processors", [T.Subsection, T.InterpolateNans, T.RemoveMean, T.Add, T.Multiply, T.LowPass, T.HighPass, T.BandPass, T.Notch, T.Resample, T.Decimate, T.ShiftTimestamps]),
    ("spectra_processors", [S.SpectraSmootherUniform, S.SpectraSmootherGaussian]),
]


def config_same(ctx, conf, back, key):
    ctx.require(type(back) is Configuration and back.name == conf.name, key + "-class", "")
    for name in conf.__fields__:
        a, b = getattr(conf, name), getattr(back, name)
        if isinstance(a, list):
            ctx.require([type(x) for x in a] == [type(x) for x in b], key + "-list", f"{name}: {b} instead of {a}")
            for x, y in zip(a, b):
                same(ctx, x, y, key + "-item", deep=False)
        elif name != "name":
            same(ctx, a, b, key + "-part", deep=False)
    ctx.check(json.loads(back.json()) == json.loads(conf.json()) and back == conf, key + "-json", "")


def check_config(ctx, conf, path=None):
    text = conf.json()
    config_same(ctx, conf, Configuration.parse_raw(text), "config-raw")
    loaded = json.loads(text)
    keep = copy.deepcopy(loaded)
    for _ in range(2):
        config_same(ctx, conf, Configuration(**loaded), "config-dict")
        ctx.check(loaded == keep, "dict-changed", "configuration dictionary changed")
        config_same(ctx, conf, Configuration.parse_obj(loaded), "config-obj")
        ctx.check(loaded == keep, "dict-changed", "configuration dictionary changed")
    plain = conf.dict()
    keep = copy.deepcopy(plain)
    config_same(ctx, conf, Configuration(**plain), "config-python-dict")
    ctx.check(plain == keep, "dict-changed", "configuration dictionary changed")
    if path is not None:
        path.write_text(text)
        config_same(ctx, conf, Configuration.parse_file(path), "config-file")


def job_configs(job, ctx):
    name, classes = CONFIG_PARTS[job["part"]]
    base = ctx.scratch()
    for cls in classes:
        for k, params in enumerate(grid_of(cls)):
            if ctx.tier == "quick" and k > 40:
                break
            value = make(cls, params)

            def one():
                given = [value, cls(**copy.deepcopy(params))] if name.endswith("s") else value
                conf = Configuration(name="conf %d" % k, **{name: given})
                got = getattr(conf, name)
                ctx.check(got == given, "config-holds", f"{name}")
                check_config(ctx, conf, base / "conf.json")
                default = get_default_configuration()
                for other in conf.__fields__:
                    if other not in (name, "name"):
                        ctx.check(getattr(conf, other) == getattr(default, other), "config-other", other)

            ctx.case({"job": job, "cls": cls.__name__, "params": str(params)}, one)

    def refused(bad):
        good = json.loads(get_default_configuration().json())
        good[name] = [bad] if name.endswith("s") else bad
        keep = copy.deepcopy(good)
        ctx.refuses(lambda: Configuration(**good), "config-refused", f"{name}: {bad} accepted")
        ctx.check(good == keep, "dict-changed", "configuration dictionary changed")

    for bad in ({"name": "Unknown"}, {}, {"Name": classes[0].__name__}, "LowPass", 3, None if name.endswith("s") else "x"):
        ctx.case({"job": job, "bad": str(bad)}, refused, bad)


def job_lists(job, ctx):
    """Lists of processes keep their order"""
    items = [T.RemoveMean(), T.Add(add=3), T.Multiply(multiplier={"Ex": -2}), T.LowPass(cutoff=1.5)]
    td = sample_time()

    def run_all(procs):
        out = sample_time()
        for p in procs:
            out = p.run(out)
        return snapshot_data(out)

    def snapshot_data(out):
        return out.data.tobytes()

    for n in (0, 1, 2, 3):
        for combo in itertools.product(range(len(items)), repeat=n):
            def one():
                procs = [items[i] for i in combo]
                conf = Configuration(name="list", time_processors=procs)
                check_config(ctx, conf)
                back = Configuration.parse_raw(conf.json())
                ctx.check(run_all(back.time_processors) == run_all(procs), "list-behaviour", "")

            ctx.case({"job": job, "processes": combo}, one)
    readers = [T.TimeReaderAscii(), T.TimeReaderNumpy(), T.TimeReaderAscii(extension=".x", n_header=2)]
    for n in (1, 2, 3):
        for combo in itertools.permutations(range(3), n):
            ctx.case({"job": job, "readers": combo}, lambda: check_config(ctx, Configuration(name="r", time_readers=[readers[i] for i in combo])))


def job_defaults(job, ctx):
    """Configurations do not share their parts"""
    def shared():
        a, b = Configuration(name="a"), Configuration(name="b")
        before = b.json()
        a.time_processors.append(T.Add(add=1))
        a.time_readers.pop()
        a.dec_setup.n_levels = 99
        a.win_setup.min_size = 1
        a.tf.out_chans.append("Hz")
        a.sensor_calibrator.readers.clear()
        a.solver.fit_intercept = True
        a.spectra_processors.append(S.SpectraSmootherUniform())
        ctx.check(b.json() == before, "shared-parts", "changing one configuration changed another")
        ctx.check(json.loads(Configuration(name="b").json()) == json.loads(before), "shared-defaults", "changing one configuration changed the defaults")
        ctx.check(get_default_configuration().json() == before.replace('"b"', '"default"', 1), "shared-defaults", "")
        x, y = ImpedanceTensor(), ImpedanceTensor()
        x.out_chans.append("Hz")
        ctx.check(y.out_chans == ["Ex", "Ey"] and ImpedanceTensor().out_chans == ["Ex", "Ey"], "shared-tf", "")
        x, y = C.SensorCalibrator(readers=[]), C.SensorCalibrator(readers=[])
        x.readers.append(C.SensorCalibrationJSON())
        ctx.check(y.readers == [], "shared-readers", "")

    ctx.case({"job": job, "what": "shared"}, shared)

    def solution_tf():
        for tf in (ImpedanceTensor(cross_chans=["Bx"]), Tipper(variation="q"), TransferFunction(out_chans=["a"], in_chans=["b"])):
            sol = R.Solution(tf=tf, freqs=[1.0], components={}, history={"records": []}, contributors={})
            same(ctx, tf, R.Solution.parse_raw(sol.json()).tf, "solution-tf")

    ctx.case({"job": job, "what": "solution"}, solution_tf)
