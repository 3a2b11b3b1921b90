"""R14 data products are read back exactly as written, after any history of writes"""
import itertools
import json
import warnings

import numpy as np

from attotime import attodatetime

from build import T0, T0_ODD, STATION, chans_meta, snapshot, spectra_data, time_data, time_metadata, windowed_data
from ref import secs_between, time_at
from fractions import Fraction

import resistics.calibrate as C
import resistics.decimate as D
import resistics.project as P
import resistics.regression as R
import resistics.spectra as S
import resistics.time as T
import resistics.window as W
from resistics.common import History, get_record
from resistics.sampling import datetime_from_string
from resistics.transfunc import ImpedanceTensor, Tipper, TransferFunction, Component

ID = "R14"
LEVEL = "model_checking"
RULE = (
    "explicit enumeration of every history, up to the depth bound, of writing (4 kinds of data, 2-3 different data "
    "sets each, numpy and ascii writers), reading, reading with metadata given, and writing back what was read, "
    "unchanged or with other values, into one directory; each history is executed on the real writers and readers and the directory is read after "
    "its last operation and compared with the model (last data written and its history); plus every data type x "
    "shape x memory order x metadata value for one write and read, and every metadata file kind"
)
ASSUMPTIONS = [
    "data are read with the reader of the kind last written to the directory",
    "ascii files are compared to the precision printed (6 decimals) and float32 of the reader",
]


def BOUNDS(tier):
    return {"history depth": depth(tier), "operations": len(OPS), "directories": 1}


def depth(tier):
    return 3 if tier == "quick" else 4


def dec_data(arrays, fs, chans, t0=T0):
    levels = [
        D.DecimatedLevelMetadata(fs=f, n_samples=a.shape[1], first_time=t0, last_time=time_at(t0, Fraction(a.shape[1] - 1) / Fraction(f)))
        for a, f in zip(arrays, fs)
    ]
    md = D.DecimatedMetadata(
        fs=list(fs), chans=list(chans), n_levels=len(fs), first_time=t0, last_time=levels[0].last_time,
        chans_metadata=chans_meta(chans), levels_metadata=levels, **STATION)
    return D.DecimatedData(md, dict(enumerate(arrays)))


def with_history(obj, names):
    for i, name in enumerate(names):
        obj.metadata.history.add_record(get_record({"name": name, "value": i / 3, "list": [1, None, "x"]}, [f"step {i}", "é µ \" \\"]))
    return obj


def arr(shape, dtype, seed):
    rng = np.random.RandomState(seed)
    out = rng.randn(*shape) * 10.0 ** rng.randint(-3, 4, size=shape)
    if dtype.startswith("complex"):
        out = out + 1j * rng.randn(*shape)
    return out.astype(dtype)


def special(a):
    flat = a.reshape(-1)
    vals = [np.nan, np.inf, -0.0, 1e-42, -np.inf]
    flat[: min(len(vals), flat.size)] = vals[: flat.size]
    return a


def make(kind, variant):
    """A fresh data object"""
    if kind == "time":
        if variant == 0:
            return with_history(time_data(128.0, special(arr((3, 11), "float32", 1)), ["Ex", "Hy", "Hz"], T0_ODD), ["a"])
        if variant == 1:
            return time_data(0.1, arr((1, 7), "float64", 2), ["Hx"])
        return with_history(time_data(1 / 3, (arr((2, 9), "float64", 3) * 100).astype("int32"), ["Hy", "Ex"]), ["b", "c"])
    if kind == "dec":
        if variant == 0:
            return with_history(dec_data([special(arr((2, 16), "float64", 4)), arr((2, 4), "float32", 5)], [64.0, 16.0], ["Ex", "Hy"], T0_ODD), ["a"])
        return dec_data([arr((1, 5), "float32", 6)], [0.7], ["Hz"])
    if kind == "win":
        if variant == 0:
            return with_history(windowed_data([special(arr((3, 2, 8), "float32", 7)), arr((1, 2, 5), "float32", 8)], [64.0, 16.0], ["Ex", "Hy"], T0_ODD, 2, 5), ["a", "b"])
        return windowed_data([arr((1, 1, 4), "float64", 9)], [0.7], ["Hz"])
    if variant == 0:
        return with_history(spectra_data([special(arr((3, 2, 4), "complex128", 10)), arr((1, 2, 2), "complex64", 11)], [64.0, 16.0], [[1, 2, 3, 4.5], [0.1, 1 / 3]], ["Ex", "Hy"], T0_ODD), ["a"])
    return spectra_data([arr((2, 1, 1), "complex64", 12)], [0.7], [[0.1]], ["Hz"])


WRITERS = {"time": T.TimeWriterNumpy, "ascii": T.TimeWriterAscii, "dec": D.DecimatedDataWriter, "win": W.WindowedDataWriter, "spec": S.SpectraDataWriter}
READERS = {"time": lambda: T.TimeReaderNumpy(), "ascii": lambda: T.TimeReaderAscii(extension=".ascii"),
           "dec": lambda: D.DecimatedDataReader(), "win": lambda: W.WindowedDataReader(), "spec": lambda: S.SpectraDataReader()}
OPS = (
    [("W", "time", v) for v in (0, 1, 2)] + [("W", "ascii", v) for v in (0, 1)]
    + [("W", k, v) for k in ("dec", "win", "spec") for v in (0, 1)]
    + [("R",), ("Rm",), ("B",), ("X",), ("C",)]
)


def jobs(tier):
    for op in OPS:
        if op[0] != "W":
            continue
        for second in OPS:
            yield {"kind": "histories", "prefix": [op, second]}
    for kind in ("time", "ascii", "dec", "win", "spec"):
        yield {"kind": "product", "what": kind}
    yield {"kind": "files"}
    yield {"kind": "chans"}


def run_job(job, ctx):
    globals()["job_" + job["kind"]](job, ctx)


def arrays_of(obj):
    return obj.data if isinstance(obj.data, dict) else {0: obj.data}


def meta_dict(metadata):
    out = json.loads(metadata.json())
    out.pop("file_info", None)
    hist = out.pop("history", {"records": []})["records"]
    for m in out.get("chans_metadata", {}).values():
        m.pop("data_files", None)
    return out, hist


def same(ctx, got, want, kinds, key):
    """got: object read, want: (arrays, metadata dict, history records), kinds: writer and reader records that follow"""
    arrays, meta, hist = want
    got_arrays = arrays_of(got)
    ctx.require(sorted(got_arrays) == sorted(arrays), key + "-levels", f"levels {sorted(got_arrays)} expected {sorted(arrays)}")
    for lvl, a in arrays.items():
        b = got_arrays[lvl]
        if "ascii" in kinds:
            ok = b.shape == a.shape
            if ok:
                fin = np.isfinite(a)
                ok = np.array_equal(np.isnan(a), np.isnan(b)) and np.array_equal(np.isfinite(b), fin)
                ok = ok and bool(np.all(np.abs(a[fin].astype("float64") - b[fin]) <= 6e-7 + 2e-7 * np.abs(a[fin])))
        else:
            ok = b.shape == a.shape and b.dtype == a.dtype and np.ascontiguousarray(a).tobytes() == np.ascontiguousarray(b).tobytes()
        ctx.require(ok, key + "-values", lambda: f"level {lvl} {b.dtype}{b.shape} expected {a.dtype}{a.shape}: {b.ravel()[:6]} expected {a.ravel()[:6]}")
    got_meta, got_hist = meta_dict(got.metadata)
    if kinds[0] in ("time", "ascii"):
        # the last time is recalculated from the sampling frequency
        meta = dict(meta)
        want_last, got_last = (secs_between(datetime_from_string(x["last_time"]), T0) for x in (meta, got_meta))
        ctx.require(abs(want_last - got_last) * Fraction(meta["fs"]) < Fraction(1, 10**6), key + "-last-time", got_meta["last_time"])
        meta["last_time"] = got_meta["last_time"]
    ctx.require(got_meta == meta, key + "-metadata", lambda: f"{[(k, got_meta.get(k), meta.get(k)) for k in meta if got_meta.get(k) != meta.get(k)]}")
    ctx.require(got_hist[: len(hist)] == hist and len(got_hist) == len(hist) + 2, key + "-history",
                f"{[r['creator'].get('name') for r in got_hist]} after {[r['creator'].get('name') for r in hist]}")
    names = [r["creator"]["name"] for r in got_hist[-2:]]
    ctx.require(names == [WRITERS[kinds[0]].__name__, READERS[kinds[0]]().name], key + "-records", f"{names}")


def changed(obj):
    """Other values of the same shape, under the metadata of what was read"""
    if isinstance(obj.data, dict):
        return type(obj)(obj.metadata, {k: v * 2 + 1 for k, v in obj.data.items()})
    return type(obj)(obj.metadata, obj.data * 2 + 1)


class World(object):
    """The real directory and object, next to the model of both"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.dir = ctx.scratch() / "data"
        self.disk = None  # (kind, arrays, meta, history)
        self.obj = None  # object last read or written
        self.obj_kind = None

    def write(self, kind, obj):
        before = snapshot(obj)
        meta, hist = meta_dict(obj.metadata)
        arrays = {k: np.array(v) for k, v in arrays_of(obj).items()}
        WRITERS[kind]().run(self.dir, obj)
        self.ctx.require(snapshot(obj) == before, "write-input", f"{kind} writer changed what it wrote")
        self.disk = (kind, arrays, meta, hist)

    def read(self, given_metadata=False):
        kind = self.disk[0]
        if given_metadata and kind in ("time", "ascii"):
            metadata = READERS[kind]().run(self.dir, metadata_only=True)
            obj = READERS[kind]().run(self.dir, metadata=metadata)
        elif given_metadata:
            metadata = READERS[kind]().run(self.dir, metadata_only=True)
            obj = READERS[kind]().run(self.dir)
            got, hist = meta_dict(metadata)
            self.ctx.require(got == self.disk[2] and hist[:-1] == self.disk[3], "metadata-only", "")
        else:
            obj = READERS[kind]().run(self.dir)
        same(self.ctx, obj, self.disk[1:], [kind], "history")
        return obj, kind

    def step(self, op):
        """False when the operation is not possible here"""
        if op[0] == "W":
            self.write(op[1], make("time" if op[1] == "ascii" else op[1], op[2]))
        elif op[0] in ("R", "Rm"):
            self.obj, self.obj_kind = self.read(op[0] == "Rm")
            # what the object must stay, whatever happens to the directory
            self.held = snapshot(self.obj)
        elif op[0] in ("B", "X", "C"):
            if self.obj is None:
                return False
            kind = self.obj_kind
            if op[0] == "X":
                if kind not in ("time", "ascii"):
                    return False
                kind = "ascii" if kind == "time" else "time"
            self.write(kind, changed(self.obj) if op[0] == "C" else self.obj)
        if self.obj is not None:
            self.ctx.require(snapshot(self.obj) == self.held, "read-object-changed", f"object read earlier changed after {op}")
        return True

    def canonical(self):
        return (
            self.disk[0], len(self.disk[3]), sorted(self.disk[1]), [a.tobytes() for a in self.disk[1].values()],
            None if self.obj is None else (self.obj_kind, len(self.obj.metadata.history.records), self.held[1]),
            sorted(p.name for p in self.dir.iterdir()),
        )


def job_histories(job, ctx):
    warnings.simplefilter("ignore")
    prefix = [tuple(x) for x in job["prefix"]]

    def one(history):
        world = World(ctx)
        try:
            for op in history:
                if not world.step(op):
                    return False
                ctx.transitions += 1
            ctx.state(world.canonical())
            world.read()
            ctx.traces += 1
            ctx.outcome(world.canonical()[0])
        finally:
            ctx.drop(world.dir.parent)
        return True

    def walk(history):
        ok = ctx.case({"job": job, "history": [list(map(str, x)) for x in history]}, one, history)
        if ok and len(history) < depth(ctx.tier):
            for op in OPS:
                walk(history + [op])

    walk(prefix)
    if prefix[1] == OPS[0]:
        ctx.case({"job": job, "history": prefix[:1]}, one, prefix[:1])


def job_product(job, ctx):
    """Single write and read of every data type, shape, memory order and metadata variety"""
    warnings.simplefilter("ignore")
    kind = job["what"]
    base = ctx.scratch()
    count = [0]

    def check(obj):
        count[0] += 1
        d = base / "deep" / f"with space {count[0]}" / "data.v1"
        meta, hist = meta_dict(obj.metadata)
        arrays = {k: np.array(v) for k, v in arrays_of(obj).items()}
        before = snapshot(obj)
        WRITERS[kind]().run(d, obj)
        ctx.check(snapshot(obj) == before, "product-input", "writer changed what it wrote")
        same(ctx, READERS[kind]().run(d), (arrays, meta, hist), [kind], "product")
        for p in sorted(d.iterdir()):
            p.unlink()
        ctx.transitions += 2

    dtypes = ["complex64", "complex128"] if kind == "spec" else ["float32", "float64", "int16", "int32", "int64", ">f4", "<f8"]
    if kind == "ascii":
        dtypes = ["float32", "float64", "int32"]
    t0s = [T0, T0_ODD, attodatetime(1970, 1, 1, 0, 0, 0, 1), attodatetime(2099, 12, 31, 23, 59, 59, 999999, 999)]
    fss = [[128.0, 32.0, 8.0], [0.1, 0.05, 0.0125], [1 / 3, 1 / 6, 1 / 12]]

    def one(dtype, n_chans, shape, order, t0, fs):
        chans = ["Ex", "Hy", "Bz"][:n_chans]
        arrays = []
        for i, w in enumerate(shape):
            size = {"time": (n_chans, 4 + w), "ascii": (n_chans, 4 + w), "dec": (n_chans, 3 + w)}.get(kind, (w, n_chans, 3 + i))
            a = (np.arange(int(np.prod(size))).reshape(size) % 97 * 1.25 - 31 + i).astype(dtype)
            if dtype.startswith("complex"):
                a = a * (1 - 0.3j)
                a = a.astype(dtype)
            if order == "F":
                a = np.asfortranarray(a)
            elif order == "view":
                a = np.repeat(a, 2, axis=-1)[..., ::2]
            arrays.append(a)
        if kind in ("time", "ascii"):
            obj = time_data(fs[0], arrays[0], chans, t0)
            if order == "view":
                obj = T.TimeData(obj.metadata, arrays[0])
        elif kind == "dec":
            obj = dec_data(arrays, fs, chans, t0)
        elif kind == "win":
            obj = windowed_data(arrays, fs, chans, t0)
        else:
            obj = spectra_data(arrays, fs, [np.sqrt(np.arange(1.0, a.shape[2] + 1)) for a in arrays], chans, t0)
        check(obj)

    shapes = [(1,), (5,), (1, 2), (3, 1, 2)] if kind not in ("time", "ascii") else [(1,), (2,), (60,)]
    for dtype in dtypes:
        for n_chans in (1, 2, 3):
            for shape in shapes:
                for order in ("C", "F", "view"):
                    for t0 in t0s:
                        for fs in fss:
                            if order != "C" and (fs is not fss[0] or t0 is not T0):
                                continue
                            ctx.case({"job": job, "dtype": dtype, "chans": n_chans, "shape": shape, "order": order, "t0": t0.isoformat(), "fs": fs},
                                     one, dtype, n_chans, shape, order, t0, fs)

    # many levels: two figure level numbers, each level of its own size and values
    if kind not in ("time", "ascii"):
        for n_levels in range(4, 14):
            fs = [1024.0 / 2**i for i in range(n_levels)]
            for shape in ([n_levels + 3 - i for i in range(n_levels)], [2] * n_levels):
                ctx.case({"job": job, "levels": n_levels, "shape": shape}, one, dtypes[0], 2, shape, "C", T0, fs)
    elif kind == "time":
        for n in (1, 1023, 1024, 1025, 4099):
            ctx.case({"job": job, "samples": n}, one, "float32", 3, (n,), "C", T0, fss[0])

    def metadata(values, chan_values):
        obj = make("time" if kind == "ascii" else kind, 0)
        for k, v in values.items():
            setattr(obj.metadata, k, v)
        for k, v in chan_values.items():
            setattr(obj.metadata.chans_metadata["Hy"], k, v)
        check(obj)

    texts = ["", "a", "x,y", "é µ", "line\nbreak", '"quoted"', "000123", "null", "1e5", "None"]
    numbers = [0.0, -999.0, 1 / 3, 1e-300, 1e300, -0.0, 123456789.123456789]
    for t in texts:
        for k in ("system", "serial"):
            ctx.case({"job": job, "metadata": {k: t}}, metadata, {k: t}, {})
        for k in ("chan_source", "sensor", "serial"):
            ctx.case({"job": job, "chan metadata": {k: t}}, metadata, {}, {k: t})
    for x in numbers:
        for k in ("wgs84_latitude", "wgs84_longitude", "easting", "northing", "elevation"):
            ctx.case({"job": job, "metadata": {k: x}}, metadata, {k: x}, {})
        for k in ("gain1", "gain2", "scaling", "dipole_dist", "sensor_calibration_file", "instrument_calibration_file", "chopper"):
            value = {"sensor_calibration_file": "c.txt", "instrument_calibration_file": "i.txt", "chopper": x > 0}.get(k, x)
            ctx.case({"job": job, "chan metadata": {k: value}}, metadata, {}, {k: value})


def job_files(job, ctx):
    """Metadata files: project, calibration data, solutions"""
    d = ctx.scratch()

    def roundtrip(obj, cls, key):
        before = json.loads(obj.json())
        before.pop("file_info")
        obj.write(d / "file.json")
        again = cls.parse_file(d / "file.json")
        after = json.loads(again.json())
        info = after.pop("file_info")
        ctx.check(after == before, key, lambda: f"{[(k, before[k], after.get(k)) for k in before if before[k] != after.get(k)]}")
        ctx.check(info is not None, key + "-file-info", "no file information")
        again.write(d / "file.json")
        third = cls.parse_file(d / "file.json")
        ctx.check({k: v for k, v in json.loads(third.json()).items() if k != "file_info"} == before, key + "-twice", "")
        ctx.transitions += 2
        return again

    def project(kwargs):
        m = P.ProjectMetadata(**kwargs)
        a = roundtrip(m, P.ProjectMetadata, "project-file")
        ctx.check(a.ref_time == m.ref_time and a.contributors == m.contributors, "project-file", "")

    for ref in (T0, T0_ODD, "2021-01-01T12:30:00.123456789", attodatetime(1999, 12, 31, 23, 59, 59, 999999, 999)):
        for text in ("", "é \"x\"", "a,b\nc"):
            for people in ([], ["A"], ["B", "A", "é"]):
                ctx.case({"job": job, "project": [str(ref), text, people]}, project, dict(ref_time=ref, location=text, country=text, year=2021, description=text, contributors=people))

    def calibration(freqs, mags, phs, serial):
        c = C.CalibrationData(serial=serial, sensor="S", static_gain=1 / 3, frequency=freqs, magnitude=mags, phase=phs)
        a = roundtrip(c, C.CalibrationData, "calibration-file")
        ctx.check(a.frequency == freqs and a.magnitude == mags and a.phase == phs and a.n_samples == len(freqs), "calibration-file", "")
        ctx.check(str(a.serial) == str(serial), "calibration-file", f"serial {a.serial!r} of {serial!r}")

    for n in (0, 1, 2, 7):
        vals = [x / 7 for x in range(1, n + 1)]
        for mags in (vals, [1e-300 * x for x in vals], vals[::-1]):
            for serial in (1, "A1", 22):
                ctx.case({"job": job, "calibration": [n, serial]}, calibration, vals, mags, [-x for x in vals], serial)

    def solution(tf, n_freqs, contributors, history):
        rng = np.random.RandomState(n_freqs)
        comps = {}
        for o in tf.out_chans:
            for i in tf.in_chans:
                comps[f"{o}{i}"] = Component(real=rng.randn(n_freqs).tolist(), imag=(rng.randn(n_freqs) * 1e-12).tolist())
        s = R.Solution(tf=tf, freqs=[64 / 3**k for k in range(n_freqs)], components=comps, history=history, contributors=contributors)
        a = roundtrip(s, R.Solution, "solution-file")
        ctx.require(type(a.tf) is type(tf) and a.tf == tf and a.freqs == s.freqs, "solution-file", "transfer function or frequencies")
        for k in comps:
            ctx.check(np.array_equal(a[k], s[k]), "solution-file-component", k)
        for k in range(n_freqs):
            ctx.check(np.array_equal(a.get_tensor(k), s.get_tensor(k)), "solution-file-tensor", f"{k}")
        ctx.check({k: type(v) for k, v in a.contributors.items()} == {k: type(v) for k, v in contributors.items()}, "solution-file-contributors", "")

    from resistics.gather import SiteCombinedMetadata

    comb = SiteCombinedMetadata(site_name="s1", fs=64.0, chans=["Ex"], n_evals=2, eval_freqs=[1.0, 1 / 3], histories={"m1": make("spec", 0).metadata.history}, measurements=["m1"], **STATION)
    spec = make("spec", 0).metadata
    tfs = [ImpedanceTensor(), Tipper(), ImpedanceTensor(cross_chans=["Rx", "Ry"], variation="remote"),
           TransferFunction(out_chans=["a", "b", "c"], in_chans=["d"], variation="my one"),
           TransferFunction(name="Other", out_chans=["Ex"], in_chans=["Hx", "Hy", "Hz"], cross_chans=["Bx"])]
    for tf in tfs:
        if tf.name == "Other":
            continue  # a name without a class cannot be read back, see R18
        for n in (1, 2, 12):
            for contributors in ({}, {"data": spec}, {"out_data": comb, "in_data": comb, "cross_data": comb}):
                for history in (History(), make("dec", 0).metadata.history):
                    ctx.case({"job": job, "solution": [tf.name, n, sorted(contributors)]}, solution, tf, n, contributors, history)


def job_chans(job, ctx):
    """Channel names of the files of ascii data"""

    def one(chans):
        d = ctx.scratch() / "x"
        a = arr((len(chans), 6), "float32", 5)
        md = time_metadata(8.0, 6, ["Ex"])
        md = T.TimeMetadata(**{**md.dict(), "chans": chans, "n_chans": len(chans), "chans_metadata": {
            c: T.ChanMetadata(name=c, data_files=[], chan_type="electric", sensor=f"S{i}") for i, c in enumerate(chans)}})
        obj = T.TimeData(md, a)
        meta, hist = meta_dict(obj.metadata)
        T.TimeWriterAscii().run(d, obj)
        same(ctx, READERS["ascii"]().run(d), ({0: a}, meta, hist), ["ascii"], "ascii-case" if len({c.lower() for c in chans}) < len(chans) else "ascii-names")
        ctx.transitions += 2

    for r in (1, 2, 3):
        for chans in itertools.permutations(["Ex", "ex", "Hy", "H y", "E1"], r):
            ctx.case({"job": job, "chans": chans}, one, list(chans))
