"""R05 steps leave their inputs untouched and log exactly one record"""
import json

import numpy as np

from build import T0_ODD, time_data, snapshot

import resistics.calibrate as C
import resistics.decimate as D
import resistics.spectra as S
import resistics.time as T
import resistics.window as W
from resistics.common import get_history, get_record, History

ID = "R05"
LEVEL = "model_checking"
TECHNIQUE = (
    "explicit-state search over all sequences of (live object, step) choices up to the depth bound on "
    "the real objects; every live object is compared with its snapshot after every transition"
)
RULE = (
    "starting from the objects of a pipeline prefix, every sequence of 'apply step X to live object i' up "
    "to the depth bound; after each transition: all other objects unchanged, the output carries the input "
    "history plus one record naming the step and its parameters, applying it again gives the same output, "
    "and changing that second output's metadata (and values for time processes) changes no live object. "
    "States: multiset of live object kinds and contents"
)
ASSUMPTIONS = [
    "record creation times are not compared",
    "decimated and windowed data may be views of their input's array by design, so their values are not overwritten",
]
PREFIXES = [0, 1, 2, 3, 4]


def BOUNDS(tier):
    return {"depth": depth(tier), "prefixes": "time, +decimated, +windowed, +spectra, +evaluated", "steps": 28}


def depth(tier):
    return 2 if tier == "quick" else 3


DEC = D.DecimationSetup(n_levels=2, per_level=2, min_samples=64)
WIN = W.WindowSetup(min_size=16, min_olap=4, min_n_wins=3)


def steps(calib, out):
    """kind -> {name: (step, fn(step, obj), returns data)}"""
    def tm(p):
        return p, lambda o: p.run(o)

    time_steps = {
        "sub": tm(T.Subsection(from_time="2020-03-01T00:00:05", to_time="2020-03-01T00:00:35")),
        "interp": tm(T.InterpolateNans()), "mean": tm(T.RemoveMean()),
        "add": tm(T.Add(add={"Ex": 3.0})), "mult": tm(T.Multiply(multiplier=2.0)),
        "low": tm(T.LowPass(cutoff=1.0, order=3)), "high": tm(T.HighPass(cutoff=0.5, order=3)),
        "band": tm(T.BandPass(cutoff_low=0.5, cutoff_high=1.5, order=2)),
        "notch": tm(T.Notch(notch=1.0, band=0.4, order=2)),
        "resample": tm(T.Resample(new_fs=5.0)), "decimate": tm(T.Decimate(factor=2)),
        "shift": tm(T.ShiftTimestamps(shift=0.03)),
        "apply": tm(T.ApplyFunction(fncs={"Ex": lambda x: x * 2 + 1})),
    }

    def dec(p):
        return p, lambda o: p.run(DEC.run(o.metadata.fs), o)

    def win(p):
        def fn(o):
            params = WIN.run(o.metadata.n_levels, o.metadata.fs)
            return p.run(T0_ODD, params, o)
        return p, fn

    def ev(p):
        def fn(o):
            return p.run(DEC.run(o.metadata.fs[0]), o)
        return p, fn

    cal = C.SensorCalibrator(readers=[C.SensorCalibrationJSON()])

    def write(p, name):
        return p, lambda o: p.run(out / name, o)

    return {
        "TimeData": {
            **time_steps, "decimator": dec(D.Decimator()), "decimator-fir": dec(D.Decimator(resample=False)),
            "write-time": write(T.TimeWriterNumpy(), "time"), "write-ascii": write(T.TimeWriterAscii(), "ascii"),
        },
        "DecimatedData": {
            "windower": win(W.Windower()), "windower-target": win(W.WindowerTarget(min_size=20, target=4)),
            "write-dec": write(D.DecimatedDataWriter(), "dec"),
        },
        "WindowedData": {
            "fft": (lambda p: (p, lambda o: p.run(o)))(S.FourierTransform(workers=1)),
            "fft-raw": (lambda p: (p, lambda o: p.run(o)))(
                S.FourierTransform(win_fnc="hann", detrend=None, workers=1)),
            "write-win": write(W.WindowedDataWriter(), "win"),
        },
        "SpectraData": {
            "evals": ev(S.EvaluationFreqs()),
            "uniform": (lambda p: (p, lambda o: p.run(o)))(S.SpectraSmootherUniform(length_proportion=0.4)),
            "gaussian": (lambda p: (p, lambda o: p.run(o)))(S.SpectraSmootherGaussian(sigma=1)),
            "calibrate": (cal, lambda o: cal.run(calib, o)),
            "write-spec": write(S.SpectraDataWriter(), "spec"),
        },
    }


READERS = {
    "write-time": lambda d: T.TimeReaderNumpy().run(d / "time"),
    "write-dec": lambda d: D.DecimatedDataReader().run(d / "dec"),
    "write-win": lambda d: W.WindowedDataReader().run(d / "win"),
    "write-spec": lambda d: S.SpectraDataReader().run(d / "spec"),
}
TIME_OPS = ["sub", "interp", "mean", "add", "mult", "low", "high", "band", "notch", "resample", "decimate",
            "shift", "apply"]


def root():
    n = 400
    k = np.arange(n)
    data = np.array([np.sin(k * 0.3), np.cos(k * 0.11) * 5 + 1, (k % 11) * 0.5]).astype("float64")
    return time_data(10.0, data, ["Ex", "Hy", "Hx"], T0_ODD)


def build_prefix(length, table):
    objs = [root()]
    for name in ["decimator", "windower", "fft", "evals"][:length]:
        kind = type(objs[-1]).__name__
        objs.append(table[kind][name][1](objs[-1]))
    return objs


def jobs(tier):
    yield {"kind": "dictionaries"}
    table = steps(None, type("P", (), {"__truediv__": lambda s, o: o})())
    for p in PREFIXES:
        kinds = ["TimeData", "DecimatedData", "WindowedData", "SpectraData", "SpectraData"][: p + 1]
        for i, kind in enumerate(kinds):
            if i < p and tier == "quick" and p > 1 and i == 0:
                continue  # steps on the time data come second here; first in the shorter prefixes
            for name in table[kind]:
                yield {"prefix": p, "obj": i, "step": name}


def plain(meta):
    """Metadata without creation times"""
    d = json.loads(meta.json())
    for r in d["history"]["records"]:
        r.pop("time_local")
        r.pop("time_utc")
    d.pop("file_info", None)
    return d


def records(meta):
    return [r.json() for r in meta.history.records]


def bare(r):
    d = json.loads(r)
    d.pop("time_local"), d.pop("time_utc")
    return d


def same_data(a, b):
    if isinstance(a.data, dict):
        return sorted(a.data) == sorted(b.data) and all(
            a.data[k].shape == b.data[k].shape and a.data[k].dtype == b.data[k].dtype
            and np.array_equal(a.data[k], b.data[k], equal_nan=True) for k in a.data
        )
    return a.data.dtype == b.data.dtype and np.array_equal(a.data, b.data, equal_nan=True)


def vandalise(out, own_values):
    """Change everything changeable in an output's metadata"""
    m = out.metadata
    m.history.add_record(get_record({"name": "vandal"}, "x"))
    for r in m.history.records:
        r.messages.append("vandal")
        r.creator["vandal"] = 1
    m.serial = "vandal"
    m.wgs84_latitude = 99.0
    m.chans.append("Hz")
    for c in m.chans_metadata.values():
        c.gain1 = 99.0
        c.sensor = "vandal"
        c.data_files.append("vandal")
    for lm in getattr(m, "levels_metadata", []):
        lm.fs = 0.001
        if hasattr(lm, "freqs"):
            lm.freqs.append(1e6)
    if isinstance(m.fs, list):
        m.fs.append(1e6)
    else:
        m.fs = 1e6
    if own_values:
        out.data[...] = 77


def dictionaries(ctx):
    """Construction from dictionaries, copies and new_time_data"""
    import copy

    def meta(order):
        chans = {c: {"name": c, "data_files": [f"{c}.npy"], "gain1": 2.0, "sensor": "S"} for c in ["Ex", "Hy"]}
        td = {"fs": 4.0, "chans": ["Ex", "Hy"][::order], "n_samples": 5, "n_chans": 2,
              "first_time": "2020-01-01T00:00:00", "last_time": "2020-01-01T00:00:01", "serial": "a"}
        keep = copy.deepcopy((td, chans))
        m1 = T.get_time_metadata(td, chans)
        ctx.check((td, chans) == keep, "get_time_metadata-changed-input", f"{td} {chans}")
        m2 = T.get_time_metadata(td, chans)
        ctx.check(m1.json() == m2.json(), "get_time_metadata-not-repeatable", "")
        j = m2.json()
        m1.chans.append("Hz")
        m1.chans_metadata["Ex"].gain1 = 5
        m1.chans_metadata["Ex"].data_files.append("x")
        m1.history.add_record(get_record({"name": "x"}, "x"))
        ctx.check((td, chans) == keep and m2.json() == j, "get_time_metadata-shares-state", "")
        m3 = T.get_time_metadata(td, chans)
        ctx.check(m3.json() == j, "get_time_metadata-shares-state", "later metadata affected")

    for order in (1, -1):
        ctx.case({"dictionaries": order}, meta, order)

    def copying(kind):
        td = T.RemoveMean().run(root())
        snap = snapshot(td)
        if kind == "copy":
            other = td.copy()
        elif kind == "new":
            other = T.new_time_data(td, record=get_record({"name": "x"}, "x"))
        elif kind == "new-data":
            other = T.new_time_data(td, data=td.data * 2)
        else:
            other = T.new_time_data(td, metadata=td.metadata.copy(deep=True), data=np.array(td.data))
        ctx.check(snapshot(td) == snap, f"{kind}-changed-input", "")
        vandalise(other, kind != "new")
        ctx.check(snapshot(td) == snap, f"{kind}-shares-state", "changing a copy changed the original")

    for kind in ("copy", "new", "new-data", "new-meta"):
        ctx.case({"copying": kind}, copying, kind)

    def lists():
        """parameters passed as lists and dictionaries stay the caller's"""
        freqs, sizes, add = [2.0, 1.0], [32, 16], {"Ex": 1.0}
        params = D.DecimationSetup(n_levels=2, per_level=1, eval_freqs=freqs).run(8.0)
        params.eval_freqs.append(3.0)
        w = W.WindowSetup(win_sizes=sizes, olap_sizes=[4, 4])
        p1 = w.run(2, [8.0, 4.0])
        p1.win_sizes.append(4)
        p1.olap_sizes.append(4)
        p2 = w.run(1, [8.0])
        T.Add(add=add).run(root())
        ctx.check(freqs == [2.0, 1.0] and sizes == [32, 16] and add == {"Ex": 1.0}, "parameters-changed",
                  f"{freqs} {sizes} {add}")
        p3 = w.run(2, [8.0, 4.0])
        ctx.check(p3.win_sizes == [32, 16] and p3.olap_sizes == [4, 4] and p2.win_sizes == [32],
                  "parameters-shared", f"{p3} {p2}")

    ctx.case({"lists": 1}, lists)

    def histories(n, how):
        """a history grown from another one leaves it alone"""
        first = History(records=[get_record({"name": f"p{i}"}, [f"m{i}", "more"]) for i in range(n)])
        rec = get_record({"name": "next", "value": [1, 2]}, "done")
        keep = first.json()
        grown = get_history(rec, first) if how == "get" else History(**first.dict())
        if how != "get":
            grown.add_record(rec)
        ctx.check(first.json() == keep, f"history-{how}-changed-input", f"{n} records")
        ctx.check([x.json() for x in grown.records] == [x.json() for x in first.records] + [rec.json()],
                  f"history-{how}", f"{n} records")
        other = get_history(rec, first)
        was = other.json()
        grown.add_record(get_record({"name": "vandal"}, "x"))
        for r in grown.records[:n]:
            r.messages.append("vandal")
        ctx.check(first.json() == keep and other.json() == was, f"history-{how}-shares-state", f"{n} records")
        alone = get_history(rec)
        ctx.check([x.json() for x in alone.records] == [rec.json()], "history-alone", "")

    for n in range(4):
        for how in ("get", "dict"):
            ctx.case({"history": n, "how": how}, histories, n, how)


def run_job(job, ctx):
    if job.get("kind") == "dictionaries":
        return dictionaries(ctx)
    base = ctx.scratch()
    calib = base / "calib"
    calib.mkdir()
    for i in range(2):
        (calib / f"IC_MFS{i:02d}.json").write_text(json.dumps(dict(
            serial=100 + i, sensor=f"MFS{i:02d}", static_gain=1, magnitude_unit="mV/nT",
            frequency=[0.001, 1, 100], magnitude=[1.0, 2.0 + i, 4.0], phase=[0.1, 0.2, 0.3],
        )))
    table = steps(calib, base / "out")
    prefix = build_prefix(job["prefix"], table)
    live = [(o, snapshot(o)) for o in prefix]
    top = depth(ctx.tier)

    def unchanged(live, key, what):
        for i, (o, s) in enumerate(live):
            if snapshot(o) != s:
                ctx.fail(key, f"object {i} ({type(o).__name__}) was changed by {what}")
                # restore is impossible: stop this job
                raise RuntimeError(f"{what} changed object {i}")

    def step(live, i, name, path):
        obj = live[i][0]
        kind = type(obj).__name__
        proc, fn = table[kind][name]
        before = records(obj.metadata)
        params = proc.parameters()
        out = fn(obj)
        ctx.transitions += 1
        unchanged(live, f"{name}-changed-input", f"{name} ({path})")
        ctx.check(proc.parameters() == params, f"{name}-changed-itself", "the process changed its parameters")
        if out is None:
            out = READERS[name](base / "out") if name in READERS else None
            if out is None:
                return None
            ctx.check(same_data(out, obj), f"{name}-values", "written data differ")
            after = records(out.metadata)
            ctx.check([bare(x) for x in after[: len(before)]] == [bare(x) for x in before],
                      f"{name}-history", "history not kept in file")
            ctx.check(len(after) == len(before) + 2, f"{name}-history-length",
                      f"{len(before)} records became {len(after)}, expected one for writing and one for reading")
            ctx.check(bare(after[len(before)])["creator"] == params, f"{name}-record", "writer not named")
            again = READERS[name](base / "out")
            ctx.check(same_data(again, out) and plain(again.metadata) == plain(out.metadata),
                      f"{name}-reread", "reading twice differs")
            vandalise(again, True)
            unchanged(live, f"{name}-shares-state", f"changing data read back after {name}")
            return None
        after = records(out.metadata)
        ctx.check(after[: len(before)] == before, f"{name}-history", "input history not kept in order")
        ctx.check(len(after) == len(before) + 1, f"{name}-history-length",
                  f"{len(before)} records became {len(after)}")
        rec = bare(after[-1])
        ctx.check(rec["creator"] == params and rec["creator"]["name"] == proc.name,
                  f"{name}-record", f"record creator {rec['creator']} is not {params}")
        ctx.check(len(rec["messages"]) > 0 and rec["record_type"] == "process", f"{name}-record-form", str(rec))
        snap = snapshot(out)
        again = fn(obj)
        ctx.check(same_data(again, out) and plain(again.metadata) == plain(out.metadata),
                  f"{name}-not-repeatable", "second run on the same input differs")
        vandalise(again, name in TIME_OPS)
        unchanged(live + [(out, snap)], f"{name}-shares-state", f"changing another output of {name}")
        ctx.traces += 1
        return out, snap

    def walk(live, path):
        ctx.state(tuple(sorted(s for o, s in [(o, strip(s)) for o, s in live])))
        if len(path) == top:
            return
        choices = [(job["obj"], job["step"])] if not path else [
            (i, n) for i, (o, _) in enumerate(live) for n in table[type(o).__name__]
        ]
        for i, name in choices:
            res = ctx.case({"prefix": job["prefix"], "path": path + [[i, name]]}, step, live, i, name, path)
            new = live if res is None else live + [res]
            walk(new, path + [[i, name]])

    walk(live, [])


def strip(snap):
    d = json.loads(snap[0])
    for r in d["history"]["records"]:
        r.pop("time_local"), r.pop("time_utc")
    return repr((d, snap[1]))[:100000]
