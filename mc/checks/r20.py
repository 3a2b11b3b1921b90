"""R20 a loaded project describes exactly the data on disk"""
import itertools
import shutil
import warnings
from fractions import Fraction
from pathlib import Path

import numpy as np
import pandas as pd

from build import T0, T0_ODD, time_at, time_data
from proj import configuration, copy_tree, tree
from ref import secs_between

import resistics.letsgo as L
import resistics.project as P
import resistics.time as T
from resistics.errors import MeasurementNotFoundError, ProjectLoadError, SiteNotFoundError

ID = "R20"
LEVEL = "exploration"
RULE = (
    "every assignment of up to two (one for three sites) recordings on a grid of time intervals (all interval relations, "
    "touching to the attosecond) and sampling frequencies to two and three sites, some empty; every ordered pair of kinds "
    "of measurement folders (readable in three formats, eight kinds of unreadable) x every order of readers; every missing or "
    "replaced part of the project folder; the loaded project is compared with the layout query by query; non-trivial: distinct layouts"
)
ASSUMPTIONS = ["a folder counts as readable when reader.run(folder, metadata_only=True) of one of the configured readers succeeds"]
# start, number of samples at 1 Hz unless the sampling frequency is given. Ends at start + n - 1
SPANS = [(0, 3, 1.0), (2, 3, 1.0), (3, 2, 1.0), (0, 9, 1.0), (6, 3, 1.0), (4, 9, 2.0), (1, 5, 2.0), (0, 21, 10.0)]


def BOUNDS(tier):
    return {"spans": len(spans(tier)), "sites": 3, "measurements per site": 2}


def spans(tier):
    return SPANS[:6] if tier == "quick" else SPANS


def jobs(tier):
    n = len(site_options(tier, True))
    for i in range(n):
        yield {"kind": "pairs", "first": i}
    for i in range(len(site_options(tier, False))):
        yield {"kind": "triples", "first": i}
    for k in range(len(KINDS)):
        yield {"kind": "folders", "first": k}
    yield {"kind": "refusals"}
    yield {"kind": "attos"}
    yield {"kind": "empty"}


def run_job(job, ctx):
    warnings.simplefilter("ignore")
    globals()["job_" + job["kind"]](job, ctx)


def site_options(tier, pairs):
    """Measurements of one site, as tuples of span numbers"""
    n = len(spans(tier))
    out = [()] + [(i,) for i in range(n)]
    if pairs:
        out += [(i, j) for i in range(n) for j in range(i, n) if tier != "quick" or (i + j) % 2]
    return out


class Store(object):
    """Written measurements to copy from"""

    def __init__(self, ctx):
        self.base = ctx.scratch()
        self.metadata = {}

    def measurement(self, start, n, fs, t0=T0, extra=Fraction(0)):
        key = f"m_{start}_{n}_{fs}_{extra}".replace("/", "x")
        path = self.base / key
        if key not in self.metadata:
            td = time_data(fs, np.arange(2.0 * n).reshape(2, n), ["Ex", "Hy"], t0=time_at(t0, Fraction(start) + extra))
            T.TimeWriterNumpy().run(path, td)
            self.metadata[key] = td.metadata
        return path, self.metadata[key]


def new_project(root):
    for d in ("time", "calibrate", "spectra", "evals", "features", "masks", "results", "images"):
        (root / d).mkdir(parents=True)
    P.ProjectMetadata(ref_time="2020-12-31 12:00:00", location="place").write(root / "resistics.json")


def queries(ctx, proj, root, layout, readers):
    """layout: site -> {measurement: (metadata, reader number)}"""
    ctx.require(sorted(proj.sites) == sorted(layout) and proj.n_sites == len(layout), "sites", f"{sorted(proj.sites)} expected {sorted(layout)}")
    ctx.check(sorted(s.name for s in proj) == sorted(layout), "iteration", "")
    all_fs = sorted({m.fs for ms in layout.values() for m, _ in ms.values()})
    ctx.check(list(proj.fs()) == all_fs, "project-fs", f"{proj.fs()} expected {all_fs}")
    times = {}
    rows = []
    for name, ms in layout.items():
        site = proj[name]
        ctx.check(site is proj.get_site(name) and site.name == name and site.dir_path == root / "time" / name, "site", name)
        ctx.require(sorted(site.measurements) == sorted(ms) and site.n_meas == len(ms), "measurements", f"{name}: {sorted(site.measurements)} expected {sorted(ms)}")
        ctx.check(sorted(m.name for m in site) == sorted(ms), "iteration", "")
        ctx.check(list(site.fs()) == sorted({m.fs for m, _ in ms.values()}), "site-fs", f"{name}: {site.fs()}")
        for mname, (md, reader) in ms.items():
            meas = site[mname]
            ctx.check(meas is site.get_measurement(mname) and meas.name == mname and meas.site_name == name and meas.dir_path == root / "time" / name / mname,
                      "measurement", f"{name}/{mname}: {meas.site_name} {meas.dir_path}")
            got = meas.metadata
            ctx.check(got.fs == md.fs and got.n_samples == md.n_samples and got.chans == md.chans and got.first_time == md.first_time and got.last_time == md.last_time,
                      "measurement-metadata", f"{name}/{mname}: {got.fs} {got.n_samples} {got.first_time.isoformat()}")
            ctx.check(type(meas.reader) is type(readers[reader]) and meas.reader == readers[reader], "measurement-reader", f"{name}/{mname}: {meas.reader!r} expected {readers[reader]!r}")
            rows.append((name, mname, md))
        for fs in all_fs + [0.3, 1.0000001, None]:
            want = sorted(m for m, (md, _) in ms.items() if fs is None or md.fs == fs)
            got = site.get_measurements(fs) if fs is not None else site.get_measurements()
            ctx.check(sorted(got) == want and all(got[m] is site[m] for m in want), "get_measurements", f"{name} fs {fs}: {sorted(got)} expected {want}")
        ctx.refuses(lambda: site["none such"], "unknown-measurement", "unknown measurement returned", exc=MeasurementNotFoundError)
        if ms:
            times[name] = (min(m.first_time for m, _ in ms.values()), max(m.last_time for m, _ in ms.values()))
            ctx.check(site.begin_time == times[name][0] and site.end_time == times[name][1], "site-times", f"{name}: {site.begin_time.isoformat()} to {site.end_time.isoformat()}")
        check_frame(ctx, site.to_dataframe(), [(name, m, md) for m, (md, _) in ms.items()])
    if times:
        b, e = min(t[0] for t in times.values()), max(t[1] for t in times.values())
        ctx.check(proj.begin_time == b and proj.end_time == e, "project-times", f"{proj.begin_time.isoformat()} to {proj.end_time.isoformat()} expected {b.isoformat()} to {e.isoformat()}")
    for fs in all_fs + [0.3, None]:
        want = sorted(s for s, ms in layout.items() if fs is None or any(md.fs == fs for md, _ in ms.values()))
        got = proj.get_sites(fs) if fs is not None else proj.get_sites()
        ctx.check(sorted(got) == want and all(got[s] is proj[s] for s in want), "get_sites", f"fs {fs}: {sorted(got)} expected {want}")
    for name in layout:
        want = sorted(o for o in times if name in times and o != name and not (times[o][1] < times[name][0] or times[o][0] > times[name][1]))
        got = proj.get_concurrent(name)
        ctx.check(sorted(s.name for s in got) == want, "get_concurrent", f"{name}: {sorted(s.name for s in got)} expected {want}")
    ctx.refuses(lambda: proj["none such"], "unknown-site", "unknown site returned", exc=SiteNotFoundError)
    ctx.refuses(lambda: proj.get_concurrent("none such"), "unknown-site", "unknown site has concurrent sites")
    check_frame(ctx, proj.to_dataframe(), rows)
    ctx.outcome(tuple(sorted((len(ms), len(proj.get_concurrent(n))) for n, ms in layout.items())))


def check_frame(ctx, df, rows):
    ctx.require(len(df) == len(rows), "dataframe-rows", f"{len(df)} expected {len(rows)}")
    got = sorted(zip(df["site"], df["name"], df["fs"], df["first_time"], df["last_time"]))
    for g, (site, name, md) in zip(got, sorted(rows, key=lambda r: r[:2])):
        ctx.check(g[0] == site and g[1] == name and g[2] == md.fs, "dataframe", f"{g} expected {site} {name} {md.fs}")
        for t, want in ((g[3], md.first_time), (g[4], md.last_time)):
            off = Fraction(int(pd.Timestamp(t).value) - pd.Timestamp("2021-01-01").value, 10**9) - secs_between(want, T0)
            ctx.check(abs(off) <= Fraction(1, 10**9), "dataframe-times", f"{site}/{name}: {t} expected {want.isoformat()}")


def check_plot(ctx, fig, rows, y):
    """Bars of the timeline"""
    got = []
    for trace in fig.data:
        base, x, ys = np.atleast_1d(trace.base), np.atleast_1d(trace.x), np.atleast_1d(trace.y)
        for b, w, name in zip(base, x, ys):
            got.append((str(name), pd.Timestamp(b).value, float(w)))
    want = []
    for site, name, md in rows:
        want.append((site if y == "site" else name, int(round(float(secs_between(md.first_time, T0)) * 1e9)) + pd.Timestamp("2021-01-01").value,
                     float(secs_between(md.last_time, md.first_time)) * 1000))
    ctx.require(len(got) == len(want), "timeline", f"{len(got)} bars expected {len(want)}")
    for g, w in zip(sorted(got), sorted(want)):
        ctx.check(g[0] == w[0] and abs(g[1] - w[1]) <= 1000 and abs(g[2] - w[2]) <= 1.0, "timeline", f"{g} expected {w}")


READERS = [T.TimeReaderAscii(extension=".ascii"), T.TimeReaderNumpy()]


def layouts_case(ctx, store, assignment, plot=False):
    base = ctx.scratch()
    root = base / "proj"
    new_project(root)
    layout = {}
    rows = []
    for name, items in assignment:
        (root / "time" / name).mkdir()
        layout[name] = {}
        for k, (start, n, fs, extra) in enumerate(items):
            path, md = store.measurement(start, n, fs, extra=extra)
            mname = "meas%d" % (len(items) - k)
            copy_tree(path, root / "time" / name / mname)
            layout[name][mname] = (md, 1)
            rows.append((name, mname, md))
    before = tree(root)
    conf = configuration(time_readers=READERS)
    env = L.load(root, conf)
    queries(ctx, env.proj, root, layout, READERS)
    ctx.check(env.config is conf or env.config == conf, "environment", "")
    if plot:
        check_plot(ctx, env.proj.plot(), rows, "site") if rows else ctx.refuses(env.proj.plot, "timeline-empty", "")
        for s in layout:
            mine = [r for r in rows if r[0] == s]
            check_plot(ctx, env.proj[s].plot(), mine, "name") if mine else ctx.refuses(env.proj[s].plot, "timeline-empty", "")
    ctx.check(tree(root) == before, "load-wrote", "loading changed the project")
    ctx.drop(base)


def items_of(tier, option):
    return [spans(tier)[i] + (Fraction(0),) for i in option]


def job_pairs(job, ctx):
    store = Store(ctx)
    options = site_options(ctx.tier, True)
    first = options[job["first"]]
    n = 0
    for second in options:
        n += 1
        assignment = [("siteA", items_of(ctx.tier, first)), ("siteB", items_of(ctx.tier, second))]
        ctx.case({"job": job, "first": first, "second": second}, layouts_case, ctx, store, assignment, n % 9 == 0)


def job_triples(job, ctx):
    store = Store(ctx)
    options = site_options(ctx.tier, False)
    first = options[job["first"]]
    for second in options:
        for third in options:
            assignment = [("c", items_of(ctx.tier, first)), ("b", items_of(ctx.tier, second)), ("a", items_of(ctx.tier, third))]
            ctx.case({"job": job, "first": first, "second": second, "third": third}, layouts_case, ctx, store, assignment, False)


def job_attos(job, ctx):
    """Ends and begins that differ by less than any double can tell"""
    store = Store(ctx)
    for a in (-1, 0, 1, 250):
        for b in (-1, 0, 3):
            extra = Fraction(a, 10**18), Fraction(b, 10**15)
            for swap in (False, True):
                assignment = [("one", [(0, 5, 1.0, Fraction(0))]), ("two", [(4, 3, 1.0, extra[0] + extra[1])]), ("three", [(6, 2, 1.0, extra[1])])]
                ctx.case({"job": job, "attos": a, "femtos": b, "swap": swap}, layouts_case, ctx, store, assignment[::-1] if swap else assignment, False)


# -- kinds of folders
def make_folder(path, kind):
    td = time_data(8.0, np.arange(24.0).reshape(2, 12), ["Ex", "Hy"])
    if kind == "npy":
        T.TimeWriterNumpy().run(path, td)
    elif kind == "ascii":
        T.TimeWriterAscii().run(path, td)
    elif kind == "txt":
        T.TimeWriterAscii().run(path, td)
        for f in sorted(path.glob("*.ascii")):
            f.rename(f.with_suffix(".txt"))
        m = path / "metadata.json"
        m.write_text(m.read_text().replace(".ascii", ".txt"))
    elif kind == "empty":
        path.mkdir(parents=True)
    elif kind == "file":
        path.parent.mkdir(parents=True, exist_ok=True)
        path.write_text("not a folder")
    elif kind == "nested":
        T.TimeWriterNumpy().run(path / "deeper", td)
    else:
        T.TimeWriterNumpy().run(path, td)
        meta, data = path / "metadata.json", path / "data.npy"
        data = sorted(path.glob("*.npy"))[0]
        if kind == "no-metadata":
            meta.unlink()
        elif kind == "cut-metadata":
            meta.write_text(meta.read_text()[: len(meta.read_text()) // 2])
        elif kind == "other-json":
            meta.write_text('["something", "else"]')
        elif kind == "no-data":
            data.unlink()
        elif kind == "wrong-extension":
            data.rename(path / "data.bin")
            meta.write_text(meta.read_text().replace(data.name, "data.bin"))
        elif kind == "metadata-folder":
            meta.unlink()
            meta.mkdir()
    return td.metadata


KINDS = ["npy", "ascii", "txt", "empty", "file", "nested", "no-metadata", "cut-metadata", "other-json", "no-data", "wrong-extension", "metadata-folder"]


class OddReader(T.TimeReaderJSON):
    """A reader of a user that fails in its own way"""

    def run(self, dir_path, metadata_only=False, metadata=None, from_time=None, to_time=None, from_sample=None, to_sample=None):
        raise ZeroDivisionError("this reader never works")


ALL_READERS = [T.TimeReaderNumpy(), T.TimeReaderAscii(extension=".ascii"), T.TimeReaderNumpy(apply_scalings=False), T.TimeReaderAscii(), OddReader()]
READS = {"npy": (0, 2), "ascii": (1,), "txt": (3,)}


def job_folders(job, ctx):
    first = KINDS[job["first"]]

    def one(kinds, order):
        base = ctx.scratch()
        root = base / "proj"
        new_project(root)
        readers = [ALL_READERS[i] for i in order]
        layout = {"s": {}, "t": {}}
        for k, kind in enumerate(kinds):
            md = make_folder(root / "time" / "s" / ("m%d" % k), kind)
            able = [n for n, i in enumerate(order) if i in READS.get(kind, ())]
            if able:
                layout["s"]["m%d" % k] = (md, able[0])
        (root / "time" / "s").mkdir(exist_ok=True)
        # another site and things that are no sites
        md = make_folder(root / "time" / "t" / "m0", "npy")
        able = [n for n, i in enumerate(order) if i in READS["npy"]]
        if able:
            layout["t"]["m0"] = (md, able[0])
        (root / "time" / "file.txt").write_text("x")
        make_folder(root / "spectra" / "u" / "m0", "npy")
        before = tree(root)
        env = L.load(str(root), configuration(time_readers=readers))
        queries(ctx, env.proj, root, layout, readers)
        again = L.reload(env)
        queries(ctx, again.proj, root, layout, readers)
        ctx.check(tree(root) == before, "load-wrote", "")
        # reload sees what changed
        shutil.rmtree(str(root / "time" / "t"))
        layout.pop("t")
        md = make_folder(root / "time" / "v" / "new", "npy")
        layout["v"] = {"new": (md, able[0])} if able else {}
        queries(ctx, L.reload(again).proj, root, layout, readers)
        ctx.drop(base)

    orders = [(0, 1), (1, 0), (3, 0), (0, 2), (2, 0), (1, 3, 0), (4, 2), (1, 4, 0, 2), (4,)]
    for k, second in enumerate(KINDS):
        for j, order in enumerate(orders):
            if ctx.tier == "quick" and (j + k) % 3:
                continue
            ctx.case({"job": job, "kinds": [first, second], "readers": order}, one, [first, second], order)
    for third in KINDS if ctx.tier != "quick" else KINDS[::3]:
        for second in KINDS:
            ctx.case({"job": job, "kinds": [first, second, third], "readers": (1, 0, 3)}, one, [first, second, third], (1, 0, 3))


def job_refusals(job, ctx):
    def broken(what, sub):
        base = ctx.scratch()
        root = base / "proj"
        new_project(root)
        make_folder(root / "time" / "t" / "m0", "npy")
        if what == "no-subfolder":
            shutil.rmtree(str(root / sub))
        elif what == "file-subfolder":
            shutil.rmtree(str(root / sub))
            (root / sub).write_text("x")
        elif what == "no-file":
            (root / "resistics.json").unlink()
        elif what == "empty-file":
            (root / "resistics.json").write_text("")
        elif what == "cut-file":
            text = (root / "resistics.json").read_text()
            (root / "resistics.json").write_text(text[: int(len(text) * sub)])
        elif what == "no-folder":
            shutil.rmtree(str(root))
        elif what == "file":
            shutil.rmtree(str(root))
            root.write_text("x")
        before = tree(base)
        exc = ProjectLoadError if what == "no-file" else Exception
        ctx.refuses(lambda: L.load(root), "load-refused", f"{what} {sub}: loaded", exc=exc)
        ctx.refuses(lambda: L.load(str(root)), "load-refused", f"{what} {sub}: loaded", exc=exc)
        ctx.check(tree(base) == before, "load-wrote", f"{what} {sub}")
        ctx.drop(base)

    for sub in ("time", "calibrate", "spectra", "evals", "features", "masks", "results", "images"):
        for what in ("no-subfolder", "file-subfolder"):
            ctx.case({"job": job, "what": what, "sub": sub}, broken, what, sub)
    for what in ("no-file", "empty-file", "no-folder", "file"):
        ctx.case({"job": job, "what": what}, broken, what, None)
    for part in (0.1, 0.5, 0.9, 0.99):
        ctx.case({"job": job, "what": "cut-file", "part": part}, broken, "cut-file", part)


def job_empty(job, ctx):
    def one(n_sites):
        base = ctx.scratch()
        root = base / "proj"
        new_project(root)
        for k in range(n_sites):
            (root / "time" / ("s%d" % k)).mkdir()
        env = L.load(root)
        queries(ctx, env.proj, root, {"s%d" % k: {} for k in range(n_sites)}, READERS)
        ctx.check(env.proj.metadata.location == "place" and env.proj.metadata.ref_time.isoformat()[:19] == "2020-12-31T12:00:00", "project-metadata", "")
        ctx.drop(base)

    for n in (0, 1, 2):
        ctx.case({"job": job, "sites": n}, one, n)

    store = Store(ctx)

    def around_now(n_empty, pattern):
        """Recordings over decades: before, around and after the time of loading, beside sites without any"""
        base = ctx.scratch()
        root = base / "proj"
        new_project(root)
        layout = {}
        for k in range(n_empty):
            (root / "time" / ("e%d" % k)).mkdir()
            layout["e%d" % k] = {}
        for k, spans in enumerate(pattern):
            name = ("a%d" if k else "s%d") % k
            layout[name] = {}
            for j, span in enumerate(spans):
                path, md = store.measurement(*span)
                (root / "time" / name).mkdir(exist_ok=True)
                copy_tree(path, root / "time" / name / ("m%d" % j))
                layout[name]["m%d" % j] = (md, 1)
        queries(ctx, L.load(root, configuration("c", time_readers=READERS)).proj, root, layout, READERS)
        ctx.drop(base)

    ages = ((-1_500_000_000, 400, 1e-7), (-1_500_000_000, 100, 1e-7), (1_000_000_000, 100, 1e-7))
    for n in (1, 2):
        for size in (1, 2):
            for pattern in itertools.product([(a,) for a in ages] + [(ages[1], ages[2])], repeat=size):
                ctx.case({"job": job, "empty": n, "sites": [list(p) for p in pattern]}, around_now, n, pattern)
