"""R13 calibration removes exactly the sensor response of the matching channels"""
import itertools
import json

import numpy as np

from build import snapshot, spectra_data, station_of

import resistics.calibrate as C

ID = "R13"
LEVEL = "exploration"
RULE = (
    "every combination of calibration file state (missing, JSON, TXT, both, malformed with and without fallback) for "
    "every channel x reader order x selected channels; every row permutation of small tables x format (JSON, TXT "
    "radians, TXT degrees) x spectra layout (levels, windows, channels, frequencies down to one of each) x data type; "
    "every file name pattern x sensors shared or not; compared with division by the interpolated response; "
    "non-trivial: distinct (file states, readers, selection) and (table, layout) cases"
)
ASSUMPTIONS = [
    "a file whose columns differ in length may be refused or ignored, both leave the other channels as they were",
    "static gain is part of the magnitude, as documented",
]
CHANS = ["Hx", "Hy", "Ex"]


def BOUNDS(tier):
    return {"channels": "1..3", "levels": "1..2", "windows": "1..4", "frequencies": "1..5", "table rows": "1..4" if tier == "quick" else "1..5"}


def jobs(tier):
    for a in STATES:
        for b in STATES:
            yield {"kind": "files", "first": a, "second": b}
    for fmt in ("json", "txt", "deg"):
        for rows in (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5):
            yield {"kind": "table", "format": fmt, "rows": rows}
    yield {"kind": "names"}
    yield {"kind": "reader"}


def run_job(job, ctx):
    globals()["job_" + job["kind"]](job, ctx)


def write_json(path, table, sensor="s", serial="1", **kwargs):
    path.write_text(json.dumps({
        "sensor": sensor, "serial": serial, "frequency": [r[0] for r in table],
        "magnitude": [r[1] for r in table], "phase": [r[2] for r in table], **kwargs}))


def write_txt(path, table, degrees=False, sensor="s", serial="1", gain=3.0):
    lines = [f"Serial = {serial}", f"Sensor = {sensor}", f"Static gain = {gain}", "Magnitude unit = mV/nT",
             f"Phase unit = {'degrees' if degrees else 'radians'}", "Chopper = False", "", "CALIBRATION DATA"]
    for f, m, p in table:
        lines.append(f"{f!r} {m!r} {(p * 180 / np.pi if degrees else p)!r}")
    path.write_text("\n".join(lines) + "\n")


def response(table, freqs):
    table = sorted(table)
    out = []
    for f in freqs:
        if f <= table[0][0]:
            m, p = table[0][1:]
        elif f >= table[-1][0]:
            m, p = table[-1][1:]
        else:
            i = max(k for k in range(len(table)) if table[k][0] <= f)
            w = (f - table[i][0]) / (table[i + 1][0] - table[i][0])
            m, p = (table[i][k] * (1 - w) + table[i + 1][k] * w for k in (1, 2))
        out.append(m * np.exp(1j * p))
    return np.array(out)


def spectra(n_chans, shape, n_freqs, dtype, sensors=None, serials=None):
    arrays, freqs, fs = [], [], []
    for i, w in enumerate(shape):
        rng = np.random.RandomState(31 * i + w + n_freqs)
        arrays.append((rng.randn(w, n_chans, n_freqs) + 1j * rng.randn(w, n_chans, n_freqs) + 5 * (1 + np.arange(n_chans))[None, :, None]).astype(dtype))
        fs.append(64.0 / 2**i)
        freqs.append([fs[-1] / 4 / np.sqrt(2) ** k for k in range(n_freqs)])
    sd = spectra_data(arrays, fs, freqs, CHANS[:n_chans])
    for i, c in enumerate(CHANS[:n_chans]):
        if sensors is not None:
            sd.metadata.chans_metadata[c].sensor = sensors[i]
        if serials is not None:
            sd.metadata.chans_metadata[c].serial = serials[i]
    return sd


def judge(ctx, before, sd, out, tables, key):
    """tables: channel -> table used, None for unchanged"""
    for lvl in range(sd.metadata.n_levels):
        got, raw = out.get_level(lvl), sd.get_level(lvl)
        ctx.require(got.shape == raw.shape and got.dtype == raw.dtype, key + "-shape", f"{got.shape} {got.dtype}")
        freqs = sd.metadata.levels_metadata[lvl].freqs
        for i, chan in enumerate(sd.metadata.chans):
            if tables.get(chan) is None:
                ctx.check(np.array_equal(got[:, i], raw[:, i]), key + "-unselected", f"{chan} level {lvl} was changed")
                continue
            want = raw[:, i].astype("complex128") / response(tables[chan], freqs)[None, :]
            tol = 1e-5 if raw.dtype == np.complex64 else 1e-9
            ctx.check(np.abs(got[:, i] - want).max() <= tol * np.abs(want).max(), key + "-values",
                      lambda: f"{chan} level {lvl}: {got[0, i]} expected {want[0]}")
    md = out.metadata
    ctx.check(md.levels_metadata == sd.metadata.levels_metadata and md.chans == sd.metadata.chans
              and md.chans_metadata == sd.metadata.chans_metadata and station_of(md) == station_of(sd.metadata), key + "-metadata", "")
    ctx.check(snapshot(sd) == before, key + "-input", "input changed")


STATES = ["none", "json", "txt", "both", "badjson", "badboth", "short"]


def put(d, sensor, state, base):
    """Write the files of one sensor, returns format -> table (None: unusable)"""
    jt = [(0.5, base, 0.1), (4.0, base * 3, -0.7), (20.0, base * 2, 1.1)]
    tt = [(0.25, base * 5, -0.2), (8.0, base * 7, 0.9)]
    if state in ("json", "both"):
        write_json(d / f"IC_{sensor}.json", jt)
    if state in ("txt", "both", "badboth"):
        write_txt(d / f"IC_{sensor}.TXT", tt)
    if state in ("badjson", "badboth"):
        (d / f"IC_{sensor}.json").write_text('{"sensor": "x", "frequency": [1, 2')
    if state == "short":
        (d / f"IC_{sensor}.TXT").write_text("Serial = 1\nSensor = s\nCALIBRATION DATA\n1.0 2.0\n")
        (d / f"IC_{sensor}.json").write_text('{"sensor": "x"}')
    return {"json": jt if state in ("json", "both") else None, "txt": tt if state in ("txt", "both", "badboth") else None}


READERS = {"json": C.SensorCalibrationJSON, "txt": C.SensorCalibrationTXT}


def job_files(job, ctx):
    def one(d, states, order, chans):
        sd = spectra(3, (2, 1), 3, "complex128")
        before = snapshot(sd)
        files = {c: tables[sd.metadata.chans_metadata[c].sensor] for c in CHANS}
        want = {}
        for c in CHANS:
            if chans is None or c in chans:
                want[c] = next((files[c][r] for r in order if files[c][r] is not None), None)
        cal = C.SensorCalibrator(chans=chans, readers=[READERS[r]() for r in order])
        judge(ctx, before, sd, cal.run(d, sd), want, "files")
        ctx.outcome(tuple(want.get(c) is None for c in CHANS))

    for third in STATES:
        states = (job["first"], job["second"], third)
        d = ctx.scratch()
        tables = {}
        for i, s in enumerate(states):
            tables[f"MFS{i:02d}"] = put(d, f"MFS{i:02d}", s, 1.5 + i)
        listing = sorted((p.name, p.read_bytes()) for p in d.iterdir())
        for order in (("json",), ("txt",), ("json", "txt"), ("txt", "json"), ()):
            subsets = [None, [], ["Hy"], ["Hz", "Hy"], ["Ex", "Hx"]] if ctx.tier == "quick" else [None] + [list(x) for r in range(4) for x in itertools.combinations(CHANS, r)] + [["Hz", "Hy"], ["Ex", "Hx"]]
            for chans in subsets:
                ctx.case({"job": job, "states": states, "readers": order, "chans": chans}, one, d, states, order, chans)
        ctx.check(sorted((p.name, p.read_bytes()) for p in d.iterdir()) == listing, "files-directory", "calibration directory changed")
        ctx.drop(d)


def job_table(job, ctx):
    fmt, rows = job["format"], job["rows"]
    grid = [(1.0, 2.0, 0.3), (4.0, 8.0, -1.2), (16.0, 3.0, 2.9), (64.0, 11.0, -2.0), (0.01, 5.0, 1.0)]
    other = [(3.7, 0.25, 3.0), (11.3, 1e-3, -3.1), (11.4, 700.0, 9.5), (5.0, 2.0, 0.0), (2.0, 1.0, 0.5)]

    def one(table, shape, n_chans, n_freqs, dtype):
        sd = spectra(n_chans, shape, n_freqs, dtype)
        before = snapshot(sd)
        used = {}
        for i, c in enumerate(CHANS[:n_chans]):
            used[c] = [(f * (1 + 0.1 * i), m * (i + 1), p) for f, m, p in table]
            sensor = sd.metadata.chans_metadata[c].sensor
            if fmt == "json":
                write_json(d / f"IC_{sensor}.json", used[c])
            else:
                write_txt(d / f"IC_{sensor}.TXT", used[c], degrees=fmt == "deg")
        cal = C.SensorCalibrator(readers=[C.SensorCalibrationJSON() if fmt == "json" else C.SensorCalibrationTXT()])
        judge(ctx, before, sd, cal.run(d, sd), used, "table")

    # tables above all frequencies of some level, or of every level
    above = [(9.0, 2.0, 0.3), (12.0, 5.0, -1.0), (10.0, 3.0, 0.8), (30.0, 7.0, 2.0), (14.0, 1.0, 1.0)]
    far = [(20.0, 2.0, 0.3), (40.0, 5.0, -1.0), (1000.0, 3.0, 0.8), (33.0, 7.0, 2.0), (21.0, 1.0, 1.0)]

    d = ctx.scratch()
    small = rows <= 2
    for base in (grid, other, above, far):
        orders = list(itertools.permutations(base[:rows]))
        if ctx.tier == "quick" and base in (above, far):
            orders = orders[:1] + orders[-1:]
        for table in orders:
            shapes = ((1,), (2,), (4,), (1, 1), (3, 2)) if base in (grid, other) else ((2,), (2, 1), (1, 1, 2, 1))
            layouts = itertools.product(shapes, (1, 2, 3), (1, 2, 5), ("complex64", "complex128"))
            for k, (shape, n_chans, n_freqs, dtype) in enumerate(layouts):
                if not small and k % 7 and n_chans != 1:
                    continue
                ctx.case({"job": job, "table": table, "shape": shape, "chans": n_chans, "freqs": n_freqs, "dtype": dtype},
                         one, table, shape, n_chans, n_freqs, dtype)
    ctx.drop(d)


def job_names(job, ctx):
    def one(pattern, sensors, serials, ext):
        d = ctx.scratch()
        sd = spectra(3, (2, 1), 2, "complex128", sensors, serials)
        before = snapshot(sd)
        tables, used = {}, {}
        for i, c in enumerate(CHANS):
            name = pattern.replace("$sensor", sensors[i]).replace("$serial", serials[i]).replace("$extension", ext)
            tables.setdefault(name, [(1.0, 2.0 + i, 0.1 * i), (9.0, 4.0 + i, 0.7)])
            used[c] = tables[name]
            (write_json if ext == ".json" else write_txt)(d / name, tables[name])
        # files of other sensors must not be picked up
        for stray in ("IC_other", "IC_", "IC_MFS0", "1_MFS06"):
            if stray + ext not in tables:
                (write_json if ext == ".json" else write_txt)(d / (stray + ext), [(1.0, 99.0, 0.0)])
        cls = C.SensorCalibrationJSON if ext == ".json" else C.SensorCalibrationTXT
        judge(ctx, before, sd, C.SensorCalibrator(readers=[cls(file_str=pattern)]).run(d, sd), used, "names")
        ctx.drop(d)

    for ext in (".json", ".TXT"):
        for pattern in ("IC_$sensor$extension", "$serial_$sensor$extension", "lemi120_IC_$serial$extension", "all$extension", "$sensor-$sensor-$serial$extension", "fixed.dat"):
            for sensors in itertools.product(("MFS06", "MFS07", "lemi 120"), repeat=3):
                for serials in (("1", "2", "3"), ("7", "7", "7"), ("1", "2", "1")):
                    ctx.case({"job": job, "pattern": pattern, "sensors": sensors, "serials": serials, "ext": ext},
                             one, pattern, sensors, serials, ext)


def job_reader(job, ctx):
    """What the readers return, and that failing tables leave other channels alone"""
    d = ctx.scratch()

    def same(table, serial, gain):
        sd = spectra(1, (1,), 2, "complex128", ["S"], ["5"])
        write_json(d / "IC_S.json", sorted(table), sensor="mfs", serial=serial, static_gain=gain)
        write_txt(d / "IC_S.TXT", table, sensor="mfs", serial=serial, gain=gain)
        a = C.SensorCalibrationJSON().run(d, sd.metadata, "Hx")
        b = C.SensorCalibrationTXT().run(d, sd.metadata, "Hx")
        write_txt(d / "IC_S.TXT", table, degrees=True, sensor="mfs", serial=serial, gain=gain)
        e = C.SensorCalibrationTXT().run(d, sd.metadata, "Hx")
        for other, tol in ((b, 0), (e, 1e-12)):
            for k in ("frequency", "magnitude", "phase"):
                ctx.check(np.allclose(a[k], other[k], rtol=tol, atol=tol), "reader-" + k, f"{a[k]} {other[k]}")
            # the text reader reports names in lower case
            ctx.check((a.sensor.lower(), str(a.serial).lower(), a.static_gain, a.n_samples, a.magnitude_unit)
                      == (other.sensor.lower(), str(other.serial).lower(), other.static_gain, other.n_samples, other.magnitude_unit),
                      "reader-details", f"{a} {other}")
        ctx.check(a.n_samples == len(table) and str(a.serial) == serial and a.static_gain == gain, "reader-details", f"{a}")
        df = a.to_dataframe()
        ctx.check(list(df.index) == a.frequency and df["magnitude"].tolist() == a.magnitude and df["phase"].tolist() == a.phase, "reader-dataframe", "")
        again = C.CalibrationData.parse_raw(a.json())
        ctx.check(again == a, "reader-json", "")

    def header(order, blank, tail, unit):
        """The header lines in any order, with an empty line anywhere"""
        rows = [(4.0, 8.0, -1.2), (1.0, 2.0, 0.3)]
        lines = {"serial": "Serial = 20", "sensor": "Sensor = mfs", "gain": "Static gain = 4", "magnitude": "Magnitude unit = mV/nT",
                 "phase": f"Phase unit = {unit}", "chopper": "Chopper = True"}
        text = [lines[x] for x in order]
        if blank is not None:
            text.insert(blank, "")
        text += ["", "CALIBRATION DATA"] + [f"{f!r} {m!r} {p * 180 / np.pi if unit == 'degrees' else p!r}" for f, m, p in rows] + tail
        (d / "IC_S.TXT").write_text("\n".join(text) + "\n")
        sd = spectra(1, (1,), 2, "complex128", ["S"], ["5"])
        a = C.SensorCalibrationTXT().run(d, sd.metadata, "Hx")
        ctx.check(a.frequency == [1.0, 4.0] and a.magnitude == [2.0, 8.0] and np.allclose(a.phase, [0.3, -1.2], atol=1e-9), "reader-header", f"{a}")
        ctx.check((a.sensor.lower(), str(a.serial), a.static_gain, a.magnitude_unit.lower()) == ("mfs", "20", 4.0, "mv/nt"), "reader-header-details", f"{a}")

    names = ["serial", "sensor", "gain", "magnitude", "phase", "chopper"]
    for order in itertools.permutations(names) if ctx.tier != "quick" else [names[i:] + names[:i] for i in range(6)] + [names[::-1]]:
        for blank in (None, 0, 1, 2, 3, 4, 5):
            for tail in ([], ["", "99.0 99.0 99.0"]):
                for unit in ("radians", "degrees"):
                    ctx.case({"job": job, "order": order, "blank": blank, "tail": tail, "unit": unit}, header, order, blank, tail, unit)

    base = [(1.0, 2.0, 0.3), (4.0, 8.0, -1.2), (16.0, 3.0, 2.9)]
    for r in (1, 2, 3):
        for table in itertools.permutations(base, r):
            for serial in ("20", "AB1"):
                for gain in (1.0, 5.0, 0.25):
                    ctx.case({"job": job, "table": table, "serial": serial, "gain": gain}, same, table, serial, gain)

    def broken(which, content, ext):
        d2 = ctx.scratch()
        sd = spectra(3, (2, 1), 2, "complex128")
        before = snapshot(sd)
        used = {}
        for i, c in enumerate(CHANS):
            sensor = sd.metadata.chans_metadata[c].sensor
            if c == which:
                (d2 / f"IC_{sensor}{ext}").write_text(content)
            else:
                used[c] = [(1.0, 2.0 + i, 0.4)]
                (write_json if ext == ".json" else write_txt)(d2 / f"IC_{sensor}{ext}", used[c])
        cls = C.SensorCalibrationJSON if ext == ".json" else C.SensorCalibrationTXT
        try:
            out = C.SensorCalibrator(readers=[cls()]).run(d2, sd)
        except Exception:
            ctx.outcome("refused")
            ctx.check(snapshot(sd) == before, "broken-input", "input changed")
        else:
            judge(ctx, before, sd, out, used, "broken")
        ctx.drop(d2)

    good = json.dumps({"sensor": "s", "serial": "1", "frequency": [1, 2], "magnitude": [1, 2], "phase": [0, 0]})
    bad_json = [good[:k] for k in range(0, len(good), 3)] + ["[]", "null", '{"serial": 1, "frequency": [1,2], "magnitude": [1], "phase": [1,2]}',
                                                             '{"serial": 1, "frequency": [], "magnitude": [], "phase": []}']
    head = "Serial = 1\nSensor = s\nPhase unit = radians\nCALIBRATION DATA\n"
    bad_txt = ["", "CALIBRATION DATA\n", head, head + "1 2\n", head + "a b c\n", head + "1 2 3\n4 5\n", head.replace("CALIBRATION", "X") + "1 2 3\n",
               head.replace("Serial = 1", "Serial 1") + "1 2 3\n", "Static gain = x\n" + head + "1 2 3\n"]
    for which in CHANS:
        for ext, contents in ((".json", bad_json), (".TXT", bad_txt)):
            for content in contents:
                ctx.case({"job": job, "chan": which, "ext": ext, "content": content}, broken, which, content, ext)
    ctx.drop(d)
