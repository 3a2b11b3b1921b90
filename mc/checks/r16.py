"""R16 gathered rows are simultaneous across sites and belong together"""
import itertools
import warnings

import numpy as np

from build import STATION, T0, T0_ODD, spectra_data, snapshot, time_metadata

import resistics.decimate as D
import resistics.gather as G
import resistics.project as P
import resistics.spectra as S
import resistics.time as T
from resistics.transfunc import TransferFunction

ID = "R16"
LEVEL = "exploration"
RULE = (
    "every layout of up to two (thorough: three) measurements per site over a grid of window intervals (overlapping, "
    "touching, gapped, nested, equal) at two levels, some without the deeper level, for one, two and three sites x role "
    "assignment x channel orders, with measurements of other frequencies, configurations and without evaluated data "
    "present; every value of the spectra encodes site, measurement, level, window, channel and frequency, so that each "
    "gathered row is decoded and compared with the windows derived from the intervals; non-trivial: distinct layouts"
)
ASSUMPTIONS = [
    "a window two measurements of a site share may be taken from either, but from the same one for every role",
    "when no window at all is shared the gather may be refused",
]
FS = 16.0
PER_LEVEL = 2
N_LEVELS = 3
INTERVALS = [(0, 3), (1, 2), (3, 1), (1, 5)]
INTERVALS_T = INTERVALS + [(0, 1), (2, 3), (4, 2), (0, 6), (5, 2)]
CHANS = ["Hx", "Hy", "Ex", "Ey", "Hz"]


def BOUNDS(tier):
    return {"intervals": INTERVALS if tier == "quick" else INTERVALS_T, "sites": 3, "measurements per site": 2 if tier == "quick" else 3}


def jobs(tier):
    ivals = INTERVALS if tier == "quick" else INTERVALS_T
    for i in range(len(ivals)):
        for second in (None, 0, 1):
            yield {"kind": "layouts", "first": i, "levels": second}
    for i in range(len(ivals)):
        yield {"kind": "single", "first": i}
        yield {"kind": "three", "first": i}
    yield {"kind": "quick"}


def run_job(job, ctx):
    warnings.simplefilter("ignore")
    globals()["job_" + job["kind"]](job, ctx)


def level_intervals(ival, levels):
    """levels: None level 0 only, 0 half the windows at level 1, 1 shifted at level 1, 2 three levels"""
    s, n = ival
    out = [(s, n)]
    if levels is not None:
        out.append((s // 2, (n + 1) // 2) if levels == 0 else (s // 2 + 1, max(1, n // 2)))
    if levels == 2:
        out.append((0, 1 + s % 2))
    return out


class World(object):
    """Evaluated spectra on disk, named after what they contain"""

    def __init__(self, ctx):
        self.root = ctx.scratch()
        self.codes = {}
        self.info = {}

    def code(self, site, name):
        return self.codes.setdefault((site, name), len(self.codes) + 1)

    def measurement(self, site, tag, ival, levels, fs=FS, config="conf"):
        name = f"{tag}_{ival[0]}_{ival[1]}_{levels}_{int(fs)}"
        if (site, name, config) not in self.info:
            spans = level_intervals(ival, levels)
            order = CHANS[:] if len(self.info) % 2 == 0 else CHANS[::-1]
            code = self.code(site, name)
            arrays = []
            for lvl, (s, n) in enumerate(spans):
                w = s + np.arange(n)[:, None, None]
                c = np.array([CHANS.index(x) for x in order])[None, :, None]
                f = np.arange(PER_LEVEL)[None, None, :]
                arrays.append((code * 1000 + lvl * 100 + w) + 1j * (c * 10 + f + (1e6 if config != "conf" else 0)))
            rates = [fs / 2**lvl for lvl in range(len(spans))]
            sd = spectra_data(arrays, rates, [[r / 4, r / 8] for r in rates], order)
            for lvl, (s, n) in enumerate(spans):
                sd.metadata.levels_metadata[lvl].index_offset = s
            S.SpectraDataWriter().run(P.get_meas_evals_path(self.root, site, name, config), sd)
            self.info[(site, name, config)] = (spans, order)
        spans, order = self.info[(site, name, config)]
        md = time_metadata(fs, 100, order)
        return name, P.Measurement(site_name=site, dir_path=self.root / "time" / site / name, metadata=md, reader=T.TimeReaderNumpy())

    def bare(self, site, name, fs=FS):
        """A measurement without evaluated data"""
        return name, P.Measurement(site_name=site, dir_path=self.root / "time" / site / name, metadata=time_metadata(fs, 100, CHANS), reader=T.TimeReaderNumpy())

    def project(self, sites):
        out = {}
        for site, meas in sites.items():
            out[site] = P.Site(dir_path=self.root / "time" / site, measurements=dict(meas), begin_time=T0, end_time=T0)
        return P.Project(dir_path=self.root, begin_time=T0, end_time=T0, metadata=P.ProjectMetadata(ref_time=T0), sites=out)


def dec_params():
    return D.DecimationParameters(
        fs=FS, n_levels=N_LEVELS, per_level=PER_LEVEL, min_samples=4,
        eval_freqs=[FS / 2**lvl / d for lvl in range(N_LEVELS) for d in (4, 8)], dec_factors=[2**lvl for lvl in range(N_LEVELS)])


TFS = [
    TransferFunction(out_chans=["Ex", "Ey"], in_chans=["Hx", "Hy"]),
    TransferFunction(out_chans=["Ey", "Hz", "Ex"], in_chans=["Hy"], cross_chans=["Ey", "Hx"]),
]


def judge(ctx, world, sites, roles, tf, order):
    """sites: name -> list of (measurement, Measurement) of fs FS with evaluated data (others filtered by caller)"""
    proj = world.project({s: m for s, m in sites["all"].items()})
    used = sites["used"]  # site -> measurement names
    spans = {s: {m: world.info[(s, m, "conf")][0] for m in names} for s, names in used.items()}
    dp = dec_params()
    out_name, in_name, cross_name = roles
    names = [x for x in roles if x is not None]
    involved = sorted(set(names))
    n_levels = min(max(len(x) for x in spans[s].values()) for s in involved)
    shared = []
    for lvl in range(n_levels):
        sets = [set(w for sp in spans[s].values() if lvl < len(sp) for w in range(sp[lvl][0], sp[lvl][0] + sp[lvl][1])) for s in involved]
        shared.append(sorted(set.intersection(*sets)))
    try:
        selection = G.Selector().run("conf", proj, names if order == 0 else names[::-1] + names, dp)
        gathered = G.ProjectGather().run("conf", proj, selection, tf, out_name, in_name, cross_name)
    except Exception:
        if any(shared):
            raise
        ctx.outcome("refused")
        return
    ctx.require(selection.n_levels == n_levels, "levels", f"{selection.n_levels} levels expected {n_levels}")
    want_freqs = [f for lvl in range(n_levels) for f in dp.get_eval_freqs(lvl)]
    ctx.check(selection.get_n_evals() == n_levels * PER_LEVEL and list(selection.get_eval_freqs()) == want_freqs, "selection-freqs", "")
    for lvl in range(n_levels):
        for f in range(PER_LEVEL):
            ctx.check(selection.get_n_wins(lvl, f) == len(shared[lvl]), "selection-count",
                      f"level {lvl}: {selection.get_n_wins(lvl, f)} windows expected {shared[lvl]}")
            table = selection.get_eval_wins(lvl, f)
            ctx.check(sorted(table.index) == shared[lvl], "selection-windows", f"level {lvl}: {sorted(table.index)} expected {shared[lvl]}")
            for s in involved:
                for w, m in zip(table.index, table[s]):
                    ok = m in spans[s] and lvl < len(spans[s][m]) and spans[s][m][lvl][0] <= w < sum(spans[s][m][lvl])
                    ctx.check(ok, "selection-attribution", f"level {lvl} window {w} of {s} attributed to {m}")
    in_name = in_name or out_name
    cross_name = cross_name or in_name
    decode = {world.code(s, m): (s, m) for s in involved for m in spans[s]}
    rows = {}
    for role, data, site, chans in (("out", gathered.out_data, out_name, tf.out_chans), ("in", gathered.in_data, in_name, tf.in_chans),
                                    ("cross", gathered.cross_data, cross_name, tf.cross_chans)):
        md = data.metadata
        ctx.check(md.site_name == site and md.chans == chans and md.fs == FS and list(md.eval_freqs) == want_freqs and md.n_evals == len(want_freqs),
                  "gathered-metadata", f"{role}: {md.site_name} {md.chans} {md.eval_freqs}")
        ctx.require(sorted(data.data) == list(range(len(want_freqs))), "gathered-keys", f"{role}: {sorted(data.data)}")
        contributing = set()
        for key, arr in data.data.items():
            lvl, f = divmod(key, PER_LEVEL)
            ctx.require(arr.shape == (len(shared[lvl]), len(chans)), "gathered-shape", f"{role} level {lvl}: {arr.shape} expected {(len(shared[lvl]), len(chans))}")
            got = []
            for i in range(arr.shape[0]):
                row = []
                for c, chan in enumerate(chans):
                    re, im = arr[i, c].real, arr[i, c].imag
                    code, rest = divmod(int(re), 1000)
                    ctx.require(re == int(re) and code in decode and decode[code][0] == site, "gathered-source", f"{role} row {i}: value {arr[i, c]} is not of {site}")
                    row.append((decode[code][1], rest // 100, rest % 100))
                    ctx.require(im == CHANS.index(chan) * 10 + f, "gathered-channel", f"{role} level {lvl} freq {f} row {i} chan {chan}: {arr[i, c]}")
                ctx.require(len(set(row)) == 1 and row[0][1] == lvl, "gathered-row", f"{role} row {i} mixes {row}")
                got.append(row[0])
                contributing.add(row[0][0])
            wins = [x[2] for x in got]
            ctx.require(sorted(wins) == shared[lvl], "gathered-windows", f"{role} level {lvl}: windows {wins} expected {shared[lvl]}")
            rows[(role, key)] = (site, got)
        ctx.check(set(md.histories) >= contributing and set(md.histories) <= set(spans[site]), "gathered-histories", f"{role}: {sorted(md.histories)}")
        ctx.check(all(getattr(md, k) == v for k, v in STATION.items()), "gathered-station", "")
    for key in range(len(want_freqs)):
        a, b, c = (rows[(r, key)] for r in ("out", "in", "cross"))
        for (s1, r1), (s2, r2) in ((a, b), (b, c), (a, c)):
            ctx.check([x[2] for x in r1] == [x[2] for x in r2], "rows-simultaneous", f"evaluation frequency {key}: {r1} against {r2}")
            if s1 == s2:
                ctx.check(r1 == r2, "rows-same-measurement", f"{r1} against {r2}")
    ctx.outcome(tuple(tuple(x) for x in shared))


def distractors(world, site, which):
    out = []
    if which & 1:
        out.append(world.measurement(site, "other", (0, 6), 1, fs=128.0))
    if which & 3 == 3:
        out.append(world.measurement(site, "near", (0, 6), 1, fs=16.25))
        out.append(world.measurement(site, "slow", (1, 5), 0, fs=0.25))
    if which & 2:
        out.append(world.bare(site, "bare"))
    if which & 4:
        name, meas = world.measurement(site, "foreign", (0, 6), 1, config="another")
        out.append((name, meas))
    return out


def layout(world, site, items, reverse, which):
    """items: list of (tag, interval, levels). Returns all measurements and names of the used ones"""
    meas = [world.measurement(site, *x) for x in items]
    used = [m for m, _ in meas]
    if reverse:
        meas = meas[::-1]
    return distractors(world, site, which) + meas if which % 2 else meas + distractors(world, site, which), used


def job_layouts(job, ctx):
    """Two sites, up to two measurements each"""
    world = World(ctx)
    ivals = INTERVALS if ctx.tier == "quick" else INTERVALS_T
    first, levels = ivals[job["first"]], job["levels"]
    n = 0
    for second in [None] + ivals:
        for third in ivals:
            for fourth in [None] + (ivals if ctx.tier != "quick" else ivals[1:3]):
                a = [("b", first, levels)] + ([("a", second, 0)] if second else [])
                b = [("p", third, 0 if levels is not None else None)] + ([("q", fourth, levels)] if fourth else [])
                n += 1
                roles = [("s1", None, "s2"), ("s1", "s2", None), ("s2", "s1", "s2"), ("s2", "s2", "s1")][n % 4]
                tf = TFS[n % 2]
                rev, which = bool(n % 3), (n // 4) % 8
                m1, u1 = layout(world, "s1", a, rev, which)
                m2, u2 = layout(world, "s2", b, not rev, which // 2)
                sites = {"all": {"s1": m1, "s2": m2}, "used": {"s1": u1, "s2": u2}}
                ctx.case({"job": job, "second": second, "third": third, "fourth": fourth, "roles": roles, "tf": n % 2, "distract": which, "reversed": rev},
                         judge, ctx, world, sites, roles, tf, n % 2)
    ctx.drop(world.root)


def job_single(job, ctx):
    """One site, up to three measurements"""
    world = World(ctx)
    ivals = INTERVALS if ctx.tier == "quick" else INTERVALS_T
    first = ivals[job["first"]]
    n = 0
    for levels in (None, 0, 1, 2):
        for second in [None] + ivals:
            for third in [None] + ivals:
                for lv2 in (None, 0, 2):
                    n += 1
                    if ctx.tier == "quick" and (third is not None or n % 2) and n % 5:
                        continue
                    a = [("b", first, levels)] + ([("a", second, lv2)] if second else []) + ([("c", third, 0)] if third else [])
                    m1, u1 = layout(world, "s1", a, bool(n % 2), n % 8)
                    sites = {"all": {"s1": m1}, "used": {"s1": u1}}
                    for roles in (("s1", None, None), ("s1", "s1", "s1")):
                        ctx.case({"job": job, "levels": [levels, lv2], "second": second, "third": third, "roles": roles, "reversed": n % 2},
                                 judge, ctx, world, sites, roles, TFS[n % 2], 0)
    ctx.drop(world.root)


def job_three(job, ctx):
    """Three sites, and sites in the project that take no part"""
    world = World(ctx)
    ivals = INTERVALS if ctx.tier == "quick" else INTERVALS_T
    first = ivals[job["first"]]
    n = 0
    for second in ivals:
        for third in ivals:
            for p, roles in enumerate(itertools.permutations(("s1", "s2", "s3"))):
                n += 1
                if ctx.tier == "quick" and (n + p) % 3:
                    continue
                lv = [(2, 2, 2), (2, 0, 1), (0, None, 2), (1, 1, 0)][n % 4]
                built = [layout(world, s, [("m", iv, l)] + ([("n", (4, 2), 0)] if (n + k) % 3 == 0 else []), bool(n % 2), (n + k) % 8)
                         for k, (s, iv, l) in enumerate(zip(("s1", "s2", "s3"), (first, second, third), lv))]
                idle = layout(world, "s0", [("m", (0, 1), None)], False, 0)
                sites = {"all": {"s0": idle[0], **{s: b[0] for s, b in zip(("s1", "s2", "s3"), built)}},
                         "used": {s: b[1] for s, b in zip(("s1", "s2", "s3"), built)}}
                ctx.case({"job": job, "second": second, "third": third, "levels": lv, "roles": roles}, judge, ctx, world, sites, roles, TFS[n % 2], n % 2)
    for roles in (("s1", "s4", None), ("s4", None, None), ("s1", None, "s4")):
        def unknown():
            m1, u1 = layout(world, "s1", [("m", first, 0)], False, 0)
            m4 = [world.bare("s4", "bare")]
            proj = world.project({"s1": m1, "s4": m4})
            ctx.refuses(lambda: G.Selector().run("conf", proj, [x for x in roles if x], dec_params()), "no-data-refused", "site without evaluated data accepted")
        ctx.case({"job": job, "roles": roles, "without": "s4"}, unknown)
    ctx.drop(world.root)


def job_quick(job, ctx):
    """The quick path gathers all windows of one measurement"""
    from pathlib import Path

    def one(shape, offset, tf, order, per_level):
        arrays = []
        for lvl, n in enumerate(shape):
            w = np.arange(n)[:, None, None]
            c = np.array([CHANS.index(x) for x in order])[None, :, None]
            arrays.append((1000 + lvl * 100 + w) + 1j * (c * 10 + np.arange(per_level)[None, None, :]))
        rates = [FS / 2**lvl for lvl in range(len(shape))]
        freqs = [[r / (4 + k) for k in range(per_level)] for r in rates]
        sd = spectra_data(arrays, rates, freqs, order, offset=offset)
        before = snapshot(sd)
        dp = D.DecimationParameters(fs=FS, n_levels=4, per_level=per_level, min_samples=4,
                                    eval_freqs=[f for fr in freqs for f in fr] + [0.1] * ((4 - len(shape)) * per_level), dec_factors=[1, 2, 4, 8])
        g = G.QuickGather().run(Path("some") / "meas1", dp, tf, sd)
        want_freqs = [f for fr in freqs for f in fr]
        for role, data, chans in (("out", g.out_data, tf.out_chans), ("in", g.in_data, tf.in_chans), ("cross", g.cross_data, tf.cross_chans)):
            ctx.require(sorted(data.data) == list(range(len(want_freqs))), "quick-keys", f"{role} {sorted(data.data)}")
            md = data.metadata
            ctx.check(list(md.eval_freqs) == want_freqs and md.n_evals == len(want_freqs) and md.chans == chans and md.fs == FS
                      and md.measurements == ["meas1"] and all(getattr(md, k) == v for k, v in STATION.items()), "quick-metadata", f"{role}")
            for key, arr in data.data.items():
                lvl, f = divmod(key, per_level)
                want = (1000 + lvl * 100 + np.arange(shape[lvl]))[:, None] + 1j * np.array([CHANS.index(x) * 10 + f for x in chans])[None, :]
                ctx.check(arr.shape == want.shape and np.array_equal(arr, want), "quick-values", lambda: f"{role} key {key}: {arr} expected {want}")
        ctx.check(snapshot(sd) == before, "quick-input", "")

    for n_levels in (1, 2, 3):
        for shape in itertools.product((1, 2, 4), repeat=n_levels):
            for k, tf in enumerate(TFS):
                for order in (CHANS, CHANS[::-1]):
                    for per_level in (1, 2, 3):
                        for offset in (0, 9):
                            ctx.case({"job": job, "shape": shape, "tf": k, "order": order, "per_level": per_level, "offset": offset},
                                     one, shape, offset, tf, order, per_level)
