"""R19 project operations write only their own outputs"""
import itertools
import os
import shutil
import warnings
from pathlib import Path

import numpy as np

from build import T0, time_at, time_data
from fractions import Fraction
from proj import configuration, copy_tree, signal, solution_content, spectra_content, tree, write_measurement

import resistics.decimate as D
import resistics.letsgo as L
import resistics.project as P
import resistics.time as T
from resistics.errors import ProjectCreateError
from resistics.regression import Solution, SolverScikitOLS
from resistics.transfunc import Component, ImpedanceTensor, Tipper

ID = "R19"
LEVEL = "model_checking"
TECHNIQUE = (
    "explicit-state model checking of project histories: a model of what every operation reads and writes is explored "
    "breadth first, every transition of every reachable model state is executed on the real code and the project "
    "directory, the loaded project and every solution are compared with the model's next state"
)
RULE = (
    "model: raw measurements (site, name -> content), what the loaded project saw, evaluated spectra (site, measurement, "
    "configuration -> content), solutions (site, configuration, sampling frequency, transfer function, variation, postfix -> "
    "content); all operation sequences up to the depth over the alphabet, states merged when the model (hence the compared "
    "directory content) is equal; contents are obtained from pristine projects in which only the inputs of the operation "
    "exist; creation over every kind of existing directory; all pairs of solution names; non-trivial: distinct (state, operation)"
)
ASSUMPTIONS = [
    "file contents are compared without the times of processing and the messages of records (they contain dates)",
    "a measurement overwritten since the project was loaded is not used before a reload",
]
CHANS = ["Hx", "Hy", "Hz", "Ex", "Ey"]


def BOUNDS(tier):
    return {"depth": 4 if tier == "quick" else 5, "sites": 4, "configurations": 3, "operations": len(OPS if tier != "quick" else QUICK_OPS)}


def configs():
    readers = [T.TimeReaderAscii(extension=".ascii"), T.TimeReaderNumpy()]
    return {
        "one": configuration("one", time_readers=readers),
        "one-v": configuration("one", time_readers=readers, tf=ImpedanceTensor(variation="v x", cross_chans=["Hx", "Hy", "Hz"])),
        "two": configuration("two", time_readers=readers, tf=Tipper(), dec_setup=D.DecimationSetup(n_levels=2, per_level=3, min_samples=64)),
    }


class Doubled(SolverScikitOLS):
    """A solver of a user that gives other solutions for the same data"""

    def run(self, regression_input):
        sol = super().run(regression_input)
        twice = {k: Component(real=[2 * x for x in c.real], imag=[2 * x for x in c.imag]) for k, c in sol.components.items()}
        return Solution(tf=sol.tf, freqs=sol.freqs, components=twice, history=sol.history, contributors=sol.contributors)


# operations: ("evals", site, meas, config) ("tf", config, fs, out, in, cross, postfix) ("time", site, meas, out_site, out_meas, span)
OPS = [
    ("load",), ("new",), ("outside",),
    ("evals", "A", "m1", "one"), ("evals", "A", "m2", "one"), ("evals", "B", "m1", "one"), ("evals", "A", "slow", "one"),
    ("evals", "A", "m1", "two"), ("evals", "B", "m1", "two"), ("evals", "B", "late", "one"),
    ("tf", "one", 64.0, "A", None, None, None), ("tf", "one", 64.0, "A", None, "B", None), ("tf", "one", 64.0, "A", None, None, "rr"),
    ("tf", "one", 16.0, "A", None, None, None), ("tf", "one-v", 64.0, "A", None, None, None), ("tf", "two", 64.0, "A", None, None, None),
    ("tf", "one", 64.0, "B", "A", None, "rr"), ("tf", "one", 64.0, "B", None, None, None),
    ("time", "A", "m1", "A", "cut", 1), ("time", "A", "m1", "C", "m1", 0), ("time", "A", "m2", "A", "m1", 0),
]
QUICK_OPS = [o for i, o in enumerate(OPS) if i not in (6, 8, 13, 17)]


def jobs(tier):
    states = explore(tier)
    n = 24 if tier == "quick" else 64
    for k in range(n):
        if k < len(states):
            yield {"kind": "states", "part": k, "of": n}
    yield {"kind": "create"}
    yield {"kind": "names"}
    for out in ("A", "B"):
        for first in (0, 1):
            yield {"kind": "roles", "out": out, "first": first}


def run_job(job, ctx):
    warnings.simplefilter("ignore")
    globals()["job_" + job["kind"]](job, ctx)


# -- the model. A state is (raw, view, evals, sols) as frozensets of pairs
RAW0 = {("A", "m1"): "A/m1", ("A", "m2"): "A/m2", ("A", "slow"): "A/slow", ("B", "m1"): "B/m1", ("E", ""): "empty"}
FS_OF = {"A/slow": 16.0}


def initial():
    raw = frozenset(RAW0.items())
    return (raw, raw, frozenset(), frozenset())


def conf_name(c):
    return c.split("-")[0]


def used_evals(state, op):
    """Evaluated spectra that an estimation of the transfer function can see, per site"""
    _, conf, fs, out, inn, cross, _ = op
    raw, view, evals, sols = state
    view, evals = dict(view), dict(evals)
    sites = []
    for s in (out, inn, cross):
        if s is not None and s not in sites:
            sites.append(s)
    found = {}
    for s in sites:
        found[s] = tuple(sorted((s, m, evals[(s, m, conf_name(conf))]) for (v, m), c in view.items()
                                if v == s and FS_OF.get(c, 64.0) == fs and (s, m, conf_name(conf)) in evals))
    return found


# samples of the contents: number, first
EXTENT = {"A/m1": (400, 0), "A/m2": (330, 500), "A/slow": (300, 0), "B/m1": (700, 100), "B/late": (300, 900)}


def common_samples(found):
    """Whether all sites recorded at some common time (by far less or by far more than a window in this alphabet)"""
    common = None
    for items in found.values():
        here = set()
        for _, _, c in items:
            name, _, span = c.split("@")[0].partition("#")
            n, start = EXTENT[name]
            cut = range(64, 321) if span == "1" else range(start, start + n)
            here.update(set(range(start, start + n)) & set(cut))
        common = here if common is None else common & here
    return len(common) > 0


def model_step(state, op):
    """Returns (next state, outcome) with outcome ok, refused or None (not in the alphabet of this state)"""
    raw, view, evals, sols = (dict(x) for x in state)
    kind = op[0]
    out = "ok"
    if kind == "load":
        view = dict(raw)
    elif kind == "new":
        out = "refused"
    elif kind == "outside":
        if ("B", "late") in raw:
            return None
        raw[("B", "late")] = "B/late"
    elif kind == "evals":
        _, site, meas, conf = op
        if (site, meas) not in view:
            out = "refused"
        elif view[(site, meas)] != raw[(site, meas)]:
            return None
        else:
            evals[(site, meas, conf)] = raw[(site, meas)] + "@" + conf
    elif kind == "time":
        _, site, meas, osite, omeas, span = op
        if view.get((site, meas)) != raw.get((site, meas)):
            return None
        raw[(osite, omeas)] = raw[(site, meas)] + ("#%d" % span)
        if raw[(osite, omeas)].count("#") > 1:
            return None
    elif kind == "tf":
        _, conf, fs, osite, inn, cross, postfix = op
        found = used_evals(state, op)
        # a measurement replaced since it was evaluated or loaded: the estimate is not specified
        for items in found.values():
            for s, m, c in items:
                if raw[(s, m)] != view[(s, m)] or c.split("@")[0] != raw[(s, m)]:
                    return None
        sites = [s for s in (osite, inn, cross) if s is not None]
        if any(not found[s] for s in sites) or not common_samples(found):
            out = "refused"
        else:
            sols[(osite, conf_name(conf), fs, conf, postfix)] = (op, tuple(sorted(found.items())))
    return tuple(frozenset(x.items()) for x in (raw, view, evals, sols)), out


LONG = [
    (("evals", "A", "m1", "one"), ("tf", "one", 64.0, "A", None, None, None), ("time", "A", "m2", "A", "m1", 0), ("load",),
     ("evals", "A", "m1", "one"), ("tf", "one", 64.0, "A", None, None, None)),
    (("evals", "A", "m1", "one"), ("evals", "B", "m1", "one"), ("tf", "one", 64.0, "B", "A", None, "rr"), ("time", "A", "m1", "A", "m1", 1), ("load",),
     ("evals", "A", "m1", "one"), ("tf", "one", 64.0, "B", "A", None, "rr")),
    (("evals", "A", "m1", "one"), ("evals", "A", "m2", "one"), ("evals", "B", "m1", "one"), ("outside",), ("load",), ("evals", "B", "late", "one"),
     ("tf", "one", 64.0, "B", None, None, None), ("tf", "one", 64.0, "A", None, "B", None)),
]
LONG_DEPTH = {True: 0, False: 1}
_explored = {}


def explore(tier):
    """Reachable states before the last step, each with a shortest history"""
    if tier in _explored:
        return _explored[tier]
    ops = QUICK_OPS if tier == "quick" else OPS
    depth = BOUNDS(tier)["depth"]
    paths = {initial(): ()}
    frontier = [initial()]
    for _ in range(depth - 1):
        new = []
        for state in frontier:
            for op in ops:
                res = model_step(state, op)
                if res is not None and res[0] not in paths:
                    paths[res[0]] = paths[state] + (op,)
                    new.append(res[0])
        frontier = new
    # longer histories: a recording is replaced after it was used and used again
    frontier = []
    for head in LONG:
        state, done = initial(), ()
        for op in head:
            state, _ = model_step(state, op)
            done += (op,)
            if state not in paths:
                paths[state] = done
                frontier.append(state)
    for _ in range(LONG_DEPTH[tier == "quick"]):
        new = []
        for state in frontier:
            for op in ops:
                res = model_step(state, op)
                if res is not None and res[0] not in paths:
                    paths[res[0]] = paths[state] + (op,)
                    new.append(res[0])
        frontier = new
    _explored[tier] = list(paths.items())
    return _explored[tier]


# -- the real thing
def content_data(content):
    """Raw data by content name"""
    base = content.split("#")[0]
    fs, n, start, key = {"A/m1": (64.0, 400, 0, 1), "A/m2": (64.0, 330, 500, 2), "A/slow": (16.0, 300, 0, 3), "B/m1": (64.0, 700, 100, 4),
                         "B/late": (64.0, 300, 900, 5)}[base]
    h = [signal(key + 5 * k, n) for k in range(3)]
    data = [h[0], h[1], 0.5 * h[0] + h[2] * 0.01, 2 * h[0] - key * h[1] + 0.3 * h[2], 3 * h[1] + 0.1 * h[2]]
    return time_data(fs, data, CHANS, t0=time_at(T0, Fraction(start) / Fraction(fs)))


SPANS = {0: (None, None), 1: ("2021-01-01 00:00:01", "2021-01-01 00:00:05")}


def build_project(root, raw, through=True):
    L.new(root, dict(ref_time="2021-01-01", location="here", contributors=["x"]))
    (root / "calibrate" / "IC_none.json").write_text("{}")
    (root / "calibrate" / "notes.txt").write_text("notes")
    for (site, meas), content in sorted(raw.items()):
        if content == "empty":
            (root / "time" / site).mkdir(parents=True, exist_ok=True)
            (root / "time" / site / "readme.md").write_text("no data here")
        elif "#" in content and through:
            # as process_time leaves it
            write_measurement(root, "tmp", "tmp", content_data(content))
            conf = configuration("timeproc", time_processors=[])
            f, t = SPANS[int(content.split("#")[1])]
            L.process_time(L.load(root, conf), "tmp", "tmp", site, meas, from_time=f, to_time=t)
            shutil.rmtree(str(root / "time" / "tmp"))
        else:
            td = content_data(content)
            if content.endswith("#1"):
                td = T.Subsection(from_time=SPANS[1][0], to_time=SPANS[1][1]).run(td)
            write_measurement(root, site, meas, td, ascii_=(site, meas) == ("B", "m1"))
            (root / "time" / site / meas / "field.notes").write_text(f"{site} {meas}")


class Run(object):
    """A project on disk together with the loaded environment"""

    def __init__(self, base, raw):
        self.base = base
        self.root = base / "proj"
        build_project(self.root, raw)
        self.confs = configs()
        self.proj = L.load(self.root, self.confs["one"]).proj

    def env(self, conf):
        return L.ResisticsEnvironment(proj=self.proj, config=self.confs[conf])

    def apply(self, op):
        kind = op[0]
        if kind == "load":
            self.proj = L.reload(self.env("one")).proj
        elif kind == "new":
            L.new(self.root, dict(ref_time="1999-01-01"))
        elif kind == "outside":
            write_measurement(self.root, "B", "late", content_data("B/late"))
        elif kind == "evals":
            L.process_time_to_evals(self.env(op[3]), op[1], op[2])
        elif kind == "time":
            conf = configuration("timeproc", time_processors=[])
            env = L.ResisticsEnvironment(proj=self.proj, config=conf)
            f, t = SPANS[op[5]]
            L.process_time(env, op[1], op[2], op[3], op[4], from_time=f, to_time=t)
        elif kind == "tf":
            _, conf, fs, out, inn, cross, postfix = op
            return L.process_evals_to_tf(self.env(conf), fs, out, inn, cross, postfix=postfix)


class Canon(object):
    """Contents an operation must produce, found in pristine projects"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.memo = {}

    def evals(self, content, site, meas, conf):
        key = (content, site, meas, conf)
        if key not in self.memo:
            base = self.ctx.scratch()
            run = Run(base, {(site, meas): content})
            run.apply(("evals", site, meas, conf))
            self.memo[key] = spectra_content(P.get_meas_evals_path(run.root, site, meas, conf_name(conf)))
            self.ctx.drop(base)
        return self.memo[key]

    def solution(self, key):
        op, found = key
        if key not in self.memo:
            base = self.ctx.scratch()
            items = [x for _, v in found for x in v]
            run = Run(base, {(s, m): c.split("@")[0] for s, m, c in items})
            for s, m, c in items:
                run.apply(("evals", s, m, c.split("@")[1]))
            self.memo[key] = solution_content(run.apply(op))
            self.ctx.drop(base)
        return self.memo[key]

    def raw(self, content):
        if content not in self.memo:
            base = self.ctx.scratch()
            root = base / "p"
            build_project(root, {("A", "m1"): content}, through=False)
            td = T.TimeReaderNumpy().run(root / "time" / "A" / "m1")
            self.memo[content] = (np.array(td.data).tobytes(), td.metadata.first_time.isoformat(), td.metadata.last_time.isoformat(), td.metadata.fs, tuple(td.metadata.chans))
            self.ctx.drop(base)
        return self.memo[content]


def own_paths(op, root):
    """Where an operation may write, relative to the project"""
    if op[0] == "evals":
        return [os.path.relpath(str(P.get_meas_evals_path(root, op[1], op[2], conf_name(op[3]))), str(root))]
    if op[0] == "time":
        return [os.path.relpath(str(P.get_meas_time_path(root, op[3], op[4])), str(root))]
    if op[0] == "tf":
        return [os.path.relpath(str(P.get_results_path(root, op[3], conf_name(op[1]))), str(root))]
    if op[0] == "outside":
        return [os.path.join("time", "B", "late")]
    return []


def inside(path, allowed):
    path = path.rstrip("/")
    return any(path == a or path.startswith(a + "/") or a.startswith(path + "/") for a in allowed)


def conform(ctx, run, canon, state, full):
    """The real project is what the model says"""
    raw, view, evals, sols = (dict(x) for x in state)
    proj = run.proj
    seen = {(s.name, m.name) for s in proj for m in s} | {("E", "")}
    ctx.check(seen == set(view), "view", f"the loaded project has {sorted(seen)} expected {sorted(view)}")
    confs = run.confs
    where = {}
    for base, dirs, files in os.walk(str(run.root / "evals")):
        if files:
            rel = Path(base).relative_to(run.root / "evals").parts
            where[(rel[0], rel[2], rel[1])] = base
    ctx.require(set(where) == set(evals), "evals-present", f"{sorted(where)} expected {sorted(evals)}")
    for key in evals:
        content, conf = evals[key].split("@")
        got = spectra_content(P.get_meas_evals_path(run.root, key[0], key[1], key[2]))
        ctx.check(got == canon.evals(content, key[0], key[1], conf), "evals-content", f"evaluated spectra of {key} are not those of {content}")
    n_files = sum(len(f) for _, _, f in os.walk(str(run.root / "results")))
    ctx.check(n_files == len(sols), "results-present", f"{n_files} files expected {sorted(map(str, sols))}")
    for op in OPS:
        if op[0] != "tf":
            continue
        _, conf, fs, out, inn, cross, postfix = op
        name = (out, conf_name(conf), fs, conf, postfix)
        tf = confs[conf].tf

        def get():
            return L.get_solution(run.env("two" if conf == "one" else "one"), out, conf_name(conf), fs, tf.name, tf.variation, postfix)

        if name not in sols:
            ctx.refuses(get, "get-missing", f"a solution {name} was returned, none was estimated")
        else:
            got = get()
            ctx.check(solution_content(got) == canon.solution(sols[name]), "get-latest", f"get_solution {name} is not the latest estimate {sols[name]}")


def judge(ctx, run, canon, state, op):
    res = model_step(state, op)
    if res is None:
        return False
    nxt, expected = res
    before = tree(run.root)
    proj_before = run.proj.json()
    kept = run.proj
    try:
        value = run.apply(op)
        outcome = "ok"
    except Exception as e:
        value = e
        outcome = "refused"
    ctx.transitions += 1
    ctx.traces += 1
    ctx.outcome((op[0], outcome))
    ctx.require(outcome == expected, "outcome", f"{op}: {outcome} ({value!r}) expected {expected}")
    after = tree(run.root)
    allowed = own_paths(op, run.root)
    changed = [p for p in set(before) | set(after) if before.get(p, 0) != after.get(p, 0)]
    outside = [p for p in changed if not inside(p, allowed)]
    ctx.check(not outside, "wrote-elsewhere", f"{op} changed {outside}")
    if outcome == "refused" or op[0] in ("load", "new"):
        ctx.check(not changed, "refused-changed", f"{op} ({outcome}) changed {changed}")
    if op[0] == "tf" and outcome == "ok":
        files = [p for p in changed if not p.endswith("/")]
        ctx.check(len(files) == 1, "one-solution-file", f"{op} changed {files}")
        name = (op[3], conf_name(op[1]), op[2], op[1], op[6])
        want = canon.solution(dict(nxt[3])[name])
        ctx.check(solution_content(value) == want, "solution-content", f"{op} returned another estimate than in a pristine project")
    if op[0] == "new":
        ctx.check(isinstance(value, ProjectCreateError), "new-refused", f"{value!r}")
    if op[0] == "time" and outcome == "ok":
        td = T.TimeReaderNumpy().run(P.get_meas_time_path(run.root, op[3], op[4]))
        content = dict(nxt[0])[(op[3], op[4])]
        got = (np.array(td.data).tobytes(), td.metadata.first_time.isoformat(), td.metadata.last_time.isoformat(), td.metadata.fs, tuple(td.metadata.chans))
        ctx.check(got == canon.raw(content), "time-content", f"{op} wrote {td.metadata.n_samples} samples from {td.metadata.first_time.isoformat()}")
        del td
    if op[0] != "load":
        ctx.check(run.proj is kept and kept.json() == proj_before, "environment-changed", f"{op} changed the loaded project")
    conform(ctx, run, canon, nxt, True)
    return True


def restore(saved, root):
    shutil.rmtree(str(root))
    copy_tree(saved, root)


def job_states(job, ctx):
    states = explore(ctx.tier)
    ops = QUICK_OPS if ctx.tier == "quick" else OPS
    canon = Canon(ctx)
    mine = [x for i, x in enumerate(states) if i % job["of"] == job["part"]]
    for state, path in mine:
        ctx.state(tuple(sorted(map(str, x)) for x in state))
        base = ctx.scratch()

        def realise():
            run = Run(base, RAW0)
            for op in path:
                try:
                    run.apply(op)
                except Exception:
                    ctx.outcome("refused on the way")
            conform(ctx, run, canon, state, True)
            return run

        run = ctx.case({"job": {"kind": "states", "part": 0, "of": 1}, "path": path}, realise)
        if run is None:
            ctx.drop(base)
            continue
        saved = base / "saved"
        copy_tree(run.root, saved)
        proj = run.proj
        for op in ops:
            res = model_step(state, op)
            if res is None:
                continue
            ctx.case({"job": job, "path": path, "op": op}, judge, ctx, run, canon, state, op)
            ctx.state(tuple(sorted(map(str, x)) for x in res[0]))
            restore(saved, run.root)
            run.proj = proj
        ctx.drop(base)


def job_create(job, ctx):
    """Creating projects where something already is"""
    def make(root, what):
        if what == "absent":
            return
        if what == "deep":
            return
        if what == "file":
            root.parent.mkdir(parents=True, exist_ok=True)
            root.write_text("a file")
            return
        root.mkdir(parents=True)
        if what == "data":
            write_measurement(root, "A", "m1", content_data("A/m1"))
            (root / "readme").write_text("x")
        if what == "dirs":
            for d in ("evals", "results", "images"):
                (root / d / "sub").mkdir(parents=True)
                (root / d / "sub" / "f").write_text(d)
        if what in ("project", "damaged", "bare"):
            if what == "project":
                L.new(root, dict(ref_time="2020-01-01", location="old"))
                write_measurement(root, "A", "m1", content_data("A/m1"))
            else:
                (root / "resistics.json").write_text("{" if what == "damaged" else "")

    def one(what, as_text, info):
        base = ctx.scratch()
        root = base / "a" / "b" / "p" if what == "deep" else base / "p"
        make(root, what)
        other = base / "other"
        other.mkdir()
        (other / "f").write_text("f")
        before = tree(base)
        keep = dict(info)
        try:
            ok = L.new(str(root) if as_text else root, info)
            outcome = "ok"
        except Exception as e:
            outcome = "refused"
        after = tree(base)
        ctx.check(info == keep, "info-changed", "")
        good = "ref_time" in info and what not in ("file", "project", "damaged", "bare")
        ctx.require((outcome == "ok") == good, "create-outcome", f"{what}: {outcome}")
        for p, v in before.items():
            ctx.check(after.get(p, 0) == v, "create-changed", f"{what}: {p} changed")
        if outcome == "ok":
            ctx.check(ok is True, "create-returns", f"{ok!r}")
            env = L.load(root)
            md = env.proj.metadata
            ctx.check(md.location == info.get("location", "") and md.year == info.get("year", -999) and md.contributors == info.get("contributors", [])
                      and md.ref_time.isoformat()[:19] == "2021-01-01T00:00:00", "create-metadata", f"{md}")
            for d in P.PROJ_DIRS.values():
                ctx.check((root / d).is_dir(), "create-dirs", d)
            ctx.check([s.name for s in env.proj] == (["A"] if what == "data" else []), "create-sites", "")
            mid = tree(base)
            ctx.refuses(lambda: L.new(root, info), "create-again-refused", "created again", exc=ProjectCreateError)
            ctx.check(tree(base) == mid, "create-again-changed", "")
        else:
            if what not in ("absent", "deep", "data", "dirs", "empty"):
                ctx.check(before == after, "create-refused-changed", f"{what}")
        ctx.drop(base)

    for what in ("absent", "deep", "empty", "file", "data", "dirs", "project", "damaged", "bare"):
        for as_text in (False, True):
            for info in (dict(ref_time="2021-01-01"), dict(ref_time="2021-01-01 00:00:00", location="l", year=2020, contributors=["a", "b"]), dict(location="no time")):
                ctx.case({"job": job, "what": what, "text": as_text, "info": str(info)}, one, what, as_text, info)


def job_roles(job, ctx):
    """Every combination of site roles, postfix and configuration (also one that differs in its solver only): each
    estimate goes to the file of its name and is what is fetched under that name until the next one"""
    base = ctx.scratch()
    run = Run(base, RAW0)
    for site, meas in (("A", "m1"), ("A", "m2"), ("B", "m1")):
        run.apply(("evals", site, meas, "one"))
    run.confs["one-s"] = run.confs["one"].copy(update={"solver": Doubled(n_jobs=1)})
    out = job["out"]
    every = list(itertools.product(("one", "one-v", "one-s"), (None, "A", "B"), (None, "A", "B"), (None, "", "rr", "A")))
    if job["first"]:
        every.reverse()
    known, tensors = {}, {}

    def one(conf, inn, cross, postfix):
        before = tree(run.root)
        solution = run.apply(("tf", conf, 64.0, out, inn, cross, postfix))
        after = tree(run.root)
        tf = run.confs[conf].tf
        name = (tf.variation, postfix)
        files = [p for p in set(before) | set(after) if before.get(p, 0) != after.get(p, 0) and not p.endswith("/")]
        new = [p for p in files if p not in before]
        if name not in known:
            ctx.check(len(files) == 1 and new == files, "roles-own-file", f"changed {files}")
            known[name] = [files[0] if files else None, None, None]
        ctx.check(set(files) <= {known[name][0]}, "roles-other-file", f"{name} changed {files}, its file is {known[name][0]}")
        ctx.check(len({v[0] for v in known.values()}) == len(known), "roles-shared-file", f"{known}")
        known[name][1] = solution_content(solution)
        roles = {k: getattr(v, "site_name", None) for k, v in solution.contributors.items()}
        ctx.check(roles == {"out_data": out, "in_data": inn or out, "cross_data": cross or inn or out}, "roles-contributors", f"{roles}")
        found = {k: c.to_numpy() for k, c in solution.components.items()}
        times = 2 if conf == "one-s" else 1
        same = tensors.setdefault((tf.variation, inn or out, cross or inn or out), {k: v / times for k, v in found.items()})
        ctx.check(set(same) == set(found) and all(np.allclose(found[k], times * same[k]) for k in found), "roles-estimate", "not the estimate of these sites and this solver")
        for (variation, post), (_, content, _) in known.items():
            got = L.get_solution(run.env("one"), out, "one", 64.0, tf.name, variation, post)
            ctx.check(solution_content(got) == content, "roles-latest", f"{(variation, post)} is not the latest estimate after {name}")
        ctx.transitions += 1

    for conf, inn, cross, postfix in every:
        ctx.case({"job": job, "conf": conf, "in": inn, "cross": cross, "postfix": postfix}, one, conf, inn, cross, postfix)
        ctx.nontriv((conf, inn, cross, postfix))
    ctx.drop(base)


def job_names(job, ctx):
    """No two solutions share a file"""
    fss = [64.0, 0.1, 128.5, 1 / 3, 0.333333, 12.0, 1.2, 1e-7, 2e-7]
    names = ["Tipper", "TIPPER", "Tip", "Tip_a"]
    variations = ["", "a", "a b", "a_b", "A", "ab"]
    postfixes = [None, "", "a", "b", "a_b", "b_a"]
    seen = {}
    for key in itertools.product(fss, names, variations, postfixes):
        ctx.case({"job": job, "name": str(key)}, lambda: seen.setdefault(P.get_solution_name(key[0], key[1], key[2], key[3]), []).append(key))
    for fname, keys in seen.items():
        for a, b in itertools.combinations(keys, 2):
            reasons = set()
            if a[0] != b[0]:
                reasons.add("fs" if round(a[0] * 10**6) == round(b[0] * 10**6) else "other")
            if a[1] != b[1] and a[1].lower() == b[1].lower():
                reasons.add("case")
            if a[2] != b[2] and a[2].replace(" ", "_") == b[2].replace(" ", "_"):
                reasons.add("space")
            parts = [[x for x in (k[1].lower(), k[2].replace(" ", "_"), k[3]) if x is not None] for k in (a, b)]
            if parts[0] != parts[1]:
                whole = ["_".join([x for i, x in enumerate(p) if x or i == 2]) for p in parts]
                reasons.add("joined" if whole[0] == whole[1] else "other")
            if len(reasons) > 1 and "other" not in reasons:
                continue  # follows from collisions for each single reason
            kind = "other" if "other" in reasons or not reasons else reasons.pop()
            ctx.fail("solution-names-" + kind, f"{a} and {b} are both written to {fname}", {"job": job, "names": [str(a), str(b)]})
    def paths(root, site, conf, meas):
        """Where everything belongs, each in its own place"""
        root = Path(root)
        every = {
            "time": P.get_meas_time_path(root, site, meas), "spectra": P.get_meas_spectra_path(root, site, meas, conf),
            "evals": P.get_meas_evals_path(root, site, meas, conf), "features": P.get_meas_features_path(root, site, meas, conf),
            "masks": P.get_mask_path(root, site, conf), "results": P.get_results_path(root, site, conf), "calibrate": P.get_calibration_path(root),
        }
        for where, got in every.items():
            want = {"time": (site, meas), "masks": (site, conf), "results": (site, conf), "calibrate": ()}.get(where, (site, conf, meas))
            ctx.check(Path(got) == root.joinpath(where, *want), "paths", f"{where}: {got}")

    for site, conf, meas in itertools.product(["A", "site 1", "evals"], ["one", "c.2"], ["m", "m_1.x", "A"]):
        for root in ("/p", "rel/p 1"):
            ctx.case({"job": job, "paths": [root, site, conf, meas]}, paths, root, site, conf, meas)
    for fs, name in itertools.product(fss, ["m", "a b"]):
        ctx.case({"job": job, "mask": [fs, name]}, lambda: ctx.check(P.get_mask_name(fs, name).endswith(f"_{name}.dat"), "paths", "mask name"))
    for fs in fss:
        for name in ("Tipper", "ImpedanceTensor"):
            ctx.check(P.get_solution_name(fs, name, "x").endswith(".json"), "solution-names-json", "")
