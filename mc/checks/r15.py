"""R15 refused or interrupted writes never pass for good data"""
import itertools
import os
import shutil
import signal
import sys
import warnings

import numpy as np

from build import T0, snapshot, time_data, time_metadata
from checks.r14 import READERS, WRITERS, arr, arrays_of, make, meta_dict

import resistics.letsgo as L
import resistics.time as T
from resistics.config import Configuration
from resistics.project import PROJ_DIRS, PROJ_FILE, ProjectMetadata

ID = "R15"
LEVEL = "fault_enumeration"
RULE = (
    "for every writer x data set into a new directory: every file operation made to fail (found and injected with an audit "
    "hook), every file size limit (RLIMIT_FSIZE) from nothing to the whole, and every crash point: the directory as found "
    "before each file operation with the file being written cut at every byte; after each the directory is read, data "
    "and metadata only, and must fail or be complete; every writer with overwrite=False on every kind of existing "
    "directory; projects with a damaged measurement at every position; non-trivial: distinct fault points"
)
ASSUMPTIONS = [
    "a crash leaves a prefix of the file being written, files closed before are complete",
    "interrupted overwriting of existing data is not covered by the guarantee",
    "the npz container is written front to back, its directory last (zip format)",
]
KINDS = [("time", 0), ("time", 1), ("ascii", 0), ("ascii", 1), ("dec", 0), ("dec", 1), ("win", 0), ("win", 1), ("spec", 0), ("spec", 1)]

_hook = {"on": False, "root": None, "fail_at": None, "count": 0, "snaps": None, "armed": False}


def _audit(event, args):
    if not _hook["on"] or event != "open":
        return
    path = args[0]
    if not isinstance(path, (str, bytes, os.PathLike)):
        return
    path = os.fsdecode(os.fspath(path)) if not isinstance(path, str) else path
    if not path.startswith(_hook["root"]):
        return
    _hook["on"] = False
    try:
        _hook["count"] += 1
        if _hook["snaps"] is not None:
            _hook["snaps"].append(listing(_hook["root"]))
        if _hook["fail_at"] == _hook["count"]:
            raise OSError(28, "No space left on device", path)
    finally:
        _hook["on"] = True


def hooked(root, fn, fail_at=None, snaps=None):
    """Run fn with file opens below root observed and the n-th made to fail"""
    if not _hook["armed"]:
        sys.addaudithook(_audit)
        _hook["armed"] = True
    _hook.update(root=str(root), fail_at=fail_at, count=0, snaps=snaps, on=True)
    try:
        return fn()
    finally:
        _hook["on"] = False


def listing(root):
    out = {}
    for base, dirs, files in os.walk(str(root)):
        rel = os.path.relpath(base, str(root))
        for f in files:
            with open(os.path.join(base, f), "rb") as h:
                out[os.path.normpath(os.path.join(rel, f))] = h.read()
        for d in dirs:
            out.setdefault(os.path.normpath(os.path.join(rel, d)) + "/", None)
    return out


def restore(root, state):
    shutil.rmtree(str(root), ignore_errors=True)
    os.makedirs(str(root))
    for name, data in state.items():
        p = os.path.join(str(root), name)
        if data is None:
            os.makedirs(p, exist_ok=True)
            continue
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data)


def BOUNDS(tier):
    return {"writers": len(KINDS), "cut": "every byte" if tier == "thorough" else "every byte of small files, every 7th of others and each of the last 64"}


def jobs(tier):
    for kind, v in KINDS:
        for part in range(4):
            yield {"kind": "crash", "what": kind, "variant": v, "part": part}
        yield {"kind": "errors", "what": kind, "variant": v}
    for kind in WRITERS:
        yield {"kind": "refused", "what": kind}
    for n in (1, 2, 3):
        yield {"kind": "project", "n": n}


def run_job(job, ctx):
    warnings.simplefilter("ignore")
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    globals()["job_" + job["kind"]](job, ctx)


def complete(ctx, kind, obj, out, key):
    """out, read from an interrupted write, must be all of obj"""
    want, got = arrays_of(obj), arrays_of(out)
    ok = sorted(want) == sorted(got)
    for k in want:
        if not ok:
            break
        if kind == "ascii":
            ok = got[k].shape == want[k].shape and bool(np.allclose(got[k], want[k], rtol=1e-6, atol=1e-6, equal_nan=True))
        else:
            ok = got[k].shape == want[k].shape and got[k].dtype == want[k].dtype and got[k].tobytes() == np.ascontiguousarray(want[k]).tobytes()
    ctx.check(ok, key, lambda: f"partial data read: {[(k, v.shape) for k, v in got.items()]} of {[(k, v.shape) for k, v in want.items()]}")
    a, b = meta_dict(obj.metadata)[0], meta_dict(out.metadata)[0]
    for x in (a, b):
        x.pop("last_time")
    ctx.check(a == b, key + "-metadata", "metadata differ")


def read_all(ctx, kind, obj, root, key, label):
    """Reading fails or gives everything; metadata must not be there without the data"""
    try:
        out = READERS[kind]().run(root / "data")
    except Exception:
        whole = False
    else:
        whole = True
        complete(ctx, kind, obj, out, key)
    try:
        READERS[kind]().run(root / "data", metadata_only=True)
    except Exception:
        pass
    else:
        ctx.check(whole, key + "-metadata-only", "metadata can be read but the data are not complete")
    ctx.outcome((label, whole))
    return whole


def cuts(tier, old, new):
    n = len(new)
    first = len(old) if old is not None and new.startswith(old) else 0
    if tier == "thorough" or n < 700:
        return range(first, n)
    return sorted(set(range(first, n, 7)) | set(range(max(first, n - 64), n)))


def job_crash(job, ctx):
    kind, obj = job["what"], make("time" if job["what"] == "ascii" else job["what"], job["variant"])
    root = ctx.scratch()
    snaps = []
    hooked(root, lambda: WRITERS[kind]().run(root / "data", obj), snaps=snaps)
    snaps.append(listing(root))
    ctx.require(snaps[-1].keys() and read_all(ctx, kind, obj, root, "crash", "end"), "crash-write", "nothing complete was written")
    states = []
    for before, after in zip([{}] + snaps[:-1], snaps):
        states.append((before, None, None))
        for name, data in sorted(after.items()):
            if data is None or before.get(name) == data:
                continue
            for cut in cuts(ctx.tier, before.get(name), data):
                states.append((before, name, data[:cut]))
    work = ctx.scratch()

    def one(before, name, data):
        state = dict(before)
        if name is not None:
            state[name] = data
        restore(work, state)
        read_all(ctx, kind, obj, work, "crash", (kind, name))
        ctx.transitions += 1

    for i, (before, name, data) in enumerate(states):
        if i % 4 == job["part"]:
            case = {"job": job, "files": sorted(before), "cut": name, "bytes": None if data is None else len(data)}
            ctx.case(case, one, before, name, data)


def job_errors(job, ctx):
    import resource

    kind, obj = job["what"], make("time" if job["what"] == "ascii" else job["what"], job["variant"])
    before = snapshot(obj)
    ref = ctx.scratch()
    hooked(ref, lambda: WRITERS[kind]().run(ref / "data", obj))
    n_ops = _hook["count"]
    ctx.require(n_ops >= 2, "errors-operations", f"only {n_ops} file operations seen")

    def op(i):
        root = ctx.scratch()
        raised = False
        try:
            hooked(root, lambda: WRITERS[kind]().run(root / "data", obj), fail_at=i)
        except Exception:
            raised = True
        whole = read_all(ctx, kind, obj, root, "errors", (kind, "op", i))
        ctx.check(raised or whole, "errors-swallowed", f"file operation {i} failed, the writer did not")
        ctx.check(snapshot(obj) == before, "errors-input", "data being written changed")
        # trying again succeeds
        WRITERS[kind]().run(root / "data", obj)
        ctx.check(read_all(ctx, kind, obj, root, "errors-retry", (kind, "retry")), "errors-retry", "writing again did not repair the directory")
        ctx.drop(root)

    for i in range(1, n_ops + 1):
        ctx.case({"job": job, "operation": i}, op, i)

    longest = max(len(x) for x in listing(ref).values() if x is not None)

    def limit(n):
        root = ctx.scratch()
        raised = False
        soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (n, hard))
        try:
            WRITERS[kind]().run(root / "data", obj)
        except Exception:
            raised = True
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        whole = read_all(ctx, kind, obj, root, "limit", (kind, "limit"))
        ctx.check(raised or whole, "limit-swallowed", f"files cut at {n} bytes without an error")
        ctx.drop(root)

    step = 1 if ctx.tier == "thorough" else 5
    for n in sorted(set(range(0, longest + 1, step)) | set(range(max(0, longest - 40), longest + 2))):
        ctx.case({"job": job, "limit": n}, limit, n)


def job_refused(job, ctx):
    kind = job["what"]
    src = "time" if kind == "ascii" else kind

    def one(existing, variant, extra):
        root = ctx.scratch()
        target = root / "a" / "data"
        target.mkdir(parents=True)
        if existing is not None:
            WRITERS[existing[0]]().run(target, make("time" if existing[0] == "ascii" else existing[0], existing[1]))
        if extra:
            (target / "notes.txt").write_text("mine")
            (target / "sub").mkdir()
            (target / "sub" / "data.npz").write_bytes(b"\x00\x01")
        state = listing(root)
        obj = make(src, variant)
        before = snapshot(obj)
        ctx.refuses(lambda: WRITERS[kind](overwrite=False).run(target, obj), "refused-not", f"existing {existing} extra {extra}")
        ctx.check(listing(root) == state, "refused-changed", "a refused write changed the directory")
        ctx.check(snapshot(obj) == before, "refused-input", "data changed")
        # a new directory is fine, and only that is created
        WRITERS[kind](overwrite=False).run(root / "b", obj)
        complete(ctx, kind, obj, READERS[kind]().run(root / "b"), "refused-new")
        after = {k: v for k, v in listing(root).items() if not k.startswith("b")}
        ctx.check(after == state, "refused-new-changed", "")
        # writing with overwrite keeps what does not belong to it
        WRITERS[kind]().run(target, obj)
        complete(ctx, kind, obj, READERS[kind]().run(target), "refused-overwrite")
        now = listing(root)
        for k, v in state.items():
            if extra and ("notes" in k or "sub" in k):
                ctx.check(now.get(k, "gone") == v, "overwrite-others", f"{k} changed")
        ctx.drop(root)

    for existing in [None] + KINDS:
        for variant in (0, 1):
            for extra in (False, True):
                ctx.case({"job": job, "existing": existing, "variant": variant, "extra": extra}, one, existing, variant, extra)

    def is_file():
        root = ctx.scratch()
        (root / "data").write_text("a file")
        for overwrite in (False, True):
            ctx.refuses(lambda: WRITERS[kind](overwrite=overwrite).run(root / "data", make(src, 0)), "refused-file", "wrote over a file")
            ctx.check((root / "data").read_text() == "a file", "refused-file-changed", "")

    ctx.case({"job": job, "existing": "a file"}, is_file)


def project(ctx, sites):
    """sites: name -> {measurement: TimeData}"""
    root = ctx.scratch() / "proj"
    L.new(root, {"ref_time": "2021-01-01 00:00:00"})
    for site, meas in sites.items():
        for name, data in meas.items():
            T.TimeWriterNumpy().run(root / PROJ_DIRS["time"] / site / name, data)
    return root


DAMAGE = ["empty", "no-metadata", "no-data", "metadata-cut", "metadata-empty", "metadata-other", "metadata-list",
          "renamed-data", "binary-metadata", "metadata-directory"]


def damage(d, how):
    meta = d / "metadata.json"
    if how == "empty":
        for p in d.iterdir():
            p.unlink()
    elif how == "no-metadata":
        meta.unlink()
    elif how == "no-data":
        (d / "data.npy").unlink()
    elif how == "metadata-cut":
        text = meta.read_text()
        meta.write_text(text[: len(text) // 2])
    elif how == "metadata-empty":
        meta.write_text("")
    elif how == "metadata-other":
        meta.write_text('{"fs": 10.0, "name": "x"}')
    elif how == "metadata-list":
        meta.write_text("[1, 2, 3]")
    elif how == "renamed-data":
        (d / "data.npy").rename(d / "data.npy.part")
    elif how == "binary-metadata":
        meta.write_bytes(bytes(range(256)))
    else:
        meta.unlink()
        meta.mkdir()


def job_project(job, ctx):
    n = job["n"]

    def one(where, hows):
        sites = {s: {f"m{i}": time_data(16.0, arr((2, 12), "float32", i + 7), ["Ex", "Hy"], T0) for i in range(n)} for s in ("s1", "s2")}
        root = project(ctx, sites)
        for (site, meas), how in zip(where, hows):
            damage(root / PROJ_DIRS["time"] / site / meas, how)
        state = listing(root)
        env = L.load(root, Configuration(name="c"))
        for s in ("s1", "s2"):
            want = sorted(m for m in sites[s] if (s, m) not in where)
            ctx.require(s in env.proj.sites, "project-site", f"site {s} lost")
            got = sorted(env.proj[s].measurements)
            ctx.check(got == want, "project-measurements", f"site {s}: {got} expected {want}")
            for m in want:
                meas = env.proj[s][m]
                out = meas.reader.run(meas.dir_path, metadata=meas.metadata)
                complete(ctx, "time", sites[s][m], out, "project-data")
        ctx.check(listing(root) == state, "project-changed", "loading changed files")
        ctx.drop(root.parent)

    slots = [(s, f"m{i}") for s in ("s1", "s2") for i in range(n)]
    for slot in slots:
        for how in DAMAGE:
            ctx.case({"job": job, "damaged": slot, "how": how}, one, [slot], [how])
    for a, b in itertools.combinations(slots, 2):
        for how in DAMAGE:
            other = DAMAGE[(DAMAGE.index(how) + 3) % len(DAMAGE)]
            ctx.case({"job": job, "damaged": [a, b], "how": [how, other]}, one, [a, b], [how, other])

    def interrupted(slot, cut_at):
        """A measurement left by a write cut short by the file size limit"""
        import resource

        sites = {s: {f"m{i}": time_data(16.0, arr((2, 12), "float32", i + 7), ["Ex", "Hy"], T0) for i in range(n) if (s, f"m{i}") != slot} for s in ("s1", "s2")}
        root = project(ctx, sites)
        target = root / PROJ_DIRS["time"] / slot[0] / slot[1]
        full = time_data(16.0, arr((2, 12), "float32", 3), ["Ex", "Hy"], T0)
        soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (cut_at, hard))
        try:
            T.TimeWriterNumpy().run(target, full)
        except Exception:
            pass
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        env = L.load(root, Configuration(name="c"))
        for s in ("s1", "s2"):
            got = {k: v for k, v in env.proj[s].measurements.items()} if s in env.proj.sites else {}
            want = sorted(sites[s])
            ctx.check(sorted(k for k in got if (s, k) != slot) == want, "interrupted-measurements", f"{s}: {sorted(got)} expected {want}")
            if slot[0] == s and slot[1] in got:
                out = got[slot[1]].reader.run(target, metadata=got[slot[1]].metadata)
                complete(ctx, "time", full, out, "interrupted-data")
        ctx.drop(root.parent)

    for slot in slots:
        for cut_at in range(0, 2600, 50 if ctx.tier == "quick" else 7):
            ctx.case({"job": job, "interrupted": slot, "bytes": cut_at}, interrupted, slot, cut_at)
