"""R24 transfer functions: definitions, printed tensors and derived quantities"""
import cmath
import itertools
import math
import warnings
from fractions import Fraction

import numpy as np

from resistics.transfunc import Component, ImpedanceTensor, Tipper, TransferFunction, get_component_key
import resistics.regression as R
from resistics.common import History

ID = "R24"
LEVEL = "exploration"
RULE = (
    "every number (1..4) and length of output, input and cross channel names x class x given or default fields: counts, "
    "keys and the printed tensor against a reference layout; every sequence of up to four tensor values over a polar grid "
    "(magnitudes x angles around the circle, including the exact axes and half turns) x component x frequencies: "
    "resistivity, phase, tipper length and angles, through the functions, the figures and solutions, against their "
    "definitions; non-trivial: distinct (definition) and (values, frequencies)"
)
ASSUMPTIONS = [
    "phases are continuous over the frequencies given (steps of half a turn or more are shortened by full turns); a step of exactly half a turn may go either way",
    "phases of the components with output Ex are turned by half a turn into [-180, 180), as documented for plots",
]
OUTS = ["Ex", "a", "Hz_remote", "E2"]
INS = ["Hx", "by", "longer name", "q"]


def BOUNDS(tier):
    return {"channels": 4, "angles": len(angles(tier)), "sequence": 3, "magnitudes": MAGS}


MAGS = [1e-3, 1.0, 50.0]


def angles(tier):
    return list(range(-180, 181, 30 if tier == "quick" else 15)) + [-179.5, 44.9, 0.25]


def jobs(tier):
    yield {"kind": "define"}
    yield {"kind": "tipper"}
    for comp in ("ExHy", "EyHx", "ExHx", "EyHy"):
        for first in range(len(angles(tier))):
            yield {"kind": "phase", "comp": comp, "first": first}
    yield {"kind": "solution"}
    for part in range(5):
        yield {"kind": "figures", "part": part}


def run_job(job, ctx):
    warnings.simplefilter("ignore")
    globals()["job_" + job["kind"]](job, ctx)


def layout(outs, ins):
    """The tensor equation as documented: | out | = | components | | in |"""
    width = max(len(x) for x in outs + ins)
    n = max(len(outs), len(ins))
    lines = []
    for i in range(n):
        left = "| " + outs[i].ljust(width) + " |" if i < len(outs) else " " * (width + 4)
        if i < len(outs):
            mid = "| " + "".join((f"{outs[i]}_{c}".ljust(2 * width + 1) + " ") for c in ins) + "|"
        else:
            mid = " " * ((2 * width + 2) * len(ins) + 3)
        right = "| " + ins[i].ljust(width) + " |" if i < len(ins) else ""
        lines.append(f"{left} {'=' if i == (n - 1) // 2 else ' '} {mid} {right}")
    return "\n".join(lines)


def job_define(job, ctx):
    def one(cls, outs, ins, cross, counts):
        args = {}
        if outs is not None:
            args["out_chans"] = list(outs)
        if ins is not None:
            args["in_chans"] = list(ins)
        if cross is not None:
            args["cross_chans"] = list(cross)
        o = outs or {"ImpedanceTensor": ["Ex", "Ey"], "Tipper": ["Hz"]}.get(cls.__name__)
        i = ins or ["Hx", "Hy"]
        c = cross or i
        if counts:
            args.update(n_out=len(o), n_in=len(i), n_cross=len(c))
        tf = cls(**args)
        ctx.check(tf.name == cls.__name__, "name", f"{tf.name}")
        ctx.check(tf.variation == ("generic" if cls is TransferFunction else "default"), "variation", f"{tf.variation}")
        ctx.check(tf.out_chans == list(o) and tf.in_chans == list(i), "chans", f"{tf.dict()}")
        ctx.check(tf.cross_chans == list(c), "cross", f"{tf.cross_chans} expected {c}")
        ctx.check((tf.n_out, tf.n_in, tf.n_cross) == (len(o), len(i), len(c)), "counts", f"{tf.dict()}")
        ctx.check(tf.n_eqns_per_output() == len(c) and tf.n_regressors() == len(i), "sizes", f"{tf.n_eqns_per_output()} {tf.n_regressors()}")
        want = layout(list(o), list(i))
        got = tf.to_string()
        trim = lambda x: [line.rstrip() for line in x.split("\n")]
        ctx.check(trim(got) == trim(want), "printed", f"\n{got}\nexpected\n{want}")
        ctx.check(str(tf) == got, "printed-str", "")
        other = cls(**args)
        other.cross_chans.append("more")
        ctx.check(tf.cross_chans == list(c) and cls(**args).cross_chans == list(c) and other.in_chans == list(i), "cross-shared",
                  f"changing the cross channels of one changed {tf.cross_chans} {other.in_chans}")

    for cls in (TransferFunction, ImpedanceTensor, Tipper):
        for no in ([None] if cls is not TransferFunction else []) + [1, 2, 3, 4]:
            for ni in ([None] if cls is not TransferFunction else []) + [1, 2, 3, 4]:
                for nc in (None, 1, 2, 3):
                    for shift in range(4):
                        for counts in (False, True):
                            outs = None if no is None else (OUTS[shift:] + OUTS[:shift])[:no]
                            ins = None if ni is None else (INS[-shift:] + INS[:-shift])[:ni]
                            cross = None if nc is None else ["R1", "R2", "R3"][:nc]
                            ctx.case({"cls": cls.__name__, "out": outs, "in": ins, "cross": cross, "counts": counts}, one, cls, outs, ins, cross, counts)

    def keys(o, i):
        ctx.check(get_component_key(o, i) == o + i, "key", f"{get_component_key(o, i)}")

    for o in OUTS:
        for i in INS:
            ctx.case({"key": [o, i]}, keys, o, i)
    for name in ("v" * 16, "v" * 17, ""):
        def chk():
            if len(name) > 16:
                ctx.refuses(lambda: ImpedanceTensor(variation=name), "variation-long", f"{name}", ValueError)
            else:
                ctx.check(ImpedanceTensor(variation=name).variation == name, "variation", name)
        ctx.case({"variation": name}, chk)


def component(values):
    return Component(real=[float(z.real) for z in values], imag=[float(z.imag) for z in values])


def check_phase(ctx, got, values, comp, key):
    got = np.asarray(got, dtype=float)
    ctx.require(got.shape == (len(values),), key + "-shape", f"{got.shape}")
    raw = [math.degrees(cmath.phase(z)) for z in values]
    if comp.startswith("Ex"):
        for g, r in zip(got, raw):
            turn = (g - r - 180) / 360
            ctx.check(abs(turn - round(turn)) < 1e-9 and -180 - 1e-9 <= g < 180 + 1e-9, key, f"{comp}: {g} for a value at {r} degrees")
        return
    ctx.check(abs(got[0] - raw[0]) < 1e-9, key, f"{comp}: {got[0]} for a first value at {raw[0]} degrees")
    for k in range(len(raw)):
        turn = (got[k] - raw[k]) / 360
        ctx.check(abs(turn - round(turn)) < 1e-9, key, f"{comp}: {got[k]} for a value at {raw[k]} degrees")
        if k:
            ctx.check(abs(got[k] - got[k - 1]) <= 180 + 1e-6, key + "-continuous", f"{comp}: step from {got[k - 1]} to {got[k]}")


def check_resistivity(ctx, got, freqs, values, key):
    want = [0.2 * float(1 / Fraction(f)) * (z.real**2 + z.imag**2) for f, z in zip(freqs, values)]
    ctx.check(np.allclose(np.asarray(got, float), want, rtol=1e-9, atol=0), key, f"{got} expected {want}")


def polar(mag, deg):
    exact = {0: 1, 90: 1j, 180: -1, -90: -1j}
    return complex(mag * exact[deg]) if deg in exact else cmath.rect(mag, math.radians(deg))


def job_phase(job, ctx):
    comp = job["comp"]
    angs = angles(ctx.tier)

    def one(degs, mags, freqs):
        values = [polar(m, d) for m, d in zip(mags, degs)]
        part = component(values)
        for k, z in enumerate(values):
            ctx.check(part.get_value(k) == z, "value", f"{part.get_value(k)} {z}")
        ctx.check(np.array_equal(part.to_numpy(), np.array(values)) and part.to_numpy().dtype == np.complex128, "numpy", f"{part.to_numpy()}")
        periods = np.array([float(1 / Fraction(f)) for f in freqs])
        keep = part.dict()
        check_phase(ctx, ImpedanceTensor.get_phase(comp, part), values, comp, "phase")
        check_resistivity(ctx, ImpedanceTensor.get_resistivity(periods, part), freqs, values, "resistivity")
        ctx.check(part.dict() == keep, "component-changed", "")

    a = angs[job["first"]]
    for m in MAGS:
        ctx.case({"comp": comp, "degs": [a], "mag": m}, one, [a], [m], [7.0])
    for b in angs:
        for f in ([10.0, 0.5], [1 / 3, 100.0]):
            ctx.case({"comp": comp, "degs": [a, b], "freqs": f}, one, [a, b], [1.0, 3.0], f)
        for c in angs if ctx.tier == "thorough" else angs[job["first"] % 3 :: 3]:
            ctx.case({"comp": comp, "degs": [a, b, c]}, one, [a, b, c], [2.0, 1e-3, 40.0], [100.0, 1.0, 0.01])


GRID = [0.0, 1.0, -1.0, 0.25, -3.0, 1e-6]


def tipper_expect(xs, ys):
    def ang(x, y):
        if x == 0:
            return math.nan if y == 0 else 90.0
        return math.degrees(math.atan(y / x))

    length = [math.hypot(x.real, y.real) for x, y in zip(xs, ys)]
    real = [ang(x.real, y.real) for x, y in zip(xs, ys)]
    imag = [ang(x.imag, y.imag) for x, y in zip(xs, ys)]
    return length, real, imag


def angles_equal(got, want):
    got = np.asarray(got, float)
    if got.shape != (len(want),):
        return False
    for g, w in zip(got, want):
        if math.isnan(w):
            continue
        if abs(abs(w) - 90) < 1e-12 and abs(abs(g) - 90) < 1e-9:
            continue
        if not abs(g - w) < 1e-9:
            return False
    return True


def job_tipper(job, ctx):
    def one(xs, ys, freqs):
        parts = {"HzHx": component(xs), "HzHy": component(ys), "spare": component(ys)}
        tf = Tipper()
        length, real, imag = tipper_expect(xs, ys)
        ctx.check(np.allclose(tf.get_length(parts), length, rtol=1e-12, atol=1e-300), "length", f"{tf.get_length(parts)} expected {length}")
        ctx.check(angles_equal(tf.get_real_angle(parts), real), "real-angle", f"{tf.get_real_angle(parts)} expected {real}")
        ctx.check(angles_equal(tf.get_imag_angle(parts), imag), "imag-angle", f"{tf.get_imag_angle(parts)} expected {imag}")
        if freqs is None:
            return
        fig = tf.plot(freqs, parts)
        ctx.require(len(fig.data) == 3, "tipper-traces", f"{len(fig.data)}")
        periods = [float(1 / Fraction(f)) for f in freqs]
        for trace in fig.data:
            ctx.check(np.allclose(np.asarray(trace.x, float), periods, rtol=1e-12), "tipper-periods", f"{trace.x} for frequencies {freqs}")
        named = {t.name: np.asarray(t.y, float) for t in fig.data}
        ctx.check(set(named) == {"Tipper length", "Real angle", "Imag angle"}, "tipper-names", f"{sorted(named)}")
        ctx.check(np.allclose(named["Tipper length"], length, rtol=1e-12), "tipper-fig-length", f"{named}")
        ctx.check(angles_equal(named["Real angle"], real) and angles_equal(named["Imag angle"], imag), "tipper-fig-angles", f"{named}")

    for xr, xi, yr, yi in itertools.product(GRID, repeat=4):
        x, y = complex(xr, xi), complex(yr, yi)
        ctx.case({"x": str(x), "y": str(y)}, one, [x, y, complex(1, 2)], [y, x, complex(-2, 1)], None)
    for freqs in ([1], [10, 100, 1000], [2.5, 1 / 3], [0.001, 7, 4096]):
        n = len(freqs)
        for shift in range(5):
            xs = [complex(1 + k + shift, 2 - k) for k in range(n)]
            ys = [complex(0.5 - shift, 1.5 * k + 1) for k in range(n)]
            ctx.case({"freqs": freqs, "shift": shift}, one, xs, ys, freqs)


def job_solution(job, ctx):
    """Solutions answer with the right component, frequency and period"""
    def one(outs, ins, freqs):
        tf = TransferFunction(out_chans=list(outs), in_chans=list(ins))
        table = {o + i: [complex(100 * a + 10 * b + k, -(a + 1) * (k + 1) - b) for k in range(len(freqs))] for a, o in enumerate(outs) for b, i in enumerate(ins)}
        order = sorted(table, reverse=True)
        sol = R.Solution(tf=tf, freqs=freqs, components={k: component(table[k]) for k in order}, history=History(), contributors={})
        ctx.check(sol.n_freqs == len(freqs), "n_freqs", f"{sol.n_freqs}")
        ctx.check(sol.freqs == [float(f) for f in freqs], "freqs", f"{sol.freqs}")
        ctx.check(np.allclose(sol.periods, [float(1 / Fraction(f)) for f in freqs], rtol=1e-12, atol=0), "periods", f"{sol.periods} for {freqs}")
        for k, v in table.items():
            ctx.check(np.array_equal(sol[k], np.array(v)) and np.array_equal(sol.get_component(k), np.array(v)), "component", f"{k}: {sol[k]}")
        for bad in ("", "xx", outs[0], ins[0], ins[0] + outs[0]):
            if bad not in table:
                ctx.refuses(lambda: sol.get_component(bad), "component-refused", bad, ValueError)
                ctx.refuses(lambda: sol[bad], "component-refused", bad, ValueError)
        for bad in (0, None, ("Ex", "Hx"), ["ExHx"]):
            ctx.refuses(lambda: sol[bad], "subscript-refused", str(bad), ValueError)
        for k in range(len(freqs)):
            want = np.array([[table[o + i][k] for i in ins] for o in outs])
            got = sol.get_tensor(k)
            ctx.check(got.shape == want.shape and np.array_equal(got, want), "tensor", f"frequency {k}: {got} expected {want}")
        ctx.refuses(lambda: sol.get_tensor(len(freqs)), "tensor-refused", "beyond the last frequency")

    for no in range(1, 5):
        for ni in range(1, 5):
            for freqs in ([1], [10, 100], [0.5, 3.0, 1 / 3, 1000], list(range(1, 21))):
                ctx.case({"out": no, "in": ni, "freqs": freqs}, one, OUTS[:no], INS[:ni], freqs)
                ctx.case({"out": no, "in": ni, "freqs": freqs, "reversed": True}, one, OUTS[:no][::-1], INS[:ni][::-1], freqs)


def job_figures(job, ctx):
    """Impedance figures: right values in the right panel at the right periods"""
    comps = ["ExHy", "EyHx", "ExHx", "EyHy"]

    def one(freqs, to_plot, shift, legend, own):
        values = {c: [polar(10.0 ** (k % 3) * (j + 1), 37 * k + 90 * j + shift) for k in range(len(freqs))] for j, c in enumerate(comps)}
        parts = {c: component(v) for c, v in values.items()}
        fig = ImpedanceTensor.get_fig() if own else None
        out = ImpedanceTensor.plot(freqs, parts, fig=fig, to_plot=to_plot, **({} if legend is None else {"legend": legend}))
        ctx.check(not own or out is fig, "figure-new", "a new figure was returned")
        want = comps if to_plot is None else to_plot
        ctx.require(len(out.data) == 2 * len(want), "traces", f"{len(out.data)} for {want}")
        periods = [float(1 / Fraction(f)) for f in freqs]
        seen = []
        for t in out.data:
            comp = t.name.split(" - ")[1]
            ctx.check(t.name == f"{legend or 'Impedance tensor'} - {comp}", "legend", t.name)
            top = t.yaxis in (None, "y")
            seen.append((comp, top))
            ctx.check(np.allclose(np.asarray(t.x, float), periods, rtol=1e-12, atol=0), "periods", f"{t.x} for frequencies {freqs}")
            if top:
                check_resistivity(ctx, t.y, freqs, values[comp], "figure-resistivity")
            else:
                check_phase(ctx, t.y, values[comp], comp, "figure-phase")
        ctx.check(sorted(seen) == sorted((c, p) for c in want for p in (True, False)), "panels", f"{seen}")
        ctx.check([a.text for a in out.layout.annotations] == ["Apparent resistivity", "Phase"], "titles", "")

    for freqs in [([1], [100, 10, 1], [3.0], [0.001, 0.5, 3.0, 700.0], [1 / 3, 7])[job["part"]]]:
        for to_plot in [None] + [list(p) for r in ((1, 2) if ctx.tier == "quick" else (1, 2, 4)) for p in itertools.permutations(comps, r)]:
            for shift in (0, 200) if ctx.tier == "quick" else (0, 45, 200):
                for legend, own in ((None, False), ("mine", True)):
                    ctx.case({"freqs": freqs, "to_plot": to_plot, "shift": shift, "legend": legend}, one, freqs, to_plot, shift, legend, own)
