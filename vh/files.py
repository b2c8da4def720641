"""Texts of the model files generated from their specifications."""
import numpy as np
from hypothesis import strategies as st
from vh import gen

FORMATS = ["%.2f", "%.8f", "%.17g", "%g", "%.4e", "%+.3f", "%d"]
SEPARATORS = [" ", "  ", "\t", " \t ", "      "]
COMMENTS = ["", "#", "# comment", "   # indented 1 2 3", "   ", "#1 2 3 4 5", "# 1900.0 1905.0"]


def number(fmt, value):
    return fmt % value


def orders(degree):
    """orders of the degree in the usual sequence"""
    yield 0
    for m in range(1, degree + 1):
        yield m
        yield -m


@st.composite
def nm_rows(draw, lowest=1, highest=6, keep=True, shuffle=True):
    """degrees and orders of the rows: complete or not, in the usual or any order"""
    lo = draw(st.integers(lowest, min(lowest + 3, highest)))
    hi = draw(st.integers(lo, highest))
    nm = [[n, m] for n in range(lo, hi + 1) for m in orders(n)]
    if keep and draw(st.integers(0, 2)) == 0:
        nm = [v for v in nm if draw(st.integers(0, 3))] or nm[:1]
    if shuffle and draw(st.integers(0, 2)) == 0:
        nm = draw(st.permutations(nm))
    return nm


@st.composite
def shc_spec(draw, first=1990.0, last=2030.0, highest=6):
    count = draw(st.sampled_from([1, 1, 2, 2, 2, 2, 3, 3, 4, 4, 6, 6, 40]))
    year = st.one_of(st.integers(int(first), int(last)).map(float), gen.finite(first, last).map(lambda v: round(v, 8)),
                     st.integers(int(first) * 2, int(last) * 2).map(lambda v: v / 2))
    times = draw(st.lists(year, min_size=count, max_size=count, unique_by=lambda v: round(v * 20)))
    if draw(st.integers(0, 4)):
        times = sorted(times)
    spec = {"nm": draw(nm_rows(draw(st.sampled_from([0, 1, 1, 1, 2])), highest)), "times": times, "order": draw(st.sampled_from([1, 2, 2, 3, 4, 6])), "nstep": draw(st.integers(1, 6)),
            "seed": draw(gen.SEED), "format": draw(st.sampled_from(FORMATS)), "sep": draw(st.sampled_from(SEPARATORS)),
            "comments": draw(st.lists(st.sampled_from(COMMENTS), max_size=4)), "newline": draw(st.sampled_from(["\n", "\n", "\r\n"])),
            "trailer": draw(st.booleans()), "note": draw(st.sampled_from(["", "", " # note", "#x"]))}
    if draw(st.integers(0, 3)) == 0:
        spec["validity"] = sorted(draw(st.lists(year, min_size=2, max_size=2, unique=True)))
    return spec


def shc_values(spec):
    """values as they are written"""
    n = np.array(spec["nm"])[:, 0]
    values = gen.rng(spec["seed"]).normal(size=(len(n), len(spec["times"]))) * (3e4 * 0.6 ** n)[:, None]
    return np.array([[float(number(spec["format"], v)) for v in row] for row in gen.scatter(spec["seed"], values)])


def shc_lines(spec):
    values = shc_values(spec)
    n = [v[0] for v in spec["nm"]]
    header = [min(n), max(n), len(spec["times"]), spec["order"], spec["nstep"]]
    head = spec["sep"].join([str(v) for v in header] + [repr(v) for v in spec.get("validity", [])]) + spec["note"]
    lines = list(spec["comments"]) + [head, spec["sep"] + spec["sep"].join(repr(t) for t in spec["times"])]
    for (n, m), row in zip(spec["nm"], values):
        lines.append(spec["sep"].join([str(n), str(m)] + [number(spec["format"], v) for v in row]))
    return lines


def join(spec, lines):
    return spec.get("newline", "\n").join(lines) + ("" if spec.get("trailer") else spec.get("newline", "\n"))


def shc_text(spec):
    return join(spec, shc_lines(spec))


# ---------------------------------------------------------------------------

@st.composite
def mio_file_spec(draw, highest=4):
    smin, pmin = draw(st.integers(-3, 1)), draw(st.integers(-4, 1))
    return {"nm": draw(nm_rows(1, highest)), "ps": [pmin, pmin + draw(st.integers(0, 4)), smin, smin + draw(st.integers(0, 4))],
            "seed": draw(gen.SEED), "colat": draw(st.one_of(st.sampled_from([9.92, 0.0, 90.0]), gen.finite(0, 40), gen.finite(0, 180))),
            "lon": draw(st.one_of(st.sampled_from([287.78, 0.0, 180.0, 360.0, -72.22]), gen.finite(0, 360), gen.finite(-180, 180))),
            "height": draw(st.one_of(st.sampled_from([110.0, 110.0, 0.0]), gen.finite(50, 1000))),
            "wolf": draw(st.one_of(st.sampled_from([0.01485, 0.01485, 0.0, 0.02]), gen.finite(-0.05, 0.05))), "format": draw(st.sampled_from(["%.8e", "%.17g", "%.4f"])),
            "sep": draw(st.sampled_from(SEPARATORS)), "comments": draw(st.lists(st.sampled_from(COMMENTS), max_size=3)),
            "newline": draw(st.sampled_from(["\n", "\n", "\r\n"])), "trailer": draw(st.booleans())}


def mio_file_values(spec):
    """external (qs) and internal (gh) coefficients as they are written"""
    pmin, pmax, smin, smax = spec["ps"]
    shape = (2, len(spec["nm"]), smax - smin + 1, pmax - pmin + 1, 2)
    values = gen.rng(spec["seed"]).normal(size=shape) * 10
    return np.vectorize(lambda v: float(spec["format"] % v))(gen.scatter(spec["seed"], values))


def mio_lines(spec):
    values = mio_file_values(spec)
    n = [v[0] for v in spec["nm"]]
    m = [abs(v[1]) for v in spec["nm"]]
    header = [max(n), max(m)] + spec["ps"] + [repr(float(spec[k])) for k in ("colat", "lon", "height", "wolf")]
    lines = list(spec["comments"]) + [spec["sep"].join(str(v) for v in header)]
    for part in values:
        for (n, m), row in zip(spec["nm"], part):
            lines.append(spec["sep"].join([str(n), str(m)] + [spec["format"] % v for v in row.ravel()]))
    return lines


def mio_text(spec):
    return join(spec, mio_lines(spec))


# ---------------------------------------------------------------------------
# tables of g and h in the same row

@st.composite
def table(draw, highest=6, full=True):
    """rows of degrees and non-negative orders"""
    hi = draw(st.integers(1, highest))
    rows = [[n, m] for n in range(1, hi + 1) for m in range(n + 1)]
    if not full and draw(st.booleans()):
        rows = [v for v in rows if draw(st.integers(0, 3))] or rows[:1]
    return rows


EPOCHS = st.one_of(st.sampled_from([2010.0, 2015.0, 2020.0, 2000.0, 2012.0]), st.integers(1950, 2040).map(float), st.integers(3900, 4080).map(lambda v: v / 2))


@st.composite
def wmm_spec(draw):
    rows = draw(table(full=False))
    if draw(st.integers(0, 3)) == 0:
        rows = draw(st.permutations(rows))
    return {"epoch": draw(EPOCHS), "rows": rows, "seed": draw(gen.SEED), "zeros": draw(st.sampled_from([0.0, 0.3])),
            "format": draw(st.sampled_from(["%9.1f", "%.1f", "%.6f", "%.17g"])), "sep": draw(st.sampled_from(SEPARATORS)),
            "tail": draw(st.sampled_from(["nines", "two", "none", "text"])), "name": draw(st.sampled_from(["WMM-2015v2", "WMM", "X-1"])),
            "newline": draw(st.sampled_from(["\n", "\n", "\r\n"]))}


def written(spec, values):
    return np.vectorize(lambda v: float(spec["format"] % v))(values)


def wmm_values(spec):
    """g, h, dg, dh as they are written"""
    rows = np.array(spec["rows"])
    r = gen.rng(spec["seed"])
    values = r.normal(size=(len(rows), 4)) * [1e4, 1e4, 30, 30]
    values = gen.scatter(spec["seed"], values)
    values[r.random(values.shape) < spec["zeros"]] = 0.0
    values[rows[:, 1] == 0, 1::2] = 0.0
    values = written(spec, values)
    if not values[:, 0].any() and not values[:, 2].any():
        values[0, 0] = 100.0
    return values


def wmm_lines(spec):
    lines = [spec["sep"].join(["  %.1f" % spec["epoch"], spec["name"], "09/18/2018"])]
    for (n, m), row in zip(spec["rows"], wmm_values(spec)):
        lines.append("  " + spec["sep"].join([str(n), str(m)] + [spec["format"] % v for v in row]))
    lines += {"nines": ["9" * 48], "two": ["9" * 48] * 2, "none": [], "text": ["9" * 20, "any text 1 2 3", ""]}[spec["tail"]]
    return lines


@st.composite
def igrf_spec(draw):
    count = draw(st.one_of(st.integers(1, 5), st.integers(1, 5), st.integers(1, 5), st.just(26)))
    first = draw(st.sampled_from([1900, 1945, 1990, 2005]))
    rows = draw(nm_rows(1, 6))
    return {"times": [float(first + 5 * k) for k in range(count)], "nm": rows, "seed": draw(gen.SEED), "format": draw(st.sampled_from(["%d", "%.1f", "%7.2f", "%.17g"])),
            "sep": draw(st.sampled_from(SEPARATORS)), "comments": draw(st.lists(st.sampled_from(COMMENTS), max_size=3)),
            "newline": draw(st.sampled_from(["\n", "\n", "\r\n"])), "trailer": draw(st.booleans())}


def igrf_values(spec):
    """values at the times and the secular variation as they are written"""
    values = gen.rng(spec["seed"]).normal(size=(len(spec["nm"]), len(spec["times"]) + 1)) * 1e4
    values[:, -1] *= 3e-3
    return written(spec, gen.scatter(spec["seed"], values))


def igrf_lines(spec):
    sep = spec["sep"]
    last = spec["times"][-1]
    lines = list(spec["comments"]) + [sep + sep.join(["DGRF"] * (len(spec["times"]) - 1) + ["IGRF", "SV"])]
    lines.append(sep.join(["g/h", "n", "m"] + ["%.1f" % t for t in spec["times"]] + ["%d-%02d" % (last, (last + 5) % 100)]))
    for (n, m), row in zip(spec["nm"], igrf_values(spec)):
        lines.append(sep.join(["h" if m < 0 else "g", str(n), str(abs(m))] + [spec["format"] % v for v in row]))
    return lines


@st.composite
def emm_spec(draw):
    low = draw(table(highest=4))
    top = draw(st.integers(low[-1][0], 7))
    return {"epoch": draw(EPOCHS), "variable": low, "static": low + [[n, m] for n in range(low[-1][0] + 1, top + 1) for m in range(n + 1)],
            "seed": draw(gen.SEED), "zeros": draw(st.sampled_from([0.0, 0.3, 0.3, 1.0])), "format": draw(st.sampled_from(["%.4f", "%11.4f", "%.17g"])),
            "sep": draw(st.sampled_from(SEPARATORS)), "newline": draw(st.sampled_from(["\n", "\n", "\r\n"])), "header": draw(st.integers(0, 2))}


def emm_values(spec):
    """static g, h and variations of g, h as they are written"""
    r = gen.rng(spec["seed"])
    out = []
    for key, size in (("static", 1e4), ("variable", 30.0)):
        values = r.normal(size=(len(spec[key]), 2)) * size
        values = gen.scatter(spec["seed"], values)
        values[r.random(values.shape) < spec["zeros"]] = 0.0
        values[np.array(spec[key])[:, 1] == 0, 1] = 0.0
        out.append(written(spec, values))
    return out


def emm_lines(spec, which):
    values = emm_values(spec)[which]
    rows = spec["variable" if which else "static"]
    lines = [["EMM test"], ["EMM-720_V3.0, secular variation", "", "Degrees 1-16:    POMME-5.0", ""], ["", "any text"]][spec["header"]]
    lines = lines + ["Epoch: %.1f" % spec["epoch"], "Degree: %d" % rows[-1][0], "", "  n   m     g_nm    h_nm", "-" * 32]
    for (n, m), row in zip(rows, values):
        lines.append(spec["sep"].join([str(n), str(m)] + [spec["format"] % v for v in row]))
    return lines
