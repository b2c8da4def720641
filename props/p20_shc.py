"""P20 SHC files"""
import io
import os
import tempfile
import numpy as np
from hypothesis import strategies as st
from eoxmagmod.magnetic_model.loader_shc import (
    load_coeff_shc, load_coeff_shc_combined, load_coeff_shc_composed, load_model_shc, load_model_shc_combined,
)
from eoxmagmod.magnetic_model.parser_shc import parse_shc_file, parse_shc_header
from eoxmagmod.magnetic_model.coefficients import CombinedSHCoefficients, ComposedSHCoefficients
from eoxmagmod.magnetic_model.model import SphericalHarmomicGeomagneticModel
from eoxmagmod import time_util as tu
import eoxmagmod as em
from vh import gen, files, modelgen as mg
from vh.shgen import ncoef, expected_at
from vh.core import check, require, require_shape, require_close, require_same, fail


def scratch():
    return tempfile.TemporaryDirectory(dir=os.environ.get("VH_SCRATCH"))


def write(folder, name, text):
    path = os.path.join(folder, name)
    with open(path, "w", newline="") as out:
        out.write(text)
    return path


@st.composite
def option_cases(draw):
    out = {"decimal": draw(st.sampled_from([None, None, False, True]))}
    if draw(st.integers(0, 3)) == 0:
        a, b = sorted(draw(st.lists(st.integers(1985, 2035).map(float), min_size=2, max_size=2, unique=True)))
        which = draw(st.integers(0, 2))
        if which != 1:
            out["validity_start"] = a
        if which != 0:
            out["validity_end"] = b
    if draw(st.integers(0, 4)) == 0:
        out["is_internal"] = draw(st.booleans())
    if draw(st.integers(0, 4)) == 0:
        out["spline_order"] = draw(st.sampled_from([1, 2]))
    out["conversion"] = draw(st.sampled_from([None, None, None, "simple", "none"]))
    return out


def arguments(options):
    kw = {k: v for k, v in options.items() if k not in ("decimal", "conversion")}
    if options["decimal"] is not None:
        kw["interpolate_in_decimal_years"] = options["decimal"]
    if options["conversion"] == "simple":
        kw["to_mjd2000"] = tu.decimal_year_to_mjd2000_simple
        if options["decimal"]:
            kw["to_decimal_year"] = tu.mjd2000_to_decimal_year_simple
    if options["conversion"] == "none" and not options["decimal"]:
        kw["to_mjd2000"] = None
    return kw


class Expected:
    """contents of the file"""

    def __init__(self, spec, options):
        self.values = files.shc_values(spec)
        self.nm = [tuple(v) for v in spec["nm"]]
        self.degree = max(n for n, m in self.nm)
        self.min_degree = min(n for n, m in self.nm)
        self.times = spec["times"]
        self.order = options.get("spline_order", min(spec["order"], 2))
        self.constant = len(self.times) == 1
        conv = options["conversion"]
        self.simple = conv == "simple"
        if conv == "none" and not options["decimal"]:
            self.to_mjd, self.to_mjd_code = (lambda v: v), (lambda v: v)
        else:
            self.to_mjd = lambda v: float(mg.from_simple_year(v) if self.simple else mg.from_year(v))
            self.to_mjd_code = tu.decimal_year_to_mjd2000_simple if self.simple else em.decimal_year_to_mjd2000
        bounds = spec.get("validity") or ([-np.inf, np.inf] if self.constant else [min(self.times), max(self.times)])
        bounds = [options.get("validity_start", bounds[0]), options.get("validity_end", bounds[1])]
        self.validity = [self.to_mjd(v) if np.isfinite(v) else v for v in bounds]
        self.internal = options.get("is_internal", True)
        order = np.argsort(self.times)
        nodes = np.array(self.times)[order]
        values = self.values[:, order]
        if self.constant:
            self.ref = mg.RefSet("const", self.nm, values)
        elif options["decimal"]:
            self.ref = mg.RefSet("dy", self.nm, values, nodes, self.order, self.simple)
        else:
            # the nodes are rounded by the conversion
            self.ref = mg.RefSet("mjd", self.nm, values, [self.to_mjd(v) for v in nodes], self.order, fuzz=2e-9 if conv != "none" else 0.0)
        self.decimal = bool(options["decimal"])

    def compare(self, coef, t, msg, **kw):
        """coefficients at the time against the contents"""
        degree = int(self.degree)
        require_shape(coef, (ncoef(degree), 2), "coefficients")
        cands = []
        for part in self.ref.at(t):
            val, amp = mg.total([part], degree)
            cands.append((val.astype(float), 4e-15 * amp.astype(float)))
        for val, tol in cands[:-1]:
            if np.all(np.abs(coef - val) <= tol):
                return
        require_close(coef, cands[-1][0], cands[-1][1], msg, time=t, **kw)


def times_of(exp, seed):
    """nodes and times in between and out of them"""
    lo, hi = min(exp.times), max(exp.times)
    rand = gen.rng(seed).uniform(lo - 1, hi + 1, size=4)
    return [float(exp.to_mjd_code(v)) for v in rand]


@check(st.tuples(files.shc_spec(), option_cases(), st.sampled_from(["path", "file", "stream", "lines"])), quick=5000, thorough=300000,
       rule="files of any degrees (from 0), 1-6 times in any order, spline orders, number formats, comments, separators, line ends, header validity, caller's options; non-trivial with more than one time and degree")
def single_file(case, ctx):
    spec, options, source = case
    exp = Expected(spec, options)
    if not exp.constant and exp.degree > exp.min_degree:
        ctx.nontrivial("order %d" % exp.order + (" decimal years" if exp.decimal else ""))
    text = files.shc_text(spec)
    kw = arguments(options)
    with scratch() as folder:
        path = write(folder, "model.shc", text)
        if source == "path":
            coeff = load_coeff_shc(path, **kw)
        elif source == "file":
            with open(path, encoding="ascii") as file_in:
                coeff = load_coeff_shc(file_in, **kw)
        elif source == "stream":
            coeff = load_coeff_shc(io.StringIO(text), **kw)
        else:
            with open(path, encoding="ascii") as file_in:
                coeff = load_coeff_shc(iter(file_in.readlines()), **kw)
        model = load_model_shc(path, **kw)
        both = load_model_shc_combined(path, **kw)
    require((int(coeff.degree), int(coeff.min_degree), coeff.is_internal) == (exp.degree, exp.min_degree, exp.internal), "wrong degrees or source",
            got=[coeff.degree, coeff.min_degree, coeff.is_internal], case=case)
    require_close([float(v) for v in coeff.validity], exp.validity, 2e-9, "wrong validity", case=case)
    require_same([float(v) for v in model.validity], [float(v) for v in coeff.validity], "validity of the model")
    # snapshots
    for k, t in enumerate(exp.times):
        mjd = float(exp.to_mjd_code(t))
        got, degree = coeff(mjd)
        require(degree == exp.degree, "wrong degree")
        if exp.decimal or (exp.order == 1 and not exp.constant):
            exp.compare(got, mjd, "wrong values of the snapshot", snapshot=t, case=case)
        if not exp.decimal:
            full = np.zeros((ncoef(exp.degree), 2))
            for (n, m), v in zip(exp.nm, exp.values[:, k]):
                full[n * (n + 1) // 2 + abs(m), int(m < 0)] = v
            require_close(got, full, 1e-14 * np.abs(exp.values).max(), "the snapshot is not reproduced", snapshot=t, case=case)
    # other times
    probe = times_of(exp, spec["seed"])
    many, degree = coeff(np.array(probe))
    point = [40.0, 20.0, 6700.0]
    for t, values in zip(probe, many):
        exp.compare(values, t, "wrong coefficients", case=case)
        got = model.eval(t, point)
        if not coeff.validity[0] <= t <= coeff.validity[1]:
            require(np.all(np.isnan(got)), "a value out of validity", time=t, got=got, case=case)
            continue
        field, _ = coeff(t)
        _, g, _, tol = expected_at(field, exp.degree, point, 1, 1, exp.internal)
        size = 1e-12 * float(np.abs(exp.values).max()) * (exp.degree + 1) ** 2 * (1.06 if exp.internal else 1.1) ** exp.degree * 10
        require_close(got, -g, tol + size, "wrong field of the model", time=t, case=case)
        require_same(both.eval(t, point), got, "the combined model of one file differs", time=t, case=case)


@check(files.shc_spec(), quick=2500, thorough=100000,
       rule="parsed contents and header; always non-trivial")
def parsed_contents(case, ctx):
    ctx.nontrivial()
    text = files.shc_text(case)
    data = parse_shc_file(io.StringIO(text))
    head = parse_shc_header(io.StringIO(text))
    n = [v[0] for v in case["nm"]]
    finite = len(case["times"]) > 1
    bounds = case.get("validity") or ([min(case["times"]), max(case["times"])] if finite else [-np.inf, np.inf])
    for item in (data, head):
        got = [item[k] for k in ("degree_min", "degree_max", "ntime", "spline_order", "nstep")]
        require(got == [min(n), max(n), len(case["times"]), case["order"], case["nstep"]], "wrong header", got=got, case=case)
        require_same(item["t"], case["times"], "wrong times", case=case)
        require_same([item["validity_start"], item["validity_end"]], bounds, "wrong validity", case=case)
    require_same(data["nm"], case["nm"], "wrong degrees and orders", case=case)
    require_same(data["gh"], files.shc_values(case), "wrong coefficients", case=case)


@st.composite
def several_cases(draw):
    count = draw(st.integers(1, 3))
    specs = [draw(files.shc_spec(first=2000.0, last=2012.0, highest=4)) for _ in range(count)]
    for spec in specs:
        if draw(st.booleans()):
            spec.pop("validity", None)
    return {"specs": specs, "objects": draw(st.lists(st.booleans(), min_size=count, max_size=count)), "decimal": draw(st.booleans()), "seed": draw(gen.SEED)}


@check(several_cases(), quick=2500, thorough=100000,
       rule="1-3 files or loaded coefficients combined and composed in the given order; non-trivial with several files of common validity")
def several_files(case, ctx):
    kw = {"interpolate_in_decimal_years": True} if case["decimal"] else {}
    with scratch() as folder:
        paths = [write(folder, "m%d.shc" % i, files.shc_text(s)) for i, s in enumerate(case["specs"])]
        parts = [load_coeff_shc(p, **kw) for p in paths]
        items = [part if obj else p for part, p, obj in zip(parts, paths, case["objects"])]
        combined = load_coeff_shc_combined(*items, **kw)
        models = [load_model_shc_combined(*items, **kw)]
        refs = [CombinedSHCoefficients(*parts)]
        loaded = [combined]
        try:
            refs.append(ComposedSHCoefficients(*parts))
        except ValueError:
            ctx.label("gap")
            for func in (load_coeff_shc_composed, load_model_shc):
                try:
                    func(*items, **kw)
                except ValueError:
                    continue
                fail("composition of files with a gap is accepted", case=case)
        else:
            loaded.append(load_coeff_shc_composed(*items, **kw))
            models.append(load_model_shc(*items, **kw))
    lo, hi = float(mg.from_year(1999.0)), float(mg.from_year(2013.0))
    times = np.concatenate([gen.rng(case["seed"]).uniform(lo, hi, 4), [float(em.decimal_year_to_mjd2000(s["times"][0])) for s in case["specs"]]])
    points = np.tile([-30.0, 60.0, 6500.0], (len(times), 1))
    for got, expected, model in zip(loaded, refs, models):
        require_same([float(v) for v in got.validity], [float(v) for v in expected.validity], "wrong validity", case=case)
        require(type(got) is type(expected), "wrong type of the coefficients")
        require((got.degree, got.min_degree) == (expected.degree, expected.min_degree), "wrong degrees")
        require_same(got(times)[0], expected(times)[0], "wrong coefficients", case=case)
        values = model.eval(times, points)
        require_same(values, SphericalHarmomicGeomagneticModel(expected).eval(times, points), "wrong field", case=case)
        # explicitly at a time
        for i, t in enumerate(times):
            t = float(t)
            valid = [p for p in parts if p.is_valid(t)]
            total = np.zeros((ncoef(8), 2))
            if isinstance(got, ComposedSHCoefficients):
                use = valid[:1]
            else:
                use = parts if len(valid) == len(parts) else []
            if not use:
                require(np.all(np.isnan(values[i])) or len(parts) == 1 and got.is_valid(t), "a value out of validity", time=t, case=case)
                continue
            if len(parts) > 1 and len(valid) > 1:
                ctx.nontrivial(type(got).__name__)
            for part in use:
                coef, _ = part(t)
                total[:len(coef)] += coef
            coef, _ = got(t)
            full = np.zeros_like(total)
            full[:len(coef)] = coef
            require_close(full, total, 1e-14 * np.abs(total).max(), "wrong sum or choice of the files", time=t, case=case)


@st.composite
def malformed_cases(draw):
    spec = draw(files.shc_spec(highest=3))
    spec["comments"] = []
    return {"spec": spec, "fault": draw(st.sampled_from(["drop", "add", "text", "index", "times", "more times", "header", "empty", "header text", "columns"])),
            "row": draw(st.integers(0, 10)), "pos": draw(st.integers(0, 10)), "junk": draw(st.sampled_from(["x", "1.0.0", "--1", "1e", "0x10", "1,0", "g"]))}


@check(malformed_cases(), quick=2500, thorough=100000,
       rule="a well-formed file with one fault: missing, additional or non-numeric fields of rows and headers, other number of times; always non-trivial")
def malformed_file(case, ctx):
    lines = [l.split() for l in files.shc_lines(dict(case["spec"], note=""))]
    rows = lines[2:]
    row = rows[case["row"] % len(rows)]
    fault = case["fault"]
    if fault == "drop":
        row.pop()
    elif fault == "add":
        row.append("1.5")
    elif fault == "text":
        row[2 + case["pos"] % (len(row) - 2)] = case["junk"]
    elif fault == "index":
        row[case["pos"] % 2] = case["junk"] if case["pos"] > 2 else "1.5"
    elif fault == "times":
        if len(lines[1]) == 1:
            lines[1].append("2077.5")
        else:
            lines[1].pop()
    elif fault == "more times":
        lines[1].append("2077.5")
    elif fault == "header":
        lines[0] = lines[0][:case["pos"] % 5] or lines[0][:1]
    elif fault == "header text":
        lines[0][case["pos"] % 5] = case["junk"]
    elif fault == "columns":
        for r in rows:
            r.append("2.5")
    else:
        lines = lines[:case["pos"] % 3]
    if fault in ("drop", "add") and len(rows) == 1:
        # consistent with itself
        ctx.label("single row")
    ctx.nontrivial(fault)
    text = "\n".join(" ".join(l) for l in lines) + "\n"
    for decimal in (False, True):
        try:
            coeff = load_coeff_shc(io.StringIO(text), interpolate_in_decimal_years=decimal)
        except Exception:
            continue
        fail("a malformed file is loaded", fault=fault, text=text, values=coeff(0.0), case=case)


@st.composite
def large_cases(draw):
    return {"top": draw(st.one_of(st.integers(1, 12), st.integers(8, 60), st.sampled_from([127, 128, 133, 180]))), "low": draw(st.sampled_from([0, 1, 1, 2, 16])),
            "count": draw(st.one_of(st.integers(1, 30), st.integers(50, 700), st.sampled_from([99, 100, 101, 127, 128, 129, 255, 256, 257, 1000, 1001, 2000]))),
            "order": draw(st.sampled_from([1, 2, 4])), "seed": draw(gen.SEED), "format": draw(st.sampled_from(files.FORMATS)), "sep": draw(st.sampled_from(files.SEPARATORS)),
            "decimal": draw(st.booleans()), "spacing": draw(st.sampled_from(["months", "random", "days"])), "shuffle": draw(st.integers(0, 4))}


@check(large_cases(), quick=350, thorough=15000,
       rule="files of degrees up to 180 and up to 2000 times (at most about 30000 values): all parsed values, all nodes, and sampled times; non-trivial with more than 100 times or degrees above 20")
def large_file(case, ctx):
    r = gen.rng(case["seed"])
    low = min(case["low"], case["top"])
    nm = [(n, s * m) for n in range(low, case["top"] + 1) for m in range(n + 1) for s in ((1, -1) if m else (1,))]
    # sparse files of many times
    count = case["count"]
    most = max(4, 30000 // count)
    if len(nm) > most:
        keep = sorted({0, len(nm) - 1, *(int(v) for v in r.integers(0, len(nm), size=most - 2))})
        nm = [nm[k] for k in keep]
    if case["shuffle"] == 0:
        nm = [nm[k] for k in r.permutation(len(nm))]
    step = {"months": 1 / 12, "random": 0.02, "days": 2 / 365.25}[case["spacing"]]
    times = 1995.0 + np.arange(count) * step + (r.uniform(0, 0.9 * step, size=count) if case["spacing"] == "random" else 0.0)
    spec = {"nm": nm, "times": [float(round(v, 7)) for v in times], "order": case["order"], "nstep": 1, "seed": case["seed"],
            "format": case["format"], "sep": case["sep"], "comments": ["# large file"], "note": ""}
    if count > 100 or case["top"] > 20:
        ctx.nontrivial("times" if count > 100 else "degrees")
    text = files.shc_text(spec)
    values = files.shc_values(spec)
    data = parse_shc_file(io.StringIO(text))
    require_same(np.asarray(data["t"]), np.array(spec["times"]), "parsed times", case=case)
    require_same(np.asarray(data["nm"]), np.array(nm), "parsed degrees and orders", case=case)
    require_same(np.asarray(data["gh"]), values, "parsed coefficients", case=case)
    coeff = load_coeff_shc(io.StringIO(text), interpolate_in_decimal_years=case["decimal"])
    degree = max(n for n, m in nm)
    rows = np.array([n * (n + 1) // 2 + abs(m) for n, m in nm]), np.array([int(m < 0) for n, m in nm])
    picked = np.unique(np.concatenate([[0, count - 1], r.integers(0, count, size=min(count, 12))]))
    exact = [float(v) for v in em.decimal_year_to_mjd2000(np.array(spec["times"]))]
    order = 1 if count == 1 or case["order"] == 1 else 2
    for k in picked:
        # in the middle of the interval after the node (both kinds), and at the node
        last = k == count - 1
        for frac in ((0.0,) if last or count == 1 else (0.0, 0.5)):
            if order == 1 and count > 1 and not frac:
                continue
            t = exact[k] if not frac else (exact[k] + exact[k + 1]) / 2
            got, top = coeff(t)
            require(top == degree, "wrong degree", got=top, case=case)
            exp = np.zeros((ncoef(degree), 2))
            a = 0.0
            if frac:
                a = frac
                if case["decimal"]:
                    a = float((mg.decimal_year(t) - spec["times"][k]) / (spec["times"][k + 1] - spec["times"][k]))
            exp[rows] = values[:, k] if order == 1 or not frac else (1 - a) * values[:, k] + a * values[:, k + 1]
            # rounding of the times by the conversion (about 1e-9 of the step)
            size = float(np.abs(values[:, max(k - 1, 0):k + 2]).max())
            require_close(got, exp, size * (1e-13 + (1e-7 if order == 2 else 0.0)), "wrong coefficients of a large file", index=int(k), time=t, case=case)
