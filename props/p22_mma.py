"""P22 Swarm MMA products"""
import itertools
import os
import tempfile
import numpy as np
from hypothesis import strategies as st
from spacepy import pycdf
import eoxmagmod as em
from eoxmagmod.magnetic_model import loader_mma as loaders
from eoxmagmod.magnetic_model.loader_shc import load_coeff_shc
from vh import gen, ref, modelgen as mg
from vh.shgen import KINDS, RANGE, ncoef, expected_at
from vh.core import check, require, require_shape, require_close, require_same, fail

CDF_2000 = 63113904000000   # CDF_EPOCH of 2000-01-01T00:00:00
DAY = 86400000
FUZZ = 2e-11                # rounding of times in days
GROUPS = {"2c": ["gh_1", "gh_2", "qs_1", "qs_2"], "2f": ["gh", "qs"]}
DEFAULT_POLE = (90 - 9.92, 287.78 - 360)
INTS = {"INT1": (pycdf.const.CDF_INT1, 12), "INT2": (pycdf.const.CDF_INT2, 12), "INT4": (pycdf.const.CDF_INT4, 12), "INT8": (pycdf.const.CDF_INT8, 12)}
FLOATS = {"DOUBLE": pycdf.const.CDF_DOUBLE, "REAL8": pycdf.const.CDF_REAL8, "FLOAT": pycdf.const.CDF_FLOAT}


@st.composite
def nm_of_degrees(draw, low, high):
    pair = st.integers(low, high).flatmap(lambda n: st.tuples(st.just(n), st.integers(-n, n)))
    return [list(v) for v in draw(st.lists(pair, min_size=1, max_size=6, unique=True))]


@st.composite
def group_spec(draw, nfiles, high):
    out = {"nm": draw(nm_of_degrees(draw(st.sampled_from([1, 1, 2])), high)), "cadence": draw(st.sampled_from([60000, 600000, 5400000, 21600000, 86400000, 987654])),
           "offset": draw(st.integers(0, 3)), "irregular": draw(st.booleans()), "seed": draw(gen.SEED),
           "joins": draw(st.lists(st.sampled_from(["share", "next", "next", "gap"]), min_size=nfiles - 1, max_size=nfiles - 1))}
    shared = [j == "share" for j in out["joins"]]
    out["counts"] = [draw(st.integers(2 if any(shared[max(i - 1, 0):i + 1]) or nfiles == 1 else 1, 6)) for i in range(nfiles)]
    return out


@st.composite
def product(draw, kinds=("2c", "2f"), min_files=1, max_files=4):
    kind = draw(st.sampled_from(kinds))
    ints = draw(st.sampled_from(sorted(INTS)))
    count = draw(st.integers(min_files, max_files))
    high = draw(st.integers(2, INTS[ints][1]).map(lambda v: v if v > 9 else 2 + v % 3))
    return {"kind": kind, "files": count, "ints": ints, "float": draw(st.sampled_from(["DOUBLE", "DOUBLE", "REAL8", "FLOAT"])), "flat": draw(st.booleans()),
            "start": draw(st.integers(-2000, 9000)) * DAY + draw(st.sampled_from([0, 2700000, 1])), "groups": {k: draw(group_spec(count, high)) for k in GROUPS[kind]}}


def nodes_of(spec, group):
    """integer times (ms since 2000) of each file"""
    g = spec["groups"][group]
    rnd = gen.rng(g["seed"])
    now = spec["start"] + g["offset"] * 17 * 60000
    step = lambda: int(g["cadence"] * rnd.uniform(0.3, 1.7)) if g["irregular"] else g["cadence"]
    out = []
    for i, count in enumerate(g["counts"]):
        times = [now]
        for _ in range(count - 1):
            times.append(times[-1] + step())
        out.append(times)
        if i < len(g["joins"]):
            join = g["joins"][i]
            now = times[-1] + (0 if join == "share" else step() * (5 if join == "gap" else 1))
    return out


def values_of(spec, group, variable, nodes):
    """values of each file (time, coefficient)"""
    g = spec["groups"][group]
    rnd = gen.rng(g["seed"] + 1 + sum(map(ord, variable)))
    out = [rnd.normal(size=(len(v), len(g["nm"]))) * 20 for v in nodes]
    if spec["float"] == "FLOAT":
        out = [v.astype("float32").astype(float) for v in out]
    return out


def content(spec):
    """{group: (times per file, {variable: values per file})}"""
    out = {}
    for group in spec["groups"]:
        nodes = nodes_of(spec, group)
        names = [group] if spec["kind"] == "2c" else [group + "_geo", group + "_sm"]
        out[group] = nodes, {k: values_of(spec, group, k, nodes) for k in names}
    return out


def write(folder, spec, data, skip=(), nm=None, time_type=None):
    """write the files; nm: {(group, file): other degrees and orders}"""
    paths = []
    for i in range(spec["files"]):
        path = os.path.join(folder, "mma_%d.cdf" % i)
        with pycdf.CDF(path, "") as cdf:
            for group, (nodes, variables) in data.items():
                times = np.array([nodes[i]], dtype="float64") + CDF_2000
                if ("t_" + group, i) not in skip:
                    kind = time_type.get((group, i)) if time_type else None
                    if kind == "TT2000":
                        cdf.new("t_" + group, data=np.array([nodes[i]]) * 1000000, type=pycdf.const.CDF_TIME_TT2000)
                    elif kind == "DOUBLE":
                        cdf.new("t_" + group, data=times, type=pycdf.const.CDF_DOUBLE)
                    elif kind == "INT8":
                        cdf.new("t_" + group, data=times.astype("int64"), type=pycdf.const.CDF_INT8)
                    else:
                        cdf.new("t_" + group, data=times, type=pycdf.const.CDF_EPOCH)
                pairs = np.array((nm or {}).get((group, i), spec["groups"][group]["nm"]))
                if ("nm_" + group, i) not in skip:
                    cdf.new("nm_" + group, data=pairs if spec["flat"] else pairs[None], type=INTS[spec["ints"]][0])
                for name, values in variables.items():
                    if (name, i) not in skip:
                        cdf.new(name, data=values[i][None], type=FLOATS[spec["float"]])
        paths.append(path)
    return paths


class Folder:
    def __enter__(self):
        self.tmp = tempfile.TemporaryDirectory(dir=os.environ.get("VH_SCRATCH"))
        return self.tmp.__enter__()

    def __exit__(self, *args):
        return self.tmp.__exit__(*args)


class Series:
    """reference of the concatenated series of one variable"""

    def __init__(self, nm, nodes, values):
        self.nm = [tuple(v) for v in nm]
        self.nodes = [ref.LD(t) / DAY for file in nodes for t in file]
        self.values = np.concatenate(values, axis=0)

    def at(self, t):
        """candidates at the time, one for each segment it belongs to"""
        out = []
        for i, (a, b) in enumerate(zip(self.nodes, self.nodes[1:])):
            if b > a and a - FUZZ <= t <= b + FUZZ:
                v0, v1 = self.values[i].astype(ref.LD), self.values[i + 1].astype(ref.LD)
                val = v0 + (ref.LD(t) - a) / (b - a) * (v1 - v0)
                err = 8e-15 * (np.abs(v0) + np.abs(v1)) + np.abs(v1 - v0) / (b - a) * FUZZ
                out.append({k: (v, e / 4e-15) for k, v, e in zip(self.nm, val, err)})
        return out


def loader_names(spec):
    if spec["kind"] == "2c":
        return [("2c_internal", ["gh_1", "gh_2"]), ("2c_external", ["qs_1", "qs_2"])]
    return [("2f_%s_%s" % (frame, source), ["%s_%s" % (var, frame)]) for frame in ("geo", "sm") for var, source in (("gh", "internal"), ("qs", "external"))]


def references(spec, data, names):
    out = []
    for name in names:
        group = name if spec["kind"] == "2c" else name[:2]
        nodes, variables = data[group]
        out.append(Series(spec["groups"][group]["nm"], nodes, variables[name]))
    return out


def test_times(series, rnd, start, end):
    """times inside, at and between the nodes"""
    nodes = [float(v) for s in series for v in s.nodes if start <= v <= end]
    times = list(rnd.uniform(start, end, 3)) + [start, end]
    times += list(rnd.choice(nodes, min(3, len(nodes)))) if nodes else []
    for s in series:
        pairs = [i for i in range(len(s.nodes) - 1) if s.nodes[i + 1] > s.nodes[i]]
        i = pairs[rnd.integers(len(pairs))]
        times.append(float(s.nodes[i] + (s.nodes[i + 1] - s.nodes[i]) * rnd.uniform(0.01, 0.99)))
    return np.array([t for t in times if start <= t <= end])


def require_any(got, candidates, msg, **values):
    for vec, tol in candidates[:-1]:
        if np.all(np.abs(got - vec) <= tol):
            return
    require_close(got, *candidates[-1], msg, **values)


@check(st.tuples(product(), gen.SEED), quick=2500, thorough=100000,
       rule="sets of 1-4 files of the 2C and 2F products, any times (regular or not, shared boundaries, gaps), coefficients and number types; non-trivial with several files or several coefficients")
def coefficients(case, ctx):
    spec, seed = case
    data = content(spec)
    with Folder() as folder:
        paths = write(folder, spec, data)
        loaded = {name: getattr(loaders, "load_coeff_swarm_mma_" + name)(*paths) for name, _ in loader_names(spec)}
    if spec["files"] > 1:
        ctx.nontrivial(spec["kind"] + " files")
    for name, variables in loader_names(spec):
        coeff = loaded[name]
        series = references(spec, data, variables)
        n = [k for s in series for k, _ in s.nm]
        require((int(coeff.degree), int(coeff.min_degree)) == (max(n), min(n)), "wrong degrees", got=[coeff.degree, coeff.min_degree], expected=[max(n), min(n)], name=name, case=case)
        require(coeff.is_internal is name.endswith("internal"), "wrong source", name=name)
        start, end = float(max(s.nodes[0] for s in series)), float(min(s.nodes[-1] for s in series))
        if start >= end:
            continue
        require_close([float(v) for v in coeff.validity], [start, end], FUZZ, "wrong validity", name=name, case=case)
        start, end = [float(v) for v in coeff.validity]
        times = test_times(series, gen.rng(seed), start, end)
        if len(n) > 1:
            ctx.nontrivial(name)
        many, degree = coeff(times)
        require(degree == max(n), "wrong degree", got=degree, name=name)
        require_shape(many, times.shape + (ncoef(max(n)), 2), "coefficients")
        for t, got in zip(times, many):
            cands = [mg.total(parts, max(n)) for parts in itertools.product(*[s.at(t) for s in series])]
            require_any(got, [(c.astype(float), 4e-15 * a.astype(float)) for c, a in cands], "wrong coefficients", time=t, name=name, case=case)
            require_same(coeff(float(t))[0], got, "single and multiple times differ", time=t)


@check(st.tuples(product(), st.sampled_from([None, None, (80.0, -70.0), (85.5, 120.0), (90.0, 0.0)]), st.integers(0, 2), st.integers(0, 2), gen.SEED).flatmap(
    lambda v: st.tuples(*map(st.just, v), gen.positions(v[2], **RANGE))), quick=1500, thorough=60000,
       rule="models of the 2C product (default or given pole) and 2F product, fields at any positions and frames; non-trivial inside the validity")
def models(case, ctx):
    spec, pole, kin, kout, seed, point = case
    data = content(spec)
    kw = {"lat_ngp": pole[0], "lon_ngp": pole[1]} if pole and spec["kind"] == "2c" else {}
    with Folder() as folder:
        paths = write(folder, spec, data)
        loaded = {name: getattr(loaders, "load_model_swarm_mma_" + name)(*paths, **kw) for name, _ in loader_names(spec)}
    frame = {"input_coordinate_system": KINDS[kin], "output_coordinate_system": KINDS[kout]}
    for name, variables in loader_names(spec):
        model = loaded[name]
        series = references(spec, data, variables)
        degree = max(k for s in series for k, _ in s.nm)
        start, end = float(max(s.nodes[0] for s in series)), float(min(s.nodes[-1] for s in series))
        if start >= end:
            continue
        require_close([float(v) for v in model.validity], [start, end], FUZZ, "wrong validity", name=name, case=case)
        start, end = [float(v) for v in model.validity]
        times = test_times(series, gen.rng(seed), start, end)[-3:]
        internal = name.endswith("internal")
        ctx.nontrivial(name)
        res = model.eval(times, np.tile(point, (len(times), 1)), **frame)
        for t, got in zip(times, res):
            cands = []
            for parts in itertools.product(*[s.at(t) for s in series]):
                coef, amp = mg.total(parts, degree)
                if spec["kind"] == "2f":
                    _, g, _, tol = expected_at(coef, degree, point, kin, kout, internal, amp=amp)
                    cands.append((-g, tol))
                    continue

                def func(cart):
                    _, g, _, tol = expected_at(coef, degree, cart, 2, 2, internal, amp=amp)
                    return -g, tol, degree
                cands.append(mg.dipole_field(func, pole or DEFAULT_POLE, point, kin, kout))
            require_any(got, cands, "wrong field", time=t, point=point, name=name, case=case)
        for t in (start - 1e-3, end + 1e-3):
            require(np.all(np.isnan(model.eval(t, point, **frame))), "a value out of validity", time=t, name=name)


FAULTS = ["permuted", "other order", "other degree", "missing pair", "overlap", "reversed", "lost", "time type", "counts of pairs", "counts of times", "text"]


@check(st.tuples(product(min_files=1, max_files=3), st.sampled_from(FAULTS), gen.SEED), quick=1500, thorough=60000,
       rule="sets of files with one inconsistent variable in one of the files; non-trivial always (cases which can not have the fault are left out)")
def inconsistent(case, ctx):
    spec, fault, seed = case
    rnd = gen.rng(seed)
    several = fault in ("permuted", "other order", "other degree", "missing pair", "overlap", "reversed")
    if several and spec["files"] < 2:
        return
    data = content(spec)
    group = list(spec["groups"])[rnd.integers(len(spec["groups"]))]
    which = int(rnd.integers(1 if several else 0, spec["files"]))
    pairs = [list(v) for v in spec["groups"][group]["nm"]]
    nodes, variables = data[group]
    names = list(variables) if spec["kind"] == "2f" else [group]
    skip, nm, types = set(), {}, {}
    if fault == "permuted":
        if len(pairs) < 2:
            return
        nm[group, which] = pairs[1:] + pairs[:1]
    elif fault in ("other order", "other degree"):
        at = int(rnd.integers(len(pairs)))
        n, m = pairs[at]
        pairs[at] = [n, m - 1 if m > -n else m + 1] if fault == "other order" else [n + 1, m]
        nm[group, which] = pairs
    elif fault == "missing pair":
        if len(pairs) < 2:
            return
        nm[group, which] = pairs[:-1]
        for name in names:
            variables[name][which] = variables[name][which][:, :-1]
    elif fault == "overlap":
        shift = nodes[which][0] - nodes[which - 1][-1] + int(rnd.integers(1, 100000))
        data = {g: ([[t - shift if g == group and i >= which else t for t in times] for i, times in enumerate(item[0])], item[1]) for g, item in data.items()}
        if data[group][0][which][0] >= data[group][0][which - 1][-1]:
            return
    elif fault == "reversed":
        data = {g: ((item[0][::-1], {k: v[::-1] for k, v in item[1].items()}) if g == group else item) for g, item in data.items()}
    elif fault == "lost":
        name = [names[rnd.integers(len(names))], "t_" + group, "nm_" + group][rnd.integers(3)]
        skip.add((name, which))
        if not (name.startswith("t_") or name.startswith("nm_")):
            names = [name]
    elif fault == "time type":
        types[group, which] = ["TT2000", "DOUBLE", "INT8"][rnd.integers(3)]
    elif fault == "counts of pairs":
        n, m = pairs[0]
        nm[group, which] = pairs + [[n, m - 1 if m > -n else m + 1]] if rnd.integers(2) or len(pairs) < 2 else pairs[:-1]
    elif fault == "counts of times":
        change = (lambda v: v[:-1]) if rnd.integers(2) and len(nodes[which]) > 1 else (lambda v: np.concatenate([v, v[-1:]]))
        for name in names:
            variables[name][which] = change(variables[name][which])
    ctx.nontrivial(fault)
    with Folder() as folder:
        paths = write(folder, spec, data, skip, nm, types)
        if fault == "text":
            with open(paths[which], "wb") as out:
                out.write(b"not a CDF file " * int(rnd.integers(0, 100)))
        for name, used in loader_names(spec):
            bad = fault == "text" or set(used) & set(names)
            for prefix in ("load_coeff_swarm_mma_", "load_model_swarm_mma_"):
                try:
                    getattr(loaders, prefix + name)(*paths)
                except Exception as error:
                    require(bad, "consistent variables are not loaded", error=repr(error), name=name, fault=fault, case=case)
                    continue
                if bad:
                    fail("inconsistent files are loaded", name=name, fault=fault, group=group, file=which, case=case)
