"""P21 WMM, IGRF, EMM and MIO files"""
import os
import tempfile
import numpy as np
from hypothesis import strategies as st
import eoxmagmod as em
from eoxmagmod.magnetic_model.loader_wmm import load_coeff_wmm, load_model_wmm
from eoxmagmod.magnetic_model.loader_igrf import load_coeff_igrf, load_model_igrf
from eoxmagmod.magnetic_model.loader_emm import load_coeff_emm, load_model_emm
from eoxmagmod.magnetic_model.loader_mio import load_coeff_swarm_mio_internal, load_coeff_swarm_mio_external
from eoxmagmod.magnetic_model.loader_shc import load_coeff_shc
from eoxmagmod import data as shipped
from vh import gen, files, modelgen as mg
from vh.shgen import ncoef, expected_at
from vh.core import check, require, require_shape, require_close, require_same, fail

POINT = [35.0, -120.0, 6600.0]


class Folder:
    def __enter__(self):
        self.tmp = tempfile.TemporaryDirectory(dir=os.environ.get("VH_SCRATCH"))
        self.path = self.tmp.__enter__()
        return self

    def __exit__(self, *args):
        return self.tmp.__exit__(*args)

    def write(self, name, spec, lines):
        path = os.path.join(self.path, name)
        with open(path, "w", newline="") as out:
            out.write(files.join(spec, lines))
        return path


def compare(coeff, model, sets, first, last, extra, seed, case):
    """coefficients and field of the loaded object against the contents:
    sets of coefficients valid between the two years"""
    degree = int(max(n for s in sets for n, m in s.nm))
    lowest = int(min(n for s in sets for n, m in s.nm))
    for obj in (coeff, model):
        require((int(obj.degree), int(obj.min_degree)) == (degree, lowest), "wrong degrees", got=[obj.degree, obj.min_degree], expected=[degree, lowest], case=case)
        require_close([float(v) for v in obj.validity], [float(mg.from_year(first)), float(mg.from_year(last))], 2e-9, "wrong validity", case=case)
    require(coeff.is_internal is True, "not an internal field")
    start, end = [float(v) for v in coeff.validity]
    times = np.concatenate([gen.rng(seed).uniform(start, end, 3), [start, end], [float(em.decimal_year_to_mjd2000(v)) for v in extra]])
    times = times[(times >= start) & (times <= end)]
    many, got_degree = coeff(times)
    require(got_degree == degree, "wrong degree", got=got_degree)
    require_shape(many, times.shape + (ncoef(degree), 2), "coefficients")
    field = model.eval(times, np.tile(POINT, (len(times), 1)))
    for t, got, vec in zip(times, many, field):
        coef, amp = mg.total([s.at(t)[0] for s in sets], degree)
        require_close(got, coef.astype(float), 4e-15 * amp.astype(float), "wrong coefficients", time=t, case=case)
        _, g, _, gtol = expected_at(coef, degree, POINT, 1, 1, True, amp=amp)
        require_close(vec, -g, gtol, "wrong field", time=t, case=case)
        low = model.eval(t, POINT, max_degree=1)
        part, mags = mg.total([s.at(t, -1, 1)[0] for s in sets], degree)
        _, g, _, gtol = expected_at(part, degree, POINT, 1, 1, True, amp=mags)
        require_close(low, -g, gtol, "wrong field of the first degree", time=t, case=case)
    for t in (start - 1e-3, end + 1e-3):
        require(np.all(np.isnan(model.eval(t, POINT))), "a value out of validity", time=t, case=case)


@check(files.wmm_spec(), quick=2400, thorough=150000,
       rule="WMM files of any epochs, degrees, row orders, zero coefficients, formats and terminating lines; non-trivial above degree 1")
def wmm(case, ctx):
    if len(case["rows"]) > 2:
        ctx.nontrivial(case["tail"])
    with Folder() as tmp:
        path = tmp.write("wmm.cof", case, files.wmm_lines(case))
        coeff, model = load_coeff_wmm(path), load_model_wmm(path)
    nm, values = [], []
    epoch = case["epoch"]
    for (n, m), (g, h, dg, dh) in zip(case["rows"], files.wmm_values(case)):
        for sign, v, d in ((1, g, dg), (-1, h, dh)):
            if (v or d) and (sign > 0 or m):
                nm.append((n, sign * m))
                values.append([v, v + 5 * d])
    ref = mg.RefSet("dy", nm, np.array(values), [epoch, epoch + 5], 2)
    compare(coeff, model, [ref], epoch, epoch + 5, [epoch, epoch + 1], case["seed"], case)
    # values of the file at the epoch
    got, _ = coeff(float(em.decimal_year_to_mjd2000(epoch)))
    for (n, m), v in zip(nm, values):
        require_close(got[n * (n + 1) // 2 + abs(m), int(m < 0)], v[0], 1e-10 * (abs(v[0]) + abs(v[1])), "the epoch is not reproduced", nm=(n, m), case=case)


@check(files.igrf_spec(), quick=2400, thorough=150000,
       rule="IGRF files of 1-5 epochs, any rows and formats, comments; non-trivial with more than one epoch")
def igrf(case, ctx):
    if len(case["times"]) > 1:
        ctx.nontrivial()
    with Folder() as tmp:
        path = tmp.write("igrf.txt", case, files.igrf_lines(case))
        coeff, model = load_coeff_igrf(path), load_model_igrf(path)
    values = files.igrf_values(case)
    values[:, -1] = values[:, -2] + 5 * values[:, -1]
    times = case["times"] + [case["times"][-1] + 5]
    compare(coeff, model, [mg.RefSet("dy", case["nm"], values, times, 2)], times[0], times[-1], times, case["seed"], case)


@check(files.emm_spec(), quick=2400, thorough=150000,
       rule="pairs of EMM files, static part of the same or a higher degree than the variation; non-trivial with zero or no constant coefficients")
def emm(case, ctx):
    static, secvar = files.emm_values(case)
    with Folder() as tmp:
        paths = tmp.write("static.cof", case, files.emm_lines(case, 0)), tmp.write("secvar.cof", case, files.emm_lines(case, 1))
        coeff, model = load_coeff_emm(*paths), load_model_emm(*paths)
    epoch = case["epoch"]
    split = lambda rows, values: zip(*[((n, s * m), v) for (n, m), row in zip(rows, values) for s, v in zip((1, -1), row) if s > 0 or m])
    nm, start = split(case["static"], static)
    vnm, rate = split(case["variable"], secvar)
    size = len(vnm)
    values = np.array([[a, a + 5 * b] for a, b in zip(start[:size], rate)])
    const = [(k, v) for k, v in zip(nm[size:], start[size:]) if v]
    if len(const) < len(nm) - size or not const:
        ctx.nontrivial()
    ctx.label("constant part" if const else "no constant part")
    sets = [mg.RefSet("dy", vnm, values, [epoch, epoch + 5], 2)]
    if const:
        sets.append(mg.RefSet("const", [k for k, v in const], np.array([[v] for k, v in const])))
    compare(coeff, model, sets, epoch, epoch + 5, [epoch, epoch + 2.5], case["seed"], case)


@check(st.tuples(files.mio_file_spec(), gen.finite(3653, 11000), gen.finite(0, 24), st.booleans()), quick=2400, thorough=150000,
       rule="MIO files of any extents; coefficients at a time and magnetic universal time and header values; non-trivial with several wave numbers")
def mio(case, ctx):
    spec, time, mut, above = case
    if spec["ps"][1] > spec["ps"][0] and spec["ps"][3] > spec["ps"][2]:
        ctx.nontrivial()
    with Folder() as tmp:
        path = tmp.write("mio.txt", spec, files.mio_lines(spec))
        loaded = [load_coeff_swarm_mio_internal(path), load_coeff_swarm_mio_external(path, above)]
        if above:
            loaded.append(load_coeff_swarm_mio_external(path))
    qs, gh = files.mio_file_values(spec)
    n = np.array(spec["nm"])[:, 0]
    degree = int(n.max())
    outside = -(n / (n + 1.0)) * (1 + spec["height"] / 6371.2) ** (2 * n + 1)
    external = qs * outside[:, None, None, None] if above else qs
    fraction = float(mg.decimal_year(time) % 1)
    for (coeff, params), values, internal in zip(loaded, (gh, external, external), (True, above, above)):
        require(coeff.is_internal is internal, "wrong source", case=case)
        require((int(coeff.degree), int(coeff.min_degree)) == (degree, n.min()), "wrong degrees")
        require_same(coeff.validity, [-np.inf, np.inf], "wrong validity")
        require(tuple(coeff.ps_extent) == tuple(spec["ps"]), "wrong extent of wave numbers", got=tuple(coeff.ps_extent), case=case)
        got, deg = coeff(time, mut)
        require(deg == degree, "wrong degree")
        require_shape(got, (ncoef(degree), 2), "coefficients")
        val, tol, amp = mg.fourier_sum(values, spec["ps"][0], spec["ps"][2], fraction, mut)
        full, err = np.zeros((ncoef(degree), 2)), np.zeros((ncoef(degree), 2))
        for (k, m), v, e in zip(spec["nm"], val, tol + 4e-11 * amp):
            full[k * (k + 1) // 2 + abs(m), int(m < 0)] = v
            err[k * (k + 1) // 2 + abs(m), int(m < 0)] = e
        require_close(got, full, err, "wrong coefficients", time=time, mut=mut, case=case)
        # header of the file
        require([params[k] for k in ("nmax", "mmax", "pmin", "pmax", "smin", "smax")] == [degree, max(abs(v[1]) for v in spec["nm"])] + spec["ps"], "wrong header", case=case)
        require_same([params["theta_NGP"], params["phi_NGP"], params["height"], params["wolf_ratio"]], [spec[k] for k in ("colat", "lon", "height", "wolf")], "wrong header", case=case)
        require_close(params["lat_NGP"], 90 - spec["colat"], 1e-13, "wrong latitude of the pole")
        require(-180 <= params["lon_NGP"] <= 180, "longitude of the pole out of range", got=params["lon_NGP"])
        require_close((params["lon_NGP"] - spec["lon"] + 180) % 360 - 180, 0.0, 1e-12, "wrong longitude of the pole", case=case)
        require_same(params["qs"], qs, "wrong external coefficients")
        require_same(params["gh"], gh, "wrong internal coefficients")


JUNK = st.sampled_from(["x", "1.0.0", "--1", "1e", "0x10", "1,0", "g1"])


@st.composite
def malformed_cases(draw):
    kind = draw(st.sampled_from(["wmm", "igrf", "static", "secvar", "mio"]))
    spec = draw({"wmm": files.wmm_spec(), "igrf": files.igrf_spec(), "mio": files.mio_file_spec()}.get(kind, files.emm_spec()))
    faults = {"wmm": ["drop", "text", "order", "header", "blank", "epoch"], "igrf": ["drop", "add", "text", "order", "label", "times", "empty"],
              "static": ["drop", "text", "order", "epoch", "other epoch", "swap", "first missing"], "secvar": ["drop", "text", "epoch", "other epoch", "swap", "first missing", "long"],
              "mio": ["drop", "add", "text", "order", "header", "row missing", "halves", "empty"]}[kind]
    return {"kind": kind, "spec": spec, "fault": draw(st.sampled_from(faults)), "row": draw(st.integers(0, 30)), "pos": draw(st.integers(0, 30)), "junk": draw(JUNK)}


def spoil(lines, first, index, value, case):
    """one fault put to the lines, False when it can not be"""
    rows = list(range(first, len(lines)))
    at = rows[case["row"] % len(rows)]
    fields = lines[at].split()
    fault = case["fault"]
    if fault == "drop":
        fields.pop()
    elif fault == "add":
        if len(rows) == 1:
            return False
        fields.append("1.5")
    elif fault == "text":
        fields[value + case["pos"] % (len(fields) - value)] = case["junk"]
    elif fault == "order":
        fields[index + 1] = str(int(fields[index]) + 1 + case["pos"] % 3)
    elif fault == "label":
        fields[0] = case["junk"]
    elif fault == "blank":
        lines.insert(at, "")
        return True
    elif fault in ("row missing", "first missing"):
        at = at if fault == "row missing" else first
        del lines[at]
        return True
    else:
        raise KeyError(fault)
    lines[at] = " ".join(fields)
    return True


@check(malformed_cases(), quick=3000, thorough=100000,
       rule="a well-formed file of any of the formats with one fault: missing, additional, non-numeric fields, invalid orders and labels, missing rows, inconsistent epochs or halves; always non-trivial")
def malformed_files(case, ctx):
    kind, spec, fault = case["kind"], case["spec"], case["fault"]
    pair = None
    if kind == "wmm":
        lines = files.wmm_lines(dict(spec, tail="none"))
        if fault == "header":
            lines[0] = lines[0].split()[0]
        elif fault == "epoch":
            lines[0] = lines[0].replace("%.1f" % spec["epoch"], case["junk"])
        elif fault == "order" and all(not v for v in files.wmm_values(spec)[case["row"] % len(spec["rows"])]):
            return
        elif not spoil(lines, 1, 0, 2, case):
            return
    elif kind == "igrf":
        lines = files.igrf_lines(dict(spec, comments=[]))
        if fault == "times":
            lines[1] = " ".join(lines[1].split()[:-1])
        elif fault == "empty":
            lines = lines[:case["pos"] % 3]
        elif fault in ("drop", "add") and len(lines) == 3 and len(spec["times"]) == 1 and fault == "drop":
            spoil(lines, 2, 1, 3, case)
        elif not spoil(lines, 2, 1, 3, case):
            return
    elif kind == "mio":
        lines = files.mio_lines(dict(spec, comments=[]))
        if fault == "header":
            lines[0] = " ".join(lines[0].split()[:case["pos"] % 10] or ["1"])
        elif fault == "empty":
            lines = lines[:case["pos"] % 2]
        elif fault == "halves":
            at = 1 + len(spec["nm"]) + case["row"] % len(spec["nm"])
            fields = lines[at].split()
            fields[0] = str(int(fields[0]) + 1)
            lines[at] = " ".join(fields)
        elif not spoil(lines, 1, 0, 2, case):
            return
    else:
        pair = [files.emm_lines(spec, 0), files.emm_lines(spec, 1)]
        which = 0 if kind == "static" else 1
        lines = pair[which]
        first = next(i for i, l in enumerate(lines) if l.startswith("--")) + 1
        epoch = next(i for i, l in enumerate(lines) if l.startswith("Epoch"))
        if fault == "epoch":
            del lines[epoch]
        elif fault == "other epoch":
            lines[epoch] = "Epoch: %.1f" % (spec["epoch"] + 5)
        elif fault == "long":
            lines.extend("%d %d 1.0 2.0" % (20, m) for m in range(1, 3))
        elif fault == "swap":
            if lines[first + 1:] == []:
                return
            lines[first], lines[first + 1] = lines[first + 1], lines[first]
        elif fault == "order" and case["row"] % (len(lines) - first) < len(spec["variable"]):
            ctx.label("order of a varying term")
            spoil(lines, first, 0, 2, case)
        elif fault == "order" and all(not float(v) for v in lines[first + case["row"] % (len(lines) - first)].split()[2:]):
            return  # terms with zero values are not used
        elif not spoil(lines, first, 0, 2, case):
            return
    ctx.nontrivial(kind + " " + fault)
    with Folder() as tmp:
        paths = [tmp.write("file%d.txt" % i, {}, l) for i, l in enumerate(pair or [lines])]
        loaders = {"wmm": [load_coeff_wmm, load_model_wmm], "igrf": [load_coeff_igrf, load_model_igrf],
                   "mio": [load_coeff_swarm_mio_internal, load_coeff_swarm_mio_external]}.get(kind, [load_coeff_emm, load_model_emm])
        for loader in loaders:
            try:
                loaded = loader(*paths)
            except Exception:
                continue
            fail("a malformed file is loaded", loader=loader.__name__, fault=fault, text="\n".join(lines), loaded=repr(loaded), case=case)


# ---------------------------------------------------------------------------
# shipped files read independently

SHIPPED = [("WMM_2015", "wmm"), ("IGRF11", "igrf"), ("IGRF12", "shc"), ("IGRF13", "shc"), ("IGRF14", "shc"), ("SIFM", "shc"), ("MF7", "shc"), ("LCS1", "shc"),
           ("CHAOS_CORE_LATEST", "shc"), ("CHAOS_CORE_PREDICTION_LATEST", "shc"), ("CHAOS_STATIC_LATEST", "shc")]
_CACHE = {}


def shipped_content(name, kind):
    if name not in _CACHE:
        path = getattr(shipped, name)
        lines = [l.split() for l in open(path).read().split("\n") if l.strip() and not l.lstrip().startswith("#")]
        if kind == "wmm":
            epoch = float(lines[0][0])
            rows = [[float(v) for v in l] for l in lines[1:] if len(l) > 1]
            nm, values = [], []
            for n, m, g, h, dg, dh in rows:
                nm.append((int(n), int(m)))
                values.append([g, g + 5 * dg])
                if m:
                    nm.append((int(n), -int(m)))
                    values.append([h, h + 5 * dh])
            times, loader = [epoch, epoch + 5], load_coeff_wmm
        elif kind == "igrf":
            times = [float(v) for v in lines[1][3:-1]]
            times.append(times[-1] + 5)
            nm = [(int(n), int(m) * (-1 if l == "h" else 1)) for l, n, m, *_ in lines[2:]]
            values = [[float(v) for v in l[3:]] for l in lines[2:]]
            values = [v[:-1] + [v[-2] + 5 * v[-1]] for v in values]
            loader = load_coeff_igrf
        else:
            times = [float(v) for v in lines[1]]
            nm = [(int(l[0]), int(l[1])) for l in lines[2:]]
            values = [[float(v) for v in l[2:]] for l in lines[2:]]
            loader = load_coeff_shc
        _CACHE[name] = loader(path), times, nm, np.array(values)
    return _CACHE[name]


@check(st.tuples(st.sampled_from(SHIPPED), gen.finite(0, 1), st.booleans(), st.integers(0, 300)), quick=400, thorough=20000,
       rule="shipped files read by an independent reader, times in the validity and snapshots; non-trivial when the model varies in time")
def shipped_files(case, ctx):
    (name, kind), part, snap, index = case
    coeff, times, nm, values = shipped_content(name, kind)
    n = [k for k, _ in nm]
    used = [k for (k, _), v in zip(nm, values) if kind != "wmm" or v.any()]
    require((coeff.degree, coeff.min_degree) == (max(used), min(used)), "wrong degrees", got=[coeff.degree, coeff.min_degree], file=name)
    if len(times) == 1:
        t = 3000.0 * part
        expected, tol = values[:, 0], 0.0
    else:
        ctx.nontrivial(name)
        node = index % len(times)
        year = times[node] if snap else times[0] + part * (times[-1] - times[0])
        t = float(mg.from_year(year))
        if kind != "shc":
            ref = mg.RefSet("dy", nm, values, times, 2)
        else:
            ref = mg.RefSet("mjd", nm, values, [float(mg.from_year(v)) for v in times], 2, fuzz=2e-9)
        val = ref.at(t)[0]
        expected = np.array([float(val[k][0]) for k in nm])
        tol = np.array([float(val[k][1]) for k in nm]) * 4e-15
        t = min(max(t, float(coeff.validity[0])), float(coeff.validity[1]))
    got, degree = coeff(t)
    full, err = np.zeros((ncoef(max(n)), 2)), np.zeros((ncoef(max(n)), 2))
    for (k, m), v, e in zip(nm, expected, np.broadcast_to(tol, len(nm))):
        full[k * (k + 1) // 2 + abs(m), int(m < 0)] = v
        err[k * (k + 1) // 2 + abs(m), int(m < 0)] = e
    size = np.zeros_like(full)
    size[:len(got)] = got
    require_close(size, full, err, "the file is not reproduced", file=name, time=t)
