"""P08 evaluation of interpolated time series of coefficients"""
import numpy as np
from hypothesis import strategies as st
import eoxmagmod as em
from eoxmagmod._pymm import shevaltemp
from vh import gen, ref
from vh.shgen import KINDS, RANGE, nm_lists, dense, interpolated, expected_at, high_nm_lists, high_points, high_bound
from vh.core import check, require_shape, require_close, require_same


@st.composite
def series(draw, nested):
    order = draw(st.sampled_from([1, 2, 2]))
    nmin = order
    count = draw(st.integers(nmin, 6))
    start = draw(st.one_of(st.sampled_from([0.0, -10.0, 5.0]), gen.finite(-1e4, 1e4)))
    steps = draw(st.lists(st.one_of(st.sampled_from([1.0, 5.0, 365.25]), gen.finite(0.1, 500)), min_size=count - 1, max_size=count - 1))
    nodes = [start]
    for s in steps:
        nodes.append(nodes[-1] + s)
    return {"nodes": nodes, "order": order, "nm": draw(nm_lists(12 if nested else 6)), "seed": draw(gen.SEED)}


@st.composite
def time_near(draw, sets):
    nodes = draw(st.sampled_from(sets))["nodes"]
    span = max(nodes[-1] - nodes[0], 1.0)
    return draw(st.one_of(st.sampled_from(nodes), gen.finite(nodes[0], nodes[-1]) if len(nodes) > 1 else st.just(nodes[0]),
                          gen.finite(nodes[0] - span, nodes[-1] + span)))


@st.composite
def cases(draw):
    nested = draw(st.booleans())
    sets = draw(st.lists(series(nested), min_size=1, max_size=4))
    if len(sets) > 1 and draw(st.booleans()):
        # the same degrees and orders in two series
        sets[-1]["nm"] = sets[0]["nm"][:len(sets[-1]["nm"])] + []
    for spec in sets[1:]:
        # nodes related to the ones of the first series
        other, relation = sets[0]["nodes"], draw(st.sampled_from(["none", "none", "same", "ends", "subset", "one moved"]))
        if relation == "none" or len(other) < (3 if relation != "same" else spec["order"]):
            continue
        k = draw(st.integers(1, max(1, len(other) - 2)))
        if relation == "same":
            nodes = list(other)
        elif relation == "ends":
            a, b = other[0], other[-1]
            nodes = [a] + [a + (b - a) * (i + draw(gen.finite(0, 0.9))) / (len(other) - 1) for i in range(1, len(other) - 1)] + [b]
        elif relation == "subset":
            nodes = other[:k] + other[k + 1:]
        else:
            nodes = list(other)
            nodes[k] = (nodes[k - 1] + nodes[k]) / 2
        if all(x < y for x, y in zip(nodes, nodes[1:])):
            spec["nodes"] = nodes
    kin = draw(st.integers(0, 2))
    layout = draw(st.sampled_from(["pairs", "time0", "point0", "times2d"]))
    npts = 1 if layout == "point0" else draw(st.integers(1, 3))
    points = draw(st.lists(gen.positions(kin, **RANGE), min_size=npts, max_size=npts))
    ntime = 1 if layout == "time0" else (npts if layout == "pairs" else draw(st.integers(1, 3)))
    times = [draw(time_near(sets)) for _ in range(ntime)]
    if len(times) > 1:
        relation = draw(st.sampled_from(["none", "none", "same", "adjacent", "close"]))
        if relation != "none":
            k = draw(st.integers(0, len(times) - 2))
            sign = draw(st.sampled_from([-1.0, 1.0]))
            step = 0.0 if relation == "same" else draw(st.sampled_from([1e-12, 1e-9, 1e-7, 1e-5])) if relation == "close" else 0.0
            times[k + 1] = float(np.nextafter(times[k], sign * np.inf)) if relation == "adjacent" else times[k] + sign * step
            if draw(st.booleans()):
                times[k], times[k + 1] = times[k + 1], times[k]
    return {"sets": sets, "kin": kin, "kout": draw(st.integers(0, 2)), "internal": draw(st.booleans()), "layout": layout,
            "points": points, "times": times, "mode": draw(st.integers(1, 3)),
            "scale": draw(st.sampled_from([None, None, -1.0, 0.5, [1.0, -2.0, 3.0]]))}


def make_set(spec):
    values = gen.rng(spec["seed"]).normal(size=(len(spec["nm"]), len(spec["nodes"]))) * 1e4
    return np.array(spec["nodes"]), values, np.array(spec["nm"], dtype="int32"), spec["order"]


@check(cases(), quick=5000, thorough=200000,
       rule="1-4 series (1-6 own time nodes, piecewise constant or linear, sparse coefficients up to degree 12), times inside, at and out of the nodes, positions, modes; non-trivial when a series changes in time at degree > 0")
def temporal_evaluation(case, ctx):
    sets = [make_set(s) for s in case["sets"]]
    degree = max(n for s in case["sets"] for n, m in s["nm"])
    layout, kin, kout = case["layout"], case["kin"], case["kout"]
    pts, times = np.array(case["points"]), np.array(case["times"])
    if layout == "pairs":
        index = [((i,), t, p) for i, (t, p) in enumerate(zip(times, case["points"]))]
        shape = (len(times),)
    elif layout == "time0":
        times = times[0]
        shape = (len(pts),)
        index = [((i,), times, p) for i, p in enumerate(case["points"])]
    elif layout == "point0":
        pts = pts[0]
        shape = (len(times),)
        index = [((i,), t, case["points"][0]) for i, t in enumerate(times)]
    else:
        # positions match the leading dimension of the times
        times = np.tile(times, (len(pts), 1))
        shape = times.shape
        index = [((i, j), times[i, j], case["points"][i]) for i in range(shape[0]) for j in range(shape[1])]
    kw = {"is_internal": case["internal"]}
    factor = np.ones(3)
    if case["scale"] is not None:
        kw["scale_gradient"] = case["scale"]
        kw["scale_potential"] = 3.0
        factor = factor * case["scale"]
    pfac = kw.get("scale_potential", 1.0)
    copies = [tuple(np.copy(a) for a in s[:3]) for s in sets]
    res = shevaltemp(times, pts, sets, KINDS[kin], KINDS[kout], case["mode"], **kw)
    for s, c in zip(sets, copies):
        for a, b in zip(s, c):
            require_same(a, b, "coefficients modified")
    pot, grd = {1: (res, None), 2: (None, res), 3: res}[case["mode"]]
    if degree > 0 and any(len(s["nodes"]) > 1 for s in case["sets"]):
        ctx.nontrivial("%d series" % len(sets))
    if pot is not None:
        require_shape(pot, shape, "potential")
    if grd is not None:
        require_shape(grd, shape + (3,), "gradient")
    for idx, t, p in index:
        coef = amp = 0
        for nodes, values, nm, order in sets:
            val, mag = interpolated(nodes, values, t, order)
            coef = coef + dense(degree, nm, val)
            amp = amp + dense(degree, nm, mag)
        v, g, vtol, gtol = expected_at(coef, degree, p, kin, kout, case["internal"], amp=amp)
        if pot is not None:
            require_close(pot[idx], v * pfac, vtol * pfac, "wrong potential", time=t, point=p, case=case)
        if grd is not None:
            require_close(grd[idx], g * factor, gtol * abs(factor), "wrong gradient", time=t, point=p, case=case)
    # static evaluation with the same coefficients
    stat = em.sheval(p, coef.astype(float), KINDS[kin], KINDS[kout], em.GRADIENT, is_internal=case["internal"])
    if grd is not None:
        require_close(grd[idx], stat * factor, 2 * gtol * abs(factor), "differs from the static evaluation", time=t, point=p, case=case)


@st.composite
def split_cases(draw):
    spec = draw(series(False))
    kin = draw(st.integers(0, 2))
    return {"set": spec, "kin": kin, "internal": draw(st.booleans()), "split": draw(st.integers(0, len(spec["nm"]))),
            "part": draw(gen.finite(-2, 2)), "points": draw(st.lists(gen.positions(kin, **RANGE), min_size=1, max_size=2)),
            "time": draw(time_near([spec]))}


@check(split_cases(), quick=3000, thorough=50000, rule="a series split to two in terms or in magnitude; non-trivial with more than one term")
def additivity(case, ctx):
    t, gh, nm, order = make_set(case["set"])
    if len(nm) > 1:
        ctx.nontrivial()
    kind, k = KINDS[case["kin"]], case["split"]
    pts = np.array(case["points"])

    def run(sets):
        return shevaltemp(case["time"], pts, sets, kind, kind, em.POTENTIAL_AND_GRADIENT, is_internal=case["internal"])

    v, g = run([(t, gh, nm, order)])
    a = case["part"]
    variants = [[(t, a * gh, nm, order), (t, (1 - a) * gh, nm, order)], [(t, gh[::-1], nm[::-1], order)]]
    if 0 < k < len(nm):
        variants.append([(t, gh[k:], nm[k:], order), (t, gh[:k], nm[:k], order)])
    degree = int(nm[:, 0].max())
    _, mag = interpolated(t, gh, case["time"], order)
    amp = dense(degree, nm, mag)
    tols = [expected_at(amp, degree, p, case["kin"], case["kin"], case["internal"])[2:] for p in case["points"]]
    for sets in variants:
        v1, g1 = run(sets)
        for i, (vtol, gtol) in enumerate(tols):
            require_close(v1[i], v[i], 4 * (1 + abs(a)) * vtol, "potential of split series", case=case)
            require_close(g1[i], g[i], 4 * (1 + abs(a)) * gtol, "gradient of split series", case=case)


@st.composite
def high_cases(draw):
    sets = [draw(series(False)) for _ in range(draw(st.integers(1, 3)))]
    for spec in sets:
        spec["nm"] = draw(high_nm_lists())
    return {"sets": sets, "point": draw(high_points()), "times": [draw(time_near(sets)) for _ in range(draw(st.integers(1, 3)))],
            "internal": draw(st.booleans()), "mode": draw(st.integers(1, 3))}


@check(high_cases(), quick=1500, thorough=50000,
       rule="1-3 series of a few coefficients of degrees up to 400, against the static evaluation of the interpolated dense coefficients; non-trivial with orders above 127")
def high_degrees(case, ctx):
    sets = [make_set(s) for s in case["sets"]]
    degree = max(n for s in case["sets"] for n, m in s["nm"])
    if any(abs(m) > 127 for s in case["sets"] for n, m in s["nm"]):
        ctx.nontrivial()
    kw = {"is_internal": case["internal"]}
    point, times, mode = case["point"], case["times"], case["mode"]
    res = shevaltemp(np.array(times), point, sets, em.GEOCENTRIC_SPHERICAL, em.GEOCENTRIC_SPHERICAL, mode, **kw)
    res = {1: (res,), 2: (res,), 3: res}[mode]
    for i, t in enumerate(times):
        coef, bound = 0, np.zeros(2)
        for nodes, values, nm, order in sets:
            val, mag = interpolated(nodes, values, t, order)
            coef = coef + dense(degree, nm, val)
            bound += high_bound(nm, mag, point, case["internal"])
        stat = em.sheval(point, coef.astype(float), em.GEOCENTRIC_SPHERICAL, em.GEOCENTRIC_SPHERICAL, mode, **kw)
        stat = {1: (stat,), 2: (stat,), 3: stat}[mode]
        for got, exp, tol in zip(res, stat, {1: bound[:1], 2: bound[1:], 3: bound}[mode]):
            require_close(got[i], exp, 1e-13 * tol, "differs from the static evaluation", time=t, case=case)


@st.composite
def long_cases(draw):
    spacing = draw(st.sampled_from(["grid", "random", "years"]))
    sets = [{"size": draw(st.one_of(st.integers(20, 2000), st.sampled_from([127, 128, 255, 256, 257, 1025, 4097, 32769, 65537]))), "order": draw(st.sampled_from([1, 2, 2])),
             "nm": draw(nm_lists(6)), "shift": draw(gen.finite(0, 20)), "seed": draw(gen.SEED)} for _ in range(draw(st.integers(1, 2)))]
    kin = draw(st.integers(0, 2))
    return {"sets": sets, "spacing": spacing, "kin": kin, "kout": draw(st.integers(0, 2)), "points": draw(st.lists(gen.positions(kin, **RANGE), min_size=1, max_size=3)),
            "count": draw(st.one_of(st.integers(2, 800), st.sampled_from([256, 257, 1024, 4097, 10001]))), "order": draw(st.sampled_from(["random", "sorted", "reversed", "walk"])),
            "internal": draw(st.booleans()), "mode": draw(st.integers(1, 3)), "seed": draw(gen.SEED), "still": draw(st.booleans())}


@check(long_cases(), quick=600, thorough=30000,
       rule="1-2 series of 20-65537 time nodes, 2-10001 times (sorted, reversed, walking over the nodes) at repeated positions; sampled elements against the definition, all against the evaluation by halves; non-trivial with more than 100 nodes and times")
def long_series(case, ctx):
    r = gen.rng(case["seed"])
    sets = []
    for spec in case["sets"]:
        q = gen.rng(spec["seed"])
        steps = {"grid": np.ones(spec["size"] - 1), "random": q.uniform(0.05, 2, size=spec["size"] - 1), "years": np.full(spec["size"] - 1, 365.25)}[case["spacing"]]
        nodes = spec["shift"] + np.concatenate([[0.0], np.cumsum(steps)])
        sets.append((nodes, q.normal(size=(len(spec["nm"]), len(nodes))) * 1e4, np.array(spec["nm"], dtype="int32"), spec["order"]))
    if min(len(s[0]) for s in sets) > 100 and case["count"] > 100:
        ctx.nontrivial("%d series" % len(sets))
    nodes = sets[int(r.integers(0, len(sets)))][0]
    count = case["count"]
    k = r.integers(0, len(nodes) - 1, size=count)
    if case["order"] == "walk":
        k = np.clip(np.cumsum(r.integers(-1, 2, size=count)) + k[0], 0, len(nodes) - 2)
    times = nodes[k] + np.where(r.random(count) < 0.3, 0.0, r.random(count)) * (nodes[k + 1] - nodes[k])
    times = np.where(r.random(count) < 0.1, np.nextafter(times, -np.inf), times)
    if case["order"] in ("sorted", "reversed"):
        times = np.sort(times)[::1 if case["order"] == "sorted" else -1]
    points = np.array(case["points"])[r.integers(0, len(case["points"]), size=count)]
    if case["still"]:
        points = points[0]
    kin, kout = case["kin"], case["kout"]

    def run(part):
        res = shevaltemp(times[part], points if points.ndim == 1 else points[part], sets, KINDS[kin], KINDS[kout], case["mode"], is_internal=case["internal"])
        return {1: (res, None), 2: (None, res), 3: res}[case["mode"]]

    pot, grd = run(slice(None))
    degree = max(n for s in case["sets"] for n, m in s["nm"])
    picked = sorted({0, count - 1, *(v for v in (255, 256, 1023, 1024, 4096) if v < count), *(int(v) for v in r.integers(0, count, size=8))})
    for i in picked:
        point = (points if points.ndim == 1 else points[i]).tolist()
        coef = amp = 0
        for nodes, values, nm, order in sets:
            # the neighbourhood of the time
            at = int(np.searchsorted(nodes, times[i], "right")) - 1
            first = min(max(at - 1, 0), len(nodes) - 3)
            val, mag = interpolated(nodes[first:first + 4], values[:, first:first + 4], times[i], order)
            coef, amp = coef + dense(degree, nm, val), amp + dense(degree, nm, mag)
        v, g, vtol, gtol = expected_at(coef, degree, point, kin, kout, case["internal"], amp=amp)
        if pot is not None:
            require_close(pot[i], v, vtol, "wrong potential", index=i, time=times[i], case=case)
        if grd is not None:
            require_close(grd[i], g, gtol, "wrong gradient", index=i, time=times[i], case=case)
    half = int(r.integers(0, count + 1))
    for whole, one, two in zip((pot, grd), run(slice(0, half)), run(slice(half, None))):
        if whole is not None:
            parts = np.concatenate([one, two])
            require_close(whole, parts, 1e-13 * float(np.max(np.abs(parts))), "differs from the evaluation by halves", half=half, case=case)
