"""P09 2D Fourier series and field evaluation driven by them"""
import numpy as np
from hypothesis import strategies as st
import eoxmagmod as em
from eoxmagmod._pymm import fourier2d, sheval2dfs
from vh import gen, ref
from vh.shgen import KINDS, RANGE, nm_lists, dense, expected_at, high_nm_lists, high_points, high_bound
from vh.core import check, require_shape, require_close, require_same

LD = np.longdouble
SCALE = st.one_of(st.sampled_from([1.0, 0.5, -1.0, 2 * np.pi / 365.25, 2 * np.pi / 24, 0.017453292519943295]), gen.finite(-3, 3))


@st.composite
def spectrum(draw, max_size=7):
    lim = st.one_of(st.integers(-8, 4), st.integers(-8, 4), st.integers(-25, 25), st.integers(-700, 700))
    count = [draw(st.integers(1, max_size)), draw(st.integers(1, max_size))]
    wide = draw(st.integers(0, 19))
    if wide < 2:
        count[wide] = draw(st.integers(max_size, 400))
    return {"min1": draw(lim), "n1": count[0], "min2": draw(lim), "n2": count[1],
            "s1": draw(SCALE), "s2": draw(SCALE), "seed": draw(gen.SEED)}


TIME = st.one_of(gen.finite(-400, 400), st.sampled_from([0.0, 1.0, 365.25, 24.0, -0.5]))


def direct_sum(ab, spec, t1, t2):
    """sum of the terms, sum of their magnitudes weighted by the wave numbers"""
    k1 = (spec["min1"] + np.arange(spec["n1"])).astype(LD)
    k2 = (spec["min2"] + np.arange(spec["n2"])).astype(LD)
    x, y = LD(t1) * LD(spec["s1"]), LD(t2) * LD(spec["s2"])
    arg = k1[:, None] * x + k2[None, :] * y
    val = np.sum(ab[..., 0] * np.cos(arg) + ab[..., 1] * np.sin(arg), axis=(-2, -1))
    amp = np.hypot(ab[..., 0], ab[..., 1])
    weight = 2e-15 * (ab.shape[-2] * ab.shape[-3]) ** 0.5 + 4e-15 + 8e-16 * (
        np.abs(k1)[:, None] * (1 + abs(x)) + np.abs(k2)[None, :] * (1 + abs(y)))
    return val, np.sum(amp * weight, axis=(-2, -1)).astype(float), np.sum(amp, axis=(-2, -1)).astype(float)


@st.composite
def series_cases(draw):
    case = draw(spectrum(9))
    case["dims"] = draw(st.sampled_from([[], [2], [2, 3], [0]]))
    case["times"] = draw(st.lists(st.tuples(TIME, TIME).map(list), min_size=1, max_size=4))
    if len(case["times"]) > 1 and draw(st.booleans()):
        case["times"][1][draw(st.integers(0, 1))] = case["times"][0][0]
    case["scalar"] = draw(st.booleans())
    case["defaults"] = draw(st.booleans())
    return case


@check(series_cases(), quick=9000, thorough=250000,
       rule="ranges of wave numbers (negative, mixed, positive; 1-9, in one dimension up to 400, terms of wave numbers up to 1100), scaling and time pairs; non-trivial with more than one term")
def direct_summation(case, ctx):
    if case["defaults"]:
        case = dict(case, min1=0, min2=0, s1=1.0, s2=1.0)
    ab = gen.rng(case["seed"]).normal(size=tuple(case["dims"]) + (case["n1"], case["n2"], 2)) * 10
    if case["n1"] * case["n2"] > 1:
        ctx.nontrivial("negative wave numbers" if min(case["min1"], case["min2"]) < 0 else "non-negative")
    times = case["times"][:1] if case["scalar"] else case["times"]
    t = np.array(times)
    t1, t2 = (t[0, 0], t[0, 1]) if case["scalar"] else (t[:, 0], t[:, 1])
    args = () if case["defaults"] else (case["min1"], case["min2"], case["s1"], case["s2"])
    got = fourier2d(t1, t2, ab, *args)
    require_shape(got, np.shape(t1) + tuple(case["dims"]))
    got = got.reshape((len(times),) + tuple(case["dims"]))
    for i, (a, b) in enumerate(times):
        val, tol, _ = direct_sum(ab, case, a, b)
        require_close(got[i], val.astype(float), tol, "wrong sum of the series", times=(a, b), case=case)


@st.composite
def field_cases(draw):
    case = draw(spectrum(5))
    case["nm"] = draw(nm_lists(8))
    kin = draw(st.integers(0, 2))
    count = draw(st.integers(1, 3))
    case["layout"] = draw(st.sampled_from(["all", "t1", "t2", "both", "point"]))
    case.update(kin=kin, kout=draw(st.integers(0, 2)), internal=draw(st.booleans()), mode=draw(st.integers(1, 3)),
                points=draw(st.lists(gen.positions(kin, **RANGE), min_size=count, max_size=count)),
                times=draw(st.lists(st.tuples(TIME, TIME).map(list), min_size=count, max_size=count)),
                scale=draw(st.sampled_from([None, None, -1.0, [1.0, -2.0, 3.0]])))
    if count > 1 and draw(st.booleans()):
        case["times"][1] = [case["times"][0][0], case["times"][1][1]]
    if count > 1 and draw(st.booleans()):
        case["times"][1] = [case["times"][1][0], case["times"][0][1]]
    return case


@check(field_cases(), quick=5000, thorough=150000,
       rule="Fourier expanded sparse coefficients up to degree 8, time pairs and positions (each scalar or array), modes and scales; non-trivial when degree is above 0")
def driven_field(case, ctx):
    nm = np.array(case["nm"], dtype="int32")
    degree = int(nm[:, 0].max())
    ab = gen.rng(case["seed"]).normal(size=(len(nm), case["n1"], case["n2"], 2)) * 1e3
    pts, t = np.array(case["points"]), np.array(case["times"])
    t1, t2 = t[:, 0], t[:, 1]
    if degree > 0:
        ctx.nontrivial(case["layout"])
    a1, a2, ax = t1, t2, pts
    if case["layout"] in ("t1", "both"):
        a1 = t1[0]
        t1 = np.full_like(t1, a1)
    if case["layout"] in ("t2", "both"):
        a2 = t2[0]
        t2 = np.full_like(t2, a2)
    if case["layout"] == "point":
        ax = pts[0]
        pts = np.tile(ax, (len(t1), 1))
    kw = {"is_internal": case["internal"]}
    factor, pfac = np.ones(3), 1.0
    if case["scale"] is not None:
        kw["scale_gradient"], kw["scale_potential"] = case["scale"], -2.5
        factor, pfac = factor * case["scale"], -2.5
    backup = ab.copy(), nm.copy()
    res = sheval2dfs(a1, a2, ax, (ab, nm, case["min1"], case["min2"], case["s1"], case["s2"]),
                     KINDS[case["kin"]], KINDS[case["kout"]], case["mode"], **kw)
    require_same(ab, backup[0], "coefficients modified")
    require_same(nm, backup[1], "coefficients modified")
    pot, grd = {1: (res, None), 2: (None, res), 3: res}[case["mode"]]
    for i, p in enumerate(pts.tolist()):
        val, tol, amp = direct_sum(ab, case, t1[i], t2[i])
        coef = dense(degree, case["nm"], val)
        v, g, vtol, gtol = expected_at(coef, degree, p, case["kin"], case["kout"], case["internal"], amp=dense(degree, case["nm"], amp))
        # error of the coefficients
        sph = ref.convert(np.array(p), case["kin"], 1)
        _, _, vs, gs = ref.synth(dense(degree, case["nm"], tol), degree, sph, case["internal"])
        if pot is not None:
            require_shape(pot, (len(pts),), "potential")
            require_close(pot[i], v * pfac, (vtol + vs) * abs(pfac), "wrong potential", point=p, case=case)
        if grd is not None:
            require_shape(grd, (len(pts), 3), "gradient")
            require_close(grd[i], g * factor, (gtol + gs) * abs(factor), "wrong gradient", point=p, case=case)
    if grd is not None:
        # static evaluation with the coefficients evaluated by fourier2d
        values = fourier2d(t1[i], t2[i], ab, case["min1"], case["min2"], case["s1"], case["s2"])
        stat = em.sheval(pts[i], dense(degree, case["nm"], values).astype(float), KINDS[case["kin"]], KINDS[case["kout"]], is_internal=case["internal"])
        require_close(grd[i], stat * factor, 2 * (gtol + gs) * abs(factor), "differs from the static evaluation", case=case)


@st.composite
def high_cases(draw):
    case = draw(spectrum(5))
    case.update(nm=draw(high_nm_lists()), point=draw(high_points()), times=draw(st.lists(st.tuples(TIME, TIME).map(list), min_size=1, max_size=3)),
                internal=draw(st.booleans()), mode=draw(st.integers(1, 3)))
    return case


@check(high_cases(), quick=1500, thorough=50000,
       rule="Fourier expanded sparse coefficients of degrees up to 400, against the static evaluation of the summed dense coefficients; non-trivial with orders above 127")
def high_degrees(case, ctx):
    nm = np.array(case["nm"], dtype="int32")
    degree = int(nm[:, 0].max())
    if abs(nm[:, 1]).max() > 127:
        ctx.nontrivial()
    ab = gen.rng(case["seed"]).normal(size=(len(nm), case["n1"], case["n2"], 2)) * 1e3
    t = np.array(case["times"])
    kw = {"is_internal": case["internal"]}
    point, mode = case["point"], case["mode"]
    res = sheval2dfs(t[:, 0], t[:, 1], point, (ab, nm, case["min1"], case["min2"], case["s1"], case["s2"]),
                     em.GEOCENTRIC_SPHERICAL, em.GEOCENTRIC_SPHERICAL, mode, **kw)
    res = {1: (res,), 2: (res,), 3: res}[mode]
    for i, (a, b) in enumerate(case["times"]):
        val, tol, amp = direct_sum(ab, case, a, b)
        stat = em.sheval(point, dense(degree, nm, val).astype(float), em.GEOCENTRIC_SPHERICAL, em.GEOCENTRIC_SPHERICAL, mode, **kw)
        stat = {1: (stat,), 2: (stat,), 3: stat}[mode]
        bound = high_bound(nm, tol + 1e-13 * amp, point, case["internal"])
        for got, exp, err in zip(res, stat, {1: bound[:1], 2: bound[1:], 3: bound}[mode]):
            require_close(got[i], exp, err, "differs from the static evaluation", times=(a, b), case=case)
