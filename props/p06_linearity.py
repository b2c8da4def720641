"""P06 linearity, scaling, truncation and invariance of the spherical harmonic evaluation"""
import numpy as np
from hypothesis import strategies as st
import eoxmagmod as em
from vh import gen, ref
from vh.shgen import KINDS, RANGE, coef_spec, make_coef, expected_at, ncoef
from vh.core import check, require_shape, require_close

LOW = st.one_of(st.integers(0, 3), st.integers(0, 30))
BOTH = em.POTENTIAL_AND_GRADIENT
FACTOR = st.one_of(gen.finite(-1e3, 1e3), st.sampled_from([0.0, 1.0, -1.0, 2.0, 1e-6]))


@st.composite
def base(draw, degrees=LOW, npts=3):
    kin = draw(st.integers(0, 2))
    return {"coef": draw(coef_spec(degrees)), "kin": kin, "kout": draw(st.integers(0, 2)),
            "internal": draw(st.booleans()), "apart": draw(st.sampled_from([0, 0, 31, 31, 1, 2, 4, 30])),
            "points": draw(st.lists(gen.positions(kin, **RANGE), min_size=1, max_size=npts))}


def tolerances(coef, degree, case):
    tols = [expected_at(coef, degree, p, case["kin"], case["kout"], case["internal"])[2:] for p in case["points"]]
    return np.array([t[0] for t in tols]), np.array([t[1] for t in tols])[:, None]


def evaluated(pts, coef, kin, kout, case, call, **kw):
    """potential and gradient by a single evaluation or each by its own"""
    kw["is_internal"] = case["internal"]
    args = pts, coef, KINDS[kin], KINDS[kout]
    if case["apart"] >> call & 1:
        return em.sheval(*args, em.POTENTIAL, **kw), em.sheval(*args, em.GRADIENT, **kw)
    return em.sheval(*args, BOTH, **kw)


def both(case, coef, call=0, **kw):
    return evaluated(np.array(case["points"]), coef, case["kin"], case["kout"], case, call, **kw)


@st.composite
def linear_cases(draw):
    case = draw(base())
    case["seed"] = draw(gen.SEED)
    case["a"], case["b"], case["bands"] = draw(FACTOR), draw(FACTOR), draw(st.booleans())
    return case


@check(linear_cases(), quick=4000, thorough=100000,
       rule="1-3 positions, two sets of coefficients up to degree 30 and two factors; non-trivial when both factors are not zero and degree > 0")
def linear(case, ctx):
    c1 = make_coef(case["coef"])
    degree = case["coef"]["degree"]
    r = gen.rng(case["seed"])
    c2 = r.normal(size=c1.shape) * 1e3
    if case["bands"]:
        # some of the degrees only
        n, _ = ref.tri_index(degree)
        c2[~(r.random(degree + 1) < 0.4)[n]] = 0.0
    a, b = case["a"], case["b"]
    if a and b and degree:
        ctx.nontrivial()
    v1, g1 = both(case, c1)
    v2, g2 = both(case, c2, 1)
    v, g = both(case, a * c1 + b * c2, 2)
    vtol, gtol = tolerances(abs(a) * abs(c1) + abs(b) * abs(c2), degree, case)
    require_close(v, a * v1 + b * v2, vtol, "potential is not linear", case=case)
    require_close(g, a * g1 + b * g2, gtol, "gradient is not linear", case=case)


@st.composite
def scale_cases(draw):
    case = draw(base())
    case["pot"] = draw(st.one_of(st.none(), FACTOR))
    case["grd"] = draw(st.one_of(st.none(), FACTOR, st.lists(FACTOR, min_size=3, max_size=3)))
    case["mode"] = draw(st.integers(1, 3))
    case["array"] = draw(st.booleans())
    case["func"] = draw(st.sampled_from(["sheval", "sheval", "shevaltemp", "sheval2dfs"]))
    return case


def evaluate(case, coef, mode, **kw):
    """evaluate the same coefficients by one of the entry points"""
    pts = np.array(case["points"])
    args = KINDS[case["kin"]], KINDS[case["kout"]]
    kw["is_internal"] = case["internal"]
    if case["func"] == "sheval":
        return em.sheval(pts, coef, *args, mode, **kw)
    from eoxmagmod._pymm import shevaltemp, sheval2dfs
    n, m = ref.tri_index(case["coef"]["degree"])
    if case["func"] == "shevaltemp":
        nm = np.concatenate([np.stack([n, m], 1), np.stack([n, -m], 1)[m > 0]]).astype("int32")
        gh = np.concatenate([coef[:, 0], coef[m > 0, 1]])
        return shevaltemp(np.zeros(len(pts)), pts, [(np.array([-1.0, 1.0]), np.stack([gh, gh], 1), nm, 2)], *args, mode, **kw)
    nm = np.stack([n, m], 1)
    nm = np.concatenate([nm, (nm * [1, -1])[m > 0]]).astype("int32")
    ab = np.zeros((len(nm), 1, 1, 2))
    ab[:, 0, 0, 0] = np.concatenate([coef[:, 0], coef[m > 0, 1]])
    zero = np.zeros(len(pts))
    return sheval2dfs(zero, zero, pts, (ab, nm, 0, 0, 1.0, 1.0), *args, mode, **kw)


@check(scale_cases(), quick=5000, thorough=100000,
       rule="1-3 positions, potential and gradient scales (scalar or vector), modes, entry points; non-trivial when a scale is requested")
def scaling(case, ctx):
    coef = make_coef(case["coef"])
    kw = {}
    if case["pot"] is not None:
        kw["scale_potential"] = case["pot"]
    if case["grd"] is not None:
        kw["scale_gradient"] = case["grd"]
        if case["array"] and isinstance(case["grd"], list):
            kw["scale_gradient"] = np.array(case["grd"])
    if kw:
        ctx.nontrivial(case["func"])
    mode = case["mode"]
    plain, scaled = evaluate(case, coef, mode), evaluate(case, coef, mode, **kw)
    if mode != 3:
        plain, scaled = [plain], [scaled]
    parts = {1: ["pot"], 2: ["grd"], 3: ["pot", "grd"]}[mode]
    for name, p, s in zip(parts, plain, scaled):
        factor = 1.0 if case[name] is None else np.array(case[name])
        require_shape(s, p.shape, name)
        require_close(s, p * factor, 4e-16 * abs(p * factor) + 1e-300, "wrong scale of " + name, case=case)


@st.composite
def cut_cases(draw):
    case = draw(base(st.one_of(st.integers(0, 12), st.integers(14, 30))))
    case["cut"] = draw(st.one_of(st.integers(0, case["coef"]["degree"]), st.integers(0, 5)))
    case["seed"] = draw(gen.SEED)
    return case


@check(cut_cases(), quick=5000, thorough=100000,
       rule="evaluation truncated at a degree against cut, zeroed and polluted coefficients; non-trivial when truncated")
def truncation(case, ctx):
    coef = make_coef(case["coef"])
    cut, degree = case["cut"], case["coef"]["degree"]
    used = min(cut, degree)
    if used < degree:
        ctx.nontrivial()
    v, g = both(case, coef, degree=cut)
    vtol, gtol = tolerances(coef, used, case)
    size = ncoef(used)
    zeroed = coef.copy()
    zeroed[size:] = 0
    polluted = coef.copy()
    polluted[size:] = gen.rng(case["seed"]).normal(size=polluted[size:].shape) * 1e8
    padded = np.concatenate([zeroed, np.zeros((ncoef(degree + 2) - len(coef), 2))])
    for call, (name, c, kw) in enumerate([("cut", coef[:size], {}), ("zeroed", zeroed, {}), ("padded by zeros", padded, {}),
                        ("polluted above the degree", polluted, {"degree": cut})], 1):
        v1, g1 = both(case, c, call, **kw)
        require_close(v1, v, 2 * vtol, "potential of coefficients " + name, case=case)
        require_close(g1, g, 2 * gtol, "gradient of coefficients " + name, case=case)


@st.composite
def rotation_cases(draw):
    case = draw(base())
    case["angle"] = draw(st.one_of(gen.finite(-360, 360), st.sampled_from([90.0, 180.0, -90.0, 45.0])))
    return case


@check(rotation_cases(), quick=4000, thorough=100000,
       rule="coefficients and longitudes rotated by the same angle about the axis; non-trivial when degree and angle are not zero")
def axial_rotation(case, ctx):
    coef = make_coef(case["coef"])
    degree, angle = case["coef"]["degree"], case["angle"]
    n, m = ref.tri_index(degree)
    s, c = (x.astype(float) for x in ref.sincosd(ref.ld(m) * ref.ld(angle)))
    turned = np.stack([coef[:, 0] * c - coef[:, 1] * s, coef[:, 0] * s + coef[:, 1] * c], 1)
    turned[m == 0] = coef[m == 0]
    if degree and angle:
        ctx.nontrivial()
    s1, c1 = (float(x) for x in ref.sincosd(angle))
    rot = np.array([[c1, -s1, 0], [s1, c1, 0], [0, 0, 1]])
    moved = dict(case)
    if case["kin"] == 2:
        moved["points"] = [(rot @ np.array(p)).tolist() for p in case["points"]]
    else:
        moved["points"] = [[p[0], p[1] + angle, p[2]] for p in case["points"]]
    v, g = both(case, coef)
    v1, g1 = both(moved, turned, 1)
    if case["kout"] == 2:
        g = g @ rot.T
    absc = np.hypot(coef[:, 0], coef[:, 1])
    vtol, gtol = tolerances(np.stack([absc, absc], 1), degree, moved)
    vtol0, gtol0 = tolerances(np.stack([absc, absc], 1), degree, case)
    extra = 3 * (1 + np.radians(abs(angle)))
    # rotated Cartesian coordinates are rounded: longitude is lost next to the axis
    polar = np.array([np.hypot(p[0], p[1]) < 1e-2 * abs(p[2]) for p in case["points"]]) & (case["kin"] == 2) & (case["kout"] != 2)
    require_close(v1, v, extra * (vtol + vtol0), "rotated potential", case=case)
    require_close(g1[~polar], g[~polar], (extra * 3 * (gtol + gtol0))[~polar], "rotated gradient", case=case)


@check(base(), quick=4000, thorough=100000,
       rule="the same point given in 3 systems and the field in 3 frames; non-trivial when degree > 0")
def system_invariance(case, ctx):
    coef = make_coef(case["coef"])
    degree, kin = case["coef"]["degree"], case["kin"]
    if degree:
        ctx.nontrivial()
    pts = np.array(case["points"])
    results = []
    for k in range(3):
        # at the poles the local frames are given by the longitude
        conv = np.array([np.asarray(ref.convert(p, kin, k), dtype=float) for p in pts])
        if k == 2 and kin != 2 and np.any(np.abs(ref.convert(pts, kin, 1)[:, 0]) > 89):
            continue
        for kout in range(3):
            v, g = evaluated(conv, coef, k, kout, case, len(results) % 5)
            frames = ref.frame(ref.convert(conv, k, kout), kout)
            results.append((k, kout, v, np.einsum("...ij,...i->...j", frames, ref.ld(g)).astype(float)))
    vtol, gtol = tolerances(coef, degree, dict(case, kout=2))
    for k, kout, v, g in results[1:]:
        require_close(v, results[0][2], 6 * vtol, "potential depends on the system", systems=(k, kout), case=case)
        require_close(g, results[0][3], 6 * gtol, "field depends on the system", systems=(k, kout), case=case)
