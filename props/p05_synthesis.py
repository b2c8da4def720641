"""P05 spherical harmonic potential and gradient"""
import numpy as np
from hypothesis import strategies as st
import eoxmagmod as em
from vh import gen, ref
from vh.shgen import KINDS, RANGE, coef_spec, make_coef, expected_at
from vh.core import check, require, require_shape, require_close, require_same

LOW = st.one_of(st.integers(0, 3), st.integers(0, 20), st.integers(10, 40))


@st.composite
def cases(draw, degrees, span=RANGE):
    kin = draw(st.integers(0, 2))
    return {"coef": draw(coef_spec(degrees)), "kin": kin, "kout": draw(st.integers(0, 2)),
            "internal": draw(st.booleans()), "request": draw(st.sampled_from([None, -1, "+", "-"])),
            "points": draw(st.lists(gen.positions(kin, **span), min_size=1, max_size=3))}


def run(case, ctx):
    coef = make_coef(case["coef"])
    degree, kin, kout, internal = case["coef"]["degree"], case["kin"], case["kout"], case["internal"]
    pts = np.array(case["points"])
    kw = {"is_internal": internal}
    used = degree
    if case["request"] == -1:
        kw["degree"] = -1
    elif case["request"] == "+":
        kw["degree"] = degree + 3
    elif case["request"] == "-":
        used = kw["degree"] = degree // 2
    args = (KINDS[kin], KINDS[kout])
    if used > 0:
        ctx.nontrivial("internal" if internal else "external")
    if kin != kout:
        ctx.label("frame change")
    backup = pts.copy(), coef.copy()
    pot = em.sheval(pts, coef, *args, em.POTENTIAL, **kw)
    grd = em.sheval(pts, coef, *args, em.GRADIENT, **kw)
    pot2, grd2 = em.sheval(pts, coef, *args, em.POTENTIAL_AND_GRADIENT, **kw)
    require_same(pts, backup[0], "positions modified")
    require_same(coef, backup[1], "coefficients modified")
    require_shape(pot, (len(pts),), "potential")
    require_shape(grd, (len(pts), 3), "gradient")
    require_shape(pot2, (len(pts),), "potential")
    require_shape(grd2, (len(pts), 3), "gradient")
    for i, point in enumerate(case["points"]):
        v, g, vtol, gtol = expected_at(coef, used, point, kin, kout, internal)
        require_close(pot[i], v, vtol, "wrong potential", point=point, case=case)
        if abs(np.abs(ref.convert(np.array(point), kin, 1)[0]) - 90) < 1e-5:
            ctx.label("next to the pole")
        require_close(grd[i], g, gtol, "wrong gradient", point=point, case=case)
        require_close(pot2[i], pot[i], vtol / 4, "potential differs with the gradient evaluated", point=point, case=case)
        require_close(grd2[i], grd[i], gtol / 4, "gradient differs with the potential evaluated", point=point, case=case)


@check(cases(LOW), quick=8000, thorough=200000,
       rule="1-3 positions, coefficients of degree 0-40, 9 system pairs, internal/external, degree option; non-trivial when the evaluated degree is above 0")
def series_and_gradient(case, ctx):
    run(case, ctx)


@check(cases(st.integers(40, 150)), quick=400, thorough=10000,
       rule="as above with degree 40-150; every case is non-trivial")
def high_degree(case, ctx):
    run(case, ctx)


NEAR = {"rmin": 6000.0, "rmax": 7000.0, "hmin": -100.0, "hmax": 600.0}


@check(cases(st.integers(150, 1500), NEAR), quick=120, thorough=3000,
       rule="as above with degree 150-1500 and radii 6000-7000 km; every case is non-trivial")
def very_high_degree(case, ctx):
    run(case, ctx)


@st.composite
def block_cases(draw):
    lat = draw(gen.latitudes())
    return {"coef": draw(coef_spec(LOW)), "internal": draw(st.booleans()), "fast": draw(st.booleans()),
            "cut": draw(st.one_of(st.none(), st.integers(0, 40))),
            "points": [[lat, draw(gen.longitudes()), draw(gen.radii(3000.0, 40000.0))]]
            + draw(st.lists(gen.positions(1, **RANGE), min_size=0, max_size=2))}


@check(block_cases(), quick=6000, thorough=150000,
       rule="spherical positions evaluated by legendre, loncossin, relradpow, spharpot and sphargrd; non-trivial when degree is above 0")
def building_blocks(case, ctx):
    coef = make_coef(case["coef"])
    degree, internal = case["coef"]["degree"], case["internal"]
    pts = np.array(case["points"])
    kw = {}
    if case["cut"] is not None:
        kw["degree"] = case["cut"]
    used = min(degree, kw.get("degree", degree))
    if used > 0:
        ctx.nontrivial("internal" if internal else "external")
    leg, dleg = em.legendre(pts[:, 0], degree)
    lcs = em.loncossin(pts[:, 1], degree, case["fast"])
    rrp = em.relradpow(pts[:, 2], degree, is_internal=internal)
    pot = em.spharpot(pts[:, 2], coef, leg, rrp, lcs, **kw)
    grd = em.sphargrd(pts[:, 0], coef, leg, dleg, rrp, lcs, is_internal=internal, **kw)
    require_shape(pot, (len(pts),), "potential")
    require_shape(grd, (len(pts), 3), "gradient")
    kw["degree"] = used
    pot1, grd1 = em.sheval(pts, coef, em.GEOCENTRIC_SPHERICAL, em.GEOCENTRIC_SPHERICAL, em.POTENTIAL_AND_GRADIENT, is_internal=internal, **kw)
    for i, point in enumerate(case["points"]):
        v, g, vtol, gtol = expected_at(coef, used, point, 1, 1, internal)
        require_close(pot[i], v, vtol, "wrong potential by parts", point=point, case=case)
        require_close(grd[i], g, gtol, "wrong gradient by parts", point=point, case=case)
        require_close(pot[i], pot1[i], 2 * vtol, "potential by parts differs from sheval", point=point, case=case)
        require_close(grd[i], grd1[i], 2 * gtol, "gradient by parts differs from sheval", point=point, case=case)


@st.composite
def stencil_cases(draw):
    return {"coef": draw(coef_spec(st.integers(0, 12))), "internal": draw(st.booleans()),
            "point": draw(gen.positions(2, rmin=5000.0, rmax=9000.0)), "kout": draw(st.integers(0, 2))}


@check(stencil_cases(), quick=2000, thorough=40000,
       rule="Cartesian position; central differences of the potential against the gradient; non-trivial when some gradient is not zero")
def finite_differences(case, ctx):
    """the returned gradient is the derivative of the returned potential (no model of the series involved)"""
    coef = make_coef(case["coef"])
    point = np.array(case["point"])
    h = 2.0
    shifts = np.array([-3, -2, -1, 1, 2, 3])
    weights = np.array([-1, 9, -45, 45, -9, 1]) / (60 * h)
    pts = point + h * shifts[:, None, None] * np.eye(3)
    pot = em.sheval(pts, coef, em.GEOCENTRIC_CARTESIAN, em.GEOCENTRIC_CARTESIAN, em.POTENTIAL, is_internal=case["internal"])
    num = np.einsum("i,ij->j", weights, pot)
    out = ref.convert(point, 2, case["kout"])
    num = (ref.frame(out, case["kout"]) @ ref.ld(num)).astype(float)
    grd = em.sheval(point, coef, em.GEOCENTRIC_CARTESIAN, KINDS[case["kout"]], is_internal=case["internal"])
    _, _, vs, gs = ref.synth(coef, case["coef"]["degree"], ref.cart2sph(point), case["internal"])
    if np.any(grd != 0):
        ctx.nontrivial()
    n = case["coef"]["degree"] + 3.0
    tol = 3e-15 * vs * n / h * 4 + gs * (n * h / 5000.0) ** 6 * 2 + gs * 1e-12 + 1e-280
    if np.hypot(point[0], point[1]) < 2e-10 * abs(point[2]):
        tol += 4e-10 * gs * n
    require_close(grd, num, tol, "gradient is not the derivative of the potential", case=case)
