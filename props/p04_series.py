"""P04 longitude and relative radius series"""
import numpy as np
from hypothesis import strategies as st
import eoxmagmod as em
from vh import gen, ref
from vh.core import check, require, require_shape, require_close, require_same

DEG = st.one_of(st.integers(0, 3), st.integers(0, 40), st.integers(0, 800))


@st.composite
def lon_cases(draw):
    return {"degree": draw(DEG), "mode": draw(st.sampled_from([None, True, False, 1, 0])),
            "lons": draw(st.lists(gen.longitudes(), min_size=1, max_size=4))}


@check(lon_cases(), quick=8000, thorough=200000, rule="1-4 longitudes, degree 0-800, both methods; non-trivial when the degree is above 1")
def longitude_series(case, ctx):
    degree, lons = case["degree"], case["lons"]
    if degree > 1:
        ctx.nontrivial("fast" if case["mode"] in (None, 1, True) else "precise")
    args = () if case["mode"] is None else (case["mode"],)
    got = em.loncossin(np.array(lons), degree, *args)
    require_shape(got, (len(lons), degree + 1, 2))
    m = np.arange(degree + 1)
    for i, lon in enumerate(lons):
        s, c = ref.sincosd(ref.ld(m) * ref.ld(lon))
        # relative rounding of the angle in radians and of the recurrence
        tol = 2e-15 + m * (4e-16 + 4e-16 * abs(np.radians(lon)))
        require_close(got[i, :, 0], c.astype(float), tol, "cosines", lon=lon, case=case)
        require_close(got[i, :, 1], s.astype(float), tol, "sines", lon=lon, case=case)
    one = em.loncossin(lons[-1], degree, *args)
    require_same(one, got[-1], "single value differs from array", case=case)


@st.composite
def rad_cases(draw):
    refr = draw(st.one_of(st.none(), gen.finite(0.1, 1e5), st.sampled_from([1.0, 6371.2, 6481.2])))
    base = refr or 6371.2
    ratio = st.one_of(gen.finite(0.3, 5), st.sampled_from([1.0, 0.5, 2.0, 1.1]),
                      st.floats(-2, 2).map(lambda x: 10.0 ** x))
    return {"degree": draw(DEG), "ref": refr, "internal": draw(st.sampled_from([None, True, False])),
            "radii": [base * r for r in draw(st.lists(ratio, min_size=1, max_size=4))]}


@check(rad_cases(), quick=8000, thorough=200000, rule="1-4 radii, reference radius, degree 0-800, internal/external; non-trivial when the degree is above 1")
def radius_series(case, ctx):
    degree, radii = case["degree"], case["radii"]
    kw = {}
    if case["ref"] is not None:
        kw["reference_radius"] = case["ref"]
    if case["internal"] is not None:
        kw["is_internal"] = case["internal"]
    internal = case["internal"] is not False
    if degree > 1:
        ctx.nontrivial("internal" if internal else "external")
    got = em.relradpow(np.array(radii), degree, **kw)
    require_shape(got, (len(radii), degree + 1))
    i = np.arange(degree + 1)
    for k, r in enumerate(radii):
        x = ref.ld(r) / ref.ld(case["ref"] or 6371.2)
        exp = (x ** (-(i + 2)) if internal else x ** (i - 1))
        with np.errstate(over="ignore", invalid="ignore", under="ignore"):
            big = np.abs(exp) > 1e300
            expf = np.where(big, np.inf, exp.astype(float))
            bad = ~(np.abs(got[k] - expf) <= np.abs(expf) * (6e-16 * (i + 3)) + 1e-300) & ~(big & (got[k] > 1e299))
        require(not np.any(bad), "relative radius powers", radius=r, case=case,
                got=got[k][bad][:4].tolist(), expected=expf[bad][:4].tolist(), index=np.argwhere(bad)[:4].tolist())
    require_same(em.relradpow(radii[-1], degree, **kw), got[-1], "single value differs from array", case=case)


@st.composite
def shift_cases(draw):
    return {"degree": draw(st.integers(0, 200)), "lon": draw(gen.finite(-180, 180)), "turns": draw(st.integers(-5, 5)),
            "fast": draw(st.booleans())}


@check(shift_cases(), quick=3000, thorough=50000, rule="longitude shifted by whole turns and mirrored; non-trivial with turns and degree above 0")
def longitude_periodicity(case, ctx):
    degree, lon = case["degree"], case["lon"]
    if degree and case["turns"]:
        ctx.nontrivial()
    a = em.loncossin(lon, degree, case["fast"])
    b = em.loncossin(lon + 360.0 * case["turns"], degree, case["fast"])
    c = em.loncossin(-lon, degree, case["fast"])
    m = np.arange(degree + 1)
    tol = (2e-15 + m * 5e-16 * (2 + 6.3 * abs(case["turns"])) * 4)[:, None]
    require_close(b, a, tol, "not periodic", case=case)
    require_close(c * [1, -1], a, tol, "not even/odd", case=case)
    require_close(np.hypot(a[:, 0], a[:, 1]), 1.0 + 0 * m, tol[:, 0], "not on the unit circle", case=case)
