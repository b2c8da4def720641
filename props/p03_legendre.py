"""P03 associated Legendre functions"""
import numpy as np
from hypothesis import strategies as st
import eoxmagmod as em
from vh import gen, ref
from vh.core import check, require_shape, require_close, require_same

DEGREES = st.one_of(st.integers(0, 20), st.integers(14, 18), st.integers(0, 60))
HIGH = st.one_of(st.integers(40, 130), st.integers(130, 360))


EPS = 2.3e-16


def compare(lat, degree, p, dp):
    n, m = ref.tri_index(degree)
    size = len(n)
    require_shape(p, (size,), "P")
    require_shape(dp, (size,), "dP")
    rp, rdp, _ = ref.legendre(degree, lat)
    nn = np.maximum(n, 1)
    require_close(p, rp[n, m].astype(float), 3 * EPS * nn * (1 + 0.3 * nn) + 1e-15, "wrong Legendre functions", lat=lat, degree=degree)
    require_close(dp, rdp[n, m].astype(float), 3 * EPS * nn ** 2 * (1 + 0.3 * nn) + 1e-15, "wrong derivatives", lat=lat, degree=degree)


@st.composite
def cases(draw, degrees):
    return {"degree": draw(degrees), "other": draw(st.integers(0, 30)),
            "lats": draw(st.lists(gen.latitudes(), min_size=1, max_size=3))}


def run(case, ctx):
    degree, lats = case["degree"], case["lats"]
    arr = np.array(lats)
    p, dp = em.legendre(arr, degree)
    n, _ = ref.tri_index(degree)
    require_shape(p, (len(lats), len(n)), "P")
    require_shape(dp, (len(lats), len(n)), "dP")
    if degree > 1:
        ctx.nontrivial("high" if degree > 16 else "low")
    if any(abs(x) > 89.9 for x in lats):
        ctx.label("next to the pole")
    for i, lat in enumerate(lats):
        compare(lat, degree, p[i], dp[i])
    p0, dp0 = em.legendre(lats[0], degree)
    require_same(p0, p[0], "single value differs from an array")
    require_same(dp0, dp[0], "single value differs from an array")
    # the maximum degree does not matter
    other = min(case["other"], degree)
    size = (other + 1) * (other + 2) // 2
    p1, dp1 = em.legendre(lats[0], other)
    require_shape(p1, (size,))
    require_close(p1, p0[:size], 10 * EPS * max(other, 1) + 1e-15, "functions depend on the maximum degree", case=case)
    require_close(dp1, dp0[:size], 6 * EPS * max(other, 1) ** 2 * (1 + 0.3 * other) + 1e-15, "derivatives depend on the maximum degree", case=case)


@check(cases(DEGREES), quick=6000, thorough=200000, rule="latitudes and maximum degree up to 60; non-trivial when the degree is above 1")
def low_degrees(case, ctx):
    run(case, ctx)


@check(cases(HIGH), quick=500, thorough=8000, rule="latitudes and maximum degree 40-360; every case is non-trivial")
def high_degrees(case, ctx):
    run(case, ctx)


@st.composite
def identity_cases(draw):
    return {"degree": draw(st.one_of(st.integers(1, 60), st.integers(60, 700), st.integers(700, 2200))), "lat": draw(gen.latitudes())}


@check(identity_cases(), quick=3000, thorough=60000, rule="maximum degree 1-2200; non-trivial when above 16")
def addition_theorem(case, ctx):
    """sum over orders of P^2 is one for each degree, and of P*dP is zero; mirrored latitude changes only signs"""
    degree, lat = case["degree"], case["lat"]
    if degree > 16:
        ctx.nontrivial()
    p, dp = em.legendre(lat, degree)
    n, m = ref.tri_index(degree)
    nn = np.arange(degree + 1.0)
    require_close(np.bincount(n, p * p), np.ones(degree + 1), 12 * EPS * (nn + 1) * (1 + 0.3 * nn) + 2e-14, "addition theorem", case=case)
    require_close(np.bincount(n, p * dp), np.zeros(degree + 1), 12 * EPS * (nn + 1) ** 2 * (1 + 0.3 * nn) + 2e-14, "derivative of the addition theorem", case=case)
    require_close(np.bincount(n, dp * dp), nn * (nn + 1) / 2 + 0 * nn, 24 * EPS * (nn + 1) ** 3 * (1 + 0.3 * nn) + 1e-13 * (nn + 1) ** 2,
                  "sum of squared derivatives", case=case)
    q, dq = em.legendre(-lat, degree)
    sign = np.where((n + m) % 2 == 0, 1.0, -1.0)
    require_close(q, sign * p, 10 * EPS * np.maximum(n, 1) ** 2 + 1e-14, "parity of functions", case=case)
    require_close(dq, -sign * dp, 6 * EPS * np.maximum(n, 1) ** 2 * (1 + 0.3 * n) + 1e-14, "parity of derivatives", case=case)
