"""Spherical harmonic coefficients and expected fields shared by the property modules."""
import numpy as np
from hypothesis import strategies as st
import eoxmagmod as em
from vh import gen, ref

KINDS = [em.GEODETIC_ABOVE_WGS84, em.GEOCENTRIC_SPHERICAL, em.GEOCENTRIC_CARTESIAN]
RANGE = {"rmin": 3000.0, "rmax": 40000.0, "hmin": -1000.0, "hmax": 30000.0}


def ncoef(degree):
    return (degree + 1) * (degree + 2) // 2


@st.composite
def coef_spec(draw, degrees):
    """coefficients: dense random, sparse, or few explicit values"""
    degree = draw(degrees)
    size = ncoef(degree)
    kind = draw(st.sampled_from(["dense", "sparse", "single"]))
    if kind == "dense":
        return {"degree": degree, "seed": draw(gen.SEED)}
    items = draw(st.lists(st.tuples(st.integers(0, size - 1), st.integers(0, 1), gen.finite(-1e5, 1e5)),
                          min_size=1, max_size=1 if kind == "single" else 5))
    return {"degree": degree, "items": [list(i) for i in items]}


def make_coef(spec):
    size = ncoef(spec["degree"])
    if "seed" in spec:
        n, _ = ref.tri_index(spec["degree"])
        return gen.scatter(spec["seed"], gen.rng(spec["seed"]).normal(size=(size, 2)) * (3e4 * 0.6 ** np.minimum(n, 20))[:, None])
    coef = np.zeros((size, 2))
    for i, j, v in spec["items"]:
        coef[i, j] = v
    return coef


def expected_at(coef, degree, point, kin, kout, internal, amp=None):
    """potential, gradient in the requested frame, tolerances"""
    sph = ref.convert(np.array(point), kin, 1)
    pot, grad, vscale, gscale = ref.synth(coef, degree, sph, internal)
    if amp is not None:
        _, _, vscale, gscale = ref.synth(amp, degree, sph, internal)
    cart = np.einsum("i,ij->j", grad, ref.local_frame(sph[0], sph[1]))
    out = ref.convert(np.array(point), kin, kout)
    vec = ref.frame(out, kout) @ cart
    # positions are in doubles: latitude and longitude in radians and radius
    # are rounded, the conversion from the geodetic latitude included
    n = degree + 1.0
    lon = abs(float(point[1])) if kin != 2 else 180.0
    rel = 4e-16 * n * (3 + np.radians(lon))
    vtol = 4e-15 * vscale * (n + 1) + rel * vscale + 1e-280
    gtol = 4e-15 * gscale * (n + 1) + rel * gscale + 1e-280
    colat = np.radians(max(90.0 - abs(float(sph[0])), 0.0))
    if colat < 2e-10:
        # the eastward component is replaced by its limit at the pole
        gtol += 4e-10 * gscale * n
    return float(pot), vec.astype(float), vtol, gtol


# ---------------------------------------------------------------------------
# sparse coefficients (degree, signed order): negative orders are sines

@st.composite
def nm_lists(draw, max_degree=8, min_size=1, max_size=8):
    pairs = st.integers(0, max_degree).flatmap(lambda n: st.tuples(st.just(n), st.integers(-n, n)))
    return [list(p) for p in draw(st.lists(pairs, min_size=min_size, max_size=max_size, unique=True))]


def dense(degree, nm, values):
    """dense coefficients array of the sparse values"""
    coef = np.zeros((ncoef(degree), 2), dtype=ref.LD)
    for (n, m), v in zip(nm, values):
        coef[n * (n + 1) // 2 + abs(m), 1 if m < 0 else 0] += v
    return coef


def interpolated(nodes, values, x, order):
    """extrapolated values at the time x (last dimension of the values) and
    the magnitudes of the summed terms"""
    nodes = [float(v) for v in nodes]
    idx = -1
    for i, v in enumerate(nodes):
        if v <= x:
            idx = i
    values = np.asarray(values)
    if order == 1:
        val = values[..., min(max(idx, 0), len(nodes) - 1)].astype(ref.LD)
        return val, np.abs(val)
    i = min(max(idx, 0), len(nodes) - 2)
    t0, t1 = ref.LD(nodes[i]), ref.LD(nodes[i + 1])
    c0, c1 = values[..., i].astype(ref.LD), values[..., i + 1].astype(ref.LD)
    a = (ref.LD(x) - t0) / (t1 - t0)
    return c0 + a * (c1 - c0), (1 + abs(a)) * (np.abs(c0) + np.abs(c1))


# ---------------------------------------------------------------------------
# high degrees: only a few terms, positions close to the reference sphere


@st.composite
def high_nm_lists(draw):
    """sparse terms of degrees up to 400, sectoral and zonal ones included"""
    def order(n):
        return st.one_of(st.integers(-n, n), st.sampled_from([n, -n, 0, n - 1, 1 - n]))
    pairs = st.one_of(st.integers(1, 400), st.sampled_from([127, 128, 129, 180, 181, 182, 255, 256, 257])).flatmap(lambda n: st.tuples(st.just(n), order(n)))
    return [list(p) for p in draw(st.lists(pairs, min_size=1, max_size=5, unique=True))]


@st.composite
def high_points(draw):
    return [draw(gen.finite(-89, 89)), draw(gen.finite(-180, 180)), draw(gen.finite(6330, 6420))]


def high_bound(nm, amp, point, internal):
    """bounds of the potential and gradient of the terms of the given magnitudes"""
    q = 6371.2 / point[2]
    n = np.array(nm)[:, 0].astype(float)
    power = q ** (n + 2) if internal else q ** (1 - n)
    grd = float(np.sum(np.abs(amp) * power * 1.5 * (n + 1) / np.cos(np.radians(point[0])) ** 0.5))
    return grd * point[2], grd
